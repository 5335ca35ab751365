// PARTS 4
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::MISC | vf::LIFE | vf::BLOCK, 0, 0, false)
#endif
namespace VM
{

// A number of elements: mostly small, now and then well beyond
inline size_t amount(vf::Src& s, unsigned n) { return s.draw(12) == 11 ? s.draw(n * 10) : s.small(n); }

// One container under a history of operations whose arguments refer into the container itself;
// the model applies each operation to a copy of the argument taken beforehand.
template <class T, class A, class Err> struct AliasVec
{
    typedef nestl::vector<T, A> C;
    typedef ET<T> E;
    static Seq read(const C& c) { Seq r; for (typename C::const_iterator i = c.cbegin(); i != c.cend(); ++i) r.push_back(E::get(*i)); return r; }

    template <class U> static typename std::enable_if<ET<U>::emplace2, bool>::type emplace_parts(C& c, Err& err, size_t k) { c.emplace_back_nothrow(err, c[k].key, c[k].tag); return true; }
    template <class U> static typename std::enable_if<!ET<U>::emplace2, bool>::type emplace_parts(C&, Err&, size_t) { return false; }
    template <class U> static typename std::enable_if<AllocInfo<A>::movable && sizeof(U), bool>::type self_move(C& c) { C& d = c; c = std::move(d); return true; }
    template <class U> static typename std::enable_if<!AllocInfo<A>::movable && sizeof(U), bool>::type self_move(C&) { return false; }
#if VF_EXC
    template <class U> static typename std::enable_if<std::is_copy_constructible<U>::value, bool>::type throwing(C& c, Err& err, unsigned how, size_t k)
    {
        try { if (how == 0) { const C& d = c; c = d; } else c.push_back(c[k]); } catch (...) { from_exception_ptr(err, std::current_exception()); }
        return true;
    }
    template <class U> static typename std::enable_if<!std::is_copy_constructible<U>::value, bool>::type throwing(C&, Err&, unsigned, size_t) { return false; }
#else
    template <class U> static bool throwing(C&, Err&, unsigned, size_t) { return false; }
#endif

    static void run(vf::Src& s)
    {
        W().reset();
        {
            C c(AllocInfo<A>::make(1));
            Seq m;
            int tag = 0;
            bool moved_seen = false;
            unsigned steps = 3 + s.small(16);
            for (unsigned q = 0; q < steps; ++q)
            {
                Err err;
                if (m.empty() || s.draw(3) == 0)        // fill, or change the room that is left
                {
                    unsigned what = s.draw(4);
                    if (what == 0) { size_t cap = m.size() + s.draw(6); VF_NOTE("reserve %zu", cap); c.reserve_nothrow(err, cap); }
                    else if (what == 1) { VF_NOTE("shrink_to_fit"); c.shrink_to_fit_nothrow(err); }
                    else
                    {
                        unsigned n = 1 + (unsigned)amount(s, what == 3 ? 40 : 4);
                        Seq ins = gen_vals(s, n, tag);
                        for (unsigned j = 0; j < n; ++j)
                        {
                            typename E::Holder h(E::norm(ins[j]));
                            c.push_back_nothrow(err, static_cast<const T&>(h.ref()));
                            m.push_back(E::norm(ins[j]));
                        }
                        VF_NOTE("append %s, capacity %zu", shows(ins).c_str(), (size_t)c.capacity());
                    }
                    VF_CHECK(vf::MISC, !err, "an ordinary operation failed");
                    continue;
                }
                size_t k = s.draw((uint32_t)m.size());
                Val v = m[k];
                const T& own = c[k];
                const Seq pre = m;
                unsigned op = s.draw(13);
                bool full = c.capacity() == c.size();
                static const char* const names[] = { "push_back of own element", "emplace_back of own element", "insert of own element", "resize with own element", "assign by count of own element",
                    "assign from own range", "copy of itself", "swap with itself", "move assignment to itself", "copy assignment of itself", "throwing push_back of own element", "emplace_back of parts of own element", "push_back of own element as temporary" };
                const char* nm = names[op];
                bool done = true;
                // a failure in the middle must leave everything valid, too
                long arm = s.draw(8) == 7 ? (long)s.small(6) : -1;
                bool elem = arm >= 0 && Fails<T>::elem && s.draw(2);
                VF_NOTE("%s (%zu of %zu, capacity %zu)%s", nm, k, m.size(), (size_t)c.capacity(), arm >= 0 ? " with a failure armed" : "");
                W().clear_fired(); W().code = 5;
                if (arm >= 0) { if (elem) W().elem_fail_in = arm; else vf::g_nt.fail_in = arm; }
                bool rvalue = false;
                moved_seen = moved_seen || op == 12;
                switch (op)
                {
                case 0: c.push_back_nothrow(err, own); m.push_back(v); break;
                case 1: c.emplace_back_nothrow(err, own); m.push_back(v); break;
                case 2:
                {
                    size_t p = s.draw((uint32_t)m.size() + 1);
                    VF_NOTE("   at %zu", p);
                    typename C::iterator r = c.insert_nothrow(err, c.cbegin() + p, own);
                    if (!err) VF_CHECK(vf::MISC, r == c.begin() + p, "insert of an own element returned a wrong position");
                    m.insert(m.begin() + p, v);
                    break;
                }
                case 3: { size_t n = s.draw(3) ? m.size() + amount(s, 9) : s.small((uint32_t)m.size()); VF_NOTE("   to %zu", n); c.resize_nothrow(err, n, own); m.resize(n, v); break; }
                case 4: { size_t n = amount(s, 20); VF_NOTE("   %zu times", n); c.assign_nothrow(err, n, own); m.assign(n, v); break; }
                case 5:
                {
                    size_t a = s.draw((uint32_t)m.size() + 1), b = a + s.draw((uint32_t)(m.size() - a) + 1);
                    unsigned it = s.draw(4);
                    VF_NOTE("   [%zu, %zu) by iterators of kind %u", a, b, it);
                    if (it == 0) c.assign_nothrow(err, c.cbegin() + a, c.cbegin() + b);
                    else if (it == 1) c.assign_nothrow(err, c.begin() + a, c.begin() + b);
                    else if (it == 2) c.assign_nothrow(err, InIt<const T>(c.data() + a, c.data() + b), InIt<const T>(c.data() + b, c.data() + b));
                    else { c.assign_nothrow(err, c.crend() - b, c.crend() - a); }
                    m = Seq(pre.begin() + a, pre.begin() + b);
                    if (it == 3) std::reverse(m.begin(), m.end());
                    break;
                }
                case 6: { const C& d = c; c.copy_nothrow(err, d); break; }
                case 7: { C& d = c; c.swap(d); break; }
                case 8: done = self_move<T>(c); break;
                case 9: done = throwing<T>(c, err, 0, k); break;
                case 10: done = throwing<T>(c, err, 1, k); if (done) m.push_back(v); break;
                case 11: done = emplace_parts<T>(c, err, k); if (done) m.push_back(v); break;
                default: c.push_back_nothrow(err, std::move(c[k])); m.push_back(v); rvalue = true; break;
                }
                bool fired = W().fired();
                W().disarm();
                if (!done) { m = pre; continue; }
                vf::nontrivial();
                if (full && op <= 3) vf::hit("own element passed while the storage had to grow");
                Seq a = read(c);
                if (fired)
                {
                    VF_CHECK(vf::MISC, (bool)err, "%s: a failure was not reported", nm);
                    vf::hit("failure during an aliased operation");
                    for (size_t j = 0; j < a.size(); ++j)
                        VF_CHECK(vf::MISC, a[j].key != K_BAD && (moved_seen || a[j].key != K_MOVED), "%s: a failure left an incomplete element", nm);
                    m = a;
                }
                else
                {
                    VF_CHECK(vf::MISC, !err, "%s: failed", nm);
                    if (op == 8) { VF_CHECK(vf::MISC, a == m || a.empty(), "self move left %s of %s", shows(a).c_str(), shows(m).c_str()); m = a; }
                    if (rvalue && a.size() == m.size() && a[k].key == K_MOVED) m[k] = a[k];       // the source may be in a moved-from state
                    if (rvalue && E::nested && a.size() == m.size() && a[k] == E::def()) m[k] = a[k];
                    VF_CHECK(vf::MISC, a == m, "%s: the vector holds %s, expected %s (it held %s)", nm, shows(a).c_str(), shows(m).c_str(), shows(pre).c_str());
                }
                if (m.size() > 900) { c.clear(); m.clear(); }
            }
            Err err;
            typename E::Holder h(E::norm(mk(3, 3)));
            c.push_back_nothrow(err, static_cast<const T&>(h.ref()));
            m.push_back(E::norm(mk(3, 3)));
            VF_CHECK(vf::MISC, !err && read(c) == m, "the vector is not usable afterwards");
        }
        final_balance();
    }
};

template <class T, class A, class Err> struct AliasList
{
    typedef nestl::list<T, A> C;
    typedef ET<T> E;
    static Seq read(const C& c) { Seq r; for (typename C::const_iterator i = c.cbegin(); i != c.cend(); ++i) r.push_back(E::get(*i)); return r; }
    static Seq rread(const C& c) { Seq r; for (typename C::const_reverse_iterator i = c.crbegin(); i != c.crend(); ++i) r.push_back(E::get(*i)); std::reverse(r.begin(), r.end()); return r; }
    static typename C::iterator at(C& c, size_t k) { typename C::iterator i = c.begin(); while (k--) ++i; return i; }
    template <class U> static typename std::enable_if<ET<U>::emplace2, bool>::type emplace_parts(C& c, Err& err, size_t k) { T& x = *at(c, k); c.emplace_front_nothrow(err, x.key, x.tag); return true; }
    template <class U> static typename std::enable_if<!ET<U>::emplace2, bool>::type emplace_parts(C&, Err&, size_t) { return false; }
#if VF_EXC
    template <class U> static typename std::enable_if<std::is_copy_constructible<U>::value, bool>::type self_assign(C& c, Err& err)
    {
        try { const C& d = c; c = d; } catch (...) { from_exception_ptr(err, std::current_exception()); }
        return true;
    }
    template <class U> static typename std::enable_if<!std::is_copy_constructible<U>::value, bool>::type self_assign(C&, Err&) { return false; }
#else
    template <class U> static bool self_assign(C&, Err&) { return false; }
#endif

    static void run(vf::Src& s)
    {
        W().reset();
        {
            C c(AllocInfo<A>::make(1));
            Seq m;
            int tag = 0;
            bool moved_seen = false;
            unsigned steps = 3 + s.small(16);
            for (unsigned q = 0; q < steps; ++q)
            {
                Err err;
                if (m.empty() || s.draw(4) == 0)
                {
                    unsigned n = 1 + (unsigned)amount(s, 8);
                    Seq ins = gen_vals(s, n, tag);
                    for (unsigned j = 0; j < n; ++j)
                    {
                        typename E::Holder h(E::norm(ins[j]));
                        c.push_back_nothrow(err, static_cast<const T&>(h.ref()));
                        m.push_back(E::norm(ins[j]));
                    }
                    VF_NOTE("append %s", shows(ins).c_str());
                    VF_CHECK(vf::MISC, !err, "an ordinary operation failed");
                    continue;
                }
                size_t k = s.draw((uint32_t)m.size()), p = s.draw((uint32_t)m.size() + 1);
                Val v = m[k];
                T& mut = *at(c, k);
                const T& own = mut;
                const Seq pre = m;
                unsigned op = s.draw(16);
                static const char* const names[] = { "push_back of own element", "push_front of own element", "emplace_back of own element", "emplace_front of own element", "emplace of own element", "insert of own element",
                    "insert of copies of own element", "assign by count of own element", "assign from own range", "copy of itself", "swap with itself", "move assignment to itself", "copy assignment of itself", "emplace_front of parts of own element", "push_back of own element as temporary", "insert of own element as temporary" };
                const char* nm = names[op];
                bool done = true;
                bool rvalue = false;
                long arm = s.draw(8) == 7 ? (long)s.small(6) : -1;
                bool elem = arm >= 0 && Fails<T>::elem && s.draw(2);
                VF_NOTE("%s (%zu of %zu) at %zu%s", nm, k, m.size(), p, arm >= 0 ? " with a failure armed" : "");
                W().clear_fired(); W().code = 5;
                if (arm >= 0) { if (elem) W().elem_fail_in = arm; else vf::g_nt.fail_in = arm; }
                switch (op)
                {
                case 0: c.push_back_nothrow(err, own); m.push_back(v); break;
                case 1: c.push_front_nothrow(err, own); m.insert(m.begin(), v); break;
                case 2: c.emplace_back_nothrow(err, own); m.push_back(v); break;
                case 3: c.emplace_front_nothrow(err, own); m.insert(m.begin(), v); break;
                case 4: c.emplace_nothrow(err, at(c, p), own); m.insert(m.begin() + p, v); break;
                case 5: c.insert_nothrow(err, at(c, p), own); m.insert(m.begin() + p, v); break;
                case 6: { size_t n = amount(s, 9); c.insert_nothrow(err, at(c, p), n, own); m.insert(m.begin() + p, n, v); break; }
                case 7: { size_t n = amount(s, 12); c.assign_nothrow(err, n, own); m.assign(n, v); break; }
                case 8:
                {
                    size_t a = s.draw((uint32_t)m.size() + 1), b = a + s.draw((uint32_t)(m.size() - a) + 1);
                    unsigned it = s.draw(3);
                    VF_NOTE("   [%zu, %zu) by iterators of kind %u", a, b, it);
                    typename C::iterator x = at(c, a), y = at(c, b);
                    if (it == 0) c.assign_nothrow(err, x, y);
                    else if (it == 1) c.assign_nothrow(err, typename C::const_iterator(x), typename C::const_iterator(y));
                    else c.assign_nothrow(err, typename C::reverse_iterator(y), typename C::reverse_iterator(x));
                    m = Seq(pre.begin() + a, pre.begin() + b);
                    if (it == 2) std::reverse(m.begin(), m.end());
                    break;
                }
                case 9: { const C& d = c; c.copy_nothrow(err, d); break; }
                case 10: { C& d = c; c.swap(d); break; }
                case 11: { C& d = c; c = std::move(d); break; }
                case 12: done = self_assign<T>(c, err); break;
                case 13: done = emplace_parts<T>(c, err, k); if (done) m.insert(m.begin(), v); break;
                case 14: c.push_back_nothrow(err, std::move(mut)); m.push_back(v); rvalue = moved_seen = true; break;
                default: c.insert_nothrow(err, at(c, p), std::move(mut)); m.insert(m.begin() + p, v); if (p <= k) ++k; rvalue = moved_seen = true; break;
                }
                bool fired = W().fired();
                W().disarm();
                if (!done) { m = pre; continue; }
                vf::nontrivial();
                Seq a = read(c);
                VF_CHECK(vf::MISC, a == rread(c) && a.size() == c.size(), "%s: forward iteration, backward iteration and size disagree", nm);
                if (fired)
                {
                    VF_CHECK(vf::MISC, (bool)err, "%s: a failure was not reported", nm);
                    for (size_t j = 0; j < a.size(); ++j) VF_CHECK(vf::MISC, a[j].key != K_BAD && (moved_seen || a[j].key != K_MOVED), "%s: a failure left an incomplete element", nm);
                    vf::hit("failure during an aliased operation");
                    m = a;
                }
                else
                {
                    VF_CHECK(vf::MISC, !err, "%s: failed", nm);
                    if (op == 11) { VF_CHECK(vf::MISC, a == m || a.empty(), "self move left %s of %s", shows(a).c_str(), shows(m).c_str()); m = a; }
                    if (rvalue && a.size() == m.size() && a[k].key == K_MOVED) m[k] = a[k];       // the source may be in a moved-from state
                    if (rvalue && E::nested && a.size() == m.size() && a[k] == E::def()) m[k] = a[k];
                    VF_CHECK(vf::MISC, a == m, "%s: the list holds %s, expected %s (it held %s)", nm, shows(a).c_str(), shows(m).c_str(), shows(pre).c_str());
                }
                if (m.size() > 300) { c.clear(); m.clear(); }
            }
            Err err;
            typename E::Holder h(E::norm(mk(3, 3)));
            c.push_front_nothrow(err, static_cast<const T&>(h.ref()));
            m.insert(m.begin(), E::norm(mk(3, 3)));
            VF_CHECK(vf::MISC, !err && read(c) == m, "the list is not usable afterwards");
        }
        final_balance();
    }
};

template <class T, class A, class Err> struct AliasSet
{
    typedef nestl::set<T, SCmp<T>, A> C;
    typedef ET<T> E;
    static Seq read(const C& c) { Seq r; for (typename C::const_iterator i = c.cbegin(); i != c.cend(); ++i) r.push_back(E::get(*i)); return r; }
    static typename C::iterator at(C& c, size_t k) { typename C::iterator i = c.begin(); while (k--) ++i; return i; }
    template <class U> static typename std::enable_if<AllocInfo<A>::movable && sizeof(U), bool>::type self_move(C& c) { C& d = c; c = std::move(d); return true; }
    template <class U> static typename std::enable_if<!AllocInfo<A>::movable && sizeof(U), bool>::type self_move(C&) { return false; }

    static void run(vf::Src& s)
    {
        W().reset();
        {
            int mode = (int)s.draw(2);
            C c((SCmp<T>(mode)), AllocInfo<A>::make(1));
            Seq m;                  // in order
            int tag = 0;
            unsigned steps = 3 + s.small(24);
            for (unsigned q = 0; q < steps; ++q)
            {
                Err err;
                if (m.empty() || s.draw(3) == 0)
                {
                    unsigned n = 1 + (unsigned)amount(s, 20);
                    Seq ins = gen_vals(s, n, tag);
                    for (unsigned j = 0; j < n; ++j)
                    {
                        Val v = E::norm(ins[j]);
                        typename E::Holder h(v);
                        bool r = c.insert_nothrow(err, static_cast<const T&>(h.ref())).second;
                        size_t p = 0;
                        while (p < m.size() && val_less(mode, m[p], v)) ++p;
                        bool fresh = p == m.size() || val_less(mode, v, m[p]);
                        VF_CHECK(vf::MISC, r == fresh, "an ordinary insertion reported %d", (int)r);
                        if (fresh) m.insert(m.begin() + p, v);
                    }
                    VF_NOTE("insert %s", shows(ins).c_str());
                    VF_CHECK(vf::MISC, !err, "an ordinary operation failed");
                    continue;
                }
                size_t k = s.draw((uint32_t)m.size());
                const Seq pre = m;
                typename C::iterator it = at(c, k);
                const T* own = &*it;
                unsigned op = s.draw(6);
                static const char* const names[] = { "erase by own element as key", "find of own element", "insert of own element", "copy of itself", "move assignment to itself", "const find of own element" };
                const char* nm = names[op];
                VF_NOTE("%s (%zu of %zu)", nm, k, m.size());
                bool done = true;
                vf::nontrivial();
                switch (op)
                {
                case 0: { size_t r = c.erase(*own); VF_CHECK(vf::MISC, r == 1, "%s removed %zu elements", nm, r); m.erase(m.begin() + k); break; }
                case 1: VF_CHECK(vf::MISC, c.find(*own) == it, "%s gave another position", nm); break;
                case 2:
                {
                    std::pair<typename C::iterator, bool> r = c.insert_nothrow(err, *own);
                    VF_CHECK(vf::MISC, !err && !r.second && r.first == it, "%s: result %d", nm, (int)r.second);
                    break;
                }
                case 3: { const C& d = c; c.copy_nothrow(err, d); break; }
                case 4: done = self_move<T>(c); break;
                default: { const C& d = c; VF_CHECK(vf::MISC, d.find(*own) == typename C::const_iterator(it), "%s gave another position", nm); break; }
                }
                Seq a = read(c);
                VF_CHECK(vf::MISC, !err, "%s: failed", nm);
                if (op == 4 && done) { VF_CHECK(vf::MISC, a == m || a.empty(), "self move left %s of %s", shows(a).c_str(), shows(m).c_str()); m = a; }
                VF_CHECK(vf::MISC, a == m && c.size() == m.size(), "%s: the set holds %s, expected %s (it held %s)", nm, shows(a).c_str(), shows(m).c_str(), shows(pre).c_str());
            }
            Err err;
            typename E::Holder h(E::norm(mk(100000, 3)));
            c.insert_nothrow(err, static_cast<const T&>(h.ref()));
            typename E::Holder h2(E::norm(mk(100000, 3)));
            VF_CHECK(vf::MISC, !err && c.find(h2.ref()) != c.end(), "the set is not usable afterwards");
        }
        final_balance();
    }
};

#if PART == 0
VF_MACHINE(vec_int_N, 1, run, AliasVec<int, nestl::allocator<int>, DErr>);
VF_MACHINE(vec_Tr_T, 2, run, AliasVec<Tr, TA<Tr>, DErr>);
VF_MACHINE(vec_Big_T, 1, run, AliasVec<Big, TA<Big>, UErr>);
#elif PART == 1
VF_MACHINE(vec_Tq_M, 1, run, AliasVec<Tq, MA<Tq>, UErr>);
VF_MACHINE(vec_NV_T, 1, run, AliasVec<NV, TA<NV>, DErr>);
#if VF_EXC
VF_MACHINE(vec_Th_T, 1, run, AliasVec<Th, TA<Th>, DErr>);
VF_MACHINE(vec_Tm_N, 1, run, AliasVec<Tm, nestl::allocator<Tm>, DErr>);
#endif
#elif PART == 2
VF_MACHINE(list_int_N, 1, run, AliasList<int, nestl::allocator<int>, DErr>);
VF_MACHINE(list_Tr_T, 2, run, AliasList<Tr, TA<Tr>, DErr>);
VF_MACHINE(list_Tp_T, 1, run, AliasList<Tp, TA<Tp>, UErr>);
VF_MACHINE(list_NL_T, 1, run, AliasList<NL, TA<NL>, DErr>);
#if VF_EXC
VF_MACHINE(list_Th_T, 1, run, AliasList<Th, TA<Th>, DErr>);
#endif
#else
VF_MACHINE(set_int_N, 1, run, AliasSet<int, nestl::allocator<int>, DErr>);
VF_MACHINE(set_Tr_T, 2, run, AliasSet<Tr, TA<Tr>, DErr>);
VF_MACHINE(set_Tq_M, 1, run, AliasSet<Tq, MA<Tq>, UErr>);
VF_MACHINE(set_NV_T, 1, run, AliasSet<NV, TA<NV>, DErr>);
#endif
}
