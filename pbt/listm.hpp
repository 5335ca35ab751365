// History machine for nestl::list: a few lists over several allocator instances against std::list models.
// Each model node remembers the address and an iterator of the real element.
#ifndef VF_LISTM_HPP
#define VF_LISTM_HPP

#include "machine.hpp"

namespace VM
{

struct CmpKey  { bool operator()(const Val& a, const Val& b) const { return a.key < b.key; } };
struct CmpDesc { bool operator()(const Val& a, const Val& b) const { return a.key > b.key; } };
struct CmpMod  { static int f(int k) { return (int)((unsigned)k % 4u); } bool operator()(const Val& a, const Val& b) const { return f(a.key) < f(b.key); } };
template <class T, class VC> struct ElemCmp
{
    int state;
    explicit ElemCmp(int st = 0) : state(st) {}
    bool operator()(const T& a, const T& b) const { ++W().cmps; return VC()(ET<T>::get(a), ET<T>::get(b)); }
};

template <class T, class A, class Err> struct ListMachine : MachBase<Err>
{
    typedef nestl::list<T, A> C;
    typedef ET<T> E;
    typedef MachBase<Err> B;
    using B::s; using B::tagseq;
    enum { N = 3 };
    typedef typename C::iterator It;
    struct Nd { Val v; const T* a; It it; };
    typedef std::list<Nd> Mod;
    struct Slot { C* c; Mod m; int arena; };
    Slot sl[N];
    unsigned lim;

    explicit ListMachine(vf::Src& src) : B(src), lim(8)
    {
        this->can_elem = this->can_elem && Fails<T>::elem;
        for (int i = 0; i < N; ++i) sl[i].c = 0;
    }
    ~ListMachine() { for (int i = 0; i < N; ++i) delete sl[i].c; }

    unsigned nested_bit() const { return E::nested ? 1u : 0u; }
    void allow(int a) { W().allowed = AllocInfo<A>::stateful ? (1u << a) | nested_bit() : ~0u; }
    void allow2(int a, int b) { W().allowed = AllocInfo<A>::stateful ? (1u << a) | (1u << b) | nested_bit() : ~0u; }
    int pick_arena() { return E::nested ? 1 + (int)s.draw(3) : (int)s.draw(4); }

    void start()
    {
        unsigned d = s.draw(32);
        lim = d < 16 ? 7 : d < 27 ? 24 : d < 31 ? 130 : 700;
        if (E::nested && lim > 24) lim = 24;
        bool same = s.draw(2) == 0;
        for (int i = 0; i < N; ++i)
        {
            sl[i].arena = same && i ? sl[0].arena : pick_arena();
            sl[i].c = new C(AllocInfo<A>::make(sl[i].arena));
            VF_NOTE("l%d: empty list<%s> with allocator %d", i, E::name(), sl[i].arena);
        }
    }

    static Nd node(Val v) { Nd n; n.v = v; n.a = 0; return n; }
    static Seq vals(const Mod& m) { Seq r; for (typename Mod::const_iterator i = m.begin(); i != m.end(); ++i) r.push_back(i->v); return r; }
    static Seq read(const C& c)
    {
        Seq r;
        for (typename C::const_iterator i = c.cbegin(); i != c.cend(); ++i) r.push_back(E::get(*i));
        return r;
    }
    static Mod rebuild(const Seq& v) { Mod m; for (size_t i = 0; i < v.size(); ++i) m.push_back(node(v[i])); return m; }
    static typename Mod::iterator at(Mod& m, size_t p) { typename Mod::iterator i = m.begin(); std::advance(i, p); return i; }

    void observe(int i, const char* name)
    {
        Slot& x = sl[i];
        C& c = *x.c;
        const C& k = c;
        Seq want = vals(x.m);
        size_t n = want.size();
        Seq a = read(c);
        if (a != want)
        {
            VF_CHECK(vf::CONTENT, false, "after %s: l%d holds %s, expected %s", name, i, shows(a).c_str(), shows(want).c_str());
            x.m = rebuild(a); want = a; n = a.size();
        }
        // addresses and iterators
        {
            It it = c.begin();
            for (typename Mod::iterator q = x.m.begin(); q != x.m.end(); ++q, ++it)
            {
                if (q->a)
                {
                    VF_CHECK(vf::STAB, q->a == &*it, "after %s: element %s of l%d is no longer at its address", name, show(q->v).c_str(), i);
                    VF_CHECK(vf::STAB, q->it == it && &*q->it == q->a, "after %s: an iterator to element %s of l%d no longer denotes it", name, show(q->v).c_str(), i);
                }
                q->a = &*it; q->it = it;
            }
        }
        VF_CHECK(vf::CONTENT, c.size() == n, "after %s: l%d has size %zu, expected %zu", name, i, (size_t)c.size(), n);
        VF_CHECK(vf::CONTENT, c.empty() == (n == 0), "after %s: empty() of l%d is wrong", name, i);
        if (vf::g_tr)
        {
            vf::tr("size of container", (long long)c.size());
            for (size_t q = 0; q < a.size(); ++q) { vf::tr("element key", a[q].key); vf::tr("element tag", a[q].tag); }
        }
        else if (!vf::on(vf::CONTENT)) return;
        bool ok = true;
        if (n <= 64 || s.m_pos % 16 == 0)
        {
            size_t j = 0;
            for (typename C::iterator it = c.begin(); it != c.end(); ++it, ++j) ok = ok && j < n && E::get(*it) == want[j];
            VF_CHECK(vf::CONTENT, ok && j == n, "after %s: iteration over l%d is wrong", name, i);
            j = 0;
            for (typename C::const_iterator it = k.begin(); it != k.end(); ++it, ++j) ok = ok && j < n && E::get(*it) == want[j];
            VF_CHECK(vf::CONTENT, ok && j == n, "after %s: const iteration over l%d is wrong", name, i);
            j = n;
            for (typename C::iterator it = c.end(); it != c.begin(); ) { --it; ok = ok && j > 0 && E::get(*it) == want[j - 1]; --j; }
            VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: backward iteration over l%d is wrong", name, i);
            j = n;
            for (typename C::reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { ok = ok && j > 0 && E::get(*it) == want[j - 1]; --j; }
            VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: reverse iteration over l%d is wrong", name, i);
            j = n;
            for (typename C::const_reverse_iterator it = k.rbegin(); it != k.rend(); ++it) { ok = ok && j > 0 && E::get(*it) == want[j - 1]; --j; }
            VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: const reverse iteration over l%d is wrong", name, i);
            j = n;
            for (typename C::const_reverse_iterator it = k.crbegin(); it != k.crend(); ++it) { ok = ok && j > 0 && E::get(*it) == want[j - 1]; --j; }
            VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: crbegin/crend over l%d is wrong", name, i);
        }
        if (n)
        {
            VF_CHECK(vf::CONTENT, E::get(c.front()) == want[0] && E::get(k.front()) == want[0], "after %s: front() of l%d is wrong", name, i);
            VF_CHECK(vf::CONTENT, E::get(c.back()) == want[n - 1] && E::get(k.back()) == want[n - 1], "after %s: back() of l%d is wrong", name, i);
        }
    }
    void check_all(const char* name, int i, int j = -1)
    {
        bool all = this->steps % 4 == 0;
        for (int q = 0; q < N; ++q)
        {
            if (all || q == i || q == j) observe(q, name);
            if (AllocInfo<A>::stateful)
                VF_CHECK(vf::ARENA, AllocInfo<A>::arena(sl[q].c->get_allocator()) == sl[q].arena, "after %s: get_allocator of l%d is instance %d, expected %d",
                         name, q, AllocInfo<A>::arena(sl[q].c->get_allocator()), sl[q].arena);
        }
        if (E::counted)
        {
            size_t sum = 0;
            for (int q = 0; q < N; ++q) sum += sl[q].m.size();
            VF_CHECK(vf::LIFE, W().live == (long)sum, "after %s: %ld element objects are alive but the containers hold %zu", name, W().live, sum);
        }
    }

    enum Guar { G_STRONG, G_RANGE, G_ASSIGN };
    // G_RANGE: ins inserted at pos; G_ASSIGN: content replaced by ins; G_STRONG: single insertion of ins at pos
    template <class Exec> bool run(const char* name, int i, Guar g, size_t pos, const Seq& ins, Exec ex)
    {
        Slot& x = sl[i];
        Seq pre = vals(x.m);
        bool alloc = false;
        bool failed = this->attempt(name, ex, true, alloc);
        ++this->steps;
        if (this->steps >= 4) ev(EV_STEPS);
        if (!failed)
        {
            if (g == G_ASSIGN) x.m = rebuild(ins);
            else
            {
                Mod add = rebuild(ins);
                if (pos > 0 && pos < x.m.size()) ev(EV_MIDDLE);
                x.m.splice(at(x.m, pos), add);
            }
            if (x.m.size() > 64) ev(EV_BIG);
            if (E::nested || Fails<T>::elem || !HasEq<T>::value) if (!ins.empty()) ev(EV_NESTED);
            return true;
        }
        Seq a = read(*x.c);
        VF_NOTE("   -> failed, l%d = %s", i, shows(a).c_str());
        const char* bad = 0;
        switch (g)
        {
        case G_STRONG: if (a != pre) bad = "the content must be unchanged"; break;
        case G_RANGE: if (!is_prefix_inserted(a, pre, pos, ins)) bad = "the content must be the old content with a prefix of the new elements inserted"; break;
        case G_ASSIGN: if (a != pre && !is_prefix(a, ins)) bad = "the content must be the old content or a prefix of the new content"; break;
        }
        VF_CHECK(vf::GUAR, !bad, "%s of l%d failed for lack of %s; %s; it was %s and is %s", name, i, alloc ? "memory" : "an element", bad, shows(pre).c_str(), shows(a).c_str());
        if (g == G_RANGE && !bad)
        {
            Mod add = rebuild(Seq(ins.begin(), ins.begin() + (a.size() - pre.size())));
            x.m.splice(at(x.m, pos), add);
        }
        else if (a != pre || g == G_ASSIGN) x.m = rebuild(a);
        return false;
    }
    template <class Exec> void fallible(const char* name, int i, Guar g, size_t pos, const Seq& ins, Exec ex, int j = -1)
    {
        bool fault_possible = this->fault_rate || this->force_kind;
        if (!run(name, i, g, pos, ins, ex) && fault_possible)
        {
            check_all(name, i, j);
            if (vf::on(vf::RETRY))
            {
                unsigned rate = this->fault_rate; this->fault_rate = 0;
                vf::hit("operation retried after a failure");
                VF_NOTE("   retry");
                bool ok = run(name, i, g, pos, ins, ex);
                VF_CHECK(vf::RETRY, ok, "%s of l%d fails again although nothing fails any more", name, i);
                this->fault_rate = rate;
            }
        }
        check_all(name, i, j);
    }

    Val fresh() { return E::norm(mk(s.value(), ++tagseq)); }
    Seq fresh_seq(size_t n)
    {
        Seq v = gen_vals(s, n, tagseq);
        for (size_t i = 0; i < v.size(); ++i) v[i] = E::norm(v[i]);
        return v;
    }
    size_t room(int i) const { return sl[i].m.size() < lim ? lim - sl[i].m.size() : 0; }

    // an iterator to position p: a remembered one if there is one and the coin says so
    typename C::const_iterator iter(int i, size_t p, bool held)
    {
        Slot& x = sl[i];
        if (held && p < x.m.size()) { typename Mod::iterator q = at(x.m, p); if (q->a) return typename C::const_iterator(q->it); }
        if (p > x.m.size() / 2)
        {
            typename C::const_iterator r = x.c->cend();
            for (size_t k = x.m.size(); k > p; --k) --r;
            return r;
        }
        typename C::const_iterator r = x.c->cbegin();
        for (size_t k = 0; k < p; ++k) ++r;
        return r;
    }

    enum Op { PUSHB, PUSHBM, PUSHF, PUSHFM, EMPB, EMPF, EMPL, INS, INSM, INSC, INSR, ERASE, ERASER, POPB, POPF, ASGN, ASGR, COPY, CLEAR, SWAP, MOVEC, MOVEA,
              SPLW, SPL1, SPLR, SORT, MERGE, WRITE, EQ, FRESH, CCOPY, CASSIGN, TPUSH, NOPS };

    template <class U> typename std::enable_if<ET<U>::emplace2>::type do_emplace(int w, C& c, typename C::const_iterator p, Err& err, Val v, It& r)
    {
        if (w == EMPB) c.emplace_back_nothrow(err, v.key, v.tag);
        else if (w == EMPF) c.emplace_front_nothrow(err, v.key, v.tag);
        else r = c.emplace_nothrow(err, p, v.key, v.tag);
    }
    template <class U> typename std::enable_if<!ET<U>::emplace2 && std::is_arithmetic<U>::value>::type do_emplace(int w, C& c, typename C::const_iterator p, Err& err, Val v, It& r)
    {
        if (w == EMPB) c.emplace_back_nothrow(err, (U)v.key);
        else if (w == EMPF) c.emplace_front_nothrow(err, (U)v.key);
        else r = c.emplace_nothrow(err, p, (U)v.key);
    }
    template <class U> typename std::enable_if<!ET<U>::emplace2 && !std::is_arithmetic<U>::value>::type do_emplace(int w, C& c, typename C::const_iterator p, Err& err, Val, It& r)
    {
        if (w == EMPB) c.emplace_back_nothrow(err);
        else if (w == EMPF) c.emplace_front_nothrow(err);
        else r = c.emplace_nothrow(err, p);
    }
    template <class U> typename std::enable_if<HasEq<U>::value>::type do_eq(int i, int j)
    {
        bool r;
        VF_DRY("==", r = *sl[i].c == *sl[j].c);
        Seq a = vals(sl[i].m), b = vals(sl[j].m);
        VF_CHECK(vf::CONTENT, r == (a == b), "l%d == l%d is %d for %s and %s", i, j, (int)r, shows(a).c_str(), shows(b).c_str());

        // and with a container that is the same but for at most one element
        if (a.size() > 400 || (E::nested && std::count(a.begin(), a.end(), E::def()))) return;
        Seq m2(a);
        unsigned how = s.draw(5);
        if (how == 4 || m2.empty()) m2.push_back(E::norm(mk(3, 3)));
        else if (how == 3) m2.pop_back();
        else if (how) { size_t p = how == 1 ? m2.size() - 1 : s.draw((uint32_t)m2.size()); Val v = m2[p]; v.key = v.key == 1 ? 2 : 1; m2[p] = E::norm(v); }
        unsigned allowed = W().allowed; W().allowed = ~0u;
        {
            C t(AllocInfo<A>::make(sl[i].arena));
            DErr err;
            for (size_t q = 0; q < m2.size(); ++q) { typename E::Holder h(m2[q]); t.push_back_nothrow(err, static_cast<const T&>(h.ref())); }
            if (!err)
            {
                bool e = m2 == Seq(a);
                VF_CHECK(vf::CONTENT, (*sl[i].c == t) == e, "l%d == copy%s is %d for %s and %s", i, e ? "" : " with one difference", (int)!e, shows(a).c_str(), shows(m2).c_str());
                VF_CHECK(vf::CONTENT, (t == *sl[i].c) == e, "copy%s == l%d is %d for %s and %s", e ? "" : " with one difference", i, (int)!e, shows(m2).c_str(), shows(a).c_str());
            }
        }
        W().allowed = allowed;
    }
    template <class U> typename std::enable_if<!HasEq<U>::value>::type do_eq(int, int) {}

    struct Probe       // nothing may be constructed, destroyed, assigned or allocated in between
    {
        uint64_t ops; size_t allocs; uint64_t deallocs;
        Probe() : ops(W().elem_ops()), allocs(W().total_allocs()), deallocs(W().deallocs) {}
        void check(const char* name) const
        {
            VF_CHECK(vf::STAB | vf::XFER, ops == W().elem_ops(), "%s constructed, copied, assigned or destroyed elements", name);
            VF_CHECK(vf::STAB | vf::XFER, allocs == W().total_allocs() && deallocs == W().deallocs, "%s allocated or released memory", name);
        }
    };
    template <class VC> struct NdCmp { bool operator()(const Nd& a, const Nd& b) const { return VC()(a.v, b.v); } };
    template <class VC> static bool sorted(const Mod& m) { NdCmp<VC> c; for (typename Mod::const_iterator a = m.begin(), b = a; a != m.end() && ++b != m.end(); ++a) if (c(*b, *a)) return false; return true; }
    static double lg(double n) { double r = 1; while (n > 1) { n /= 2; r += 1; } return r; }
    template <class VC> void do_sort(int i, bool plain)
    {
        Slot& x = sl[i];
        size_t n = x.m.size();
        Probe p;
        uint64_t cmps = W().cmps;
        W().allowed = 0;
        VF_NOTE("l%d.sort(%s) of %zu elements", i, plain ? "" : "comparator", n);
        VF_DRY("sort", (sort_call<T, VC>(*x.c, plain)));
        p.check("sort");
        uint64_t used = W().cmps - cmps;
        VF_CHECK(vf::COST, (double)used <= 2.0 * (double)n * lg((double)n) + 16, "sort of %zu elements needed %llu comparisons", n, (unsigned long long)used);
        x.m.sort(NdCmp<VC>());
        if (n > 1) ev(EV_TRANSFER);
        ++this->steps;
        check_all("sort", i);
    }
    template <class U, class VC> typename std::enable_if<ET<U>::less>::type sort_call(C& c, bool plain)
    {
        if (plain) c.sort(); else c.sort(ElemCmp<T, VC>());
    }
    template <class U, class VC> typename std::enable_if<!ET<U>::less>::type sort_call(C& c, bool) { c.sort(ElemCmp<T, VC>()); }
    template <class U, class VC> typename std::enable_if<ET<U>::less>::type merge_call(C& a, C& b, bool plain, bool rv)
    {
        if (plain) { if (rv) a.merge(std::move(b)); else a.merge(b); }
        else { if (rv) a.merge(std::move(b), ElemCmp<T, VC>()); else a.merge(b, ElemCmp<T, VC>()); }
    }
    template <class U, class VC> typename std::enable_if<!ET<U>::less>::type merge_call(C& a, C& b, bool, bool rv)
    {
        if (rv) a.merge(std::move(b), ElemCmp<T, VC>()); else a.merge(b, ElemCmp<T, VC>());
    }
    template <class VC> void do_merge(int i, int j, bool plain, bool rv)
    {
        Slot& x = sl[i]; Slot& y = sl[j];
        if (!sorted<VC>(x.m)) do_sort<VC>(i, plain);
        if (!sorted<VC>(y.m)) do_sort<VC>(j, plain);
        Probe p;
        uint64_t cmps = W().cmps;
        size_t n = x.m.size() + y.m.size();
        W().allowed = 0;
        VF_NOTE("l%d.merge(l%d%s)", i, j, plain ? "" : ", comparator");
        if (!x.m.empty() && !y.m.empty()) ev(EV_TRANSFER);
        VF_DRY("merge", (merge_call<T, VC>(*x.c, *y.c, plain, rv)));
        p.check("merge");
        uint64_t used = W().cmps - cmps;
        VF_CHECK(vf::COST, used <= n + 1, "merge of %zu elements needed %llu comparisons", n, (unsigned long long)used);
        x.m.merge(y.m, NdCmp<VC>());
        ++this->steps;
        check_all("merge", i, j);
    }

    template <class D> typename std::enable_if<AllocInfo<D>::movable>::type do_move_assign(int i, int j)
    {
        Slot& a = sl[i]; Slot& b = sl[j];
        uint64_t made = W().ctors + W().copies + W().moves + W().assigns, died = W().dtors;
        size_t allocs = W().total_allocs();
        size_t oldn = a.m.size();
        W().allowed = nested_bit();
        VF_NOTE("l%d = move(l%d)", i, j);
        VF_DRY("move assignment", *a.c = std::move(*b.c));
        if (i == j)
        {
            Seq v = read(*a.c);
            VF_CHECK(vf::MISC, v.empty() || v.size() == oldn, "self move left %zu of %zu elements", v.size(), oldn);
            if (v.size() != oldn) a.m = rebuild(v);
            return;
        }
        VF_CHECK(vf::XFER | vf::STAB, made == W().ctors + W().copies + W().moves + W().assigns, "move assignment constructed, copied or assigned elements");
        VF_CHECK(vf::XFER, allocs == W().total_allocs(), "move assignment allocated memory");
        if (E::counted) VF_CHECK(vf::XFER, W().dtors - died == oldn, "move assignment destroyed %lu elements, the target held %zu", (unsigned long)(W().dtors - died), oldn);
        VF_CHECK(vf::XFER, b.c->empty(), "the source of a move assignment is not empty");
        if (!b.m.empty()) ev(EV_MOVE);
        if (a.arena != b.arena) ev(EV_ARENAS);
        a.m.clear();
        a.m.swap(b.m);
        a.arena = b.arena;
        if (AllocInfo<A>::stateful) b.arena = AllocInfo<A>::arena(b.c->get_allocator());
    }
    template <class D> typename std::enable_if<!AllocInfo<D>::movable>::type do_move_assign(int, int) {}

#if VF_EXC
    int arena_of(int i, int other) const
    {
        if (!AllocInfo<A>::stateful) return sl[i].arena;
        int got = AllocInfo<A>::arena(sl[i].c->get_allocator());
        VF_CHECK(vf::ARENA, got == sl[i].arena || got == other, "copy assignment of l%d left allocator instance %d, which neither list had", i, got);
        return got;
    }
    template <class U> typename std::enable_if<std::is_copy_constructible<U>::value>::type exc_copy(int op, int i, int j)
    {
        Slot& a = sl[i]; Slot& b = sl[j];
        const Seq nm = vals(b.m);
        if (!nm.empty()) ev(EV_COPY);
        if (op == CASSIGN)
        {
            VF_NOTE("l%d = l%d (copy assignment)", i, j);
            allow2(a.arena, b.arena);
            fallible("copy assignment", i, G_ASSIGN, 0, nm, [&](Err& err)
            {
                try { *a.c = static_cast<const C&>(*b.c); } catch (...) { from_exception_ptr(err, std::current_exception()); }
                a.arena = this->arena_of(i, b.arena);
            }, j);
        }
        else
        {
            VF_NOTE("l%d = new list copied from l%d", i, j);
            allow(b.arena);
            C* n = 0;
            bool alloc = false;
            auto ex = [&](Err& err) { try { n = new C(static_cast<const C&>(*b.c)); } catch (...) { from_exception_ptr(err, std::current_exception()); } };
            bool failed = this->attempt("copy construction", ex, true, alloc);
            ++this->steps;
            if (!failed && n)
            {
                int na = b.arena;
                delete a.c;
                a.c = n; a.m = rebuild(nm); a.arena = na;
            }
            check_all("copy construction", i, j);
        }
    }
    template <class U> typename std::enable_if<!std::is_copy_constructible<U>::value>::type exc_copy(int, int, int) {}
    template <class U> typename std::enable_if<std::is_copy_constructible<U>::value>::type exc_push(int i)
    {
        Slot& x = sl[i];
        Val v = fresh();
        bool rv = s.draw(2);
        VF_NOTE("l%d.push_back(%s%s) (throwing)", i, rv ? "temporary " : "", show(v).c_str());
        fallible("push_back", i, G_STRONG, x.m.size(), Seq(1, v), [&](Err& err)
        {
            typename E::Holder h(v);
            try { if (rv) x.c->push_back(std::move(h.ref())); else x.c->push_back(h.ref()); }
            catch (...) { from_exception_ptr(err, std::current_exception()); }
        });
    }
    template <class U> typename std::enable_if<!std::is_copy_constructible<U>::value>::type exc_push(int) {}
#else
    template <class U> void exc_copy(int, int, int) {}
    template <class U> void exc_push(int) {}
#endif

    struct InsCall { C& c; Err& err; typename C::const_iterator p; template <class I> void operator()(I b, I e) { c.insert_nothrow(err, p, b, e); } };
    // with elements of type int the count may be an int as well
    static void assign_count(C& c, Err& err, size_t n, T& v, std::true_type) { c.assign_nothrow(err, (int)n, (int)v); }
    static void assign_count(C& c, Err& err, size_t n, const T& v, std::false_type) { c.assign_nothrow(err, n, v); }
    static void insert_count(C& c, Err& err, typename C::const_iterator p, size_t n, T& v, std::true_type) { c.insert_nothrow(err, p, (int)n, (int)v); }
    static void insert_count(C& c, Err& err, typename C::const_iterator p, size_t n, const T& v, std::false_type) { c.insert_nothrow(err, p, n, v); }
    struct AsgCall { C& c; Err& err; template <class I> void operator()(I b, I e) { c.assign_nothrow(err, b, e); } };

    void step()
    {
        static const unsigned char weights[NOPS] = { 10, 5, 6, 3, 4, 3, 4, 10, 5, 4, 8, 8, 5, 3, 3, 3, 5, 4, 1, 3, 3, 3, 5, 6, 8, 5, 5, 3, 3, 2, 3, 3, 2 };
        static const unsigned char focus[NOPS] = { 10, 4, 3, 2, 2, 1, 1, 5, 2, 1, 3, 5, 2, 2, 2, 1, 2, 14, 1, 14, 10, 14, 4, 3, 4, 2, 2, 12, 2, 2, 10, 10, 2 };
        do_op(this->pick_op(g_focus ? focus : weights, NOPS));
    }

    void do_op(unsigned op)
    {
        if (vf::g_tr && op >= CCOPY) return;       // not available in both library modes
        int i = (int)s.draw(N);
        Slot& x = sl[i];
        C& c = *x.c;
        allow(x.arena);
        size_t n = x.m.size();
        switch (op)
        {
        case PUSHB: case PUSHBM: case PUSHF: case PUSHFM: case EMPB: case EMPF: case EMPL: case INS: case INSM:
        {
            if (!room(i)) { clear(i); break; }
            bool emp = op == EMPB || op == EMPF || op == EMPL;
            Val v = emp && !E::emplace2 && !std::is_arithmetic<T>::value ? E::def() : fresh();
            size_t pos = (op == PUSHB || op == PUSHBM || op == EMPB) ? n : (op == PUSHF || op == PUSHFM || op == EMPF) ? 0 : s.draw((uint32_t)n + 1);
            bool held = s.draw(2) == 0;
            static const char* const nm[] = { "push_back", "push_back temporary", "push_front", "push_front temporary", "emplace_back", "emplace_front", "emplace", "insert", "insert temporary" };
            VF_NOTE("l%d.%s(%s at %zu)", i, nm[op], show(v).c_str(), pos);
            fallible(nm[op], i, G_STRONG, pos, Seq(1, v), [&](Err& err)
            {
                bool res = op == EMPL || op == INS || op == INSM;
                It r;
                typename C::const_iterator p = iter(i, pos, held);
                if (emp) this->template do_emplace<T>((int)op, c, p, err, v, r);
                else
                {
                    typename E::Holder h(v);
                    const T& cr = h.ref();
                    switch (op)
                    {
                    case PUSHB: c.push_back_nothrow(err, cr); break;
                    case PUSHBM: c.push_back_nothrow(err, std::move(h.ref())); break;
                    case PUSHF: c.push_front_nothrow(err, cr); break;
                    case PUSHFM: c.push_front_nothrow(err, std::move(h.ref())); break;
                    case INS: r = c.insert_nothrow(err, p, cr); break;
                    default: r = c.insert_nothrow(err, p, std::move(h.ref())); break;
                    }
                    if (op == PUSHB || op == PUSHF || op == INS) untouched(nm[op], h.ref(), v);
                    else if (!err) taken(nm[op], h.ref());
                }
                if (res && err) VF_CHECK(vf::GUAR, r == c.end(), "a failed %s returned a position other than the end", nm[op]);
                if (res && !err)
                {
                    typename C::const_iterator q = c.cbegin();
                    for (size_t k = 0; k < pos; ++k) ++q;
                    VF_CHECK(vf::RESULT, q == typename C::const_iterator(r), "%s at %zu did not return the position of the new element", nm[op], pos);
                }
            });
            break;
        }
        case INSC:
        {
            size_t k = s.small((uint32_t)std::min<size_t>(room(i), 60));
            size_t pos = s.draw((uint32_t)n + 1);
            bool held = s.draw(2) == 0;
            Val v = fresh();
            VF_NOTE("l%d.insert(%zu x %s at %zu)", i, k, show(v).c_str(), pos);
            fallible("count insert", i, G_RANGE, pos, Seq(k, v), [&](Err& err)
            {
                typename E::Holder h(v);
                insert_count(c, err, iter(i, pos, held), k, h.ref(), std::is_same<T, int>());
            });
            break;
        }
        case INSR:
        {
            size_t k = s.small((uint32_t)std::min<size_t>(room(i), 300));
            size_t pos = s.draw((uint32_t)n + 1);
            bool held = s.draw(2) == 0;
            Seq ins = fresh_seq(k);
            unsigned kind = s.draw(RANGE_KINDS + 2);
            int j = -1;
            if (kind >= RANGE_KINDS)
            {
                j = (int)((i + 1 + s.draw(N - 1)) % N);
                if (sl[j].m.size() > room(i)) kind = 0, j = -1; else ins = vals(sl[j].m);
            }
            VF_NOTE("l%d.insert(range %s of %s iterators at %zu)", i, shows(ins).c_str(), j < 0 ? range_kind(kind) : "other list", pos);
            fallible("range insert", i, G_RANGE, pos, ins, [&](Err& err)
            {
                typename C::const_iterator p = iter(i, pos, held);
                if (j >= 0) { c.insert_nothrow(err, p, sl[j].c->cbegin(), sl[j].c->cend()); return; }
                Vals<T> vs(ins);
                InsCall call = { c, err, p };
                feed(kind, vs, call);
            });
            break;
        }
        case ERASE: case POPB: case POPF:
        {
            if (!n) break;
            size_t p = op == POPB ? n - 1 : op == POPF ? 0 : s.draw((uint32_t)n);
            bool held = s.draw(2) == 0;
            W().allowed = 0;
            uint64_t made = W().ctors + W().copies + W().moves + W().assigns;
            VF_NOTE("l%d.%s(%zu)", i, op == POPB ? "pop_back" : op == POPF ? "pop_front" : "erase", p);
            if (op == POPB) VF_DRY("pop_back", c.pop_back());
            else if (op == POPF) VF_DRY("pop_front", c.pop_front());
            else
            {
                typename C::const_iterator ep = iter(i, p, held);
                It r;
                VF_DRY("erase", r = c.erase(ep));
                x.m.erase(at(x.m, p));
                check_ret(i, r, p, "erase");
            }
            if (op != ERASE) x.m.erase(at(x.m, p));
            VF_CHECK(vf::STAB, made == W().ctors + W().copies + W().moves + W().assigns, "erasing an element copied or assigned other elements");
            ++this->steps;
            ev(EV_ERASE);
            if (p > 0 && p + 1 < n) ev(EV_MIDDLE);
            check_all("erase", i);
            break;
        }
        case ERASER:
        {
            size_t a = s.draw((uint32_t)n + 1), b = a + s.small((uint32_t)(n - a));
            bool held = s.draw(2) == 0;
            W().allowed = 0;
            VF_NOTE("l%d.erase(%zu..%zu)", i, a, b);
            typename C::const_iterator ea = iter(i, a, held), eb = iter(i, b, held);
            It r;
            VF_DRY("range erase", r = c.erase(ea, eb));
            x.m.erase(at(x.m, a), at(x.m, b));
            check_ret(i, r, a, "range erase");
            ++this->steps;
            if (a != b) ev(EV_ERASE);
            check_all("range erase", i);
            break;
        }
        case ASGN:
        {
            size_t k = s.small(std::min(lim, 130u));
            Val v = fresh();
            VF_NOTE("l%d.assign(%zu, %s)", i, k, show(v).c_str());
            fallible("assign by count", i, G_ASSIGN, 0, Seq(k, v), [&](Err& err) { typename E::Holder h(v); assign_count(c, err, k, h.ref(), std::is_same<T, int>()); });
            break;
        }
        case ASGR:
        {
            size_t k = s.small(lim);
            Seq ins = fresh_seq(k);
            unsigned kind = s.draw(RANGE_KINDS + 2);
            int j = -1;
            if (kind >= RANGE_KINDS) { j = (int)((i + 1 + s.draw(N - 1)) % N); ins = vals(sl[j].m); }
            VF_NOTE("l%d.assign(range %s of %s iterators)", i, shows(ins).c_str(), j < 0 ? range_kind(kind) : "other list");
            fallible("range assign", i, G_ASSIGN, 0, ins, [&](Err& err)
            {
                if (j >= 0) { c.assign_nothrow(err, sl[j].c->begin(), sl[j].c->end()); return; }
                Vals<T> vs(ins);
                AsgCall call = { c, err };
                feed(kind, vs, call);
            });
            break;
        }
        case COPY:
        {
            int j = (int)((i + 1 + s.draw(N - 1)) % N);
            Seq nm = vals(sl[j].m);
            if (!nm.empty()) ev(EV_COPY);
            if (sl[i].arena != sl[j].arena) ev(EV_ARENAS);
            VF_NOTE("l%d.copy(l%d)", i, j);
            fallible("copy", i, G_ASSIGN, 0, nm, [&](Err& err) { c.copy_nothrow(err, *sl[j].c); }, j);
            break;
        }
        case CLEAR: clear(i); break;
        case SWAP:
        {
            int j = (int)s.draw(N);
            Slot& y = sl[j];
            Probe p;
            W().allowed = nested_bit();
            VF_NOTE("l%d.swap(l%d)", i, j);
            VF_DRY("swap", x.c->swap(*y.c));
            p.check("swap");
            if (i != j)
            {
                if (!x.m.empty() || !y.m.empty()) ev(EV_MOVE);
                if (x.arena != y.arena) ev(EV_ARENAS);
                x.m.swap(y.m);
                std::swap(x.arena, y.arena);
            }
            ++this->steps;
            check_all("swap", i, j);
            break;
        }
        case MOVEC:
        {
            Probe p;
            W().allowed = nested_bit();
            VF_NOTE("l%d: moved into a new list", i);
            if (n) ev(EV_MOVE);
            C* nc;
            VF_DRY("move construction", nc = new C(std::move(c)));
            p.check("move construction");
            VF_CHECK(vf::XFER, c.empty() && c.size() == 0, "the source of a move construction is not empty");
            if (s.draw(2) == 0)
            {
                W().allowed = ~0u;
                DErr err;
                typename E::Holder h(mk(5, 0));
                c.push_back_nothrow(err, static_cast<const T&>(h.ref()));
                VF_CHECK(vf::XFER | vf::MISC, !err && c.size() == 1 && E::get(c.front()) == E::norm(mk(5, 0)), "a moved-from list is not usable");
            }
            delete x.c;
            x.c = nc;
            ++this->steps;
            check_all("move construction", i);
            break;
        }
        case MOVEA:
        {
            int j = (int)s.draw(N);
            do_move_assign<A>(i, j);
            ++this->steps;
            check_all("move assignment", i, j);
            break;
        }
        case SPLW: case SPL1: case SPLR: splice(op, i); break;
        case SORT:
        {
            unsigned k = s.draw(4);
            if (k == 0) do_sort<CmpKey>(i, true);
            else if (k == 1) do_sort<CmpKey>(i, false);
            else if (k == 2) do_sort<CmpDesc>(i, false);
            else do_sort<CmpMod>(i, false);
            break;
        }
        case MERGE:
        {
            int j = partner(i);
            if (j < 0 || j == i) break;
            unsigned k = s.draw(4);
            bool rv = s.draw(2);
            if (k == 0) do_merge<CmpKey>(i, j, true, rv);
            else if (k == 1) do_merge<CmpKey>(i, j, false, rv);
            else if (k == 2) do_merge<CmpDesc>(i, j, false, rv);
            else do_merge<CmpMod>(i, j, false, rv);
            break;
        }
        case WRITE:
            if (E::writable && n)
            {
                size_t p = s.draw((uint32_t)n);
                Val v = fresh();
                VF_NOTE("l%d: element %zu := %s", i, p, show(v).c_str());
                typename Mod::iterator q = at(x.m, p);
                if (q->a) E::set(*q->it, v);
                else { It it = c.begin(); std::advance(it, p); E::set(*it, v); }
                q->v = v;
                check_all("element write", i);
            }
            break;
        case EQ:
        {
            int j = (int)s.draw(N);
            VF_NOTE("l%d == l%d", i, j);
            do_eq<T>(i, j);
            break;
        }
        case FRESH:
            VF_NOTE("l%d: destroyed and created anew", i);
            W().allowed = 0;
            VF_DRY("destruction", delete x.c);
            x.m.clear();
            x.arena = s.draw(2) ? sl[(i + 1) % N].arena : pick_arena();
            VF_DRY("construction", x.c = new C(AllocInfo<A>::make(x.arena)));
            check_all("construction", i);
            break;
        case CCOPY: case CASSIGN: { int j = (int)((i + 1 + s.draw(N - 1)) % N); exc_copy<T>((int)op, i, j); break; }
        case TPUSH: if (room(i)) exc_push<T>(i); break;
        default: break;
        }
    }
    void check_ret(int i, It r, size_t p, const char* name)
    {
        typename C::const_iterator q = sl[i].c->cbegin();
        for (size_t k = 0; k < p; ++k) ++q;
        VF_CHECK(vf::RESULT, q == typename C::const_iterator(r), "%s at %zu did not return the position after the erased elements", name, p);
    }
    int partner(int i)     // a list with an equal allocator (possibly i itself)
    {
        int j = (int)s.draw(N);
        for (int k = 0; k < N; ++k, j = (j + 1) % N)
            if (!AllocInfo<A>::stateful || sl[j].arena == sl[i].arena) return j;
        return -1;
    }
    void splice(unsigned op, int i)
    {
        int j = partner(i);
        Slot& x = sl[i]; Slot& y = sl[j];
        size_t pos = s.draw((uint32_t)x.m.size() + 1);
        bool held = s.draw(2) == 0, rv = s.draw(2);
        typename Mod::iterator mp = at(x.m, pos);
        Probe p;
        W().allowed = 0;
        if (op == SPLW)
        {
            if (i == j) return;
            VF_NOTE("l%d.splice(at %zu, l%d)", i, pos, j);
            if (!y.m.empty()) ev(EV_TRANSFER);
            typename C::const_iterator pi = iter(i, pos, held);
            VF_DRY("splice", if (rv) x.c->splice(pi, std::move(*y.c)); else x.c->splice(pi, *y.c));
            x.m.splice(mp, y.m);
        }
        else if (op == SPL1)
        {
            if (y.m.empty()) return;
            size_t q = s.draw((uint32_t)y.m.size());
            VF_NOTE("l%d.splice(at %zu, l%d, element %zu)", i, pos, j, q);
            ev(EV_TRANSFER);
            typename C::const_iterator pi = iter(i, pos, held), qi = iter(j, q, held);
            VF_DRY("splice", if (rv) x.c->splice(pi, std::move(*y.c), qi); else x.c->splice(pi, *y.c, qi));
            x.m.splice(mp, y.m, at(y.m, q));
        }
        else
        {
            size_t n = y.m.size();
            size_t a = s.draw((uint32_t)n + 1), b = a + s.small((uint32_t)(n - a));
            if (i == j && pos >= a && pos < b) pos = b;     // precondition: the position is not inside the range
            mp = at(x.m, pos);
            VF_NOTE("l%d.splice(at %zu, l%d, elements %zu..%zu)", i, pos, j, a, b);
            if (a != b) ev(EV_TRANSFER);
            typename C::const_iterator pi = iter(i, pos, held), ai = iter(j, a, held), bi = iter(j, b, held);
            VF_DRY("splice", if (rv) x.c->splice(pi, std::move(*y.c), ai, bi); else x.c->splice(pi, *y.c, ai, bi));
            if (!(i == j && pos == b)) x.m.splice(mp, y.m, at(y.m, a), at(y.m, b));
        }
        p.check("splice");
        ++this->steps;
        check_all("splice", i, j);
    }
    void clear(int i)
    {
        Slot& x = sl[i];
        W().allowed = 0;
        VF_NOTE("l%d.clear()", i);
        VF_DRY("clear", x.c->clear());
        x.m.clear();
        ++this->steps;
        check_all("clear", i);
    }

    void finish()
    {
        for (int i = 0; i < N; ++i) observe(i, "the history");
        W().allowed = 0;
        for (int i = 0; i < N; ++i) { delete sl[i].c; sl[i].c = 0; }
        final_balance();
    }
    static void history(vf::Src& s, unsigned rate)
    {
        W().reset();
        ListMachine m(s);
        m.fault_rate = rate;
        m.start();
        m.swarm(NOPS);
        unsigned n = 3 + s.small(45);
        for (unsigned q = 0; q < n; ++q) m.step();
        m.fault_rate = 0;
        m.finish();
    }
    static void plain(vf::Src& s) { history(s, 0); }
    static void faulty(vf::Src& s) { history(s, 4); }
    static void enumerate(vf::Src& s)
    {
        static const unsigned char fallible_ops[] = { PUSHB, PUSHBM, PUSHF, PUSHFM, EMPB, EMPF, EMPL, INS, INSM, INSC, INSR, ASGN, ASGR, COPY, CCOPY, CASSIGN, TPUSH };
        size_t start = s.mark();
        for (int kind = 1; kind <= (Fails<T>::elem ? 2 : 1); ++kind)
            if (g_kinds & (unsigned)kind)
            for (long k = 0; k < 400; ++k)
            {
                s.rewind(start);
                W().reset();
                ListMachine m(s);
                m.start();
                m.swarm(NOPS);
                unsigned op = fallible_ops[s.draw(sizeof fallible_ops)];
                unsigned after = s.draw(4);
                unsigned n = s.small(14);
                for (unsigned q = 0; q < n; ++q) m.step();
                m.force_kind = kind; m.force_k = k;
                m.do_op(op);
                bool fired = m.forced_fired;
                m.force_kind = 0;
                for (unsigned q = 0; q < after; ++q) m.step();
                m.finish();
                if (!fired) break;
                vf::hit("failure points enumerated");
            }
    }
};

} // namespace VM

#endif
