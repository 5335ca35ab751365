// History machine for nestl::vector: a few vectors over several allocator instances against std::vector models.
#ifndef VF_VECM_HPP
#define VF_VECM_HPP

#include "machine.hpp"

namespace VM
{

template <class T, class A, class Err> struct VecMachine : MachBase<Err>
{
    typedef nestl::vector<T, A> C;
    typedef ET<T> E;
    typedef MachBase<Err> B;
    using B::s; using B::tagseq;
    enum { N = 3 };
    struct Slot { C* c; Seq m; int arena; };
    Slot sl[N];
    unsigned lim;
    bool big;

    explicit VecMachine(vf::Src& src) : B(src), lim(8), big(false)
    {
        this->can_elem = this->can_elem && Fails<T>::elem;
        for (int i = 0; i < N; ++i) sl[i].c = 0;
    }
    ~VecMachine() { for (int i = 0; i < N; ++i) delete sl[i].c; }

    unsigned nested_bit() const { return E::nested ? 1u : 0u; }
    void allow(int a) { W().allowed = AllocInfo<A>::stateful ? (1u << a) | nested_bit() : ~0u; }
    void allow2(int a, int b) { W().allowed = AllocInfo<A>::stateful ? (1u << a) | (1u << b) | nested_bit() : ~0u; }
    int pick_arena() { return E::nested ? 1 + (int)s.draw(3) : (int)s.draw(4); }

    void start()
    {
        unsigned d = s.draw(32);
        lim = d < 16 ? 7 : d < 27 ? 24 : d < 31 ? 130 : 700;
        if (E::nested && lim > 24) lim = 24;
        for (int i = 0; i < N; ++i)
        {
            sl[i].arena = pick_arena();
            sl[i].c = new C(AllocInfo<A>::make(sl[i].arena));
            VF_NOTE("v%d: empty vector<%s> with allocator %d", i, E::name(), sl[i].arena);
        }
    }

    // ---------------------------------------------------------------- observation
    static Seq read(const C& c)
    {
        Seq r;
        for (typename C::const_iterator i = c.cbegin(); i != c.cend(); ++i) r.push_back(E::get(*i));
        return r;
    }
    void observe(int i, const char* name)
    {
        Slot& x = sl[i];
        C& c = *x.c;
        const C& k = c;
        size_t n = x.m.size();
        VF_CHECK(vf::CONTENT, c.size() == n, "after %s: v%d has size %zu, expected %zu", name, i, (size_t)c.size(), n);
        VF_CHECK(vf::CONTENT, c.empty() == (n == 0), "after %s: empty() of v%d is wrong", name, i);
        VF_CHECK(vf::CAP, c.capacity() >= c.size(), "after %s: capacity %zu of v%d is less than its size %zu", name, (size_t)c.capacity(), i, (size_t)c.size());
        Seq a = read(c);
        if (a != x.m)
        {
            VF_CHECK(vf::CONTENT, false, "after %s: v%d holds %s, expected %s", name, i, shows(a).c_str(), shows(x.m).c_str());
            x.m = a;
            n = a.size();
        }
        if (vf::g_tr)
        {
            vf::tr("size of container", (long long)c.size());
            for (size_t q = 0; q < a.size(); ++q) { vf::tr("element key", a[q].key); vf::tr("element tag", a[q].tag); }
            vf::tr("capacity", (long long)c.capacity());
        }
        else if (!vf::on(vf::CONTENT)) return;
        bool ok = true;
        size_t j = 0;
        if (n <= 64 || s.m_pos % 16 == 0)
        {
            for (j = 0; j < n; ++j) ok = ok && E::get(c[j]) == x.m[j] && E::get(k[j]) == x.m[j] && &c[j] == &k[j];
            VF_CHECK(vf::CONTENT, ok, "after %s: indexing v%d disagrees with iteration", name, i);
            j = 0;
            for (typename C::iterator it = c.begin(); it != c.end(); ++it, ++j) ok = ok && j < n && E::get(*it) == x.m[j];
            VF_CHECK(vf::CONTENT, ok && j == n, "after %s: iteration over v%d is wrong", name, i);
            j = 0;
            for (typename C::const_iterator it = k.begin(); it != k.end(); ++it, ++j) ok = ok && j < n && E::get(*it) == x.m[j];
            VF_CHECK(vf::CONTENT, ok && j == n, "after %s: const iteration over v%d is wrong", name, i);
            j = n;
            for (typename C::reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { ok = ok && j > 0 && E::get(*it) == x.m[j - 1]; --j; }
            VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: reverse iteration over v%d is wrong", name, i);
            j = n;
            for (typename C::const_reverse_iterator it = k.rbegin(); it != k.rend(); ++it) { ok = ok && j > 0 && E::get(*it) == x.m[j - 1]; --j; }
            VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: const reverse iteration over v%d is wrong", name, i);
            j = n;
            for (typename C::const_reverse_iterator it = k.crbegin(); it != k.crend(); ++it) { ok = ok && j > 0 && E::get(*it) == x.m[j - 1]; --j; }
            VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: crbegin/crend over v%d is wrong", name, i);
        }
        if (n)
        {
            VF_CHECK(vf::CONTENT, E::get(c.front()) == x.m[0] && E::get(k.front()) == x.m[0], "after %s: front() of v%d is wrong", name, i);
            VF_CHECK(vf::CONTENT, E::get(c.back()) == x.m[n - 1] && E::get(k.back()) == x.m[n - 1], "after %s: back() of v%d is wrong", name, i);
            VF_CHECK(vf::CONTENT, c.data() == &c[0] && k.data() == &k[0], "after %s: data() of v%d does not point to its first element", name, i);
        }
    }
    void check_all(const char* name, int i, int j = -1)
    {
        bool all = this->steps % 4 == 0;
        for (int q = 0; q < N; ++q)
        {
            if (all || q == i || q == j) observe(q, name);
            if (AllocInfo<A>::stateful)
                VF_CHECK(vf::ARENA, AllocInfo<A>::arena(sl[q].c->get_allocator()) == sl[q].arena, "after %s: get_allocator of v%d is instance %d, expected %d",
                         name, q, AllocInfo<A>::arena(sl[q].c->get_allocator()), sl[q].arena);
        }
        if (E::counted)
        {
            size_t sum = 0;
            for (int q = 0; q < N; ++q) sum += sl[q].c->size();
            VF_CHECK(vf::LIFE, W().live == (long)sum, "after %s: %ld element objects are alive but the containers hold %zu", name, W().live, sum);
        }
    }

    // ---------------------------------------------------------------- fallible operations
    enum Guar { G_STRONG, G_INSERT, G_RANGE, G_RESIZE, G_ASSIGN };
    // post: content after success. pos/ins: where and what is inserted (G_INSERT, G_RANGE, G_RESIZE)
    template <class Exec> bool run(const char* name, int i, Guar g, const Seq& post, size_t pos, const Seq& ins, Exec ex)
    {
        Slot& x = sl[i];
        const Seq pre = x.m;
        const C& c = *x.c;
        size_t cap = c.capacity();
        const T* base = c.empty() ? 0 : &*c.begin();
        size_t allocs = W().total_allocs();
        bool alloc = false;
        bool failed = this->attempt(name, ex, true, alloc);
        ++this->steps;
        if (this->steps >= 4) ev(EV_STEPS);
        if (!failed)
        {
            x.m = post;
            if (post.size() > 64) ev(EV_BIG);
            if (g == G_INSERT || g == G_RANGE || g == G_RESIZE)
            {
                if (post.size() > pre.size() && pos < pre.size()) { ev(EV_MIDDLE); vf::hit("vector insertion before existing elements"); }
                if (post.size() <= cap)
                {
                    if (!pre.empty() && post.size() > pre.size()) { ev(EV_INPLACE); vf::hit("vector growth within capacity"); }
                    VF_CHECK(vf::CAP, c.capacity() == cap, "%s: size %zu fits in capacity %zu but the capacity became %zu", name, post.size(), cap, (size_t)c.capacity());
                    VF_CHECK(vf::CAP, E::nested || !HasEq<T>::value || W().total_allocs() == allocs, "%s: size %zu fits in capacity %zu but memory was allocated", name, post.size(), cap);
                    if (base && !post.empty())
                        VF_CHECK(vf::CAP, &*c.begin() == base, "%s: size %zu fits in capacity %zu but the elements were moved to other storage", name, post.size(), cap);
                }
                else if (!pre.empty()) { ev(EV_REALLOC); vf::hit("vector reallocation with elements"); }
                VF_CHECK(vf::CAP, c.capacity() >= cap, "%s: capacity dropped from %zu to %zu", name, cap, (size_t)c.capacity());
            }
            if (E::nested || Fails<T>::elem || !HasEq<T>::value) if (!post.empty()) ev(EV_NESTED);
        }
        else
        {
            Seq a = read(c);
            VF_NOTE("   -> failed, v%d = %s", i, shows(a).c_str());
            if (alloc && !E::nested)
            {
                const char* bad = 0;
                switch (g)
                {
                case G_STRONG: case G_INSERT: if (a != pre) bad = "the content must be unchanged"; break;
                case G_RANGE: if (!is_prefix_inserted(a, pre, pos, ins)) bad = "the content must be the old content with a prefix of the range inserted"; break;
                case G_RESIZE: if (a.size() < pre.size() || !is_prefix_inserted(a, pre, pre.size(), ins)) bad = "the content must be the old elements followed by part of the new ones"; break;
                case G_ASSIGN: if (a != pre && !is_prefix(a, ins)) bad = "the content must be the old content or a prefix of the new content"; break;
                }
                VF_CHECK(vf::GUAR, !bad, "%s of v%d failed for lack of memory; %s; it was %s and is %s", name, i, bad, shows(pre).c_str(), shows(a).c_str());
                if (g == G_STRONG || g == G_INSERT) VF_CHECK(vf::GUAR, c.capacity() == cap, "%s of v%d failed but changed the capacity from %zu to %zu", name, i, cap, (size_t)c.capacity());
            }
            else
            {
                const char* bad = 0;
                Seq head(pre.begin(), pre.begin() + std::min(pos, pre.size()));
                switch (g)
                {
                case G_STRONG: if (a != pre) bad = "the content must be unchanged"; break;
                case G_INSERT: case G_RANGE:
                {
                    Seq full(head); full.insert(full.end(), ins.begin(), ins.end()); full.insert(full.end(), pre.begin() + pos, pre.end());
                    if (pos == pre.size() ? !is_prefix_inserted(a, pre, pos, ins) || (g == G_INSERT && a != pre) : !is_prefix(head, a) || !is_subseq(a, full))
                        bad = "elements before the insertion point must be kept and no element may be altered, duplicated or reordered";
                    break;
                }
                case G_RESIZE: if (!is_prefix_inserted(a, pre, pre.size(), ins)) bad = "the content must be the old elements followed by part of the new ones"; break;
                case G_ASSIGN: if (a != pre && !is_prefix(a, ins)) bad = "the content must be the old content or a prefix of the new content"; break;
                }
                VF_CHECK(vf::GUAR, !bad, "%s of v%d failed because an element could not be constructed; %s; it was %s and is %s", name, i, bad, shows(pre).c_str(), shows(a).c_str());
            }
            for (size_t q = 0; q < a.size(); ++q)
                VF_CHECK(vf::GUAR, a[q].key != K_BAD && a[q].key != K_MOVED, "%s of v%d failed and left an incomplete element: %s", name, i, shows(a).c_str());
            x.m = a;
        }
        return !failed;
    }
    template <class Exec> void fallible(const char* name, int i, Guar g, const Seq& post, size_t pos, const Seq& ins, Exec ex, int j = -1)
    {
        bool fault_possible = this->fault_rate || this->force_kind;
        if (!run(name, i, g, post, pos, ins, ex) && fault_possible)
        {
            check_all(name, i, j);
            // the same operation, repeated with nothing failing, must succeed from where the first one left off
            if (vf::on(vf::RETRY))
            {
                unsigned rate = this->fault_rate; this->fault_rate = 0;
                Seq again;
                const Seq& m = sl[i].m;
                bool redo = true;
                switch (g)
                {
                case G_STRONG: again = m; if (post.size() > m.size()) { again = post; redo = m.size() + 1 == post.size() || post == m; } break;
                case G_INSERT: case G_RANGE: again = m; again.insert(again.begin() + std::min(pos, m.size()), ins.begin(), ins.end()); redo = pos <= m.size(); break;
                case G_RESIZE: again = m; while (again.size() < post.size()) again.push_back(ins.empty() ? E::def() : ins[0]); break;
                case G_ASSIGN: again = post; break;
                }
                if (redo)
                {
                    vf::hit("operation retried after a failure");
                    VF_NOTE("   retry");
                    bool ok = run(name, i, g, again, pos, ins, ex);
                    VF_CHECK(vf::RETRY, ok, "%s of v%d fails again although nothing fails any more", name, i);
                }
                this->fault_rate = rate;
            }
        }
        check_all(name, i, j);
    }

    Val fresh() { Val v = mk(s.value(), ++tagseq); return E::norm(v); }
    Seq fresh_seq(size_t n)
    {
        Seq v = gen_vals(s, n, tagseq);
        for (size_t i = 0; i < v.size(); ++i) v[i] = E::norm(v[i]);
        return v;
    }
    size_t room(int i) const { return sl[i].m.size() < lim ? lim - sl[i].m.size() : 0; }

    enum Op { PUSH, PUSHM, EMPLACE, INS, INSM, INSR, ASGN, ASGR, COPY, RESZ, RESZV, RSV, SHRINK, CLEAR, SWAP, MOVEC, MOVEA, WRITE, EQ, FRESH, CCOPY, CASSIGN, TPUSH, NXCOPY, NOPS };

    template <class U> typename std::enable_if<ET<U>::emplace2>::type do_emplace(C& c, Err& err, Val v) { c.emplace_back_nothrow(err, v.key, v.tag); }
    template <class U> typename std::enable_if<!ET<U>::emplace2 && std::is_arithmetic<U>::value>::type do_emplace(C& c, Err& err, Val v) { c.emplace_back_nothrow(err, (U)v.key); }
    template <class U> typename std::enable_if<!ET<U>::emplace2 && !std::is_arithmetic<U>::value>::type do_emplace(C& c, Err& err, Val) { c.emplace_back_nothrow(err); }

    template <class U> typename std::enable_if<std::is_move_constructible<U>::value>::type push_temp(C& c, Err& err, T& v, bool emp)
    { if (emp) c.emplace_back_nothrow(err, std::move(v)); else c.push_back_nothrow(err, std::move(v)); }
    template <class U> typename std::enable_if<!std::is_move_constructible<U>::value>::type push_temp(C& c, Err& err, T& v, bool) { c.push_back_nothrow(err, std::move(v)); }

    template <class U> typename std::enable_if<HasEq<U>::value>::type do_eq(int i, int j)
    {
        bool r;
        VF_DRY("==", r = *sl[i].c == *sl[j].c);
        VF_CHECK(vf::CONTENT, r == (sl[i].m == sl[j].m), "v%d == v%d is %d for %s and %s", i, j, (int)r, shows(sl[i].m).c_str(), shows(sl[j].m).c_str());

        // and with a container that is the same but for at most one element
        if (sl[i].m.size() > 400 || (E::nested && std::count(sl[i].m.begin(), sl[i].m.end(), E::def()))) return;
        Seq m2(sl[i].m);
        unsigned how = s.draw(5);
        if (how == 4 || m2.empty()) m2.push_back(E::norm(mk(3, 3)));
        else if (how == 3) m2.pop_back();
        else if (how) { size_t p = how == 1 ? m2.size() - 1 : s.draw((uint32_t)m2.size()); Val v = m2[p]; v.key = v.key == 1 ? 2 : 1; m2[p] = E::norm(v); }
        unsigned allowed = W().allowed; W().allowed = ~0u;
        {
            C t(AllocInfo<A>::make(sl[i].arena));
            DErr err;
            for (size_t q = 0; q < m2.size(); ++q) { typename E::Holder h(m2[q]); t.push_back_nothrow(err, static_cast<const T&>(h.ref())); }
            if (!err)
            {
                bool e = m2 == Seq(sl[i].m);
                VF_CHECK(vf::CONTENT, (*sl[i].c == t) == e, "v%d == copy%s is %d for %s and %s", i, e ? "" : " with one difference", (int)!e, shows(sl[i].m).c_str(), shows(m2).c_str());
                VF_CHECK(vf::CONTENT, (t == *sl[i].c) == e, "copy%s == v%d is %d for %s and %s", e ? "" : " with one difference", i, (int)!e, shows(m2).c_str(), shows(sl[i].m).c_str());
            }
        }
        W().allowed = allowed;
    }
    template <class U> typename std::enable_if<!HasEq<U>::value>::type do_eq(int, int) {}

    // with exceptions a vector can also be used as the vector without them that it holds
#if VF_EXC
    bool through_base() { return !vf::g_tr && s.draw(4) == 3; }
    static C* move_new(C& c, bool base) { return base ? new C(std::move(c.as_noexcept())) : new C(std::move(c)); }
    static void move_assign(C& a, C& b, bool base) { if (base) a = std::move(b.as_noexcept()); else a = std::move(b); }
    static void do_swap(C& a, C& b, bool base) { if (base) a.swap(b.as_noexcept()); else a.swap(b); }
    static void do_copy(Err& err, C& a, const C& b, bool base) { if (base) a.copy_nothrow(err, b.as_noexcept()); else a.copy_nothrow(err, b); }
#else
    bool through_base() { return false; }
    static C* move_new(C& c, bool) { return new C(std::move(c)); }
    static void move_assign(C& a, C& b, bool) { a = std::move(b); }
    static void do_swap(C& a, C& b, bool) { a.swap(b); }
    static void do_copy(Err& err, C& a, const C& b, bool) { a.copy_nothrow(err, b); }
#endif

    template <class D> typename std::enable_if<AllocInfo<D>::movable>::type do_move_assign(int i, int j)
    {
        Slot& a = sl[i]; Slot& b = sl[j];
        uint64_t made = W().ctors + W().copies + W().moves + W().assigns;
        size_t allocs = W().total_allocs();
        uint64_t died = W().dtors;
        const T* p = b.c->empty() ? 0 : &*b.c->begin();
        size_t oldn = a.m.size();
        W().allowed = nested_bit();
        bool base = through_base();
        VF_NOTE("v%d = move(v%d%s)", i, j, base ? ".as_noexcept()" : "");
        VF_DRY("move assignment", move_assign(*a.c, *b.c, base));
        if (i == j)
        {
            a.m = read(*a.c);     // self move: any valid state
            VF_CHECK(vf::MISC, a.m.empty() || a.m.size() == oldn, "self move left %zu of %zu elements", a.m.size(), oldn);
            return;
        }
        VF_CHECK(vf::XFER, made == W().ctors + W().copies + W().moves + W().assigns, "move assignment constructed, copied or assigned elements");
        VF_CHECK(vf::XFER, allocs == W().total_allocs(), "move assignment allocated memory");
        if (E::counted) VF_CHECK(vf::XFER, W().dtors - died == oldn, "move assignment destroyed %lu elements, the target held %zu", (unsigned long)(W().dtors - died), oldn);
        if (p) VF_CHECK(vf::XFER, !a.c->empty() && &*a.c->begin() == p, "move assignment did not take over the storage of the source");
        VF_CHECK(vf::XFER, b.c->empty(), "the source of a move assignment is not empty");
        if (p) ev(EV_MOVE);
        if (a.arena != b.arena) ev(EV_ARENAS);
        a.m = b.m; b.m.clear();
        a.arena = b.arena;
        if (AllocInfo<A>::stateful)
        {
            int got = AllocInfo<A>::arena(b.c->get_allocator());
            b.arena = got;         // the allocator of a moved-from vector is its own business, but it must be used consistently
        }
    }
    template <class D> typename std::enable_if<!AllocInfo<D>::movable>::type do_move_assign(int, int) {}

#if VF_EXC
    template <class U> typename std::enable_if<std::is_copy_constructible<U>::value>::type exc_copy(int op, int i, int j)
    {
        Slot& a = sl[i]; Slot& b = sl[j];
        allow2(a.arena, b.arena);
        if (op == CASSIGN)
        {
            bool base = through_base();
            VF_NOTE("v%d = v%d%s (copy assignment)", i, j, base ? ".as_noexcept()" : "");
            if (!b.m.empty()) ev(EV_COPY);
            const Seq nm = b.m;
            fallible("copy assignment", i, G_ASSIGN, nm, 0, nm, Exec_cassign{this, i, j, base}, j);
        }
        else
        {
            VF_NOTE("v%d = new vector copied from v%d", i, j);
            if (!b.m.empty()) ev(EV_COPY);
            allow(b.arena);
            C* n = 0;
            bool alloc = false;
            Exec_ccopy ex = { &n, b.c, op };
            bool failed = this->attempt("copy construction", ex, true, alloc);
            ++this->steps;
            if (!failed && n)
            {
                Seq nm = b.m;
                int na = b.arena;
                delete a.c;
                a.c = n; a.m = nm; a.arena = na;
            }
            check_all("copy construction", i, j);
        }
    }
    template <class U> typename std::enable_if<!std::is_copy_constructible<U>::value>::type exc_copy(int, int, int) {}
    int arena_of(int i, int other) const
    {
        if (!AllocInfo<A>::stateful) return sl[i].arena;
        int got = AllocInfo<A>::arena(sl[i].c->get_allocator());
        VF_CHECK(vf::ARENA, got == sl[i].arena || got == other, "copy assignment of v%d left allocator instance %d, which neither vector had", i, got);
        return got;
    }
    struct Exec_cassign
    {
        VecMachine* m; int i; int j; bool base;
        void operator()(Err& err) const
        {
            try { if (base) *m->sl[i].c = static_cast<const C&>(*m->sl[j].c).as_noexcept(); else *m->sl[i].c = static_cast<const C&>(*m->sl[j].c); } catch (...) { from_exception_ptr(err, std::current_exception()); }
            m->sl[i].arena = m->arena_of(i, m->sl[j].arena);
        }
    };
    struct Exec_ccopy
    {
        C** n; C* b; int op;
        void operator()(Err& err) const
        {
            try { *n = op == NXCOPY ? new C(b->as_noexcept()) : new C(static_cast<const C&>(*b)); }
            catch (...) { from_exception_ptr(err, std::current_exception()); }
        }
    };
    template <class U> typename std::enable_if<std::is_copy_constructible<U>::value>::type exc_push(int i)
    {
        Slot& x = sl[i];
        Val v = fresh();
        bool rv = s.draw(2);
        Seq post(x.m); post.push_back(v);
        Seq ins(1, v);
        VF_NOTE("v%d.push_back(%s%s) (throwing)", i, rv ? "temporary " : "", show(v).c_str());
        fallible("push_back", i, G_INSERT, post, x.m.size(), ins, [&](Err& err)
        {
            typename E::Holder h(v);
            try { if (rv) x.c->push_back(std::move(h.ref())); else x.c->push_back(h.ref()); }
            catch (...) { from_exception_ptr(err, std::current_exception()); }
        });
    }
    template <class U> typename std::enable_if<!std::is_copy_constructible<U>::value>::type exc_push(int) {}
#else
    template <class U> void exc_copy(int, int, int) {}
    template <class U> void exc_push(int) {}
#endif

    struct InsCall { C& c; Err& err; size_t p; template <class I> void operator()(I b, I e) { c.insert_nothrow(err, c.cbegin() + p, b, e); } };
    // with elements of type int the count may be an int as well
    static void assign_count(C& c, Err& err, size_t n, T& v, std::true_type) { c.assign_nothrow(err, (int)n, (int)v); }
    static void assign_count(C& c, Err& err, size_t n, const T& v, std::false_type) { c.assign_nothrow(err, n, v); }
    struct AsgCall { C& c; Err& err; template <class I> void operator()(I b, I e) { c.assign_nothrow(err, b, e); } };

    void step()
    {
        static const unsigned char weights[NOPS] = { 14, 8, 6, 12, 6, 8, 4, 6, 5, 4, 4, 4, 3, 2, 3, 3, 3, 4, 3, 2, 3, 3, 3, 2 };
        static const unsigned char focus[NOPS] = { 10, 6, 2, 6, 2, 3, 1, 2, 14, 2, 2, 3, 2, 2, 14, 10, 14, 12, 2, 2, 10, 10, 3, 5 };
        do_op(this->pick_op(g_focus ? focus : weights, NOPS));
    }

    void do_op(unsigned op)
    {
        if (vf::g_tr && op >= CCOPY) return;       // not available in both library modes
        int i = (int)s.draw(N);
        Slot& x = sl[i];
        C& c = *x.c;
        allow(x.arena);
        switch (op)
        {
        case PUSH: case PUSHM: case EMPLACE:
        {
            if (!room(i)) { clear(i); break; }
            Val v = op == EMPLACE && !E::emplace2 && !std::is_arithmetic<T>::value ? E::def() : fresh();
            Seq post(x.m); post.push_back(v);
            Seq ins(1, v);
            bool emp = op == PUSHM && s.draw(3) == 2;
            VF_NOTE("v%d.%s(%s)", i, op == PUSH ? "push_back" : op == PUSHM ? "push_back temporary" : "emplace_back", show(v).c_str());
            fallible(op == EMPLACE ? "emplace_back" : "push_back", i, G_INSERT, post, x.m.size(), ins, [&](Err& err)
            {
                if (op == EMPLACE) { this->template do_emplace<T>(c, err, v); return; }
                typename E::Holder h(v);
                if (op == PUSH) { c.push_back_nothrow(err, static_cast<const T&>(h.ref())); untouched("push_back", h.ref(), v); return; }
                this->template push_temp<T>(c, err, h.ref(), emp);
                if (!err) taken("push_back", h.ref());
            });
            break;
        }
        case INS: case INSM:
        {
            if (!room(i)) { clear(i); break; }
            size_t pos = s.draw((uint32_t)x.m.size() + 1);
            Val v = fresh();
            Seq post(x.m); post.insert(post.begin() + pos, v);
            Seq ins(1, v);
            VF_NOTE("v%d.insert(%s%s at %zu)", i, op == INSM ? "temporary " : "", show(v).c_str(), pos);
            fallible("insert", i, G_INSERT, post, pos, ins, [&](Err& err)
            {
                typename E::Holder h(v);
                size_t p = std::min<size_t>(pos, c.size());
                typename C::iterator r = op == INS ? c.insert_nothrow(err, c.cbegin() + p, static_cast<const T&>(h.ref()))
                                                   : c.insert_nothrow(err, c.cbegin() + p, std::move(h.ref()));
                if (err) VF_CHECK(vf::GUAR, r == c.end(), "a failed insertion returned a position other than the end");
                else if (op == INSM) taken("insert", h.ref());
                if (op == INS) untouched("insert", h.ref(), v);
                if (!err) VF_CHECK(vf::RESULT, r == c.begin() + p, "insert at %zu returned a position %td away from the new element", p, r - (c.begin() + p));
            });
            break;
        }
        case INSR:
        {
            size_t k = s.small((uint32_t)std::min<size_t>(room(i), 300));
            size_t pos = s.draw((uint32_t)x.m.size() + 1);
            Seq ins = fresh_seq(k);
            unsigned kind = s.draw(RANGE_KINDS + 2);
            int j = -1;
            if (kind >= RANGE_KINDS)
            {
                j = (int)((i + 1 + s.draw(N - 1)) % N);
                if (sl[j].m.size() > room(i)) kind = 0, j = -1; else ins = sl[j].m;
            }
            Seq post(x.m); post.insert(post.begin() + pos, ins.begin(), ins.end());
            VF_NOTE("v%d.insert(range %s of %s iterators at %zu)", i, shows(ins).c_str(), j < 0 ? range_kind(kind) : "other vector", pos);
            fallible("range insert", i, G_RANGE, post, pos, ins, [&](Err& err)
            {
                size_t p = std::min<size_t>(pos, c.size());
                if (j >= 0) { c.insert_nothrow(err, c.cbegin() + p, sl[j].c->cbegin(), sl[j].c->cend()); return; }
                Vals<T> vs(ins);
                InsCall call = { c, err, p };
                feed(kind, vs, call);
            });
            break;
        }
        case ASGN:
        {
            size_t n = s.small(lim);
            Val v = fresh();
            Seq post(n, v);
            VF_NOTE("v%d.assign(%zu, %s)", i, n, show(v).c_str());
            fallible("assign by count", i, G_ASSIGN, post, 0, post, [&](Err& err) { typename E::Holder h(v); assign_count(c, err, n, h.ref(), std::is_same<T, int>()); });
            break;
        }
        case ASGR:
        {
            size_t k = s.small(lim);
            Seq ins = fresh_seq(k);
            unsigned kind = s.draw(RANGE_KINDS + 2);
            int j = -1;
            if (kind >= RANGE_KINDS) { j = (int)((i + 1 + s.draw(N - 1)) % N); ins = sl[j].m; }
            VF_NOTE("v%d.assign(range %s of %s iterators)", i, shows(ins).c_str(), j < 0 ? range_kind(kind) : "other vector");
            fallible("range assign", i, G_ASSIGN, ins, 0, ins, [&](Err& err)
            {
                if (j >= 0) { c.assign_nothrow(err, sl[j].c->begin(), sl[j].c->end()); return; }
                Vals<T> vs(ins);
                AsgCall call = { c, err };
                feed(kind, vs, call);
            });
            break;
        }
        case COPY:
        {
            int j = (int)((i + 1 + s.draw(N - 1)) % N);
            Seq nm = sl[j].m;
            if (!nm.empty()) ev(EV_COPY);
            if (sl[i].arena != sl[j].arena) ev(EV_ARENAS);
            bool base = through_base();
            VF_NOTE("v%d.copy(v%d%s)", i, j, base ? ".as_noexcept()" : "");
            fallible("copy", i, G_ASSIGN, nm, 0, nm, [&](Err& err) { do_copy(err, c, *sl[j].c, base); }, j);
            break;
        }
        case RESZ: case RESZV:
        {
            size_t n = s.small(lim);
            Val v = op == RESZ ? E::def() : fresh();
            Seq post(x.m); post.resize(n, v);
            Seq ins(n > x.m.size() ? n - x.m.size() : 0, v);
            VF_NOTE("v%d.resize(%zu%s%s)", i, n, op == RESZ ? "" : ", ", op == RESZ ? "" : show(v).c_str());
            fallible("resize", i, G_RESIZE, post, std::min(n, x.m.size()), ins, [&](Err& err)
            {
                if (op == RESZ) { c.resize_nothrow(err, n); return; }
                typename E::Holder h(v);
                c.resize_nothrow(err, n, static_cast<const T&>(h.ref()));
            });
            break;
        }
        case RSV:
        {
            size_t n = s.small(lim + lim / 2);
            size_t cap = c.capacity();
            Seq post = x.m;
            VF_NOTE("v%d.reserve(%zu)", i, n);
            if (n > cap && !post.empty()) ev(EV_REALLOC);
            fallible("reserve", i, G_STRONG, post, 0, Seq(), [&](Err& err)
            {
                size_t allocs = W().total_allocs();
                c.reserve_nothrow(err, n);
                if (n <= cap) VF_CHECK(vf::CAP, W().total_allocs() == allocs, "reserve(%zu) allocated although the capacity was %zu already", n, cap);
                if (!err)
                {
                    VF_CHECK(vf::CAP, c.capacity() >= n, "after reserve(%zu) the capacity is %zu", n, (size_t)c.capacity());
                    VF_CHECK(vf::CAP, c.capacity() >= cap, "reserve lowered the capacity from %zu to %zu", cap, (size_t)c.capacity());
                }
            });
            break;
        }
        case SHRINK:
        {
            Seq post = x.m;
            VF_NOTE("v%d.shrink_to_fit()", i);
            if (c.capacity() > c.size() && !post.empty()) ev(EV_REALLOC);
            fallible("shrink_to_fit", i, G_STRONG, post, 0, Seq(), [&](Err& err)
            {
                c.shrink_to_fit_nothrow(err);
                if (!err) VF_CHECK(vf::CAP, c.capacity() == c.size(), "after shrink_to_fit the capacity is %zu with %zu elements", (size_t)c.capacity(), (size_t)c.size());
            });
            break;
        }
        case CLEAR: clear(i); break;
        case SWAP:
        {
            int j = (int)s.draw(N);
            Slot& y = sl[j];
            uint64_t ops = W().elem_ops();
            size_t allocs = W().total_allocs();
            const T* p = x.m.empty() ? 0 : &*x.c->begin(); const T* q = y.m.empty() ? 0 : &*y.c->begin();
            size_t cp = x.c->capacity(), cq = y.c->capacity();
            W().allowed = nested_bit();
            bool base = through_base();
            VF_NOTE("v%d.swap(v%d%s)", i, j, base ? ".as_noexcept()" : "");
            VF_DRY("swap", do_swap(*x.c, *y.c, base));
            VF_CHECK(vf::XFER, ops == W().elem_ops() && allocs == W().total_allocs(), "swap touched elements or allocated memory");
            if (i != j)
            {
                if (q) VF_CHECK(vf::XFER, &*x.c->begin() == q, "swap relocated elements");
                if (p) VF_CHECK(vf::XFER, &*y.c->begin() == p, "swap relocated elements");
                VF_CHECK(vf::XFER, x.c->capacity() == cq && y.c->capacity() == cp, "swap did not exchange capacities");
                std::swap(x.m, y.m);
                std::swap(x.arena, y.arena);
                if (p || q) ev(EV_MOVE);
                if (x.arena != y.arena) ev(EV_ARENAS);
            }
            ++this->steps;
            check_all("swap", i, j);
            break;
        }
        case MOVEC:
        {
            uint64_t ops = W().elem_ops();
            size_t allocs = W().total_allocs();
            const T* p = x.m.empty() ? 0 : &*x.c->begin();
            W().allowed = nested_bit();
            bool base = through_base();
            VF_NOTE("v%d: moved into a new vector%s", i, base ? " (as_noexcept)" : "");
            C* n;
            VF_DRY("move construction", n = move_new(c, base));
            VF_CHECK(vf::XFER, ops == W().elem_ops() && allocs == W().total_allocs(), "move construction touched elements or allocated memory");
            if (p) { VF_CHECK(vf::XFER, !n->empty() && &*n->begin() == p, "move construction relocated elements"); ev(EV_MOVE); }
            VF_CHECK(vf::XFER, c.empty() && c.size() == 0, "the source of a move construction is not empty");
            // the moved-from vector must be usable
            Seq keep = x.m;
            bool use = s.draw(2) == 0;
            if (use)
            {
                W().allowed = ~0u;
                DErr err;
                typename E::Holder h(mk(5, 0));
                c.push_back_nothrow(err, static_cast<const T&>(h.ref()));
                VF_CHECK(vf::XFER | vf::MISC, !err && c.size() == 1 && E::get(c[0]) == E::norm(mk(5, 0)), "a moved-from vector is not usable");
            }
            delete x.c;
            x.c = n; x.m = keep;
            ++this->steps;
            check_all("move construction", i);
            break;
        }
        case MOVEA:
        {
            int j = (int)s.draw(N);
            do_move_assign<A>(i, j);
            ++this->steps;
            check_all("move assignment", i, j);
            break;
        }
        case WRITE:
            if (E::writable && !x.m.empty())
            {
                size_t p = s.draw((uint32_t)x.m.size());
                Val v = fresh();
                VF_NOTE("v%d[%zu] := %s", i, p, show(v).c_str());
                E::set(s.draw(2) ? c[p] : *(c.begin() + p), v);
                x.m[p] = v;
                check_all("element write", i);
            }
            break;
        case EQ:
        {
            int j = (int)s.draw(N);
            VF_NOTE("v%d == v%d", i, j);
            do_eq<T>(i, j);
            break;
        }
        case FRESH:
        {
            VF_NOTE("v%d: destroyed and created anew", i);
            W().allowed = 0;
            VF_DRY("destruction", delete x.c);
            x.m.clear();
            x.arena = pick_arena();
            VF_DRY("construction", x.c = new C(AllocInfo<A>::make(x.arena)));
            check_all("construction", i);
            break;
        }
        case CCOPY: case CASSIGN: case NXCOPY:
        {
            int j = (int)((i + 1 + s.draw(N - 1)) % N);
            exc_copy<T>((int)op, i, j);
            break;
        }
        case TPUSH:
            if (room(i)) exc_push<T>(i);
            break;
        default: break;
        }
    }
    void clear(int i)
    {
        Slot& x = sl[i];
        W().allowed = 0;
        size_t cap = x.c->capacity();
        VF_NOTE("v%d.clear()", i);
        VF_DRY("clear", x.c->clear());
        VF_CHECK(vf::CAP, x.c->capacity() == cap, "clear changed the capacity from %zu to %zu", cap, (size_t)x.c->capacity());
        x.m.clear();
        ++this->steps;
        check_all("clear", i);
    }

    void finish()
    {
        for (int i = 0; i < N; ++i) observe(i, "the history");
        W().allowed = 0;
        for (int i = 0; i < N; ++i) { delete sl[i].c; sl[i].c = 0; }
        final_balance();
    }

    // ---------------------------------------------------------------- scenarios
    static void history(vf::Src& s, unsigned rate)
    {
        W().reset();
        VecMachine m(s);
        m.fault_rate = rate;
        m.start();
        m.swarm(NOPS);
        unsigned n = 3 + s.small(45);
        for (unsigned q = 0; q < n; ++q) m.step();
        m.fault_rate = 0;
        m.finish();
    }
    static void plain(vf::Src& s) { history(s, 0); }
    static void faulty(vf::Src& s) { history(s, 4); }
    // one fallible operation after a short history, with every possible failure point tried in turn
    static void enumerate(vf::Src& s)
    {
        static const unsigned char fallible_ops[] = { PUSH, PUSHM, EMPLACE, INS, INSM, INSR, ASGN, ASGR, COPY, RESZ, RESZV, RSV, SHRINK, CCOPY, CASSIGN, TPUSH, NXCOPY };
        size_t start = s.mark();
        for (int kind = 1; kind <= (Fails<T>::elem ? 2 : 1); ++kind)
            if (g_kinds & (unsigned)kind)
            for (long k = 0; k < 400; ++k)
            {
                s.rewind(start);
                W().reset();
                VecMachine m(s);
                m.start();
                m.swarm(NOPS);
                unsigned op = fallible_ops[s.draw(sizeof fallible_ops)];
                unsigned after = s.draw(4);
                unsigned n = s.small(14);
                for (unsigned q = 0; q < n; ++q) m.step();
                m.force_kind = kind; m.force_k = k;
                m.do_op(op);
                bool fired = m.forced_fired;
                m.force_kind = 0;
                for (unsigned q = 0; q < after; ++q) m.step();
                m.finish();
                if (!fired) break;
                vf::hit("failure points enumerated");
            }
    }
};

} // namespace VM

#endif
