// History machine for nestl::set: a few sets with stateful comparators and allocators against sorted models.
// Each model node remembers the address and an iterator of the real element.
#ifndef VF_SETM_HPP
#define VF_SETM_HPP

#include "machine.hpp"

namespace VM
{

inline bool val_less(int mode, const Val& a, const Val& b)
{
    switch (mode)
    {
    case 0: return a.key < b.key;
    case 1: return a.key > b.key;
    case 2: return (unsigned)a.key % 11u < (unsigned)b.key % 11u;
    case 3: return (a.key >> 2) < (b.key >> 2);
    default:
    {
        unsigned x = (unsigned)a.key * 2654435761u, y = (unsigned)b.key * 2654435761u;
        return x < y;
    }
    }
}
template <class T> struct SCmp       // stateful strict weak ordering
{
    int mode;
    SCmp() NESTL_NOEXCEPT_SPEC : mode(0) {}
    explicit SCmp(int m) NESTL_NOEXCEPT_SPEC : mode(m) {}
    bool operator()(const T& a, const T& b) const NESTL_NOEXCEPT_SPEC
    {
        ++W().cmps;
        g_last_mode = mode;
        return val_less(mode, ET<T>::get(a), ET<T>::get(b));
    }
};

template <class T, class A, class Err> struct SetMachine : MachBase<Err>
{
    typedef nestl::set<T, SCmp<T>, A> C;
    typedef ET<T> E;
    typedef MachBase<Err> B;
    using B::s; using B::tagseq;
    enum { N = 3 };
    typedef typename C::iterator It;
    typedef typename C::const_iterator CIt;
    struct Nd { Val v; const T* a; It it; };
    typedef std::vector<Nd> Mod;
    struct Slot { C* c; Mod m; int arena; int mode; };
    Slot sl[N];
    unsigned lim;
    int span;            // keys are drawn from [-span, span] mostly

    explicit SetMachine(vf::Src& src) : B(src), lim(8), span(8)
    {
        this->can_elem = this->can_elem && Fails<T>::elem;
        for (int i = 0; i < N; ++i) sl[i].c = 0;
    }
    ~SetMachine() { for (int i = 0; i < N; ++i) delete sl[i].c; }

    unsigned nested_bit() const { return E::nested ? 1u : 0u; }
    void allow(int a) { W().allowed = AllocInfo<A>::stateful ? (1u << a) | nested_bit() : ~0u; }
    int pick_arena() { return E::nested ? 1 + (int)s.draw(3) : (int)s.draw(4); }
    int pick_mode() { return (int)s.draw(5); }

    C* make(int mode, int arena)
    {
        if (mode == 0 && s.draw(3) == 0) return new C(AllocInfo<A>::make(arena));
        return new C(SCmp<T>(mode), AllocInfo<A>::make(arena));
    }
    void start()
    {
        unsigned d = s.draw(32);
        lim = d < 14 ? 9 : d < 27 ? 40 : d < 31 ? 200 : 900;
        if (E::nested && lim > 40) lim = 40;
        span = (int)(lim * (1 + s.draw(3)));
        bool same = s.draw(2) == 0;
        for (int i = 0; i < N; ++i)
        {
            sl[i].arena = pick_arena();
            sl[i].mode = same && i ? sl[0].mode : pick_mode();
            sl[i].c = make(sl[i].mode, sl[i].arena);
            VF_NOTE("s%d: empty set<%s> with ordering %d and allocator %d", i, E::name(), sl[i].mode, sl[i].arena);
        }
    }

    static Nd node(Val v) { Nd n; n.v = v; n.a = 0; return n; }
    static Seq vals(const Mod& m) { Seq r; for (size_t i = 0; i < m.size(); ++i) r.push_back(m[i].v); return r; }
    static Mod rebuild(const Seq& v) { Mod m; for (size_t i = 0; i < v.size(); ++i) m.push_back(node(v[i])); return m; }
    static Seq read(const C& c)
    {
        Seq r;
        size_t n = 0;
        for (CIt i = c.begin(); i != c.end(); ++i)
        {
            if (++n > 100000) { VF_CHECK(vf::CONTENT | vf::GUAR | vf::WALK, false, "iteration over a set does not end"); break; }
            r.push_back(E::get(*i));
        }
        return r;
    }
    static size_t lower(const Mod& m, int mode, Val v)
    {
        size_t lo = 0, hi = m.size();
        while (lo < hi) { size_t mid = (lo + hi) / 2; if (val_less(mode, m[mid].v, v)) lo = mid + 1; else hi = mid; }
        return lo;
    }
    static bool has(const Mod& m, int mode, Val v, size_t p) { return p < m.size() && !val_less(mode, v, m[p].v); }

    void observe(int i, const char* name)
    {
        Slot& x = sl[i];
        C& c = *x.c;
        const C& k = c;
        Seq want = vals(x.m);
        Seq a = read(c);
        if (a != want)
        {
            VF_CHECK(vf::CONTENT, false, "after %s: s%d holds %s, expected %s", name, i, shows(a).c_str(), shows(want).c_str());
            x.m = rebuild(a); want = a;
        }
        size_t n = want.size();
        {
            It it = c.begin();
            for (size_t q = 0; q < n; ++q, ++it)
            {
                Nd& d = x.m[q];
                if (d.a)
                {
                    VF_CHECK(vf::STAB, d.a == &*it, "after %s: element %s of s%d is no longer at its address", name, show(d.v).c_str(), i);
                    VF_CHECK(vf::STAB, d.it == it && &*d.it == d.a, "after %s: an iterator to element %s of s%d no longer denotes it", name, show(d.v).c_str(), i);
                }
                d.a = &*it; d.it = it;
            }
        }
        VF_CHECK(vf::CONTENT, c.size() == n, "after %s: s%d has size %zu, expected %zu", name, i, (size_t)c.size(), n);
        VF_CHECK(vf::CONTENT, c.empty() == (n == 0), "after %s: empty() of s%d is wrong", name, i);
        if (vf::g_tr)
        {
            vf::tr("size of container", (long long)c.size());
            for (size_t q = 0; q < a.size(); ++q) { vf::tr("element key", a[q].key); vf::tr("element tag", a[q].tag); }
        }
        else if (!vf::on(vf::CONTENT)) return;
        bool ok = true;
        size_t j = 0;
        for (It it = c.begin(); it != c.end(); ++it, ++j) ok = ok && j < n && E::get(*it) == want[j];
        VF_CHECK(vf::CONTENT, ok && j == n, "after %s: iteration over s%d is wrong", name, i);
        j = 0;
        for (CIt it = k.cbegin(); it != k.cend(); ++it, ++j) ok = ok && j < n && E::get(*it) == want[j];
        VF_CHECK(vf::CONTENT, ok && j == n, "after %s: const iteration over s%d is wrong", name, i);
        j = n;
        for (It it = c.end(); it != c.begin(); ) { --it; ok = ok && j > 0 && E::get(*it) == want[j - 1]; --j; if (!ok) break; }
        VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: backward iteration over s%d is wrong", name, i);
        j = n;
        for (typename C::reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { ok = ok && j > 0 && E::get(*it) == want[j - 1]; --j; if (!ok) break; }
        VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: reverse iteration over s%d is wrong", name, i);
        j = n;
        for (typename C::const_reverse_iterator it = k.rbegin(); it != k.rend(); ++it) { ok = ok && j > 0 && E::get(*it) == want[j - 1]; --j; if (!ok) break; }
        VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: const reverse iteration over s%d is wrong", name, i);
        j = n;
        for (typename C::const_reverse_iterator it = k.crbegin(); it != k.crend(); ++it) { ok = ok && j > 0 && E::get(*it) == want[j - 1]; --j; if (!ok) break; }
        VF_CHECK(vf::CONTENT, ok && j == 0, "after %s: crbegin/crend over s%d is wrong", name, i);
    }
    void check_all(const char* name, int i, int j = -1)
    {
        bool all = this->steps % 4 == 0;
        for (int q = 0; q < N; ++q)
        {
            if (all || q == i || q == j) observe(q, name);
            if (AllocInfo<A>::stateful)
                VF_CHECK(vf::ARENA, AllocInfo<A>::arena(sl[q].c->get_allocator()) == sl[q].arena, "after %s: get_allocator of s%d is instance %d, expected %d",
                         name, q, AllocInfo<A>::arena(sl[q].c->get_allocator()), sl[q].arena);
        }
        if (E::counted)
        {
            size_t sum = 0;
            for (int q = 0; q < N; ++q) sum += sl[q].m.size();
            VF_CHECK(vf::LIFE, W().live == (long)sum, "after %s: %ld element objects are alive but the containers hold %zu", name, W().live, sum);
        }
    }

    // comparisons allowed for one descent (insert: one descent, one equality test, one side test)
    static double lg(double n) { double r = 0; while (n > 1) { n /= 2; r += 1; } return r; }
    static uint64_t bound(size_t n, int descents) { return (uint64_t)(descents * (2.0 * lg((double)n + 1) + 2) + 6); }
    void cost(const char* what, size_t n, uint64_t before, int descents)
    {
        uint64_t used = W().cmps - before, b = descents ? bound(n, descents) : 0;
        VF_CHECK(vf::COST, used <= b, "%s in a set of %zu elements needed %llu comparisons (allowed: %llu)", what, n, (unsigned long long)used, (unsigned long long)b);
    }

    Val fresh()
    {
        unsigned d = s.draw(8);
        int k = d < 6 ? (int)s.draw((uint32_t)(2 * span + 1)) - span : d == 6 ? s.value() : 0;
        if (d == 7)       // near an existing key
        {
            Slot& x = sl[s.draw(N)];
            if (!x.m.empty()) { int base = x.m[s.draw((uint32_t)x.m.size())].v.key; if (base > -2000000000 && base < 2000000000) k = base + (int)s.draw(3) - 1; }
        }
        return E::norm(mk(k, ++tagseq));
    }
    size_t room(int i) const { return sl[i].m.size() < lim ? lim - sl[i].m.size() : 0; }

    // one insertion; armable tells whether faults may be injected
    void insert(int i, Val v, bool rv, bool quiet)
    {
        Slot& x = sl[i];
        size_t p = lower(x.m, x.mode, v);
        bool dup = has(x.m, x.mode, v, p);
        if (!quiet) VF_NOTE("s%d.insert(%s%s)%s", i, rv ? "temporary " : "", show(v).c_str(), dup ? " (present)" : "");
        auto ex = [&](Err& err)
        {
            typename E::Holder h(v);
            size_t n = x.m.size();
            uint64_t c0 = W().cmps;
            std::pair<It, bool> r;
            auto call = [&]() { r = rv ? x.c->insert_nothrow(err, std::move(h.ref())) : x.c->insert_nothrow(err, static_cast<const T&>(h.ref())); };
            if (dup) VF_DRY("insertion of an element that is present", call());
            else call();
            cost("insert", n, c0, 1);
            if (!rv) untouched("insert", h.ref(), v);
            if (err) VF_CHECK(vf::GUAR, r.first == x.c->end(), "a failed insertion returned a position other than the end");
            if (!err)
            {
                if (rv && !dup) taken("insert", h.ref());
                VF_CHECK(vf::RESULT, r.second == !dup, "insert of %s returned %s although an equivalent element was %s", show(v).c_str(), r.second ? "true" : "false", dup ? "present" : "absent");
                if (dup)
                {
                    VF_CHECK(vf::RESULT, &*r.first == x.m[p].a, "insert of an equivalent element did not return the position of the present one");
                    if (rv) VF_CHECK(vf::RESULT, E::get(h.ref()) == v, "insert of an equivalent element consumed the argument");
                }
                else
                {
                    VF_CHECK(vf::RESULT, E::get(*r.first) == v, "insert of %s returned a position that holds %s", show(v).c_str(), show(E::get(*r.first)).c_str());
                    It nx = r.first; ++nx;
                    VF_CHECK(vf::RESULT, p < n ? nx != x.c->end() && &*nx == x.m[p].a : nx == x.c->end(), "insert of %s returned a position with the wrong successor", show(v).c_str());
                }
            }
        };
        Seq pre = vals(x.m);
        bool alloc = false;
        ++this->steps;
        if (this->steps >= 4) ev(EV_STEPS);
        bool failed = this->attempt("insert", ex, !quiet, alloc);
        if (!failed)
        {
            if (dup) { ev(EV_DUP); return; }
            if (p > 0 && p < x.m.size()) ev(EV_MIDDLE);
            x.m.insert(x.m.begin() + p, node(v));
            if (x.m.size() > 64) ev(EV_BIG);
            if (E::nested || Fails<T>::elem) ev(EV_NESTED);
            return;
        }
        Seq a = read(*x.c);
        VF_CHECK(vf::GUAR, a == pre, "insert into s%d failed for lack of %s; the content must be unchanged; it was %s and is %s", i, alloc ? "memory" : "an element", shows(pre).c_str(), shows(a).c_str());
        if (a != pre) x.m = rebuild(a);
        check_all("failed insert", i);
        if (vf::on(vf::RETRY))
        {
            unsigned rate = this->fault_rate; this->fault_rate = 0;
            vf::hit("operation retried after a failure");
            VF_NOTE("   retry");
            bool again = this->attempt("insert", ex, true, alloc);
            VF_CHECK(vf::RETRY, !again, "insert into s%d fails again although nothing fails any more", i);
            if (!again && !dup) x.m.insert(x.m.begin() + p, node(v));
            this->fault_rate = rate;
        }
    }
    void erase_at(int i, size_t p, unsigned how, bool quiet)
    {
        Slot& x = sl[i];
        Val v = x.m[p].v;
        uint64_t made = W().ctors + W().copies + W().moves + W().assigns;
        W().allowed = nested_bit();
        if (how == 2)
        {
            Val probe = v;
            typename E::Holder h(probe);
            uint64_t made2 = W().ctors + W().copies + W().moves + W().assigns;
            if (!quiet) VF_NOTE("s%d.erase(key %s)", i, show(v).c_str());
            uint64_t c0 = W().cmps;
            size_t r;
            VF_DRY("erase by key", r = x.c->erase(static_cast<const T&>(h.ref())));
            cost("erase by key", x.m.size(), c0, 3);
            VF_CHECK(vf::RESULT, r == 1, "erase of the present key %s returned %zu", show(v).c_str(), r);
            VF_CHECK(vf::STAB, made2 == W().ctors + W().copies + W().moves + W().assigns, "erasing an element copied or assigned elements");
        }
        else
        {
            if (!quiet) VF_NOTE("s%d.erase(position %zu)", i, p);
            CIt q;
            if (how == 0 && x.m[p].a) q = CIt(x.m[p].it);
            else if (p <= x.m.size() / 2) { q = x.c->cbegin(); for (size_t k = 0; k < p; ++k) ++q; }
            else { q = x.c->cend(); for (size_t k = x.m.size(); k > p; --k) --q; }
            uint64_t c0 = W().cmps;
            It r;
            VF_DRY("erase through a position", r = x.c->erase(q));
            cost("erase through a position", x.m.size(), c0, 0);
            VF_CHECK(vf::RESULT, p + 1 < x.m.size() ? r != x.c->end() && E::get(*r) == x.m[p + 1].v : r == x.c->end(), "erase at %zu did not return the position after the erased element", p);
            VF_CHECK(vf::STAB, made == W().ctors + W().copies + W().moves + W().assigns, "erasing an element copied or assigned other elements");
        }
        x.m.erase(x.m.begin() + p);
        ++this->steps;
        ev(EV_ERASE);
    }

    enum Op { INS, INSM, ERP, ERK, ERKN, FIND, FINDN, CLEAR, COPY, MOVEC, MOVEA, FRESH, BULKI, BULKE, ITER, NOPS };

    void step()
    {
        static const unsigned char weights[NOPS] = { 22, 10, 12, 6, 4, 5, 5, 1, 6, 3, 4, 2, 6, 5, 2 };
        static const unsigned char focus[NOPS] = { 14, 6, 8, 2, 2, 2, 2, 1, 18, 10, 16, 2, 4, 3, 1 };
        do_op(this->pick_op(g_focus ? focus : weights, NOPS));
    }
    void do_op(unsigned op)
    {
        int i = (int)s.draw(N);
        Slot& x = sl[i];
        C& c = *x.c;
        allow(x.arena);
        size_t n = x.m.size();
        switch (op)
        {
        case INS: case INSM:
            if (!room(i)) { clear(i); break; }
            insert(i, fresh(), op == INSM, false);
            check_all("insert", i);
            break;
        case ERP: case ERK:
        {
            if (!n) break;
            size_t p = s.draw((uint32_t)n);
            erase_at(i, p, op == ERK ? 2 : s.draw(2), false);
            check_all("erase", i);
            break;
        }
        case ERKN: case FIND: case FINDN:
        {
            Val v = fresh();
            if (op == FIND && n) v = mk(x.m[s.draw((uint32_t)n)].v.key, v.tag);
            v = E::norm(v);
            size_t p = lower(x.m, x.mode, v);
            bool dup = has(x.m, x.mode, v, p);
            typename E::Holder h(v);
            const T& key = h.ref();
            W().allowed = nested_bit();
            uint64_t made = W().elem_ops();
            uint64_t c0 = W().cmps;
            if (op == ERKN)
            {
                VF_NOTE("s%d.erase(key %s)%s", i, show(v).c_str(), dup ? "" : " (absent)");
                size_t r;
                VF_DRY("erase by key", r = c.erase(key));
                cost("erase by key", n, c0, 3);
                VF_CHECK(vf::RESULT, r == (dup ? 1u : 0u), "erase of key %s returned %zu", show(v).c_str(), r);
                if (dup) { x.m.erase(x.m.begin() + p); ev(EV_ERASE); }
                ++this->steps;
            }
            else
            {
                VF_NOTE("s%d.find(%s)%s", i, show(v).c_str(), dup ? "" : " (absent)");
                It r;
                VF_DRY("find", r = c.find(key));
                cost("find", n, c0, 2);
                c0 = W().cmps;
                CIt q;
                VF_DRY("find", q = static_cast<const C&>(c).find(key));
                cost("find", n, c0, 2);
                VF_CHECK(vf::RESULT, dup ? r != c.end() && &*r == x.m[p].a : r == c.end(), "find(%s) is wrong", show(v).c_str());
                VF_CHECK(vf::RESULT, dup ? q != static_cast<const C&>(c).end() && &*q == x.m[p].a : q == static_cast<const C&>(c).end(), "const find(%s) is wrong", show(v).c_str());
                VF_CHECK(vf::XFER | vf::STAB, made == W().elem_ops(), "find constructed, copied or destroyed elements");
            }
            h.~Holder();
            check_all(op == ERKN ? "erase" : "find", i);
            new (static_cast<void*>(&h)) typename E::Holder(v);
            break;
        }
        case CLEAR: clear(i); break;
        case COPY: copy(i); break;
        case MOVEC:
        {
            VF_NOTE("s%d: moved into a new set", i);
            if (n) ev(EV_MOVE);
            W().allowed = nested_bit();
            uint64_t ops = W().elem_ops(), de = W().deallocs; size_t al = W().total_allocs();
            C* nc;
            VF_DRY("move construction", nc = new C(std::move(c)));
            VF_CHECK(vf::XFER | vf::STAB, ops == W().elem_ops(), "move construction constructed, copied or destroyed elements");
            VF_CHECK(vf::XFER, al == W().total_allocs() && de == W().deallocs, "move construction allocated or released memory");
            moved_from(c, "move construction");
            delete x.c;
            x.c = nc;
            ++this->steps;
            check_all("move construction", i);
            break;
        }
        case MOVEA: { int j = (int)s.draw(N); do_move_assign<A>(i, j); ++this->steps; check_all("move assignment", i, j); break; }
        case FRESH:
            VF_NOTE("s%d: destroyed and created anew", i);
            W().allowed = nested_bit();
            VF_DRY("destruction", delete x.c); x.c = 0;
            x.m.clear();
            x.arena = pick_arena();
            x.mode = pick_mode();
            x.c = make(x.mode, x.arena);
            check_all("construction", i);
            break;
        case BULKI:
        {
            size_t k = s.small((uint32_t)std::min<size_t>(room(i), 400));
            unsigned pat = s.draw(5);
            int base = (int)s.draw((uint32_t)(2 * span + 1)) - span;
            int step = 1 + (int)s.draw(3);
            bool rv = s.draw(2);
            VF_NOTE("s%d: %zu insertions, pattern %u from %d step %d", i, k, pat, base, step);
            for (size_t q = 0; q < k; ++q)
            {
                int iq = (int)q, key;
                switch (pat)
                {
                case 0: key = base + iq * step; break;
                case 1: key = base - iq * step; break;
                case 2: key = (iq & 1) ? base + iq * step : base - iq * step; break;
                case 3: { int h = (int)k - iq; key = (iq & 1) ? base + h * step : base - h * step; break; }
                default: key = base + (int)(((unsigned)iq * 40503u) % 1021u); break;
                }
                insert(i, E::norm(mk(key, ++tagseq)), rv, true);
                // the new element's address is not yet known to the model
                if (q + 1 < k) observe_light(i);
            }
            check_all("a run of insertions", i);
            break;
        }
        case BULKE:
        {
            size_t k = s.small((uint32_t)std::min<size_t>(n, 400));
            unsigned pat = s.draw(5);
            unsigned how = s.draw(3);
            unsigned stride = 1 + s.draw(7);
            VF_NOTE("s%d: %zu erasures, pattern %u", i, k, pat);
            size_t p = s.draw((uint32_t)n + 1);
            for (size_t q = 0; q < k; ++q)
            {
                size_t m = x.m.size();
                size_t at;
                switch (pat)
                {
                case 0: at = 0; break;
                case 1: at = m - 1; break;
                case 2: at = (q & 1) ? m - 1 : 0; break;
                case 3: at = m / 2; break;
                default: p = (p + stride) % m; at = p; break;
                }
                erase_at(i, at, how, true);
            }
            check_all("a run of erasures", i);
            break;
        }
        case ITER:
        {
            uint64_t c0 = W().cmps;
            size_t m = 0;
            for (CIt it = c.cbegin(); it != c.cend(); ++it) ++m;
            for (It it = c.end(); it != c.begin(); ) { --it; ++m; }
            VF_CHECK(vf::COST, W().cmps == c0, "iterating over a set invoked the comparator");
            VF_CHECK(vf::CONTENT, m == 2 * n, "iterating over a set forwards and backwards visited %zu elements instead of %zu", m, 2 * n);
            break;
        }
        default: break;
        }
    }
    void observe_light(int i)      // learn the address of the element inserted last
    {
        Slot& x = sl[i];
        for (size_t q = 0; q < x.m.size(); ++q)
            if (!x.m[q].a)
            {
                It it;
                if (q == 0) it = x.c->begin();
                else if (x.m[q - 1].a) { it = x.m[q - 1].it; ++it; }
                else return;
                if (it == x.c->end()) return;
                x.m[q].a = &*it; x.m[q].it = it;
            }
    }
    void clear(int i)
    {
        Slot& x = sl[i];
        W().allowed = nested_bit();
        VF_NOTE("s%d.clear()", i);
        VF_DRY("clear", x.c->clear());
        x.m.clear();
        ++this->steps;
        check_all("clear", i);
    }
    void copy(int i)
    {
        int j = (int)((i + 1 + s.draw(N - 1)) % N);
        Slot& x = sl[i]; Slot& y = sl[j];
        Seq nm = vals(y.m), pre = vals(x.m);
        if (!nm.empty()) ev(EV_COPY);
        if (x.arena != y.arena) ev(EV_ARENAS);
        VF_NOTE("s%d.copy(s%d)", i, j);
        const int from = AllocInfo<A>::pocca ? y.arena : x.arena;     // memory comes from here
        allow(from);
        auto ex = [&](Err& err) { x.c->copy_nothrow(err, *y.c); };
        bool alloc = false;
        uint64_t c0 = W().cmps;
        bool failed = this->attempt("copy", ex, true, alloc);
        VF_CHECK(vf::COST, W().cmps - c0 <= 4 * nm.size() + 16, "copying a set of %zu elements needed %llu comparisons", nm.size(), (unsigned long long)(W().cmps - c0));
        ++this->steps;
        if (failed)
        {
            Seq a = read(*x.c);
            VF_NOTE("   -> failed, s%d = %s", i, shows(a).c_str());
            if (AllocInfo<A>::pocca && a.empty() && AllocInfo<A>::arena(x.c->get_allocator()) == y.arena) x.arena = y.arena;
            VF_CHECK(vf::GUAR, a == pre || is_prefix(a, nm), "copy into s%d failed for lack of %s; the content must be the old content or a prefix of the new content; it was %s and is %s", i, alloc ? "memory" : "an element", shows(pre).c_str(), shows(a).c_str());
            if (a != pre || a.empty())
            {
                x.m = rebuild(a);
                if (x.mode != y.mode)
                {
                    if (a.empty()) x.mode = probe_mode(i, y.mode);
                    else x.mode = y.mode;
                }
            }
            else x.m = rebuild(a);
            check_all("failed copy", i, j);
            if (vf::on(vf::RETRY))
            {
                unsigned rate = this->fault_rate; this->fault_rate = 0;
                vf::hit("operation retried after a failure");
                VF_NOTE("   retry");
                allow(from);
                bool again = this->attempt("copy", ex, true, alloc);
                VF_CHECK(vf::RETRY, !again, "copy into s%d fails again although nothing fails any more", i);
                if (!again) { x.m = rebuild(nm); x.mode = y.mode; x.arena = from; }
                this->fault_rate = rate;
            }
        }
        else { x.m = rebuild(nm); x.mode = y.mode; x.arena = from; if (nm.size() > 64) ev(EV_BIG); if (!nm.empty() && (E::nested || Fails<T>::elem)) ev(EV_NESTED); }
        check_all("copy", i, j);
    }
    // which comparator does the (empty) set use: its own or the other one
    int probe_mode(int i, int other)
    {
        Slot& x = sl[i];
        DErr err;
        unsigned al = W().allowed; W().allowed = ~0u;
        g_last_mode = -1;
        {
            typename E::Holder a(E::norm(mk(1, 0))), b(E::norm(mk(40, 0)));
            x.c->insert_nothrow(err, static_cast<const T&>(a.ref()));
            x.c->insert_nothrow(err, static_cast<const T&>(b.ref()));
        }
        VF_CHECK(vf::GUAR | vf::XFER | vf::MISC, !err && x.c->size() >= 1, "a set is not usable");
        x.c->clear();
        W().allowed = al;
        VF_CHECK(vf::GUAR | vf::XFER | vf::MISC, g_last_mode == x.mode || g_last_mode == other, "s%d orders by comparator %d, which neither set had", i, g_last_mode);
        return g_last_mode;
    }
    void moved_from(C& c, const char* name)
    {
        VF_CHECK(vf::XFER, c.empty() && c.size() == 0 && c.begin() == c.end(), "the source of a %s is not empty", name);
        if (s.draw(2) == 0)
        {
            W().allowed = ~0u;
            DErr err;
            {
                typename E::Holder a(E::norm(mk(5, 0))), b(E::norm(mk(9, 0)));
                c.insert_nothrow(err, static_cast<const T&>(a.ref()));
                c.insert_nothrow(err, static_cast<const T&>(b.ref()));
                VF_CHECK(vf::XFER | vf::MISC, !err && c.size() >= 1 && c.size() <= 2 && c.find(a.ref()) != c.end(), "a moved-from set is not usable");
            }
            c.clear();
        }
    }
    template <class D> typename std::enable_if<AllocInfo<D>::movable>::type do_move_assign(int i, int j)
    {
        Slot& a = sl[i]; Slot& b = sl[j];
        uint64_t made = W().ctors + W().copies + W().moves + W().assigns;
        uint64_t died = W().dtors;
        size_t allocs = W().total_allocs();
        size_t oldn = a.m.size();
        W().allowed = nested_bit();
        VF_NOTE("s%d = move(s%d)", i, j);
        VF_DRY("move assignment", *a.c = std::move(*b.c));
        if (i == j)
        {
            Seq v = read(*a.c);
            VF_CHECK(vf::MISC, v.empty() || v.size() == oldn, "self move left %zu of %zu elements", v.size(), oldn);
            if (v.size() != oldn) a.m = rebuild(v);
            return;
        }
        VF_CHECK(vf::XFER | vf::STAB, made == W().ctors + W().copies + W().moves + W().assigns, "move assignment constructed, copied or assigned elements");
        VF_CHECK(vf::XFER, allocs == W().total_allocs(), "move assignment allocated memory");
        if (E::counted) VF_CHECK(vf::XFER, W().dtors - died == oldn, "move assignment destroyed %lu elements, the target held %zu", (unsigned long)(W().dtors - died), oldn);
        if (!b.m.empty()) ev(EV_MOVE);
        if (a.arena != b.arena) ev(EV_ARENAS);
        VF_CHECK(vf::XFER, b.c->empty(), "the source of a move assignment is not empty");
        a.m.clear();
        a.m.swap(b.m);
        a.arena = b.arena;
        int am = a.mode;
        a.mode = b.mode;
        moved_from(*b.c, "move assignment");
        if (AllocInfo<A>::stateful) b.arena = AllocInfo<A>::arena(b.c->get_allocator());
        if (am != b.mode) b.mode = probe_mode(j, am);
    }
    template <class D> typename std::enable_if<!AllocInfo<D>::movable>::type do_move_assign(int, int) {}

    void finish()
    {
        for (int i = 0; i < N; ++i) observe(i, "the history");
        W().allowed = nested_bit();
        for (int i = 0; i < N; ++i) { delete sl[i].c; sl[i].c = 0; }
        final_balance();
    }
    static void history(vf::Src& s, unsigned rate)
    {
        W().reset();
        SetMachine m(s);
        m.fault_rate = rate;
        m.start();
        m.swarm(NOPS);
        unsigned n = 3 + s.small(45);
        for (unsigned q = 0; q < n; ++q) m.step();
        m.fault_rate = 0;
        m.finish();
    }
    static void plain(vf::Src& s) { history(s, 0); }
    static void faulty(vf::Src& s) { history(s, 4); }
    static void enumerate(vf::Src& s)
    {
        static const unsigned char fallible_ops[] = { INS, INSM, COPY, COPY };
        size_t start = s.mark();
        for (int kind = 1; kind <= (Fails<T>::elem ? 2 : 1); ++kind)
            if (g_kinds & (unsigned)kind)
            for (long k = 0; k < 400; ++k)
            {
                s.rewind(start);
                W().reset();
                SetMachine m(s);
                m.start();
                m.swarm(NOPS);
                unsigned op = fallible_ops[s.draw(sizeof fallible_ops)];
                unsigned after = s.draw(4);
                unsigned n = s.small(14);
                for (unsigned q = 0; q < n; ++q) m.step();
                m.force_kind = kind; m.force_k = k;
                m.do_op(op);
                bool fired = m.forced_fired;
                m.force_kind = 0;
                for (unsigned q = 0; q < after; ++q) m.step();
                m.finish();
                if (!fired) break;
                vf::hit("failure points enumerated");
            }
    }
};

} // namespace VM

#endif
