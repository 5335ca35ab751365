// PARTS 3
#include "listm.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::CONTENT | vf::STAB | vf::COST, EV_TRANSFER, 0, false)
#endif
namespace VM
{

// One or two lists built from generated values, sorted and merged; every element is followed by address.
template <class T, class A> struct Sorter
{
    typedef nestl::list<T, A> C;
    typedef ET<T> E;
    struct Nd { Val v; const T* a; };
    typedef std::list<Nd> Mod;
    struct Less { int mode; bool operator()(const Nd& a, const Nd& b) const { return less(mode, a.v, b.v); } };
    static bool less(int mode, const Val& a, const Val& b)
    {
        switch (mode)
        {
        case 0: return a.key < b.key;
        case 1: return a.key > b.key;
        case 2: return (unsigned)a.key % 5u < (unsigned)b.key % 5u;
        case 3: return (a.key >> 3) < (b.key >> 3);
        case 4: return false;                                 // everything equivalent
        default: return (unsigned)a.key * 2654435761u < (unsigned)b.key * 2654435761u;
        }
    }
    struct Cmp          // stateful, copies allowed, counts calls
    {
        int mode; uint64_t* calls;
        bool operator()(const T& a, const T& b) const { ++*calls; return less(mode, E::get(a), E::get(b)); }
    };
    static void build(vf::Src& s, C& c, Mod& m, size_t n, int& tag)
    {
        Seq v;
        unsigned pat = s.draw(8);
        int base = (int)s.draw(100);
        unsigned span = 1 + s.small(60);
        for (size_t i = 0; i < n; ++i)
        {
            int k;
            switch (pat)
            {
            case 0: k = (int)s.draw(span); break;
            case 1: k = base + (int)i; break;
            case 2: k = base - (int)i; break;
            case 3: k = (int)(i % span); break;
            case 4: k = (int)((i * 2654435761u) >> 9) % 10000; break;
            case 5: k = (i & 1) ? (int)i : -(int)i; break;
            case 6: k = i + 1 == n ? -1 : (int)i; break;      // sorted but for the last one
            default: k = base; break;
            }
            v.push_back(E::norm(mk(k, ++tag)));
        }
        Vals<T> vs(v);
        DErr err;
        c.assign_nothrow(err, static_cast<const T*>(vs.begin()), static_cast<const T*>(vs.end()));
        if (err) VF_FAIL("could not build a list");
        learn(c, m);
    }
    static void learn(C& c, Mod& m) { m.clear(); for (typename C::iterator i = c.begin(); i != c.end(); ++i) { Nd d = { E::get(*i), &*i }; m.push_back(d); } }
    static void same(const char* what, C& c, const Mod& m)
    {
        typename C::iterator i = c.begin();
        size_t q = 0;
        for (typename Mod::const_iterator j = m.begin(); j != m.end(); ++j, ++i, ++q)
        {
            VF_CHECK(vf::CONTENT, i != c.end(), "%s: the list ends after %zu of %zu elements", what, q, m.size());
            VF_CHECK(vf::CONTENT, E::get(*i) == j->v, "%s: element %zu of %zu is %s, expected %s", what, q, m.size(), show(E::get(*i)).c_str(), show(j->v).c_str());
            VF_CHECK(vf::STAB, &*i == j->a, "%s: element %zu is not the object it was", what, q);
        }
        VF_CHECK(vf::CONTENT, i == c.end() && c.size() == m.size() && c.empty() == m.empty(), "%s: the list has more than %zu elements", what, m.size());
        q = m.size();
        for (typename Mod::const_reverse_iterator j = m.rbegin(); j != m.rend(); ++j) { --i; --q; VF_CHECK(vf::CONTENT, &*i == j->a, "%s: going backwards, element %zu of %zu is wrong", what, q, m.size()); }
        VF_CHECK(vf::CONTENT, i == c.begin(), "%s: going backwards does not reach the beginning", what);
    }
    struct Probe
    {
        uint64_t ops, de; size_t al;
        Probe() : ops(W().elem_ops()), de(W().deallocs), al(W().total_allocs()) { W().allowed = 0; }
        void check(const char* what) const
        {
            VF_CHECK(vf::STAB, ops == W().elem_ops(), "%s constructed, copied, assigned or destroyed elements", what);
            VF_CHECK(vf::STAB, al == W().total_allocs() && de == W().deallocs, "%s allocated or released memory", what);
            W().allowed = ~0u;
        }
    };
    static double lg(double n) { double r = 0; while (n > 1) { n /= 2; r += 1; } return r; }
    template <class U> static typename std::enable_if<ET<U>::less>::type plain_sort(C& c) { c.sort(); }
    template <class U> static typename std::enable_if<!ET<U>::less>::type plain_sort(C& c) { static uint64_t z; Cmp k = { 0, &z }; c.sort(k); }
    static void do_sort(C& c, Mod& m, int mode, bool plain)
    {
        size_t n = m.size();
        uint64_t calls = 0;
        Cmp k = { mode, &calls };
        uint64_t c0 = W().cmps;
        VF_NOTE("sort %zu elements by ordering %d", n, mode);
        Probe p;
        if (plain) { plain_sort<T>(c); mode = 0; } else c.sort(k);
        p.check("sort");
        calls += W().cmps - c0;
        Less l = { mode };
        m.sort(l);
        same("after sort", c, m);
        VF_CHECK(vf::COST, (double)calls <= 1.5 * (double)n * (lg((double)n) + 1) + 8, "sorting %zu elements needed %llu comparisons", n, (unsigned long long)calls);
        if (n > 1) ev(EV_TRANSFER);
    }
    template <class U> static typename std::enable_if<ET<U>::less>::type plain_merge(C& a, C& b, bool rv) { if (rv) a.merge(std::move(b)); else a.merge(b); }
    template <class U> static typename std::enable_if<!ET<U>::less>::type plain_merge(C& a, C& b, bool rv) { static uint64_t z; Cmp k = { 0, &z }; if (rv) a.merge(std::move(b), k); else a.merge(b, k); }
    // up to a million elements and more: only order, stability and comparisons
    static void million(vf::Src& s)
    {
        size_t n = (size_t(1) << (18 + s.draw(3))) + s.draw(3);
        unsigned keys = 1u << (4 + s.draw(24)), r = s.draw(1000) + 1;
        bool rising = s.draw(3) == 2;
        VF_NOTE("sort %zu elements with %u different keys", n, keys);
        vf::hit("about a million elements");
        nestl::list<std::pair<int, int> > l;
        std::vector<std::pair<int, int> > m;
        nestl::default_operation_error err;
        for (size_t i = 0; i < n; ++i) { r = r * 1664525u + 1013904223u; std::pair<int, int> p(rising ? (int)i : (int)((r >> 4) % keys), (int)i); m.push_back(p); l.push_back_nothrow(err, p); }
        if (err) VF_FAIL("could not build a list");
        uint64_t calls = 0;
        First by = { &calls };
        l.sort(by);
        VF_CHECK(vf::COST, (double)calls <= 1.5 * (double)n * (lg((double)n) + 1) + 8, "sorting %zu elements needed %llu comparisons", n, (unsigned long long)calls);
        std::stable_sort(m.begin(), m.end(), by);
        size_t q = 0;
        for (nestl::list<std::pair<int, int> >::iterator i = l.begin(); i != l.end(); ++i, ++q) VF_CHECK(vf::CONTENT, q < n && *i == m[q], "after sort: element %zu of %zu is wrong", q, n);
        VF_CHECK(vf::CONTENT, q == n, "after sort: the list has %zu elements, expected %zu", q, n);
    }
    struct First { uint64_t* n; bool operator()(const std::pair<int, int>& a, const std::pair<int, int>& b) const { ++*n; return a.first < b.first; } };
    static void scenario(vf::Src& s)
    {
        W().reset();
        {
            int tag = 0;
            C a(AllocInfo<A>::make(1)), b(AllocInfo<A>::make(1));
            Mod ma, mb;
            unsigned d = s.draw(4096);
            size_t top = d < 2560 ? 12 : d < 3840 ? 80 : d < 4032 ? 600 : d < 4095 ? 6000 : 140000;
            if (E::nested && top > 80) top = 80;
            size_t na = s.draw((uint32_t)top + 1);
            if (top > 6000 && std::is_same<T, int>::value && s.draw(3) == 2) { million(s); return; }
            if (top > 6000) { na = (s.draw(2) ? 131072 : 65536) + s.draw(3); vf::hit("more than 65536 elements"); }
            else if (top >= 600 && s.draw(2)) { size_t p2 = 1; while (p2 * 2 <= na) p2 *= 2; na = p2 + s.draw(3) - (p2 > 1 ? 1 : 0); }     // around powers of two
            build(s, a, ma, na, tag);
            unsigned rounds = 1 + s.draw(3);
            for (unsigned r = 0; r < rounds; ++r)
            {
                int mode = (int)s.draw(6);
                bool plain = mode == 0 && s.draw(2);
                do_sort(a, ma, mode, plain);
                if (s.draw(2)) continue;
                build(s, b, mb, s.draw((uint32_t)std::min<size_t>(top, 70000) + 1), tag);
                do_sort(b, mb, mode, plain);
                bool rv = s.draw(2);
                size_t total = ma.size() + mb.size();
                uint64_t calls = 0;
                Cmp k = { mode, &calls };
                uint64_t c0 = W().cmps;
                VF_NOTE("merge %zu elements into %zu by ordering %d", mb.size(), ma.size(), mode);
                if (!ma.empty() && !mb.empty()) ev(EV_TRANSFER);
                Probe p;
                if (plain) plain_merge<T>(a, b, rv);
                else if (rv) a.merge(std::move(b), k);
                else a.merge(b, k);
                p.check("merge");
                calls += W().cmps - c0;
                Less l = { mode };
                ma.merge(mb, l);
                same("destination of merge", a, ma);
                same("source of merge", b, mb);
                VF_CHECK(vf::COST, calls <= total + 2, "merging %zu elements needed %llu comparisons", total, (unsigned long long)calls);
                if (ma.size() > 4 * top) { a.clear(); ma.clear(); build(s, a, ma, s.draw((uint32_t)top + 1), tag); }
            }
        }
        final_balance();
    }
};
#if PART == 0
typedef Sorter<Tr, TA<Tr> > S_Tr;
typedef Sorter<int, nestl::allocator<int> > S_int;
VF_SCENARIO_T(sort_Tr, 3, S_Tr::scenario);
VF_SCENARIO_T(sort_int, 2, S_int::scenario);
#elif PART == 1
typedef Sorter<Tp, TA<Tp> > S_Tp;
typedef Sorter<NV, TA<NV> > S_NV;
VF_SCENARIO_T(sort_Tp, 1, S_Tp::scenario);
VF_SCENARIO_T(sort_NV, 1, S_NV::scenario);
#if VF_EXC
typedef Sorter<Tm, TA<Tm> > S_Tm;
VF_SCENARIO_T(sort_Tm, 1, S_Tm::scenario);
#endif
#else
    VF_MACHINE(list_Tr_T_plain, 2, plain, ListMachine<Tr, TA<Tr>, UErr>);
#endif
}
