// PARTS 3
#include "setm.hpp"
#include <set>

#if PART == 0
VF_PROPERTY_CFG(vf::COST, EV_ERASE | EV_BIG, 0, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(set_int_N_plain, 1, plain, SetMachine<int, nestl::allocator<int>, DErr>);
#elif PART == 1
    VF_MACHINE(set_Tr_T_plain, 1, plain, SetMachine<Tr, TA<Tr>, UErr>);
#else

// Long runs of insertions and erasures in adversarial orders; every operation's comparisons are counted,
// and at the end of each phase every element and every gap is looked up.
struct Big12
{
    typedef nestl::set<int, SCmp<int>, nestl::allocator<int> > C;
    vf::Src& s;
    C* c;
    std::set<int> m;         // keys in the order of mode 0; mode 1 is its mirror image
    int mode;
    int lo, hi;              // next key below / above all present ones
    explicit Big12(vf::Src& src) : s(src), c(0), mode(0), lo(-1), hi(0) {}
    ~Big12() { delete c; }

    static unsigned lg(size_t n) { unsigned r = 0; while (n) { ++r; n /= 2; } return r; }     // floor(log2 n) + 1
    static uint64_t limit(size_t n, unsigned descents) { return descents * (2ull * lg(n + 1) + 2) + 6; }
    void cost(const char* what, uint64_t before, unsigned descents)
    {
        uint64_t used = W().cmps - before;
        VF_CHECK(vf::COST, used <= limit(m.size(), descents), "%s in a set of %zu elements needed %llu comparisons (allowed: %llu)", what, m.size(), (unsigned long long)used, (unsigned long long)limit(m.size(), descents));
    }
    void ins(int k)
    {
        DErr err;
        uint64_t b = W().cmps;
        c->insert_nothrow(err, k);
        cost("insert", b, 1);
        m.insert(k);
        if (m.size() > 64) ev(EV_BIG);
    }
    void del(int k, unsigned how)
    {
        uint64_t b = W().cmps;
        if (how == 0) { c->erase(k); cost("erase by key", b, 3); }
        else
        {
            C::iterator i = c->find(k);
            cost("find", b, 2);
            b = W().cmps;
            c->erase(C::const_iterator(i));
            cost("erase through a position", b, 3);
        }
        m.erase(k);
        ev(EV_ERASE);
    }
    void lookups(C& d, const char* what)
    {
        VF_CHECK(vf::COST, d.size() == m.size(), "%s: size %zu, expected %zu", what, (size_t)d.size(), m.size());
        uint64_t b = W().cmps;
        size_t n = 0;
        for (C::iterator i = d.begin(); i != d.end(); ++i) ++n;
        VF_CHECK(vf::COST, W().cmps == b, "iterating over a set invoked the comparator");
        size_t step = m.size() > 1500 ? 3 : 1;
        size_t q = 0;
        uint64_t worst = 0;
        for (std::set<int>::iterator i = m.begin(); i != m.end(); ++i, ++q)
        {
            if (q % step) continue;
            b = W().cmps;
            C::iterator f = d.find(*i);
            uint64_t used = W().cmps - b;
            if (used > worst) worst = used;
            VF_CHECK(vf::COST, f != d.end() && *f == *i, "%s: element %d is not found", what, *i);
            VF_CHECK(vf::COST, used <= limit(m.size(), 2), "%s: finding an element among %zu needed %llu comparisons (allowed: %llu)", what, m.size(), (unsigned long long)used, (unsigned long long)limit(m.size(), 2));
        }
        // the deepest descent of all lookups: one descent plus a constant
        VF_CHECK(vf::COST, worst <= limit(m.size(), 1) || m.size() < 8, "%s: the deepest lookup among %zu elements needed %llu comparisons (allowed: %llu)", what, m.size(), (unsigned long long)worst, (unsigned long long)limit(m.size(), 1));
    }
    int nth(size_t p) { std::set<int>::iterator i = m.begin(); if (p <= m.size() / 2) std::advance(i, p); else { i = m.end(); for (size_t k = m.size(); k > p; --k) --i; } return *i; }

    void run()
    {
        mode = (int)s.draw(2);
        c = new C(SCmp<int>(mode));
        unsigned phases = 1 + s.draw(5);
        bool huge = s.draw(24) == 0;
        bool tiny = s.draw(3) == 0;
        uint32_t top = huge ? 4000 : tiny ? 40 : 400;
        for (unsigned p = 0; p < phases; ++p)
        {
            unsigned kind = s.draw(11);
            size_t n = 1 + s.draw(top);
            unsigned how = s.draw(2);
            unsigned stride = 1 + s.draw(13);
            VF_NOTE("phase %u, %zu steps, with %zu elements", kind, n, m.size());
            switch (kind)
            {
            case 0: for (size_t q = 0; q < n; ++q) ins(hi++); break;                                     // ascending
            case 1: for (size_t q = 0; q < n; ++q) ins(lo--); break;                                     // descending
            case 2: for (size_t q = 0; q < n; ++q) if (q & 1) ins(hi++); else ins(lo--); break;          // outwards
            case 3: { int a = hi, z = hi + (int)n; hi = z; while (a < z) { ins(a++); if (a < z) ins(--z); } break; }   // inwards
            case 4: for (size_t q = 0; q < n && !m.empty(); ++q) { del(*m.begin(), how); ins(hi++); } break;   // window sliding up
            case 5: for (size_t q = 0; q < n && !m.empty(); ++q) { del(*m.rbegin(), how); ins(lo--); } break;  // window sliding down
            case 6: for (size_t q = 0; q < n && !m.empty(); ++q) del(*m.begin(), how); break;
            case 7: for (size_t q = 0; q < n && !m.empty(); ++q) del(*m.rbegin(), how); break;
            case 8: { size_t at = 0; n = std::min<size_t>(n, 800); for (size_t q = 0; q < n && !m.empty(); ++q) { at = (at + stride) % m.size(); del(nth(at), how); } break; }
            case 9:                                                                                       // fill gaps
            {
                int base = (int)s.draw(2000) - 1000;
                for (size_t q = 0; q < n; ++q) { int k = base + (int)((q * 2654435761u >> 7) % 3000); ins(k); lo = std::min(lo, k - 1); hi = std::max(hi, k + 1); }
                break;
            }
            default:                                                                                      // random mix near random places
            {
                n = std::min<size_t>(n, 300);
                for (size_t q = 0; q < n; ++q)
                {
                    int k = (int)s.draw(1200) - 600;
                    if (m.count(k)) del(k, how); else { ins(k); lo = std::min(lo, k - 1); hi = std::max(hi, k + 1); }
                }
                break;
            }
            }
            lookups(*c, "after a phase");
            // carry on with a copy or a moved-to set now and then
            unsigned x = s.draw(6);
            if (x == 0)
            {
                C* d = new C(SCmp<int>(1 - mode));
                DErr err;
                d->copy_nothrow(err, *c);
                delete c; c = d;
                VF_NOTE("copied");
                lookups(*c, "in a copy");
            }
            else if (x == 1) { C* d = new C(std::move(*c)); delete c; c = d; VF_NOTE("moved"); lookups(*c, "in a moved-to set"); }
            else if (x == 2) { C* d = new C(SCmp<int>(1 - mode)); DErr err; d->insert_nothrow(err, 5); *d = std::move(*c); delete c; c = d; VF_NOTE("move-assigned"); lookups(*c, "in a move-assigned set"); }
        }
    }
    static void scenario(vf::Src& s) { W().reset(); { Big12 b(s); b.run(); } final_balance(); }
};
VF_SCENARIO_T(long_runs, 1, Big12::scenario);
#endif
}
