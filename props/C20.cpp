// PARTS 3
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::WALK, 0, 3, false)
#endif
namespace VM
{

template <class T> inline Seq model_of(const Seq& m) { return m; }
template <class T, class M> inline Seq model_of(const M& m) { Seq r; for (typename M::const_iterator i = m.begin(); i != m.end(); ++i) r.push_back(i->v); return r; }

// Random walks over one container. idx counts forward positions: 0 is begin, n is end.
// A reverse iterator with forward position idx denotes element idx - 1.
template <class C> struct Walk
{
    typedef typename C::value_type T;
    typedef ET<T> E;
    typedef typename C::iterator I;
    typedef typename C::const_iterator CI;
    typedef typename C::reverse_iterator R;
    typedef typename C::const_reverse_iterator CR;
    vf::Src& s;
    C& c;
    const C& k;
    Seq m;
    const size_t n;
    std::vector<const T*> addr;
    enum { P = 2 };
    I i[P]; size_t xi[P];
    CI ci[P]; size_t xci[P];
    R r[P]; size_t xr[P];
    CR cr[P]; size_t xcr[P];

    Walk(vf::Src& src, C& cc, const Seq& mm) : s(src), c(cc), k(cc), m(mm), n(mm.size()) {}

    template <class It> void deref(const char* kind, It& it, size_t idx)
    {
        if (idx >= n) return;
        VF_CHECK(vf::WALK, &*it == addr[idx], "%s at position %zu of %zu denotes another element", kind, idx, n);
        VF_CHECK(vf::WALK, it.operator->() == addr[idx], "operator-> of %s at position %zu denotes another element", kind, idx);
        VF_CHECK(vf::WALK, E::get(*it) == m[idx], "%s at position %zu of %zu shows %s, expected %s", kind, idx, n, show(E::get(*it)).c_str(), show(m[idx]).c_str());
    }
    template <class U> void deref(const char* kind, U*& it, size_t idx)
    {
        if (idx >= n) return;
        VF_CHECK(vf::WALK, &*it == addr[idx] && E::get(*it) == m[idx], "%s at position %zu of %zu denotes another element", kind, idx, n);
    }
    template <class It> void rderef(const char* kind, It& it, size_t idx)
    {
        if (idx == 0) return;
        VF_CHECK(vf::WALK, &*it == addr[idx - 1], "%s before position %zu of %zu denotes another element", kind, idx, n);
        VF_CHECK(vf::WALK, E::get(*it) == m[idx - 1], "%s before position %zu of %zu shows a wrong value", kind, idx, n);
    }
    // one step or jump; dir +1 means towards the end for forward iterators and towards the beginning for reverse ones
    template <class It> void step(const char* kind, It& it, size_t& idx, bool rev)
    {
        unsigned op = s.draw(6);
        bool fwd = op < 2 || op == 4;
        bool up = fwd != rev;
        size_t room = up ? n - idx : idx;
        if (room == 0) return;
        size_t nx = up ? idx + 1 : idx - 1;
        It old = it;
        if (op == 0) { It& q = ++it; VF_CHECK(vf::WALK, &q == &it, "pre-increment of %s does not return the iterator itself", kind); idx = nx; }
        else if (op == 1) { It q = it++; VF_CHECK(vf::WALK, q == old, "post-increment of %s does not return the old position", kind); idx = nx; }
        else if (op == 2) { It& q = --it; VF_CHECK(vf::WALK, &q == &it, "pre-decrement of %s does not return the iterator itself", kind); idx = nx; }
        else if (op == 3) { It q = it--; VF_CHECK(vf::WALK, q == old, "post-decrement of %s does not return the old position", kind); idx = nx; }
        else
        {
            // k steps one way and back
            size_t kk = 1 + s.draw((uint32_t)std::min<size_t>(room, 40));
            if (kk > room) kk = room;
            for (size_t q = 0; q < kk; ++q) if (fwd) { if (q & 1) it++; else ++it; } else { if (q & 1) it--; else --it; }
            It far = it;
            for (size_t q = 0; q < kk; ++q) if (fwd) { if (q & 1) --it; else it--; } else { if (q & 1) ++it; else it++; }
            VF_CHECK(vf::WALK, it == old && !(it != old), "%s does not return to its position after %zu steps %s and back", kind, kk, fwd ? "forward" : "backward");
            VF_CHECK(vf::WALK, far != it, "%s is equal to itself %zu steps away", kind, kk);
            it = far;
            idx = up ? idx + kk : idx - kk;
        }
        VF_CHECK(vf::WALK, !(old == it) && old != it, "%s is equal to its neighbour", kind);
    }

    void start()
    {
        // reference pass with mutable forward iterators
        VF_CHECK(vf::WALK, c.size() == n, "size() is %zu, the model has %zu elements", (size_t)c.size(), n);
        size_t j = 0;
        for (I it = c.begin(); it != c.end(); ++it, ++j)
        {
            VF_CHECK(vf::WALK, j < n, "begin plus %zu steps is not end", n);
            addr.push_back(&*it);
            VF_CHECK(vf::WALK, E::get(*it) == m[j], "element %zu is %s, expected %s", j, show(E::get(*it)).c_str(), show(m[j]).c_str());
        }
        VF_CHECK(vf::WALK, j == n, "end was reached after %zu of %zu steps", j, n);
        for (int p = 0; p < P; ++p)
        {
            i[p] = p ? c.end() : c.begin(); xi[p] = p ? n : 0;
            ci[p] = p ? k.end() : k.cbegin(); xci[p] = p ? n : 0;
            r[p] = p ? c.rend() : c.rbegin(); xr[p] = p ? 0 : n;
            cr[p] = p ? k.rend() : k.crbegin(); xcr[p] = p ? 0 : n;
        }
        VF_CHECK(vf::WALK, k.begin() == k.cbegin() && k.end() == k.cend() && CI(c.begin()) == k.begin() && CI(c.end()) == k.end(), "const and mutable begin or end differ");
        VF_CHECK(vf::WALK, k.rbegin() == k.crbegin() && k.rend() == k.crend() && CR(c.rbegin()) == k.rbegin() && CR(c.rend()) == k.rend(), "const and mutable rbegin or rend differ");
        VF_CHECK(vf::WALK, c.rbegin().base() == c.end() && c.rend().base() == c.begin() && k.crbegin().base() == k.cend() && k.crend().base() == k.cbegin(), "reverse iterators do not mirror the forward ones");
    }
    template <class X, class Y> void eq(const char* a, X& x, size_t xi_, const char* b, Y& y, size_t yi)
    {
        bool e = x == y, ne = x != y;
        VF_CHECK(vf::WALK, e == (xi_ == yi) && ne == !e, "%s at %zu and %s at %zu compare %s", a, xi_, b, yi, e ? "equal" : "different");
    }
    void write(T& t, size_t idx, const char* kind, int tag)
    {
        Val v = E::norm(mk(1000 + (int)s.draw(1000), tag));
        VF_NOTE("write %s through %s at %zu", show(v).c_str(), kind, idx);
        E::set(t, v);
        m[idx] = v;
        size_t j = 0;
        for (CI it = k.cbegin(); it != k.cend(); ++it, ++j)
            VF_CHECK(vf::WALK, E::get(*it) == m[j], "after a write through %s at position %zu, position %zu shows %s, expected %s", kind, idx, j, show(E::get(*it)).c_str(), show(m[j]).c_str());
    }

    template <bool Wr> void run(unsigned steps)
    {
        start();
        for (unsigned q = 0; q < steps; ++q)
        {
            unsigned op = s.draw(12), p = s.draw(P);
            switch (op)
            {
            case 0: case 1: step("an iterator", i[p], xi[p], false); break;
            case 2: case 3: step("a const iterator", ci[p], xci[p], false); break;
            case 4: step("a reverse iterator", r[p], xr[p], true); break;
            case 5: step("a const reverse iterator", cr[p], xcr[p], true); break;
            case 6: ci[p] = i[p]; xci[p] = xi[p]; break;                                    // conversion by assignment
            case 7: { CI z(i[1 - p]); ci[p] = z; xci[p] = xi[1 - p]; break; }              // conversion by construction
            case 8: { r[p] = R(i[p]); xr[p] = xi[p]; cr[p] = CR(ci[p]); xcr[p] = xci[p]; break; }
            case 9: { i[p] = r[p].base(); xi[p] = xr[p]; ci[p] = cr[p].base(); xci[p] = xcr[p]; break; }
            case 10: { cr[p] = r[1 - p]; xcr[p] = xr[1 - p]; break; }
            default:
                if (Wr) write_at<Wr>(p, (int)q);
                else { I t = i[0]; i[0] = i[1]; i[1] = t; std::swap(xi[0], xi[1]); }
                break;
            }
            deref("an iterator", i[p], xi[p]); deref("a const iterator", ci[p], xci[p]);
            rderef("a reverse iterator", r[p], xr[p]); rderef("a const reverse iterator", cr[p], xcr[p]);
            eq("iterator", i[0], xi[0], "iterator", i[1], xi[1]);
            eq("const iterator", ci[0], xci[0], "const iterator", ci[1], xci[1]);
            { CI z = i[p]; eq("converted iterator", z, xi[p], "const iterator", ci[p], xci[p]); eq("const iterator", ci[p], xci[p], "converted iterator", z, xi[p]); }
            eq("reverse iterator", r[0], xr[0], "reverse iterator", r[1], xr[1]);
            eq("const reverse iterator", cr[0], xcr[0], "const reverse iterator", cr[1], xcr[1]);
            VF_CHECK(vf::WALK, (xi[p] == 0) == (i[p] == c.begin()) && (xi[p] == n) == (i[p] == c.end()), "an iterator at %zu of %zu compares wrongly with begin or end", xi[p], n);
            VF_CHECK(vf::WALK, (xci[p] == 0) == (ci[p] == k.begin()) && (xci[p] == n) == (ci[p] == k.end()), "a const iterator at %zu of %zu compares wrongly with begin or end", xci[p], n);
        }
        if (n) { I e = c.end(); --e; deref("end minus one", e, n - 1 + 0); CI ce = k.end(); ce--; deref("const end minus one", ce, n - 1); }
        if (n > 2) vf::nontrivial();
    }
    template <bool W2> typename std::enable_if<W2>::type write_at(unsigned p, int tag)
    {
        if (!E::writable) return;
        if (tag & 1) { if (xr[p] > 0) write(*r[p], xr[p] - 1, "a reverse iterator", tag); }
        else if (xi[p] < n) write(*i[p], xi[p], "an iterator", tag);
    }
    template <bool W2> typename std::enable_if<!W2>::type write_at(unsigned, int) {}
};

template <class M, bool Wr> static void walks(vf::Src& s)
{
    W().reset();
    M m(s);
    m.start();
    m.swarm(M::NOPS);
    unsigned rounds = 1 + s.draw(3);
    for (unsigned q = 0; q < rounds; ++q)
    {
        unsigned n = 2 + s.small(s.draw(12) == 11 ? 150 : 24);
        for (unsigned z = 0; z < n; ++z) m.step();
        for (int i = 0; i < M::N; ++i)
        {
            Seq want = M::read(*m.sl[i].c);          // content is another property's business
            Walk<typename M::C> w(s, *m.sl[i].c, want);
            VF_NOTE("walk over container %d with %zu elements", i, want.size());
            w.template run<Wr>(4 + s.small(40));
            adopt(m, i, w.m);
        }
    }
    m.finish();
}
// writes during a walk change the model of the machine
template <class T, class A, class Err> void adopt(VecMachine<T, A, Err>& m, int i, const Seq& v) { m.sl[i].m = v; }
template <class T, class A, class Err> void adopt(ListMachine<T, A, Err>& m, int i, const Seq& v)
{
    size_t j = 0;
    for (typename ListMachine<T, A, Err>::Mod::iterator q = m.sl[i].m.begin(); q != m.sl[i].m.end() && j < v.size(); ++q, ++j) q->v = v[j];
}
template <class T, class A, class Err> void adopt(SetMachine<T, A, Err>&, int, const Seq&) {}

// pointer arithmetic of vector iterators and reverse iterators
static void arithmetic(vf::Src& s)
{
    W().reset();
    {
        typedef nestl::vector<int> C;
        C c;
        DErr err;
        int n = 1 + (int)(s.draw(16) == 15 ? s.draw(3000) : s.small(50));
        for (int q = 0; q < n; ++q) c.push_back_nothrow(err, q);
        const C& k = c;
        int a = (int)s.draw(n + 1), b = (int)s.draw(n + 1);
        VF_NOTE("positions %d and %d of %d", a, b, n);
        C::iterator x = c.begin() + a; C::const_iterator y = k.end() - (n - b);
        VF_CHECK(vf::WALK, y - k.begin() == b && x - c.begin() == a && (x < y) == (a < b) && C::const_iterator(x) - y == a - b, "iterator arithmetic is wrong");
        if (a < n) VF_CHECK(vf::WALK, *x == a && c.begin()[a] == a && (c.rend() - 1 - a)[0] == a && *(k.crend() - 1 - a) == a, "element %d is wrong", a);
        VF_CHECK(vf::WALK, (c.rend() - c.rbegin()) == n && (k.rend() - k.rbegin()) == n && c.end() - c.begin() == n, "distances are wrong");
        if (n > 2) vf::nontrivial();
    }
    final_balance();
}

#if PART == 0
typedef VecMachine<Tr, TA<Tr>, DErr> VT; typedef VecMachine<int, nestl::allocator<int>, DErr> VI;
static void w_vt(vf::Src& s) { walks<VT, true>(s); }
static void w_vi(vf::Src& s) { walks<VI, true>(s); }
VF_SCENARIO_T(vec_Tr, 1, w_vt);
VF_SCENARIO_T(vec_int, 1, w_vi);
VF_SCENARIO_T(vec_arithmetic, 1, arithmetic);
#elif PART == 1
typedef ListMachine<Tr, TA<Tr>, DErr> LT; typedef ListMachine<int, nestl::allocator<int>, DErr> LI;
static void w_lt(vf::Src& s) { walks<LT, true>(s); }
static void w_li(vf::Src& s) { walks<LI, true>(s); }
VF_SCENARIO_T(list_Tr, 2, w_lt);
VF_SCENARIO_T(list_int, 1, w_li);
#else
typedef SetMachine<Tr, TA<Tr>, DErr> ST; typedef SetMachine<int, nestl::allocator<int>, DErr> SI; typedef SetMachine<Tq, MA<Tq>, DErr> SQ;
static void w_st(vf::Src& s) { walks<ST, false>(s); }
static void w_si(vf::Src& s) { walks<SI, false>(s); }
static void w_sq(vf::Src& s) { walks<SQ, false>(s); }
VF_SCENARIO_T(set_Tr, 2, w_st);
VF_SCENARIO_T(set_int, 2, w_si);
VF_SCENARIO_T(set_Tq, 1, w_sq);
#endif
}
