// PARTS 4
#include "machine.hpp"
#include "convert.hpp"
#include <forward_list>
#include <functional>
#include <limits>

#if PART == 0
VF_PROPERTY_CFG(vf::MISC | vf::LIFE, 0, 2, false)
#endif
namespace VM
{

// ---------------------------------------------------------------- iterators that know their range
template <class T> struct Span { T* b; T* e; const char* name; unsigned gen; size_t reads; };

// input iterator: single pass, all copies share one position; stale copies must not be used
template <class T, bool ByValue> struct One
{
    typedef std::input_iterator_tag iterator_category;
    typedef typename std::remove_const<T>::type value_type;
    typedef std::ptrdiff_t difference_type;
    typedef T* pointer;
    typedef typename std::conditional<ByValue, value_type, T&>::type reference;
    Span<T>* sp; T* p; unsigned gen;
    One() : sp(0), p(0), gen(0) {}
    One(Span<T>& s, T* q) : sp(&s), p(q), gen(s.gen) {}
    reference operator*() const
    {
        VF_CHECK(vf::MISC, p >= sp->b && p < sp->e, "%s: an element outside the range was read", sp->name);
        VF_CHECK(vf::MISC, gen == sp->gen, "%s: a single-pass range was read through a stale iterator", sp->name);
        ++sp->reads;
        return *p;
    }
    One& operator++()
    {
        VF_CHECK(vf::MISC, p < sp->e, "%s: an iterator was advanced past the end of the range", sp->name);
        VF_CHECK(vf::MISC, gen == sp->gen, "%s: a single-pass range was advanced through a stale iterator", sp->name);
        gen = ++sp->gen;
        ++p;
        return *this;
    }
    One operator++(int) { One r(*this); ++*this; return r; }
    bool operator==(const One& o) const { return p == o.p; }
    bool operator!=(const One& o) const { return p != o.p; }
};
// forward / bidirectional / random access, bounds checked
template <class T, class Tag> struct Chk
{
    typedef Tag iterator_category;
    typedef typename std::remove_const<T>::type value_type;
    typedef std::ptrdiff_t difference_type;
    typedef T* pointer;
    typedef T& reference;
    Span<T>* sp; T* p;
    Chk() : sp(0), p(0) {}
    Chk(Span<T>& s, T* q) : sp(&s), p(q) {}
    void in() const { VF_CHECK(vf::MISC, p >= sp->b && p <= sp->e, "%s: an iterator left its range", sp->name); }
    T& operator*() const { VF_CHECK(vf::MISC, p >= sp->b && p < sp->e, "%s: an element outside the range was accessed", sp->name); ++sp->reads; return *p; }
    T* operator->() const { return &**this; }
    T& operator[](difference_type d) const { Chk c(*this); c.p += d; return *c; }
    Chk& operator++() { ++p; in(); return *this; }
    Chk operator++(int) { Chk r(*this); ++*this; return r; }
    Chk& operator--() { --p; in(); return *this; }
    Chk operator--(int) { Chk r(*this); --*this; return r; }
    Chk& operator+=(difference_type d) { p += d; in(); return *this; }
    Chk& operator-=(difference_type d) { p -= d; in(); return *this; }
    friend Chk operator+(Chk a, difference_type d) { a += d; return a; }
    friend Chk operator-(Chk a, difference_type d) { a -= d; return a; }
    friend difference_type operator-(const Chk& a, const Chk& b) { return a.p - b.p; }
    bool operator==(const Chk& o) const { return p == o.p; }
    bool operator!=(const Chk& o) const { return p != o.p; }
    bool operator<(const Chk& o) const { return p < o.p; }
    bool operator>(const Chk& o) const { return p > o.p; }
    bool operator<=(const Chk& o) const { return p <= o.p; }
    bool operator>=(const Chk& o) const { return p >= o.p; }
};

// calls f(first, last) with iterators of a chosen kind over the array; kinds 0..5
enum { NKIND = 6 };
static const char* const kinds[] = { "pointers", "single-pass iterators", "single-pass iterators by value", "forward iterators", "random access iterators", "reverse iterators" };
template <class T, class F> void with_range(unsigned kind, const char* name, T* b, T* e, F& f)
{
    Span<T> sp = { b, e, name, 0, 0 };
    switch (kind)
    {
    case 0: f(b, e); break;
    case 1: f(One<T, false>(sp, b), One<T, false>(sp, e)); break;
    case 3: f(Chk<T, std::forward_iterator_tag>(sp, b), Chk<T, std::forward_iterator_tag>(sp, e)); break;
    case 4: f(Chk<T, std::random_access_iterator_tag>(sp, b), Chk<T, std::random_access_iterator_tag>(sp, e)); break;
    case 5:
    {
        typedef Chk<T, std::bidirectional_iterator_tag> B;
        f(std::reverse_iterator<B>(B(sp, e)), std::reverse_iterator<B>(B(sp, b)));
        break;
    }
    default: f(One<T, true>(sp, b), One<T, true>(sp, e)); break;
    }
}

// ---------------------------------------------------------------- comparisons
template <class T> struct Gen;
template <> struct Gen<int> { static int get(vf::Src& s) { return s.draw(3) ? (int)s.draw(4) : s.value(); } };
template <> struct Gen<unsigned char> { static unsigned char get(vf::Src& s) { return (unsigned char)(s.draw(2) ? s.draw(3) : 126 + s.draw(5)); } };
template <> struct Gen<signed char> { static signed char get(vf::Src& s) { return (signed char)(s.draw(2) ? s.draw(3) : 126 + s.draw(5)); } };
template <> struct Gen<double>
{
    static double get(vf::Src& s)
    {
        static const double d[] = { 0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 1e-300 };
        return d[s.draw(7)];
    }
};
template <> struct Gen<std::string> { static std::string get(vf::Src& s) { return std::string(s.small(3), (char)('a' + s.draw(2))); } };

template <class T> struct TwoArr        // exact-size heap arrays, so that reading outside is seen
{
    std::vector<T> va, vb;
    T* a; T* b; size_t na, nb;
    TwoArr(vf::Src& s)
    {
        na = s.small(s.draw(16) == 0 ? 120 : 9);
        for (size_t i = 0; i < na; ++i) va.push_back(Gen<T>::get(s));
        nb = na;
        vb = va;
        unsigned how = s.draw(6);          // equal, prefix, longer, one change, unrelated
        if (how == 1) { nb = s.draw((uint32_t)na + 1); vb.resize(nb); }
        if (how == 2) { unsigned x = 1 + s.small(5); while (x--) vb.push_back(Gen<T>::get(s)); }
        if ((how == 3 || how == 4) && na) vb[s.draw((uint32_t)na)] = Gen<T>::get(s);
        if (how == 4 && s.draw(2)) { unsigned x = 1 + s.small(5); while (x--) vb.push_back(Gen<T>::get(s)); }
        if (how == 5) { vb.clear(); unsigned x = s.small(9); while (x--) vb.push_back(Gen<T>::get(s)); }
        nb = vb.size();
        a = new T[na]; b = new T[nb];
        std::copy(va.begin(), va.end(), a);
        std::copy(vb.begin(), vb.end(), b);
    }
    ~TwoArr() { delete[] a; delete[] b; }
private:
    TwoArr(const TwoArr&);
    TwoArr& operator=(const TwoArr&);
};

// asymmetric predicates and several orderings, by mode
template <class T> struct Pred2 { unsigned mode; bool operator()(const T& x, const T& y) const { switch (mode) { case 0: return x == y; case 1: return !(y < x); case 2: return x < y; default: return !(x == y); } } };
template <class T> struct Ord { unsigned mode; bool operator()(const T& x, const T& y) const { return mode == 0 ? x < y : mode == 1 ? y < x : false; } };

template <class T> struct EqCall
{
    const TwoArr<T>* t; unsigned kb; bool with_pred; unsigned mode; bool result;
    template <class It> struct Second
    {
        EqCall* c; It f, l;
        template <class It2> void operator()(It2 f2, It2)
        {
            if (c->with_pred) { Pred2<T> p = { c->mode }; c->result = nestl::equal(f, l, f2, p); }
            else c->result = nestl::equal(f, l, f2);
        }
    };
    template <class It> void operator()(It f, It l) { Second<It> s2 = { this, f, l }; with_range<const T>(kb, "second range", t->b, t->b + t->nb, s2); }
};
template <class T> struct LexCall
{
    const TwoArr<T>* t; unsigned kb; bool with_comp; unsigned mode; bool result;
    template <class It> struct Second
    {
        LexCall* c; It f, l;
        template <class It2> void operator()(It2 f2, It2 l2)
        {
            if (c->with_comp) { Ord<T> p = { c->mode }; c->result = nestl::lexicographical_compare(f, l, f2, l2, p); }
            else c->result = nestl::lexicographical_compare(f, l, f2, l2);
        }
    };
    template <class It> void operator()(It f, It l) { Second<It> s2 = { this, f, l }; with_range<const T>(kb, "second range", t->b, t->b + t->nb, s2); }
};

template <class T> static void compare(vf::Src& s)
{
    W().reset();
    TwoArr<T> t(s);
    unsigned ka = s.draw(NKIND), kb = s.draw(NKIND);
    if (ka == 5) std::reverse(t.va.begin(), t.va.end());
    if (kb == 5) std::reverse(t.vb.begin(), t.vb.end());
    bool custom = s.draw(2) != 0;
    if (t.na) vf::nontrivial();
    if (s.draw(2) == 0)
    {
        unsigned mode = s.draw(3);
        VF_NOTE("lexicographical_compare of %zu %s and %zu %s, ordering %d", t.na, kinds[ka], t.nb, kinds[kb], custom ? (int)mode : -1);
        LexCall<T> c = { &t, kb, custom, mode, false };
        with_range<const T>(ka, "first range", t.a, t.a + t.na, c);
        Ord<T> o = { mode };
        bool want = custom ? std::lexicographical_compare(t.va.begin(), t.va.end(), t.vb.begin(), t.vb.end(), o)
                           : std::lexicographical_compare(t.va.begin(), t.va.end(), t.vb.begin(), t.vb.end());
        vf::hit(want ? "lexicographical_compare is true" : "lexicographical_compare is false");
        VF_CHECK(vf::MISC, c.result == want, "lexicographical_compare of ranges of %zu and %zu elements gave %d, std gives %d", t.na, t.nb, (int)c.result, (int)want);
    }
    else
    {
        if (t.nb < t.na) { t.na = t.nb; t.va.resize(0); for (size_t i = 0; i < t.na; ++i) t.va.push_back(t.a[i]); if (ka == 5) std::reverse(t.va.begin(), t.va.end()); }
        unsigned mode = s.draw(4);
        VF_NOTE("equal of %zu %s and %s, predicate %d", t.na, kinds[ka], kinds[kb], custom ? (int)mode : -1);
        EqCall<T> c = { &t, kb, custom, mode, false };
        with_range<const T>(ka, "first range", t.a, t.a + t.na, c);
        Pred2<T> p = { mode };
        bool want = custom ? std::equal(t.va.begin(), t.va.end(), t.vb.begin(), p) : std::equal(t.va.begin(), t.va.end(), t.vb.begin());
        vf::hit(want ? "equal is true" : "equal is false");
        VF_CHECK(vf::MISC, c.result == want, "equal of ranges of %zu elements gave %d, std gives %d", t.na, (int)c.result, (int)want);
    }
}

// ---------------------------------------------------------------- copying
struct PredLog { std::vector<const void*> seen; std::vector<int> keys; };
template <class T> struct P1
{
    PredLog* log; unsigned mode; unsigned salt;
    static bool want(unsigned mode, unsigned salt, int key, size_t idx)
    {
        switch (mode)
        {
        case 0: return true;
        case 1: return false;
        case 2: return (key & 1) == 0;
        case 3: return (idx & 1) == 0;                 // depends on how often it was called
        case 4: return ((((unsigned)key * 2654435761u) ^ salt) >> 7) & 1;
        default: return idx < salt % 8;
        }
    }
    bool operator()(const T& x)
    {
        int k = ET<T>::get(x).key;
        bool r = want(mode, salt, k, log->keys.size());
        log->seen.push_back(&x); log->keys.push_back(k);
        return r;
    }
};

template <class T, class Err> struct CopyCall
{
    Err* err; bool cond; PredLog* log; unsigned mode, salt; T* d; T* de; unsigned dk; size_t result; bool moved;
    Span<T>* sp;
    template <class It, class Out> Out one(It f, It l, Out o)
    {
        if (cond) { P1<T> p = { log, mode, salt }; return nestl::copy_if(*err, f, l, o, p); }
        return nestl::copy(*err, f, l, o);
    }
    template <class It> void operator()(It f, It l)
    {
        if (dk == 0) result = (size_t)(one(f, l, d) - d);
        else if (dk == 1) { Chk<T, std::random_access_iterator_tag> r = one(f, l, Chk<T, std::random_access_iterator_tag>(*sp, d)); result = (size_t)(r.p - d); }
        else { Chk<T, std::forward_iterator_tag> r = one(f, l, Chk<T, std::forward_iterator_tag>(*sp, d)); result = (size_t)(r.p - d); }
    }
};

template <class T, class Err> static void copying(vf::Src& s)
{
    W().reset();
    {
        int tag = 0;
        size_t n = s.small(s.draw(20) == 0 ? 150 : 10);
        Seq src = gen_vals(s, n, tag);
        for (size_t i = 0; i < n; ++i) src[i] = ET<T>::norm(src[i]);
        bool cond = s.draw(2) != 0;
        unsigned mode = s.draw(6), salt = s.draw(1000), kind = s.draw(NKIND);
        bool by_value_ok = !Fails<T>::elem && std::is_copy_constructible<T>::value;
        if (kind == 2 && !by_value_ok) kind = 1;
        unsigned dk = s.draw(3);
        Seq order = src;
        if (kind == 5) std::reverse(order.begin(), order.end());
        // expected
        Seq want; std::vector<size_t> from;
        for (size_t i = 0; i < n; ++i)
            if (!cond || P1<T>::want(mode, salt, order[i].key, i)) { want.push_back(order[i]); from.push_back(i); }
        size_t slack = s.small(4);
        Seq dst = gen_vals(s, want.size() + slack, tag);
        for (size_t i = 0; i < dst.size(); ++i) dst[i] = ET<T>::norm(dst[i]);
        long arm = Fails<T>::elem && s.draw(2) ? (long)s.small((uint32_t)n + 2) : -1;
        VF_NOTE("%s of %s by %s into %zu places%s%ld", cond ? "copy_if" : "copy", shows(src).c_str(), kinds[kind], dst.size(), arm >= 0 ? ", failing assignment " : ", failing ", arm);
        if (n) vf::nontrivial();
        Vals<T> a(src), b(dst);
        Span<T> sp = { b.begin(), b.end(), "destination", 0, 0 };
        PredLog log;
        Err err;
        W().clear_fired(); W().code = 1 + (int)s.draw(900);
        W().elem_fail_in = arm;
        CopyCall<T, Err> c = { &err, cond, &log, mode, salt, b.begin(), b.end(), dk, 0, false, &sp };
        with_range<const T>(kind, "source", a.begin(), a.end(), c);
        bool fired = W().elem_fired;
        W().disarm();
        EInfo e = einfo(err);
        size_t done = fired ? (size_t)arm : want.size();
        const char* nm = cond ? "copy_if" : "copy";
        VF_CHECK(vf::MISC, fired == (arm >= 0 && (size_t)arm < want.size()), "%s assigned a different number of elements than expected: failure %ld of %zu %s", nm, arm, want.size(), fired ? "fired" : "did not fire");
        if (fired) { vf::hit("assignment failed during copy"); VF_CHECK(vf::MISC, e.kind == E_CUSTOM && e.code == W().code, "%s: the failed assignment (code %d) was reported as %s %d", nm, W().code, ekind(e.kind), e.code); }
        else VF_CHECK(vf::MISC, e.kind == E_NONE, "%s reported %s although nothing failed", nm, ekind(e.kind));
        VF_CHECK(vf::MISC, c.result == done, "%s returned position %zu, expected %zu", nm, c.result, done);
        for (size_t i = 0; i < dst.size(); ++i)
        {
            Val v = ET<T>::get(b.mem[i]);
            VF_CHECK(vf::MISC, v == (i < done ? want[i] : dst[i]), "%s: position %zu holds %s, expected %s", nm, i, show(v).c_str(), show(i < done ? want[i] : dst[i]).c_str());
        }
        for (size_t i = 0; i < n; ++i) VF_CHECK(vf::MISC, ET<T>::get(a.mem[i]) == src[i], "%s changed its source", nm);
        if (cond)
        {
            size_t calls = fired ? from[arm] + 1 : n;
            VF_CHECK(vf::MISC, log.keys.size() == calls, "the predicate was evaluated %zu times, expected %zu", log.keys.size(), calls);
            for (size_t i = 0; i < calls; ++i) VF_CHECK(vf::MISC, log.keys[i] == order[i].key, "the predicate saw element %zu out of order", i);
        }
    }
    final_balance();
}

struct Appender            // output iterator only
{
    typedef std::output_iterator_tag iterator_category;
    typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    std::vector<int>* v;
    explicit Appender(std::vector<int>& x) : v(&x) {}
    Appender& operator=(const int& k) noexcept { v->push_back(k); return *this; }
    Appender& operator*() { return *this; }
    Appender& operator++() { return *this; }
    Appender operator++(int) { Appender r(*this); ++*this; return r; }
};
// output iterators that are not plain pointers, overlapping ranges, move iterators
static void special(vf::Src& s)
{
    W().reset();
    {
        int tag = 0;
        size_t n = s.small(12);
        Seq src = gen_vals(s, n, tag);
        DErr err;
        if (n) vf::nontrivial();
        switch (s.draw(4))
        {
        case 0:
        {
            VF_NOTE("copy of %zu elements into a back inserter", n);
            std::vector<int> a, b;
            for (size_t i = 0; i < n; ++i) a.push_back(src[i].key);
            if (s.draw(2)) { P1<int> p = { 0, 0, 0 }; PredLog lg; p.log = &lg; nestl::copy_if(err, a.begin(), a.end(), Appender(b), p); }
            else nestl::copy(err, a.begin(), a.end(), Appender(b));
#if VF_EXC
            std::vector<int> b2;
            nestl::copy(err, a.begin(), a.end(), std::back_inserter(b2));
            VF_CHECK(vf::MISC, b2 == a, "copy into a back inserter gave %zu of %zu elements", b2.size(), a.size());
#endif
            VF_CHECK(vf::MISC, !err && a == b, "copy into an output iterator gave %zu of %zu elements", b.size(), a.size());
            break;
        }
        case 1:
        {
            VF_NOTE("copy of %zu elements towards the front of the same array", n);
            Vals<Tr> a(src);
            size_t k = s.draw((uint32_t)n + 1);
            Tr* r = nestl::copy(err, a.begin() + k, a.end(), a.begin());
            VF_CHECK(vf::MISC, !err && r == a.begin() + (n - k), "overlapping copy returned a wrong position");
            for (size_t i = 0; i < n; ++i)
            {
                Val v = ET<Tr>::get(a.mem[i]);
                VF_CHECK(vf::MISC, v == (i + k < n ? src[i + k] : src[i]), "overlapping copy: position %zu is wrong", i);
            }
            break;
        }
        case 2:
        {
            VF_NOTE("copy of %zu elements through move iterators", n);
            Vals<Tr> a(src), b(Seq(n, mk(1, 1)));
            nestl::copy(err, std::make_move_iterator(a.begin()), std::make_move_iterator(a.end()), b.begin());
            VF_CHECK(vf::MISC, !err && W().copies == 0, "copying through move iterators copied elements");
            for (size_t i = 0; i < n; ++i) VF_CHECK(vf::MISC, ET<Tr>::get(b.mem[i]) == src[i] && a.mem[i].key == K_MOVED, "copying through move iterators: element %zu is wrong", i);
            break;
        }
        default:
        {
            VF_NOTE("copy between containers of %zu elements", n);
            nestl::list<Tr> l; nestl::vector<Tr> v; nestl::set<int> t;
            for (size_t i = 0; i < n; ++i) { Tr x(src[i].key, src[i].tag); l.push_back_nothrow(err, x); v.push_back_nothrow(err, Tr(0, 0)); t.insert_nothrow(err, src[i].key); }
            nestl::copy(err, l.begin(), l.end(), v.begin());
            VF_CHECK(vf::MISC, !err && nestl::equal(l.begin(), l.end(), v.begin()), "a copied list differs from its copy");
            nestl::list<Tr>::iterator r = nestl::copy(err, v.rbegin(), v.rend(), l.begin());
            VF_CHECK(vf::MISC, !err && r == l.end(), "copy into a list returned a wrong position");
            size_t i = n;
            for (nestl::list<Tr>::iterator q = l.begin(); q != l.end(); ++q) { --i; VF_CHECK(vf::MISC, ET<Tr>::get(*q) == src[i], "reversed copy is wrong"); }
            std::vector<int> keys(t.size());
            std::vector<int>::iterator ke = nestl::copy(err, t.begin(), t.end(), keys.begin());
            VF_CHECK(vf::MISC, !err && ke == keys.end() && std::is_sorted(keys.begin(), keys.end()), "copy out of a set is wrong");
            VF_CHECK(vf::MISC, !nestl::lexicographical_compare(t.begin(), t.end(), keys.begin(), keys.end()), "a set compares less than its copy");
            break;
        }
        }
    }
    final_balance();
}

// source and destination (or the two ranges compared) have different element types
struct IsSmall { template <class X> bool operator()(const X& x) const { return x < X(3); } };
struct Differ { template <class X, class Y> bool operator()(const X& x, const Y& y) const { return x < y; } };
template <class D, class S> static void mixed2(vf::Src& s)
{
    size_t n = s.draw(9), k = s.draw(9);
    S* a = new S[n + 1]; D* b = new D[n + 1]; D* m = new D[n + 1]; D* o = new D[k + 1];
    for (size_t i = 0; i < n; ++i) { a[i] = Make<S>::get(s); b[i] = m[i] = D(); }
    for (size_t i = 0; i < k; ++i) o[i] = i < n && s.draw(4) ? static_cast<D>(a[i]) : Make<D>::get(s);
    if (n > 1) vf::nontrivial();
    DErr err;
    unsigned how = s.draw(5);
    VF_NOTE("algorithm %u on %zu and %zu elements of different types", how, n, k);
    size_t r = 0, e = 0;
    switch (how)
    {
    case 0: r = nestl::copy(err, (const S*)a, (const S*)a + n, b) - b; e = std::copy((const S*)a, (const S*)a + n, m) - m; break;
    case 1: r = nestl::copy(err, a, a + n, b) - b; e = std::copy(a, a + n, m) - m; break;
    case 2: r = nestl::copy_if(err, a, a + n, b, IsSmall()) - b; e = std::copy_if(a, a + n, m, IsSmall()) - m; break;
    case 3: r = n <= k ? nestl::equal(a, a + n, o) : nestl::equal(o, o + k, a); e = n <= k ? std::equal(a, a + n, o) : std::equal(o, o + k, a); break;
    case 4: r = nestl::lexicographical_compare(a, a + n, o, o + k); e = std::lexicographical_compare(a, a + n, o, o + k); break;
    }
    bool same = true;
    for (size_t i = 0; i < n; ++i) same = same && b[i] == m[i];
    delete[] a; delete[] b; delete[] m; delete[] o;
    VF_CHECK(vf::MISC, !err && r == e && same, "algorithm %u on ranges of different element types (%zu and %zu elements) gave %zu, std gives %zu%s", how, n, k, r, e, same ? "" : ", and other elements");
}
static void mixed(vf::Src& s)
{
    switch (s.draw(9))
    {
    case 0: return mixed2<int, float>(s); case 1: return mixed2<float, int>(s); case 2: return mixed2<long, double>(s);
    case 3: return mixed2<double, long>(s); case 4: return mixed2<bool, unsigned char>(s); case 5: return mixed2<int, signed char>(s);
    case 6: return mixed2<signed char, int>(s); case 7: return mixed2<unsigned char, signed char>(s); default: return mixed2<int, Hue>(s);
    }
}

#if PART == 0
VF_SCENARIO_T(compare_int, 3, compare<int>);
VF_SCENARIO_T(compare_double, 2, compare<double>);
#elif PART == 1
VF_SCENARIO_T(compare_uchar, 1, compare<unsigned char>);
VF_SCENARIO_T(compare_schar, 1, compare<signed char>);
VF_SCENARIO_T(compare_string, 1, compare<std::string>);
#elif PART == 2
VF_SCENARIO_T(copy_int, 2, copying<int, DErr>);
VF_SCENARIO_T(copy_tracked, 2, copying<Tr, UErr>);
VF_SCENARIO_T(special_copies, 2, special);
VF_SCENARIO_T(mixed_types, 2, mixed);
#else
#if VF_EXC
VF_SCENARIO_T(copy_throwing_D, 4, copying<Th, DErr>);
VF_SCENARIO_T(copy_throwing_U, 2, copying<Tm, UErr>);
#else
VF_SCENARIO_T(copy_big, 1, copying<Big, DErr>);
#endif
#endif
}
