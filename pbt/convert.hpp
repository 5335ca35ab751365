// Ranges whose elements have another type than what they are put into: every element has to be converted.
#ifndef VF_CONVERT_HPP
#define VF_CONVERT_HPP
#include "world.hpp"
#include <cmath>

namespace VM
{
struct Left { int l; virtual ~Left() {} };
struct Right { int r; virtual ~Right() {} };
struct Both : Left, Right { int b; };
enum Hue { RED, GREEN = 5, BLUE = -3 };

template <class S> struct Make { static S get(vf::Src& s) { static const int c[] = { 0, 1, 2, -1, 5, 100, 77, -100 }; return (S)c[s.draw(8)]; } };
template <> struct Make<float> { static float get(vf::Src& s) { return s.draw(20) / 2.0f - (s.draw(2) ? 3 : 0); } };
template <> struct Make<double> { static double get(vf::Src& s) { return s.draw(20) / 2.0 - (s.draw(2) ? 3 : 0); } };
template <> struct Make<bool> { static bool get(vf::Src& s) { return s.draw(2); } };
template <> struct Make<unsigned char> { static unsigned char get(vf::Src& s) { return (unsigned char)s.draw(256); } };
template <> struct Make<Hue> { static Hue get(vf::Src& s) { static const Hue h[] = { RED, GREEN, BLUE }; return h[s.draw(3)]; } };
template <> struct Make<Both*> { static Both* get(vf::Src& s) { static Both b[4]; unsigned k = s.draw(5); return k ? &b[k - 1] : 0; } };

template <class C> struct ConvRange
{
    C& c; DErr& err; bool ins; size_t pos;
    template <class I> void operator()(I f, I l)
    {
        if (!ins) { c.assign_nothrow(err, f, l); return; }
        typename C::const_iterator p = c.cbegin();
        std::advance(p, pos);
        c.insert_nothrow(err, p, f, l);
    }
};
template <class F, class S> const char* conv_feed(unsigned how, const std::vector<S>& src, F f)
{
    size_t n = src.size();
    S* a = new S[n + 1];
    for (size_t i = 0; i < n; ++i) a[i] = src[i];
    const char* what = "";
    switch (how)
    {
    case 0: what = "a pointer range"; f((const S*)a, (const S*)a + n); break;
    case 1: what = "a range of non-const pointers"; f(a, a + n); break;
    case 2: { what = "std::list iterators"; std::list<S> l(a, a + n); f(l.begin(), l.end()); break; }
    case 3: { what = "reverse iterators"; std::reverse(a, a + n); f(std::reverse_iterator<S*>(a + n), std::reverse_iterator<S*>(a)); break; }
    case 4: { what = "nestl::vector iterators"; nestl::vector<S> v; DErr e; for (size_t i = 0; i < n; ++i) v.push_back_nothrow(e, static_cast<const S&>(a[i])); f(v.begin(), v.end()); break; }
    case 5: { what = "nestl::list iterators"; nestl::list<S> v; DErr e; for (size_t i = 0; i < n; ++i) v.push_back_nothrow(e, static_cast<const S&>(a[i])); f(v.cbegin(), v.cend()); break; }
    case 6: { what = "move iterators"; f(std::make_move_iterator(a), std::make_move_iterator(a + n)); break; }
    }
    delete[] a;
    return what;
}
template <class C, class S> void convert(vf::Src& s)
{
    typedef typename C::value_type T;
    C c; DErr err;
    std::vector<T> m;
    unsigned steps = 1 + s.draw(4);
    for (unsigned q = 0; q < steps; ++q)
    {
        std::vector<S> src;
        size_t n = s.draw(10);
        for (size_t i = 0; i < n; ++i) src.push_back(Make<S>::get(s));
        bool ins = q && s.draw(2);
        size_t pos = ins ? s.draw((uint32_t)m.size() + 1) : 0;
        ConvRange<C> f = { c, err, ins, pos };
        const char* what = conv_feed(s.draw(7), src, f);
        VF_NOTE("%s %zu elements from %s", ins ? "insert" : "assign", n, what);
        if (!ins) m.clear();
        for (size_t i = 0; i < n; ++i) m.insert(m.begin() + pos + i, static_cast<T>(src[i]));
        if (n > 1) vf::nontrivial();
        VF_CHECK(vf::CONTENT | vf::MISC, !err, "%s of %zu elements from %s failed", ins ? "insert" : "assign", n, what);
        bool ok = c.size() == m.size();
        size_t i = 0;
        for (typename C::const_iterator it = c.cbegin(); ok && it != c.cend(); ++it, ++i) ok = *it == m[i];
        VF_CHECK(vf::CONTENT | vf::MISC, ok, "%s of elements of another type from %s: element %zu is not the converted one", ins ? "insert" : "assign", what, i ? i - 1 : 0);
    }
}
}
#define VF_CONVERSIONS(C) \
    static void conversions(vf::Src& s) \
    { \
        switch (s.draw(8)) \
        { \
        case 0: return convert<C<int>, float>(s); case 1: return convert<C<float>, int>(s); \
        case 2: return convert<C<long>, double>(s); case 3: return convert<C<bool>, unsigned char>(s); \
        case 4: return convert<C<int>, signed char>(s); case 5: return convert<C<signed char>, int>(s); \
        case 6: return convert<C<int>, Hue>(s); default: return convert<C<Right*>, Both*>(s); \
        } \
    } \
    VF_SCENARIO_T(conversion, 1, conversions)
#endif
