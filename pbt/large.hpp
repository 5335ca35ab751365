// Histories of few operations on many plain elements (up to about 140000), compared with std containers:
// what only shows beyond some size (narrow counters, chunked work, growth at scale).
#ifndef VF_LARGE_HPP
#define VF_LARGE_HPP

#include "machine.hpp"
#include <set>

namespace VM
{

inline size_t any_size(vf::Src& s)
{
    unsigned d = s.draw(300);
    size_t top = d < 260 ? 300 : d < 298 ? 5000 : 70000;
    if (top == 70000 && s.draw(2)) return 65000 + s.draw(5001);
    if (s.draw(3) == 2)
    {
        size_t p = 1;
        unsigned bits = 0;
        while ((p << (bits + 1)) <= top) ++bits;
        p <<= s.draw(bits + 1);
        return p - 1 + s.draw(3);
    }
    return s.draw((uint32_t)top + 1);
}
inline int scatter(size_t i, unsigned seed) { return (int)((uint32_t)(i * 2654435761u + seed * 40503u) >> 4); }

struct LargeVec
{
    typedef nestl::vector<int, nestl::allocator<int> > C;
    static void same(const C& c, const std::vector<int>& m, const char* what)
    {
        VF_CHECK(vf::CONTENT, c.size() == m.size() && c.empty() == m.empty(), "%s: size %zu, expected %zu", what, (size_t)c.size(), m.size());
        VF_CHECK(vf::CONTENT, (size_t)(c.cend() - c.cbegin()) == m.size(), "%s: %td elements between begin and end, expected %zu", what, c.cend() - c.cbegin(), m.size());
        for (size_t i = 0; i < m.size() && i < c.size(); ++i)
            VF_CHECK(vf::CONTENT, c[i] == m[i], "%s: element %zu of %zu is %d, expected %d", what, i, m.size(), c[i], m[i]);
    }
    static void scenario(vf::Src& s)
    {
        W().reset();
        {
            C c, d;
            std::vector<int> m, md;
            unsigned steps = 1 + s.draw(6);
            for (unsigned q = 0; q < steps; ++q)
            {
                DErr err;
                unsigned op = s.draw(13);
                size_t n = any_size(s);
                if (m.size() > 140000 && op < 4) op = 4;
                unsigned seed = s.draw(1000);
                const char* what = "";
                switch (op)
                {
                case 0: what = "push_back"; VF_NOTE("%zu x push_back", n); for (size_t i = 0; i < n; ++i) { c.push_back_nothrow(err, scatter(i, seed)); m.push_back(scatter(i, seed)); } break;
                case 1: what = "emplace_back"; VF_NOTE("%zu x emplace_back", n); for (size_t i = 0; i < n; ++i) { c.emplace_back_nothrow(err, (int)i); m.push_back((int)i); } break;
                case 2: what = "resize"; VF_NOTE("resize(%zu, %u)", n, seed); c.resize_nothrow(err, n, (int)seed); m.resize(n, (int)seed); break;
                case 3: what = "resize"; VF_NOTE("resize(%zu)", n); c.resize_nothrow(err, n); m.resize(n); break;
                case 4: what = "assign"; VF_NOTE("assign(%zu, %u)", n, seed); c.assign_nothrow(err, n, (int)seed); m.assign(n, (int)seed); break;
                case 5:
                {
                    what = "range assign"; VF_NOTE("assign(range of %zu)", n);
                    std::vector<int> v;
                    for (size_t i = 0; i < n; ++i) v.push_back(scatter(i, seed));
                    if (seed & 1) c.assign_nothrow(err, v.begin(), v.end());
                    else { std::list<int> l(v.begin(), v.end()); c.assign_nothrow(err, l.begin(), l.end()); }
                    m = v;
                    break;
                }
                case 6: what = "reserve"; VF_NOTE("reserve(%zu)", n); c.reserve_nothrow(err, n); VF_CHECK(vf::CONTENT | vf::CAP, c.capacity() >= n, "reserve(%zu) gave capacity %zu", n, (size_t)c.capacity()); break;
                case 7: what = "shrink_to_fit"; VF_NOTE("shrink_to_fit"); c.shrink_to_fit_nothrow(err); break;
                case 8: case 9:
                {
                    what = "insert";
                    unsigned k = 1 + s.draw(4);
                    for (unsigned i = 0; i < k; ++i)
                    {
                        size_t p = s.draw((uint32_t)m.size() + 1);
                        VF_NOTE("insert at %zu", p);
                        C::iterator r = c.insert_nothrow(err, c.cbegin() + p, (int)i);
                        VF_CHECK(vf::RESULT, err || (size_t)(r - c.begin()) == p, "insert at %zu returned position %td", p, r - c.begin());
                        m.insert(m.begin() + p, (int)i);
                    }
                    break;
                }
                case 10: what = "copy"; VF_NOTE("copy to another"); d.copy_nothrow(err, c); md = m; break;
                case 11: what = "swap"; VF_NOTE("swap"); c.swap(d); m.swap(md); break;
                default: what = "clear"; VF_NOTE("clear"); c.clear(); m.clear(); break;
                }
                VF_CHECK(vf::CONTENT, !err, "%s failed although nothing was in its way", what);
                same(c, m, what);
                same(d, md, what);
                if (m.size() > 64) { vf::nontrivial(); vf::hit("more than 64 elements"); }
                if (m.size() > 65536) vf::hit("more than 65536 elements");
            }
        }
        final_balance();
    }
};

struct LargeList
{
    typedef nestl::list<int, TA<int> > C;
    static void same(const C& c, const std::list<int>& m, const char* what)
    {
        VF_CHECK(vf::CONTENT, c.size() == m.size() && c.empty() == m.empty(), "%s: size %zu, expected %zu", what, (size_t)c.size(), m.size());
        C::const_iterator i = c.cbegin();
        size_t n = 0;
        for (std::list<int>::const_iterator j = m.begin(); j != m.end(); ++j, ++i, ++n)
        {
            VF_CHECK(vf::CONTENT, i != c.cend(), "%s: iteration ends after %zu of %zu elements", what, n, m.size());
            VF_CHECK(vf::CONTENT, *i == *j, "%s: element %zu of %zu is %d, expected %d", what, n, m.size(), *i, *j);
        }
        VF_CHECK(vf::CONTENT, i == c.cend(), "%s: iteration does not end after %zu elements", what, n);
        C::const_reverse_iterator r = c.crbegin();
        for (std::list<int>::const_reverse_iterator j = m.rbegin(); j != m.rend(); ++j, ++r)
            VF_CHECK(vf::CONTENT, r != c.crend() && *r == *j, "%s: reverse iteration is wrong", what);
    }
    static void scenario(vf::Src& s)
    {
        W().reset();
        {
            C c, d;
            std::list<int> m, md;
            unsigned steps = 1 + s.draw(7);
            for (unsigned q = 0; q < steps; ++q)
            {
                DErr err;
                unsigned op = s.draw(15);
                size_t n = any_size(s);
                if (m.size() > 140000) op = 4;
                unsigned seed = s.draw(1000);
                size_t a = s.draw((uint32_t)m.size() + 1), b = a + s.draw((uint32_t)(m.size() - a) + 1), p = s.draw((uint32_t)md.size() + 1);
                const char* what = "";
                C::const_iterator ca = c.cbegin(), cb, dp = d.cbegin();
                std::list<int>::iterator ma = m.begin(), mb, mp = md.begin();
                std::advance(ca, a); std::advance(ma, a); cb = ca; mb = ma; std::advance(cb, b - a); std::advance(mb, b - a); std::advance(dp, p); std::advance(mp, p);
                switch (op)
                {
                case 0: what = "push_back"; VF_NOTE("%zu x push_back", n); for (size_t i = 0; i < n; ++i) { c.push_back_nothrow(err, scatter(i, seed)); m.push_back(scatter(i, seed)); } break;
                case 1: what = "push_front"; VF_NOTE("%zu x push_front", n); for (size_t i = 0; i < n; ++i) { c.push_front_nothrow(err, (int)i); m.push_front((int)i); } break;
                case 2: what = "count insert"; VF_NOTE("insert(%zu copies at %zu)", n, a); c.insert_nothrow(err, ca, n, (int)seed); m.insert(ma, n, (int)seed); break;
                case 3:
                {
                    what = "range insert"; VF_NOTE("insert(range of %zu at %zu)", n, a);
                    std::vector<int> v;
                    for (size_t i = 0; i < n; ++i) v.push_back(scatter(i, seed));
                    c.insert_nothrow(err, ca, v.begin(), v.end()); m.insert(ma, v.begin(), v.end());
                    break;
                }
                case 4: what = "assign"; VF_NOTE("assign(%zu, %u)", n, seed); c.assign_nothrow(err, n, (int)seed); m.assign(n, (int)seed); break;
                case 5: what = "range assign"; VF_NOTE("assign(other list)"); c.assign_nothrow(err, d.cbegin(), d.cend()); m = md; break;
                case 6: what = "range erase"; VF_NOTE("erase(%zu..%zu)", a, b); c.erase(ca, cb); m.erase(ma, mb); break;
                case 7: what = "range splice"; VF_NOTE("splice(%zu..%zu to %zu)", a, b, p); d.splice(dp, c, ca, cb); md.splice(mp, m, ma, mb); break;
                case 8: what = "splice"; VF_NOTE("splice(all to %zu)", p); d.splice(dp, c); md.splice(mp, m); break;
                case 9: what = "sort"; VF_NOTE("sort"); c.sort(); m.sort(); break;
                case 10: what = "merge"; VF_NOTE("sort and merge"); c.sort(); d.sort(); m.sort(); md.sort(); d.merge(c); md.merge(m); break;
                case 11: what = "copy"; VF_NOTE("copy to another"); d.copy_nothrow(err, c); md = m; break;
                case 12: what = "swap"; VF_NOTE("swap"); c.swap(d); m.swap(md); break;
                case 13:
                {
                    what = "pop"; n = std::min(n, m.size());
                    VF_NOTE("%zu x pop", n);
                    for (size_t i = 0; i < n; ++i) if ((i ^ seed) & 1) { c.pop_back(); m.pop_back(); } else { c.pop_front(); m.pop_front(); }
                    break;
                }
                default: what = "move"; VF_NOTE("move to another"); d = std::move(c); md.swap(m); m.clear(); break;
                }
                VF_CHECK(vf::CONTENT, !err, "%s failed although nothing was in its way", what);
                same(c, m, what);
                same(d, md, what);
                if (m.size() > 64 || md.size() > 64) { vf::nontrivial(); vf::hit("more than 64 elements"); }
                if (m.size() > 65536 || md.size() > 65536) vf::hit("more than 65536 elements");
            }
        }
        final_balance();
    }
};

struct LargeSet
{
    typedef nestl::set<int, std::less<int>, TA<int> > C;
    static void same(const C& c, const std::set<int>& m, const char* what)
    {
        VF_CHECK(vf::CONTENT, c.size() == m.size() && c.empty() == m.empty(), "%s: size %zu, expected %zu", what, (size_t)c.size(), m.size());
        C::const_iterator i = c.cbegin();
        size_t n = 0;
        for (std::set<int>::const_iterator j = m.begin(); j != m.end(); ++j, ++i, ++n)
        {
            VF_CHECK(vf::CONTENT, i != c.cend(), "%s: iteration ends after %zu of %zu elements", what, n, m.size());
            VF_CHECK(vf::CONTENT, *i == *j, "%s: element %zu of %zu is %d, expected %d", what, n, m.size(), *i, *j);
        }
        VF_CHECK(vf::CONTENT, i == c.cend(), "%s: iteration does not end after %zu elements", what, n);
        C::const_reverse_iterator r = c.crbegin();
        for (std::set<int>::const_reverse_iterator j = m.rbegin(); j != m.rend(); ++j, ++r)
            VF_CHECK(vf::CONTENT, r != c.crend() && *r == *j, "%s: reverse iteration is wrong", what);
    }
    static int key(unsigned pat, size_t i, unsigned seed)
    {
        switch (pat)
        {
        case 0: return (int)i;
        case 1: return -(int)i;
        case 2: return scatter(i, seed) % 100000;
        case 3: return scatter(i, seed);
        default: return (i & 1) ? (int)i : -(int)i;
        }
    }
    static void scenario(vf::Src& s)
    {
        W().reset();
        {
            C c, d;
            std::set<int> m, md;
            unsigned steps = 1 + s.draw(7);
            for (unsigned q = 0; q < steps; ++q)
            {
                DErr err;
                unsigned op = s.draw(10);
                size_t n = any_size(s);
                if (m.size() > 140000) op = 4;
                unsigned seed = s.draw(1000), pat = s.draw(5);
                const char* what = "";
                switch (op)
                {
                case 0: case 1: case 2:
                    what = "insert"; VF_NOTE("%zu x insert, pattern %u.%u", n, pat, seed);
                    for (size_t i = 0; i < n; ++i)
                    {
                        int k = key(pat, i, seed);
                        bool nu = m.insert(k).second;
                        std::pair<C::iterator, bool> r = c.insert_nothrow(err, k);
                        VF_CHECK(vf::RESULT, err || (r.second == nu && r.first != c.end() && *r.first == k), "inserting %d among %zu elements: wrong result", k, m.size());
                    }
                    break;
                case 3: case 4:
                    what = "erase"; VF_NOTE("%zu x erase, pattern %u.%u", n, pat, seed);
                    for (size_t i = 0; i < n; ++i)
                    {
                        int k = key(pat, i, seed);
                        size_t e = m.erase(k);
                        size_t r = c.erase(k);
                        VF_CHECK(vf::RESULT, r == e, "erasing %d returned %zu, expected %zu", k, r, e);
                        if (e) ev(EV_ERASE);
                    }
                    break;
                case 5:
                {
                    what = "erase through positions";
                    unsigned step = 1 + seed % 5;
                    VF_NOTE("erase every element but each %uth", step);
                    size_t j = 0;
                    std::set<int>::iterator mi = m.begin();
                    for (C::iterator b = c.begin(); b != c.end() && mi != m.end(); ++j)
                    {
                        C::iterator nx = b; ++nx;
                        if (j % step == 0) { c.erase(C::const_iterator(b)); mi = m.erase(mi); } else ++mi;
                        b = nx;
                    }
                    break;
                }
                case 6: what = "copy"; VF_NOTE("copy to another"); d.copy_nothrow(err, c); md = m; break;
                case 7: what = "clear"; VF_NOTE("clear"); c.clear(); m.clear(); break;
                case 8: what = "move"; VF_NOTE("move to another"); d = std::move(c); md.swap(m); m.clear(); break;
                default:
                    what = "find"; VF_NOTE("look all up");
                    for (std::set<int>::iterator i = m.begin(); i != m.end(); ++i)
                    {
                        C::iterator f = c.find(*i);
                        VF_CHECK(vf::CONTENT | vf::RESULT, f != c.end() && *f == *i, "element %d of %zu is not found", *i, m.size());
                    }
                    break;
                }
                VF_CHECK(vf::CONTENT, !err, "%s failed although nothing was in its way", what);
                same(c, m, what);
                same(d, md, what);
                if (m.size() > 64 || md.size() > 64) { vf::nontrivial(); vf::hit("more than 64 elements"); }
                if (m.size() > 65536 || md.size() > 65536) vf::hit("more than 65536 elements");
            }
        }
        final_balance();
    }
};

} // namespace VM

#endif
