// Histories of lists, sets and shared pointers of elements that can be moved but not copied and have no default
// constructor, so every element reaches its place by moves.
#ifndef VF_MOVEONLY_HPP
#define VF_MOVEONLY_HPP

#include "machine.hpp"

namespace VM
{

struct Mo : Core
{
    Mo(int k, int t) noexcept { ++W().ctors; born(k, t); }
    Mo(Mo&& o) noexcept { o.check("moved"); ++W().moves; born(o.key, o.tag); o.key = K_MOVED; o.tag = 0; }
    ~Mo() { die(); }
    Mo(const Mo&) = delete;
    Mo& operator=(const Mo&) = delete;
    Mo& operator=(Mo&&) = delete;
};
inline Val val(const Mo& m) { m.check("read"); return mk(m.key, m.tag); }
struct MoLess
{
    bool down;
    explicit MoLess(bool d = false) NESTL_NOEXCEPT_SPEC : down(d) {}
    bool operator()(const Mo& a, const Mo& b) const NESTL_NOEXCEPT_SPEC { a.check("compared"); b.check("compared"); return down ? b.key < a.key : a.key < b.key; }
};
struct VLess
{
    bool down;
    bool operator()(const Val& a, const Val& b) const { return down ? b.key < a.key : a.key < b.key; }
};

struct MoveOnly
{
    typedef nestl::list<Mo, TA<Mo> > L;
    typedef std::list<Val> M;
    static void same(const L& c, const M& m, const char* what)
    {
        L::const_iterator i = c.begin();
        size_t p = 0;
        for (M::const_iterator j = m.begin(); j != m.end(); ++j, ++i, ++p)
        {
            if (i == c.end()) { VF_CHECK(vf::CONTENT, false, "after %s the list has %zu elements, expected %zu", what, p, m.size()); return; }
            VF_CHECK(vf::CONTENT, val(*i) == *j, "after %s element %zu is %s, expected %s", what, p, show(val(*i)).c_str(), show(*j).c_str());
        }
        VF_CHECK(vf::CONTENT, i == c.end() && c.size() == m.size(), "after %s the list has size %zu, expected %zu", what, (size_t)c.size(), m.size());
    }
    static L::iterator at(L& c, size_t n) { L::iterator i = c.begin(); while (n--) ++i; return i; }
    static M::iterator at(M& c, size_t n) { M::iterator i = c.begin(); while (n--) ++i; return i; }

    static void lists(vf::Src& s)
    {
        W().reset();
        {
            L a(TA<Mo>(1)), b(TA<Mo>(1));
            L* c[2] = { &a, &b };
            M m[2];
            int tag = 0;
            unsigned steps = 2 + s.small(40);
            for (unsigned q = 0; q < steps; ++q)
            {
                int x = (int)s.draw(2), y = 1 - x;
                size_t n = m[x].size(), p = s.draw((uint32_t)n + 1);
                Val v = mk((int)s.draw(20), ++tag);
                Mo e(v.key, v.tag);
                DErr err;
                const char* what = "";
                unsigned op = s.draw(18);
                uint64_t moves = W().moves, made = W().ctors;
                size_t allocs = W().total_allocs();
                unsigned kind = 0;          // 1 inserts, 2 transfers
                VF_NOTE("l%d: operation %u, element %s, position %zu", x, op, show(v).c_str(), p);
                switch (op)
                {
                case 0: kind = 1; what = "push_back"; c[x]->push_back_nothrow(err, std::move(e)); m[x].push_back(v); break;
                case 1: kind = 1; what = "push_front"; c[x]->push_front_nothrow(err, std::move(e)); m[x].push_front(v); break;
                case 2: kind = 1; what = "emplace_back"; c[x]->emplace_back_nothrow(err, std::move(e)); m[x].push_back(v); break;
                case 3: kind = 1; what = "emplace_front"; c[x]->emplace_front_nothrow(err, std::move(e)); m[x].push_front(v); break;
                case 4: case 5: kind = 1; what = "emplace"; c[x]->emplace_nothrow(err, at(*c[x], p), std::move(e)); m[x].insert(at(m[x], p), v); break;
                case 6: case 7: kind = 1; what = "insert"; c[x]->insert_nothrow(err, at(*c[x], p), std::move(e)); m[x].insert(at(m[x], p), v); break;
                case 8: if (p == n) break; kind = 2; what = "erase"; c[x]->erase(at(*c[x], p)); m[x].erase(at(m[x], p)); break;
                case 9: if (!n) break; kind = 2; what = "pop_back"; c[x]->pop_back(); m[x].pop_back(); break;
                case 10: if (!n) break; kind = 2; what = "pop_front"; c[x]->pop_front(); m[x].pop_front(); break;
                case 11: kind = 2; what = "splice"; c[x]->splice(at(*c[x], p), *c[y]); m[x].splice(at(m[x], p), m[y]); break;
                case 12:
                {
                    if (m[y].empty()) break;
                    size_t r = s.draw((uint32_t)m[y].size());
                    kind = 2; what = "splice of one element";
                    c[x]->splice(at(*c[x], p), *c[y], at(*c[y], r)); m[x].splice(at(m[x], p), m[y], at(m[y], r));
                    break;
                }
                case 13:
                {
                    VLess vl = { s.draw(2) == 1 };
                    kind = 2; what = "sort and merge";
                    c[x]->sort(MoLess(vl.down)); m[x].sort(vl);
                    c[y]->sort(MoLess(vl.down)); m[y].sort(vl);
                    c[x]->merge(*c[y], MoLess(vl.down)); m[x].merge(m[y], vl);
                    break;
                }
                case 14: kind = 2; what = "swap"; c[x]->swap(*c[y]); m[x].swap(m[y]); break;
                case 15: kind = 2; what = "move assignment"; *c[x] = std::move(*c[y]); m[x].swap(m[y]); m[y].clear(); break;
                case 16:
                {
                    kind = 2; what = "move construction";
                    L t(std::move(*c[x]));
                    same(t, m[x], what);
                    VF_CHECK(vf::CONTENT | vf::XFER, c[x]->empty(), "the source of a move construction is not empty");
                    t.swap(*c[x]);
                    break;
                }
                default: kind = 2; what = "clear"; c[x]->clear(); m[x].clear(); break;
                }
                VF_CHECK(vf::CONTENT, !err, "%s reported an error although nothing failed", what);
                if (kind == 1)
                {
                    VF_CHECK(vf::XFER, e.key == K_MOVED && W().moves == moves + 1 && W().ctors == made, "%s of a temporary needed %llu moves", what, (unsigned long long)(W().moves - moves));
                    ev(EV_MOVE);
                }
                if (kind == 2) VF_CHECK(vf::XFER, W().moves == moves && W().ctors == made && W().total_allocs() == allocs, "%s moved elements or allocated", what);
                same(*c[x], m[x], what);
                same(*c[y], m[y], what);
                VF_CHECK(vf::LIFE, W().live == (long)(m[0].size() + m[1].size() + 1), "after %s %ld elements are alive, the lists hold %zu", what, W().live - 1, m[0].size() + m[1].size());
            }
        }
        final_balance();
    }

    static void sets(vf::Src& s)
    {
        typedef nestl::set<Mo, MoLess, TA<Mo> > C;
        W().reset();
        {
            VLess vl = { s.draw(2) == 1 };
            C c(MoLess(vl.down), TA<Mo>(1));
            std::vector<Val> m;
            int tag = 0;
            int span = 4 + (int)s.draw(60);
            unsigned steps = 2 + s.small(60);
            for (unsigned q = 0; q < steps; ++q)
            {
                Val v = mk((int)s.draw((uint32_t)span), ++tag);
                Mo e(v.key, v.tag);
                DErr err;
                std::vector<Val>::iterator p = std::lower_bound(m.begin(), m.end(), v, vl);
                bool dup = p != m.end() && p->key == v.key;
                uint64_t moves = W().moves;
                unsigned op = s.draw(8);
                VF_NOTE("operation %u with %s%s", op, show(v).c_str(), dup ? " (present)" : "");
                if (op < 4)
                {
                    std::pair<C::iterator, bool> r = c.insert_nothrow(err, std::move(e));
                    VF_CHECK(vf::CONTENT, !err && r.second == !dup && val(*r.first) == (dup ? *p : v), "insert of %s gave the wrong result", show(v).c_str());
                    VF_CHECK(vf::XFER, W().moves == moves + !dup && val(e) == (dup ? v : mk(K_MOVED, 0)), "insert of %s needed %llu moves", show(v).c_str(), (unsigned long long)(W().moves - moves));
                    if (!dup) m.insert(p, v);
                    ev(EV_MOVE);
                }
                else if (op == 4)
                {
                    size_t r = c.erase(e);
                    VF_CHECK(vf::CONTENT, r == (dup ? 1u : 0u), "erase of %s returned %zu", show(v).c_str(), r);
                    if (dup) m.erase(p);
                }
                else if (op == 5)
                {
                    C::iterator f = c.find(e);
                    VF_CHECK(vf::CONTENT, dup ? f != c.end() && val(*f) == *p : f == c.end(), "find of %s is wrong", show(v).c_str());
                    if (dup) { c.erase(C::const_iterator(f)); m.erase(p); }
                }
                else if (op == 6)
                {
                    C t(std::move(c));
                    VF_CHECK(vf::CONTENT | vf::XFER, c.empty() && t.size() == m.size(), "a moved set has the wrong size");
                    c = std::move(t);
                    VF_CHECK(vf::XFER, W().moves == moves, "moving a set moved its elements");
                }
                size_t k = 0;
                for (C::const_iterator i = c.begin(); i != c.end(); ++i, ++k)
                {
                    if (k >= m.size()) break;
                    VF_CHECK(vf::CONTENT, val(*i) == m[k], "element %zu of the set is %s, expected %s", k, show(val(*i)).c_str(), show(m[k]).c_str());
                }
                VF_CHECK(vf::CONTENT, k == m.size() && c.size() == m.size(), "the set has %zu elements, expected %zu", (size_t)c.size(), m.size());
            }
        }
        final_balance();
    }
};

} // namespace VM

#endif
