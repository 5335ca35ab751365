// PARTS 4
// The iterators of the containers work with the algorithms of the standard library.
#include "machine.hpp"
#include <numeric>
#include <functional>
#include <set>

#if PART == 0
VF_PROPERTY_CFG(vf::MISC | vf::LIFE, 0, 0, false)
#endif
namespace VM
{
struct Num : Core                // an element that notices being used when it does not exist
{
    Num() noexcept { ++W().ctors; born(K_DEFAULT, 0); }
    explicit Num(int k) noexcept { ++W().ctors; born(k, 0); }
    Num(const Num& o) noexcept { o.check("copied"); ++W().copies; born(o.key, o.tag); }
    Num(Num&& o) noexcept { o.check("moved"); ++W().moves; born(o.key, o.tag); o.key = K_MOVED; }
    Num& operator=(const Num& o) noexcept { check("assigned to"); o.check("copied"); ++W().assigns; key = o.key; tag = o.tag; return *this; }
    Num& operator=(Num&& o) noexcept { check("assigned to"); o.check("moved"); ++W().assigns; if (this != &o) { key = o.key; tag = o.tag; o.key = K_MOVED; } return *this; }
    ~Num() { die(); }
};
template <class T> struct IO;
template <> struct IO<int> { static int make(int k, int) { return k; } static long get(const int& x) { return x; } };
template <> struct IO<Num> { static Num make(int k, int t) { Num n(k); n.tag = t; return n; } static long get(const Num& x) { x.check("read"); return (long)x.key * 1000 + x.tag; } };
template <class T> inline int key_of(const T& x);
template <> inline int key_of<int>(const int& x) { return x; }
template <> inline int key_of<Num>(const Num& x) { return x.key; }
struct Less { template <class T> bool operator()(const T& a, const T& b) const { return key_of(a) < key_of(b); } };
struct Same { template <class T> bool operator()(const T& a, const T& b) const { return key_of(a) == key_of(b); } };
struct Odd { template <class T> bool operator()(const T& a) const { return (key_of(a) & 1) != 0; } };
struct Sum { template <class T> long operator()(long a, const T& b) const { return (long)((unsigned long)a * 31u + (unsigned long)IO<T>::get(b)); } };
struct Put { std::vector<long>* out; template <class T> void operator()(const T& x) const { out->push_back(IO<T>::get(x)); } };
template <class T> struct Next { int n; Next() : n(0) {} T operator()() { return IO<T>::make(++n * 3 % 7, n); } };

struct Param { unsigned alg, x, y, z; };
typedef std::vector<long> Res;       // what an algorithm gave back

// ---- algorithms that only read; any forward iterator
enum { READS = 26 };
template <class T, class It> static Res reading(It b, It e, const Param& p, const std::vector<T>& other)
{
    Res r;
    typedef typename std::iterator_traits<It>::difference_type D;
    D n = std::distance(b, e);
    r.push_back((long)n);
    if (n < 0 || n > 1000000) return r;
    It m = b;
    std::advance(m, (D)(p.x % (unsigned)(n + 1)));
    T val = IO<T>::make((int)(p.y % 12), 0);
#define POS(i) r.push_back((long)std::distance(b, (i)))
    switch (p.alg % READS)
    {
    case 0: POS(std::find_if(b, e, Odd())); break;
    case 1: r.push_back((long)std::count_if(b, e, Odd())); break;
    case 2: r.push_back(std::accumulate(b, e, 7L, Sum())); break;
    case 3: POS(std::min_element(b, e, Less())); break;
    case 4: POS(std::max_element(b, e, Less())); break;
    case 5: POS(std::adjacent_find(b, e, Same())); break;
    case 6: POS(std::search(b, e, other.begin(), other.end(), Same())); break;
    case 7: POS(std::find_first_of(b, e, other.begin(), other.end(), Same())); break;
    case 8: r.push_back(std::is_sorted(b, e, Less())); break;
    case 9: POS(std::is_sorted_until(b, e, Less())); break;
    case 10: std::for_each(b, e, Put{ &r }); break;
    case 11: { std::vector<T> o; std::copy(b, e, std::back_inserter(o)); std::for_each(o.begin(), o.end(), Put{ &r }); break; }
    case 12: { std::vector<T> o; std::reverse_copy(b, e, std::back_inserter(o)); std::for_each(o.begin(), o.end(), Put{ &r }); break; }
    case 13: { std::vector<T> o; std::rotate_copy(b, m, e, std::back_inserter(o)); std::for_each(o.begin(), o.end(), Put{ &r }); break; }
    case 14: { std::vector<T> o; std::unique_copy(b, e, std::back_inserter(o), Same()); std::for_each(o.begin(), o.end(), Put{ &r }); break; }
    case 15: { std::vector<T> o; std::remove_copy_if(b, e, std::back_inserter(o), Odd()); std::for_each(o.begin(), o.end(), Put{ &r }); break; }
    case 16: r.push_back(std::equal(b, m, b, Same())); break;
    case 17: r.push_back(std::lexicographical_compare(b, m, other.begin(), other.end(), Less())); break;
    case 18: { std::vector<T> o(b, e); std::for_each(o.begin(), o.end(), Put{ &r }); break; }
    case 19: r.push_back(std::is_permutation(b, e, b)); break;
    case 20: r.push_back(std::all_of(b, e, Odd())); r.push_back(std::any_of(m, e, Odd())); r.push_back(std::none_of(b, m, Odd())); break;
    case 21: POS(std::find_end(b, e, other.begin(), other.end(), Same())); break;
    case 22: POS(std::partition_point(b, std::find_if(b, e, Odd()), Odd())); break;
    case 23: POS(std::search_n(b, e, 2, val, Same())); break;
    case 24: if (n) { It q = e; std::advance(q, -(D)1); r.push_back(IO<T>::get(*q)); POS(std::prev(e, (D)(p.z % (unsigned)n + 1))); } break;
    default: if (n) POS(std::next(b, (D)(p.z % (unsigned)(n + 1)))); break;
    }
#undef POS
    return r;
}
// ---- algorithms on sorted ranges
enum { SORTED = 9 };
template <class T, class It> static Res sorted(It b, It e, const Param& p, const std::vector<T>& other)     // other is sorted too
{
    Res r;
    T val = IO<T>::make((int)(p.y % 12), 0);
    std::vector<T> o;
    switch (p.alg % SORTED)
    {
    case 0: r.push_back((long)std::distance(b, std::lower_bound(b, e, val, Less()))); break;
    case 1: r.push_back((long)std::distance(b, std::upper_bound(b, e, val, Less()))); break;
    case 2: { std::pair<It, It> q = std::equal_range(b, e, val, Less()); r.push_back((long)std::distance(b, q.first)); r.push_back((long)std::distance(q.first, q.second)); break; }
    case 3: r.push_back(std::binary_search(b, e, val, Less())); break;
    case 4: r.push_back(std::includes(b, e, other.begin(), other.end(), Less())); break;
    case 5: std::merge(b, e, other.begin(), other.end(), std::back_inserter(o), Less()); break;
    case 6: std::set_union(b, e, other.begin(), other.end(), std::back_inserter(o), Less()); break;
    case 7: std::set_difference(b, e, other.begin(), other.end(), std::back_inserter(o), Less()); break;
    default: std::set_intersection(other.begin(), other.end(), b, e, std::back_inserter(o), Less()); break;
    }
    std::for_each(o.begin(), o.end(), Put{ &r });
    return r;
}
// ---- algorithms that write; bidirectional
enum { WRITES = 17 };
template <class T, class It> static Res writing(It b, It e, const Param& p, const std::vector<T>& other)
{
    Res r;
    typedef typename std::iterator_traits<It>::difference_type D;
    D n = std::distance(b, e);
    It m = b;
    std::advance(m, (D)(p.x % (unsigned)(n + 1)));
    D half = n / 2;
    It h = b; std::advance(h, half);
    T val = IO<T>::make((int)(p.y % 12), 5);
#define POS(i) r.push_back((long)std::distance(b, (i)))
    switch (p.alg % WRITES)
    {
    case 0: std::reverse(b, e); break;
    case 1: std::rotate(b, m, e); break;
    case 2: std::stable_partition(b, e, Odd()); break;
    case 3: { It q = std::partition(b, e, Odd()); POS(q); r.push_back(std::is_partitioned(b, e, Odd())); break; }
    case 4: { It q = std::remove_if(b, e, Odd()); POS(q); std::fill(q, e, val); break; }
    case 5: { It q = std::unique(b, e, Same()); POS(q); std::fill(q, e, val); break; }
    case 6: std::replace_if(b, e, Odd(), val); break;
    case 7: std::fill(m, e, val); break;
    case 8: std::generate(b, m, Next<T>()); break;
    case 9: r.push_back(std::next_permutation(b, e, Less())); break;
    case 10: r.push_back(std::prev_permutation(b, e, Less())); break;
    case 11: std::copy_backward(b, h, e); break;
    case 12: std::swap_ranges(b, h, h); break;
    case 13: POS(std::copy(other.begin(), other.begin() + std::min((D)other.size(), n), b)); break;
    case 14: if (n > 1) std::iter_swap(b, std::prev(e)); break;
    case 15: std::inplace_merge(b, std::is_sorted_until(b, e, Less()), e, Less()); break;
    default: POS(std::transform(b, e, b, [](const T& x) { return IO<T>::make(key_of(x) + 1, 1); })); break;
    }
#undef POS
    return r;
}
// ---- random access only
enum { RANDOMS = 8 };
template <class T, class It> static Res randoms(It b, It e, const Param& p)
{
    Res r;
    size_t n = (size_t)(e - b);
    It m = b + (std::ptrdiff_t)(p.x % (n + 1));
    switch (p.alg % RANDOMS)
    {
    case 0: std::stable_sort(b, e, Less()); break;
    case 1: std::sort(b, e, Less()); break;
    case 2: std::nth_element(b, m, e, Less()); break;
    case 3: std::partial_sort(b, m, e, Less()); break;
    case 4: std::make_heap(b, e, Less()); r.push_back(std::is_heap(b, e, Less())); std::sort_heap(b, e, Less()); break;
    case 5: std::make_heap(b, e, Less()); if (n) std::pop_heap(b, e, Less()); break;
    case 6: for (size_t i = 0; i < n; ++i) { r.push_back(IO<T>::get(b[(std::ptrdiff_t)i])); r.push_back((b + (std::ptrdiff_t)i) < e); r.push_back((long)(e - (b + (std::ptrdiff_t)i))); } break;
    default: if (n > 1) std::swap(b[0], b[(std::ptrdiff_t)n - 1]); break;
    }
    return r;
}
static std::string show_res(const Res& r)
{
    std::string s = "[";
    for (size_t i = 0; i < r.size() && i < 20; ++i) { char b[32]; snprintf(b, sizeof b, "%s%ld", i ? " " : "", r[i]); s += b; }
    return s + "]";
}
template <class X, class Y> static void same_content(const X& x, const Y& y, const char* what)
{
    Res a, b;
    for (typename X::const_iterator i = x.begin(); i != x.end(); ++i) a.push_back(IO<typename X::value_type>::get(*i));
    for (typename Y::const_iterator i = y.begin(); i != y.end(); ++i) b.push_back(IO<typename Y::value_type>::get(*i));
    VF_CHECK(vf::MISC, a == b, "after %s the container holds %s, the standard one %s", what, show_res(a).c_str(), show_res(b).c_str());
}
static void same_res(const Res& a, const Res& b, const char* what) { VF_CHECK(vf::MISC, a == b, "%s gives %s, on the standard container %s", what, show_res(a).c_str(), show_res(b).c_str()); }

template <class T> static std::vector<T> input(vf::Src& s, bool ascending, bool distinct)
{
    unsigned n = s.draw(16) == 15 ? s.draw(400) : s.small(30);
    std::vector<int> k;
    for (unsigned i = 0; i < n; ++i) k.push_back((int)s.draw(12));
    if (ascending) std::sort(k.begin(), k.end());
    if (distinct) k.erase(std::unique(k.begin(), k.end()), k.end());
    std::vector<T> r;
    for (size_t i = 0; i < k.size(); ++i) r.push_back(IO<T>::make(k[i], (int)i));
    return r;
}
template <class C, class Cat> static void conforming()
{
    typedef typename C::value_type T;
    typedef std::iterator_traits<typename C::iterator> I; typedef std::iterator_traits<typename C::const_iterator> K;
    typedef typename C::reverse_iterator R; typedef typename C::const_reverse_iterator CR;
    VF_CHECK(vf::MISC, (std::is_same<typename std::remove_cv<typename I::value_type>::type, T>::value && std::is_same<typename std::remove_cv<typename K::value_type>::type, T>::value), "an iterator has the wrong value type");
    VF_CHECK(vf::MISC, (std::is_base_of<Cat, typename I::iterator_category>::value && std::is_base_of<Cat, typename K::iterator_category>::value), "an iterator has the wrong category");
    VF_CHECK(vf::MISC, (std::is_same<typename K::reference, const T&>::value && std::is_same<typename K::pointer, const T*>::value), "a const iterator has the wrong reference or pointer type");
    VF_CHECK(vf::MISC, std::is_signed<typename I::difference_type>::value && std::is_signed<typename K::difference_type>::value && std::is_signed<typename C::difference_type>::value, "an iterator has an unsigned difference type");
    VF_CHECK(vf::MISC, (sizeof(typename I::difference_type) == sizeof(std::ptrdiff_t) && sizeof(typename K::difference_type) == sizeof(std::ptrdiff_t)), "an iterator has a narrow difference type");
    VF_CHECK(vf::MISC, (std::is_convertible<typename C::iterator, typename C::const_iterator>::value && std::is_default_constructible<typename C::iterator>::value && std::is_default_constructible<typename C::const_iterator>::value), "iterators do not convert or have no default");
    VF_CHECK(vf::MISC, (std::is_base_of<Cat, typename std::iterator_traits<R>::iterator_category>::value && std::is_base_of<Cat, typename std::iterator_traits<CR>::iterator_category>::value), "a reverse iterator has the wrong category");
}
template <class C, class M, class Cat> static void run(vf::Src& s, bool is_vector)
{
    typedef typename C::value_type T;
    conforming<C, Cat>();
    W().reset();
    {
        bool asc = s.draw(3) == 2;
        std::vector<T> data = input<T>(s, asc, false), other = input<T>(s, asc, false);
        C c; M m(data.begin(), data.end());
        nestl::default_operation_error err;
        c.assign_nothrow(err, data.begin(), data.end());
        if (err) VF_FAIL("harness could not fill a container");
        unsigned steps = 1 + s.draw(6);
        VF_NOTE("%zu elements%s", data.size(), asc ? ", ascending" : "");
        if (data.size() > 2) vf::nontrivial();
        for (unsigned i = 0; i < steps; ++i)
        {
            Param p = { s.draw(64), s.draw(40), s.draw(40), s.draw(40) };
            unsigned kind = s.draw(8);
            const C& kc = c; const M& km = m;
            VF_NOTE("kind %u algorithm %u parameters %u %u %u", kind, p.alg, p.x, p.y, p.z);
            switch (kind)
            {
            case 0: same_res(reading<T>(c.begin(), c.end(), p, other), reading<T>(m.begin(), m.end(), p, other), "a reading algorithm"); break;
            case 1: same_res(reading<T>(kc.begin(), kc.end(), p, other), reading<T>(km.begin(), km.end(), p, other), "a reading algorithm on const iterators"); break;
            case 2: same_res(reading<T>(c.rbegin(), c.rend(), p, other), reading<T>(m.rbegin(), m.rend(), p, other), "a reading algorithm on reverse iterators"); break;
            case 3: same_res(reading<T>(kc.crbegin(), kc.crend(), p, other), reading<T>(km.crbegin(), km.crend(), p, other), "a reading algorithm on const reverse iterators"); break;
            case 4: if (std::is_sorted(km.begin(), km.end(), Less()) && std::is_sorted(other.begin(), other.end(), Less())) same_res(sorted<T>(kc.cbegin(), kc.cend(), p, other), sorted<T>(km.begin(), km.end(), p, other), "an algorithm on sorted ranges"); break;
            case 5: same_res(writing<T>(c.begin(), c.end(), p, other), writing<T>(m.begin(), m.end(), p, other), "a writing algorithm"); break;
            case 6: same_res(writing<T>(c.rbegin(), c.rend(), p, other), writing<T>(m.rbegin(), m.rend(), p, other), "a writing algorithm on reverse iterators"); break;
            default: random_step(c, m, p, typename std::is_same<Cat, std::random_access_iterator_tag>::type()); break;
            }
            same_content(c, m, "the algorithm");
        }
    }
    VF_CHECK(vf::LIFE, W().live == 0, "%ld elements are left", W().live);
    (void)is_vector;
}
template <class C, class M> static void random_step(C& c, M& m, const Param& p, std::true_type)
{
    typedef typename C::value_type T;
    if (p.z & 1) same_res(randoms<T>(c.begin(), c.end(), p), randoms<T>(m.begin(), m.end(), p), "an algorithm with random access");
    else same_res(randoms<T>(c.rbegin(), c.rend(), p), randoms<T>(m.rbegin(), m.rend(), p), "an algorithm with random access on reverse iterators");
}
template <class C, class M> static void random_step(C&, M&, const Param&, std::false_type) {}

template <class T> struct ByKey { bool operator()(const T& a, const T& b) const { return key_of(a) < key_of(b); } };
template <class T> static void run_set(vf::Src& s)
{
    typedef nestl::set<T, ByKey<T> > C; typedef std::set<T, ByKey<T> > M;
    conforming<C, std::bidirectional_iterator_tag>();
    W().reset();
    {
        std::vector<T> data = input<T>(s, s.draw(2) != 0, false), other = input<T>(s, true, s.draw(2) != 0);
        C c; M m;
        nestl::default_operation_error err;
        for (size_t i = 0; i < data.size(); ++i) { c.insert_nothrow(err, data[i]); m.insert(data[i]); }
        if (err) VF_FAIL("harness could not fill a set");
        unsigned steps = 1 + s.draw(6);
        VF_NOTE("set of %zu elements", m.size());
        if (m.size() > 2) vf::nontrivial();
        for (unsigned i = 0; i < steps; ++i)
        {
            Param p = { s.draw(64), s.draw(40), s.draw(40), s.draw(40) };
            unsigned kind = s.draw(4);
            const C& kc = c; const M& km = m;
            VF_NOTE("kind %u algorithm %u parameters %u %u %u", kind, p.alg, p.x, p.y, p.z);
            switch (kind)
            {
            case 0: same_res(reading<T>(c.begin(), c.end(), p, other), reading<T>(m.begin(), m.end(), p, other), "a reading algorithm"); break;
            case 1: same_res(reading<T>(kc.begin(), kc.end(), p, other), reading<T>(km.begin(), km.end(), p, other), "a reading algorithm on const iterators"); break;
            case 2: same_res(reading<T>(kc.rbegin(), kc.rend(), p, other), reading<T>(km.rbegin(), km.rend(), p, other), "a reading algorithm on reverse iterators"); break;
            default: same_res(sorted<T>(kc.begin(), kc.end(), p, other), sorted<T>(km.begin(), km.end(), p, other), "an algorithm on sorted ranges"); break;
            }
            same_content(c, m, "the algorithm");
        }
    }
    VF_CHECK(vf::LIFE, W().live == 0, "%ld elements are left", W().live);
}
template <class T> static void vec(vf::Src& s) { run<nestl::vector<T>, std::vector<T>, std::random_access_iterator_tag>(s, true); }
template <class T> static void lst(vf::Src& s) { run<nestl::list<T>, std::list<T>, std::bidirectional_iterator_tag>(s, false); }

// equality of elements for is_permutation
inline bool operator==(const Num& a, const Num& b) { return a.key == b.key && a.tag == b.tag; }
#if PART == 0
VF_SCENARIO_T(vec_int, 1, vec<int>);
#elif PART == 1
VF_SCENARIO_T(vec_Num, 1, vec<Num>);
#elif PART == 2
VF_SCENARIO_T(list_int, 1, lst<int>);
VF_SCENARIO_T(set_int, 1, run_set<int>);
#else
VF_SCENARIO_T(list_Num, 1, lst<Num>);
VF_SCENARIO_T(set_Num, 1, run_set<Num>);
#endif
}
