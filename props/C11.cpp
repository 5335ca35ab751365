// PARTS 3
#include "vecm.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::MISC, 0, 0, false)
#endif
namespace VM
{
typedef unsigned __int128 u128;
template <size_t S> struct Blob
{
    unsigned char b[S];
    Blob() noexcept { for (size_t i = 0; i < S; ++i) b[i] = 1; }
    explicit Blob(int v) noexcept { for (size_t i = 0; i < S; ++i) b[i] = (unsigned char)v; }
    Blob(const Blob& o) noexcept { for (size_t i = 0; i < S; ++i) b[i] = o.b[i]; }
    Blob& operator=(const Blob& o) noexcept { for (size_t i = 0; i < S; ++i) b[i] = o.b[i]; return *this; }
    bool operator<(const Blob& o) const { return b[0] < o.b[0]; }
    bool operator==(const Blob& o) const { for (size_t i = 0; i < S; ++i) if (b[i] != o.b[i]) return false; return true; }
};

// random access iterator over an endless supply of equal elements
template <class T> struct Endless
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const T* pointer;
    typedef const T& reference;
    const T* v; difference_type i;
    Endless(const T* p = 0, difference_type k = 0) : v(p), i(k) {}
    const T& operator*() const { return *v; }
    const T* operator->() const { return v; }
    const T& operator[](difference_type) const { return *v; }
    Endless& operator++() { ++i; return *this; }
    Endless operator++(int) { Endless r(*this); ++i; return r; }
    Endless& operator--() { --i; return *this; }
    Endless operator--(int) { Endless r(*this); --i; return r; }
    Endless& operator+=(difference_type d) { i += d; return *this; }
    Endless& operator-=(difference_type d) { i -= d; return *this; }
    friend Endless operator+(Endless a, difference_type d) { a.i += d; return a; }
    friend Endless operator+(difference_type d, Endless a) { a.i += d; return a; }
    friend Endless operator-(Endless a, difference_type d) { a.i -= d; return a; }
    friend difference_type operator-(const Endless& a, const Endless& b) { return a.i - b.i; }
    bool operator==(const Endless& o) const { return i == o.i; }
    bool operator!=(const Endless& o) const { return i != o.i; }
    bool operator<(const Endless& o) const { return i < o.i; }
    bool operator>(const Endless& o) const { return i > o.i; }
    bool operator<=(const Endless& o) const { return i <= o.i; }
    bool operator>=(const Endless& o) const { return i >= o.i; }
};

// an allocator that multiplies without checking: a count that wraps round gets a block that is far too small
template <class T> class Naive
{
public:
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef std::true_type propagate_on_container_move_assignment;
    template <class U> struct rebind { typedef Naive<U> other; };
    Naive() NESTL_NOEXCEPT_SPEC {}
    Naive(const Naive&) NESTL_NOEXCEPT_SPEC {}
    template <class U> Naive(const Naive<U>&) NESTL_NOEXCEPT_SPEC {}
    template <class Err> T* allocate(Err& err, std::size_t n, const void* = 0) NESTL_NOEXCEPT_SPEC
    {
        VF_CHECK(vf::MISC, (u128)n * sizeof(T) <= (u128)(~(size_t)0 / 2), "the allocator was asked for %zu elements of %zu bytes, more than can exist", n, sizeof(T));
        nestl::allocator<char> a;
        return reinterpret_cast<T*>(a.allocate(err, n * sizeof(T)));
    }
    void deallocate(T* p, std::size_t n) NESTL_NOEXCEPT_SPEC { nestl::allocator<char> a; a.deallocate(reinterpret_cast<char*>(p), n * sizeof(T)); }
};
template <class T> struct AllocInfo<Naive<T> >
{
    enum { stateful = 0, movable = 1, pocca = 0 };
    static Naive<T> make(int) { return Naive<T>(); }
};

// element counts whose byte count overflows, wraps round to something small, or just cannot be had
static size_t huge(vf::Src& s, size_t esz)
{
    const size_t top = ~(size_t)0;
    u128 two64 = (u128)1 << 64;
    size_t n;
    switch (s.draw(9))
    {
    case 0: n = top - s.small(64); break;
    case 1: n = (size_t)((two64 * (1 + s.draw(3))) / esz) + s.small(64); break;       // wraps to a few bytes
    case 2: n = top / esz + s.small(64); break;
    case 3: n = (top / 2) / esz + s.small(64); break;
    case 4: n = (top / 2) / esz - s.small(64); break;
    case 5: n = (size_t)1 << (63 - s.draw(8)); break;
    case 6: n = ((size_t)1 << 63) + s.small(64); break;
    case 7: n = (top / 2) - s.small(64); break;
    default: n = ((size_t)s.draw(0xffffffffu) << 32) | s.draw(0xffffffffu); break;
    }
    if ((u128)n * esz < ((u128)1 << 46)) n = top - s.small(9);
    return n;
}

template <class T, class A, class Err> static void vec(vf::Src& s)
{
    typedef nestl::vector<T, A> C;
    W().reset();
    vf::g_nt.limit = (size_t)1 << 24;
    {
        C c(AllocInfo<A>::make(1));
        unsigned n0 = s.small(12);
        Err err;
        for (unsigned q = 0; q < n0; ++q) c.push_back_nothrow(err, T((int)q));
        if (s.draw(2)) c.reserve_nothrow(err, n0 + s.draw(20));
        if (s.draw(3) == 0) c.shrink_to_fit_nothrow(err);
        VF_CHECK(vf::MISC, !err, "an ordinary operation failed");
        unsigned rounds = 1 + s.draw(3);
        for (unsigned r = 0; r < rounds; ++r)
        {
            n0 = (unsigned)c.size();
            std::vector<T> pre(c.cbegin(), c.cend());
            size_t cap = c.capacity();
            const T* base = n0 ? &*c.cbegin() : 0;
            size_t blocks = W().blocks.size() + vf::g_nt.live;
            size_t n = huge(s, sizeof(T));
            T v(77);
            unsigned op = s.draw(5);
            static const char* const on[] = { "reserve", "resize", "resize with value", "assign by count", "range assign" };
            vf::g_nt.largest = 0;
            VF_NOTE("%s(%zu) of elements of %zu bytes, size %u, capacity %zu", on[op], n, sizeof(T), n0, cap);
            switch (op)
            {
            case 0: c.reserve_nothrow(err, n); break;
            case 1: c.resize_nothrow(err, n); break;
            case 2: c.resize_nothrow(err, n, v); break;
            case 3: c.assign_nothrow(err, n, static_cast<const T&>(v)); break;
            default:
                if ((ptrdiff_t)n < 0) n = ~(size_t)0 / 2 - s.small(5);
                if ((u128)n * sizeof(T) < ((u128)1 << 46)) n = ~(size_t)0 / 2;
                c.assign_nothrow(err, Endless<T>(&v, 0), Endless<T>(&v, (ptrdiff_t)n));
                break;
            }
            EInfo e = einfo(err);
            vf::nontrivial();
            VF_CHECK(vf::MISC, e.kind == E_LENGTH || e.kind == E_BADALLOC, "%s(%zu) of elements of %zu bytes reported %s", on[op], n, sizeof(T), ekind(e.kind));
            if (op <= 2)
            {
                VF_CHECK(vf::MISC, c.size() == n0 && c.capacity() == cap && (!base || &*c.cbegin() == base), "a refused %s(%zu) changed the vector: size %zu (was %u), capacity %zu (was %zu)", on[op], n, (size_t)c.size(), n0, (size_t)c.capacity(), cap);
                VF_CHECK(vf::MISC, std::equal(pre.begin(), pre.end(), c.cbegin()), "a refused %s(%zu) changed the elements", on[op], n);
                VF_CHECK(vf::MISC, W().blocks.size() + vf::g_nt.live == blocks, "a refused %s(%zu) kept or lost memory", on[op], n);
            }
            else
            {
                size_t m = c.size();
                VF_CHECK(vf::MISC, m == 0 || m == n0, "a refused %s(%zu) left %zu elements", on[op], n, m);
                VF_CHECK(vf::MISC, m == 0 || std::equal(pre.begin(), pre.end(), c.cbegin()), "a refused %s(%zu) changed the elements", on[op], n);
            }
            // still usable
            err = Err();
            T w((int)r + 100);
            size_t m = c.size();
            c.push_back_nothrow(err, w);
            VF_CHECK(vf::MISC, !err && c.size() == m + 1 && c.back() == w, "the vector is not usable after a refused %s(%zu)", on[op], n);
        }
        if (s.draw(3) == 0)
        {
            // a range that can never fit, inserted while memory is limited
            vf::g_nt.limit = 6000;
            if (!AllocInfo<A>::stateful)
            {
                T v(9);
                size_t pos = s.draw((uint32_t)c.size() + 1), cap = c.capacity();
                std::vector<T> pre(c.cbegin(), c.cend());
                c.insert_nothrow(err, c.cbegin() + pos, Endless<T>(&v, 0), Endless<T>(&v, (ptrdiff_t)(~(size_t)0 / 2)));
                VF_NOTE("insertion of an endless range at %zu", pos);
                EInfo e = einfo(err);
                VF_CHECK(vf::MISC, e.kind == E_LENGTH || e.kind == E_BADALLOC, "insertion of an impossible range reported %s", ekind(e.kind));
                VF_CHECK(vf::MISC, c.size() <= c.capacity() && c.capacity() * sizeof(T) <= std::max<size_t>(6000, cap * sizeof(T)) && c.size() >= pre.size(), "after the refused insertion the size is %zu, the capacity %zu", (size_t)c.size(), (size_t)c.capacity());
                VF_CHECK(vf::MISC, std::equal(pre.begin(), pre.begin() + pos, c.cbegin()) && std::equal(pre.begin() + pos, pre.end(), c.cend() - (pre.size() - pos)), "the refused insertion altered other elements");
                vf::hit("endless range insertion");
            }
        }
    }
    VF_CHECK(vf::MISC, W().blocks.size() == 0 && vf::g_nt.live == 0, "memory was lost");
}

// the allocator itself: either it hands out room for all n elements or it reports a failure
template <class T> static void raw(vf::Src& s)
{
    W().reset();
    vf::g_nt.limit = (size_t)1 << 24;
    size_t n = s.draw(3) == 0 ? s.small(600) : huge(s, sizeof(T));
    bool traits = s.draw(2) != 0;
    nestl::allocator<T> a;
    UErr err;
    VF_NOTE("allocate(%zu) of elements of %zu bytes", n, sizeof(T));
    T* p = traits ? nestl::allocator_traits<nestl::allocator<T> >::allocate(err, a, n) : a.allocate(err, n);
    u128 need = (u128)n * sizeof(T);
    if (need > vf::g_nt.limit)
    {
        vf::nontrivial();
        VF_CHECK(vf::MISC, (err.kind == E_BADALLOC || err.kind == E_LENGTH) && p == 0, "allocate(%zu) of elements of %zu bytes reported %s and returned %s memory; the last request to the system was %zu bytes", n, sizeof(T), ekind(err.kind), p ? "some" : "no", vf::g_nt.last);
    }
    else
    {
        VF_CHECK(vf::MISC, !err && p, "allocate(%zu) of elements of %zu bytes failed", n, sizeof(T));
        memset(static_cast<void*>(p), 0x5a, (size_t)need);       // every byte is usable (checked by the sanitizer)
        VF_CHECK(vf::MISC, vf::g_nt.last >= (size_t)need, "allocate(%zu) of elements of %zu bytes asked the system for only %zu bytes", n, sizeof(T), vf::g_nt.last);
        VF_CHECK(vf::MISC, ((uintptr_t)p % alignof(T)) == 0, "allocate returned misaligned memory");
    }
    if (traits) nestl::allocator_traits<nestl::allocator<T> >::deallocate(a, p, n); else a.deallocate(p, n);
    VF_CHECK(vf::MISC, vf::g_nt.live == 0, "deallocate did not release the block");
}

template <class T> static void sizes_of(vf::Src& s)
{
    W().reset();
    {
        nestl::vector<T> v; nestl::list<T> l; nestl::set<T> t;
        DErr err;
        unsigned n = s.small(5);
        for (unsigned q = 0; q < n; ++q) { T x((int)q); v.push_back_nothrow(err, x); l.push_back_nothrow(err, x); t.insert_nothrow(err, x); }
        const size_t most = ~(size_t)0 / sizeof(T);
        VF_NOTE("max_size of containers with %u elements of %zu bytes", n, sizeof(T));
        size_t a = v.max_size(), b = l.max_size(), c = t.max_size();
        VF_CHECK(vf::MISC, a <= most && a >= n && a > 0, "vector max_size is %zu for elements of %zu bytes", a, sizeof(T));
        VF_CHECK(vf::MISC, b <= most && b >= n && b > 0, "list max_size is %zu for elements of %zu bytes", b, sizeof(T));
        VF_CHECK(vf::MISC, c <= most && c >= n && c > 0, "set max_size is %zu for elements of %zu bytes", c, sizeof(T));
        VF_CHECK(vf::MISC, a >= 100000 && b >= 100000 && c >= 100000, "max_size is uselessly small: %zu, %zu, %zu", a, b, c);
        nestl::vector<T> w(std::move(v));
        VF_CHECK(vf::MISC, w.max_size() == a, "max_size changed by moving the vector");
        // one element more than max_size is always refused
        size_t extra = 1 + s.small(50);
        w.reserve_nothrow(err, a + extra);
        VF_CHECK(vf::MISC, (bool)err, "reserve(max_size + %zu) was accepted", extra);
        vf::nontrivial();
    }
    vf::g_nt.enabled = false;
}

// single elements larger than any block: every container reports the failed allocation
template <class T> static void oversized(vf::Src& s)
{
    W().reset();
    vf::g_nt.limit = sizeof(T) / 2;
    {
        static T v(3);
        nestl::vector<T> c; nestl::list<T> l; nestl::set<T> t;
        UErr err;
        unsigned op = s.draw(6);
        VF_NOTE("oversized element, operation %u", op);
        switch (op)
        {
        case 0: c.push_back_nothrow(err, v); break;
        case 1: l.push_back_nothrow(err, v); break;
        case 2: t.insert_nothrow(err, v); break;
        case 3: { nestl::shared_ptr<T> p = nestl::make_shared_nothrow<T>(err, 5); VF_CHECK(vf::MISC, !p, "make_shared of an oversized object returned something"); break; }
        case 4: l.assign_nothrow(err, (size_t)3, static_cast<const T&>(v)); break;
        default: c.resize_nothrow(err, 1); break;
        }
        vf::nontrivial();
        VF_CHECK(vf::MISC, err.kind == E_BADALLOC, "an element that cannot be stored gave %s", ekind(err.kind));
        VF_CHECK(vf::MISC, c.size() == 0 && l.size() == 0 && t.size() == 0, "an element that cannot be stored was counted");
    }
    VF_CHECK(vf::MISC, vf::g_nt.live == 0, "memory was lost");
}

#if PART == 0
VF_SCENARIO_T(vec_int, 2, vec<int, nestl::allocator<int>, DErr>);
VF_SCENARIO_T(vec_1, 2, vec<Blob<1>, nestl::allocator<Blob<1> >, UErr>);
VF_SCENARIO_T(vec_3, 2, vec<Blob<3>, nestl::allocator<Blob<3> >, DErr>);
VF_SCENARIO_T(vec_24, 2, vec<Blob<24>, nestl::allocator<Blob<24> >, DErr>);
#elif PART == 1
VF_SCENARIO_T(vec_64_T, 1, vec<Blob<64>, TA<Blob<64> >, DErr>);
VF_SCENARIO_T(vec_5_M, 1, vec<Blob<5>, MA<Blob<5> >, UErr>);
VF_SCENARIO_T(vec_256, 1, vec<Blob<256>, nestl::allocator<Blob<256> >, DErr>);
VF_SCENARIO_T(vec_int_naive, 1, vec<int, Naive<int>, DErr>);
VF_SCENARIO_T(vec_24_naive, 1, vec<Blob<24>, Naive<Blob<24> >, UErr>);
VF_SCENARIO_T(vec_5_naive, 1, vec<Blob<5>, Naive<Blob<5> >, UErr>);
VF_SCENARIO_T(raw_int, 1, raw<int>);
VF_SCENARIO_T(raw_1, 1, raw<Blob<1> >);
VF_SCENARIO_T(raw_3, 1, raw<Blob<3> >);
VF_SCENARIO_T(raw_16, 1, raw<Blob<16> >);
VF_SCENARIO_T(raw_24, 1, raw<Blob<24> >);
VF_SCENARIO_T(raw_4096, 1, raw<Blob<4096> >);
#else
VF_SCENARIO_T(max_1, 1, sizes_of<Blob<1> >);
VF_SCENARIO_T(max_int, 1, sizes_of<int>);
VF_SCENARIO_T(max_3, 1, sizes_of<Blob<3> >);
VF_SCENARIO_T(max_24, 1, sizes_of<Blob<24> >);
VF_SCENARIO_T(max_4096, 1, sizes_of<Blob<4096> >);
VF_SCENARIO_T(oversized_64k, 1, oversized<Blob<65536> >);
#endif
}
