// PARTS 8
// Every element object is at an address that suits its type.
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::ALIGN, EV_MIDDLE | EV_REALLOC | EV_TRANSFER | EV_COPY | EV_ERASE | EV_MOVE, 3, false)
#endif
namespace VM
{
template <size_t N> struct alignas(N) Al : Core
{
    void al() const { VF_CHECK(vf::ALIGN, ((uintptr_t)this & (N - 1)) == 0, "an element whose type asks for alignment %zu was built at address %p", N, (const void*)this); }
    Al() noexcept { al(); ++W().ctors; born(K_DEFAULT, 0); }
    Al(Raw, Val v) noexcept { ++W().ctors; born(v.key, v.tag); }
    Al(int k, int t) noexcept { al(); ++W().ctors; born(k, t); }
    Al(const Al& o) noexcept { al(); o.check("copied"); ++W().copies; born(o.key, o.tag); }
    Al(Al&& o) noexcept { al(); o.check("moved"); ++W().moves; born(o.key, o.tag); o.key = K_MOVED; o.tag = 0; }
    Al& operator=(const Al& o) noexcept { check("assigned to"); o.check("copied"); ++W().assigns; key = o.key; tag = o.tag; return *this; }
    ~Al() { die(); }
};
template <size_t N> struct alignas(N) Ap : Core      // two-phase copy, movable
{
    void al() const { VF_CHECK(vf::ALIGN, ((uintptr_t)this & (N - 1)) == 0, "an element whose type asks for alignment %zu was built at address %p", N, (const void*)this); }
    char pad[N + 1];
    Ap() noexcept { al(); ++W().ctors; born(K_DEFAULT, 0); }
    Ap(Raw, Val v) noexcept { ++W().ctors; born(v.key, v.tag); }
    Ap(Ap&& o) noexcept { al(); o.check("moved"); ++W().moves; born(o.key, o.tag); o.key = K_MOVED; o.tag = 0; }
    Ap(const Ap&) = delete;
    Ap& operator=(const Ap&) = delete;
    ~Ap() { die(); }
};
}
namespace nestl
{
template <> struct two_phase_initializator<VM::Ap<32>> : VM::TwoPhase<VM::Ap<32> > {};
template <> struct two_phase_initializator<VM::Ap<128>> : VM::TwoPhase<VM::Ap<128>> {};
}
namespace VM
{
typedef Al<8> Al8; typedef Al<16> Al16; typedef Al<32> Al32; typedef Al<64> Al64; typedef Al<256> Al256; typedef Al<4096> Al4096; typedef Al<1024> Al1024;
typedef Ap<32> Ap32; typedef Ap<128> Ap128;
#define NAME(T, n) template <> inline const char* ET<T>::name() { return n; }
NAME(Al8, "align 8") NAME(Al16, "align 16") NAME(Al32, "align 32") NAME(Al64, "align 64") NAME(Al256, "align 256") NAME(Al1024, "align 1024") NAME(Al4096, "align 4096")
NAME(Ap32, "two-phase align 32") NAME(Ap128, "two-phase align 128")
#undef NAME

// gives out memory that is aligned exactly as far as its element type asks for, and no further
template <class T> class AA : AObj
{
public:
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef T& reference;
    typedef const T& const_reference;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <class U> struct rebind { typedef AA<U> other; };
    int arena;

    AA() NESTL_NOEXCEPT_SPEC : arena(0) {}
    explicit AA(int a) NESTL_NOEXCEPT_SPEC : arena(a) {}
    AA(const AA& o) NESTL_NOEXCEPT_SPEC : AObj(), arena(o.arena) {}
    template <class U> AA(const AA<U>& o) NESTL_NOEXCEPT_SPEC : arena(o.arena) {}
    AA& operator=(const AA& o) NESTL_NOEXCEPT_SPEC { arena = o.arena; return *this; }

    template <class Err> T* allocate(Err& err, std::size_t n, const void* = 0) NESTL_NOEXCEPT_SPEC
    {
        if (vf::g_nt.fail_in == 0) { vf::g_nt.fail_in = -1; vf::g_nt.fired = true; vf::g_fault_seen = true; build_bad_alloc(err); return nullptr; }
        if (vf::g_nt.fail_in > 0) --vf::g_nt.fail_in;
        if (n > ALLOC_LIMIT / sizeof(T)) { build_bad_alloc(err); return nullptr; }
        size_t a = alignof(T), whole = a < 4 ? 8 : 2 * a;
        void* base = 0;
        if (posix_memalign(&base, whole, a + n * sizeof(T))) { build_bad_alloc(err); return nullptr; }
        char* p = static_cast<char*>(base) + a;
        vf::PtrTable::Rec r = { p, n, sizeof(T), arena };
        W().blocks.put(r);
        return reinterpret_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t) NESTL_NOEXCEPT_SPEC
    {
        if (!p || !W().blocks.get(p)) return;
        W().blocks.del(p);
        ::free(reinterpret_cast<char*>(p) - alignof(T));
    }
    bool operator==(const AA& o) const { return arena == o.arena; }
    bool operator!=(const AA& o) const { return arena != o.arena; }
};
template <class T> struct AllocInfo<AA<T> >
{
    enum { stateful = 1, movable = 1, pocca = 0 };
    static AA<T> make(int a) { return AA<T>(a); }
    static int arena(const AA<T>& a) { return a.arena; }
};

// the objects of shared pointers, and elements of plain types of every size and alignment
template <class T, class A, class Err> static void shared(vf::Src& s)
{
    W().reset();
    {
        A a(AllocInfo<A>::make(1));
        Err err;
        nestl::shared_ptr<T> p[3];
        unsigned n = 1 + s.draw(8);
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned j = s.draw(3);
            VF_NOTE("p%u = make_shared_a<%s>", j, ET<T>::name());
            p[j] = nestl::make_shared_a_nothrow<T>(err, a);
            vf::nontrivial();
            if (!err) VF_CHECK(vf::ALIGN, ((uintptr_t)p[j].get() & (alignof(T) - 1)) == 0, "a shared object whose type asks for alignment %zu is at address %p", (size_t)alignof(T), (const void*)p[j].get());
        }
    }
    VF_CHECK(vf::ALIGN, W().live == 0, "%ld shared objects are left", W().live);
}
template <size_t N, size_t S> struct alignas(N) Odd { unsigned char b[S]; };
template <size_t N, size_t S> inline bool operator<(const Odd<N, S>& a, const Odd<N, S>& b) { return a.b[0] < b.b[0]; }
template <class T> static void at(const T* p, const char* where, size_t i)
{
    VF_CHECK(vf::ALIGN, ((uintptr_t)p & (alignof(T) - 1)) == 0, "element %zu of a %s, of a type with size %zu and alignment %zu, is at address %p", i, where, sizeof(T), (size_t)alignof(T), (const void*)p);
}
template <class T, class A, class Err> static void odd(vf::Src& s)
{
    W().reset();
    {
        nestl::vector<T, A> v(AllocInfo<A>::make(1));
        nestl::list<T, A> l(AllocInfo<A>::make(2));
        nestl::set<T, std::less<T>, A> t(std::less<T>(), AllocInfo<A>::make(3));
        unsigned n = 1 + s.draw(12);
        for (unsigned i = 0; i < n; ++i)
        {
            Err err;
            T x;
            memset(&x, 0, sizeof x);
            x.b[0] = (unsigned char)s.draw(256);
            x.b[sizeof(x.b) - 1] = x.b[0];
            unsigned pos = s.draw(i + 1);
            typename nestl::list<T, A>::iterator li = l.begin();
            for (unsigned j = 0; j < pos; ++j) ++li;
            VF_NOTE("insert %u at %u into vector, list and set, size %zu alignment %zu", x.b[0], pos, sizeof(T), (size_t)alignof(T));
            v.insert_nothrow(err, v.cbegin() + pos, static_cast<const T&>(x));
            l.insert_nothrow(err, li, static_cast<const T&>(x));
            t.insert_nothrow(err, static_cast<const T&>(x));
            vf::nontrivial();
            nestl::shared_ptr<T> p(nestl::make_shared_nothrow<T>(err, x));
            A a(AllocInfo<A>::make(0));
            nestl::shared_ptr<T> q(nestl::make_shared_a_nothrow<T>(err, a, x));
            if (alignof(T) <= 16) at(p.get(), "shared pointer", 0);
            at(q.get(), "shared pointer with allocator", 0);
        }
        size_t i = 0;
        for (typename nestl::vector<T, A>::iterator it = v.begin(); it != v.end(); ++it, ++i)
        {
            at(&*it, "vector", i);
            VF_CHECK(vf::ALIGN, it->b[0] == it->b[sizeof(it->b) - 1], "an element of a vector was overwritten by another one");
        }
        i = 0;
        for (typename nestl::list<T, A>::iterator it = l.begin(); it != l.end(); ++it, ++i)
        {
            at(&*it, "list", i);
            VF_CHECK(vf::ALIGN, it->b[0] == it->b[sizeof(it->b) - 1], "an element of a list was overwritten by another one");
        }
        i = 0;
        for (typename nestl::set<T, std::less<T>, A>::iterator it = t.begin(); it != t.end(); ++it, ++i)
        {
            at(&*it, "set", i);
            VF_CHECK(vf::ALIGN, it->b[0] == it->b[sizeof(it->b) - 1], "an element of a set was overwritten by another one");
        }
    }
}

#if PART == 0
VF_MACHINE(vec_16_N, 1, plain, VecMachine<Al16, nestl::allocator<Al16>, DErr>);
VF_MACHINE(vec_32_A, 1, plain, VecMachine<Al32, AA<Al32>, UErr>);
#elif PART == 1
VF_MACHINE(vec_256_A, 1, plain, VecMachine<Al256, AA<Al256>, DErr>);
VF_MACHINE(vec_p32_A, 1, plain, VecMachine<Ap32, AA<Ap32>, DErr>);
#elif PART == 2
VF_MACHINE(list_16_N, 1, plain, ListMachine<Al16, nestl::allocator<Al16>, DErr>);
VF_MACHINE(list_64_A, 1, plain, ListMachine<Al64, AA<Al64>, UErr>);
#elif PART == 3
VF_MACHINE(list_8_A, 1, plain, ListMachine<Al8, AA<Al8>, DErr>);
VF_MACHINE(list_p128_A, 1, plain, ListMachine<Ap128, AA<Ap128>, DErr>);
#elif PART == 4
VF_MACHINE(set_16_N, 1, plain, SetMachine<Al16, nestl::allocator<Al16>, DErr>);
VF_MACHINE(set_32_A, 1, plain, SetMachine<Al32, AA<Al32>, UErr>);
#elif PART == 5
VF_MACHINE(set_8_A, 1, plain, SetMachine<Al8, AA<Al8>, DErr>);
VF_MACHINE(set_p128_A, 1, plain, SetMachine<Ap128, AA<Ap128>, DErr>);
#elif PART == 6
VF_SCENARIO_T(ptr_8, 1, shared<Al8, AA<Al8>, DErr>);
VF_SCENARIO_T(ptr_16, 1, shared<Al16, nestl::allocator<Al16>, DErr>);
VF_SCENARIO_T(ptr_32, 1, shared<Al32, AA<Al32>, UErr>);
VF_SCENARIO_T(ptr_256, 1, shared<Al256, AA<Al256>, DErr>);
VF_SCENARIO_T(ptr_4096, 1, shared<Al4096, AA<Al4096>, DErr>);
VF_SCENARIO_T(ptr_p128, 1, shared<Ap128, AA<Ap128>, DErr>);
typedef Odd<1, 1> O11; typedef Odd<1, 3> O13; typedef Odd<1, 7> O17;
VF_SCENARIO_T(odd_1_1, 1, odd<O11, AA<O11>, DErr>);
VF_SCENARIO_T(odd_1_3, 1, odd<O13, nestl::allocator<O13>, DErr>);
VF_SCENARIO_T(odd_1_7, 1, odd<O17, AA<O17>, UErr>);
#else
typedef Odd<2, 6> O26; typedef Odd<4, 12> O4c; typedef Odd<8, 8> O88; typedef Odd<16, 16> Ogg; typedef Odd<32, 96> Ow; typedef Odd<64, 64> Oz; typedef Odd<1024, 1024> Ok; typedef Odd<4096, 8000> Om;
VF_SCENARIO_T(odd_2_6, 1, odd<O26, AA<O26>, DErr>);
VF_SCENARIO_T(odd_4_12, 1, odd<O4c, nestl::allocator<O4c>, DErr>);
VF_SCENARIO_T(odd_8_8, 1, odd<O88, AA<O88>, UErr>);
VF_SCENARIO_T(odd_16_16, 1, odd<Ogg, nestl::allocator<Ogg>, DErr>);
VF_SCENARIO_T(odd_32_96, 1, odd<Ow, AA<Ow>, DErr>);
VF_SCENARIO_T(odd_64_64, 1, odd<Oz, AA<Oz>, UErr>);
VF_SCENARIO_T(odd_1024, 1, odd<Ok, AA<Ok>, UErr>);
VF_SCENARIO_T(odd_4096, 1, odd<Om, AA<Om>, DErr>);
#endif
}
