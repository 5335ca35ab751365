// PARTS 6
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "ptrm.hpp"

// a user's error type in a namespace of its own; the library can only find its functions by argument-dependent lookup
namespace user_side
{
class Failure
{
    unsigned m_bits;         // low byte: kind, rest: code
public:
    Failure() : m_bits(0) {}
    void put(int kind, int code) { m_bits = (unsigned)kind | ((unsigned)code << 8); }
    operator bool() const { return m_bits != 0; }
    int kind() const { return (int)(m_bits & 255u); }
    int code() const { return (int)(m_bits >> 8); }
};
inline void build_bad_alloc(Failure& f) { f.put(VM::E_BADALLOC, 0); }
inline void build_length_error(Failure& f) { f.put(VM::E_LENGTH, 0); }
inline void set_custom(Failure& f, int code) { f.put(VM::E_CUSTOM, code); }
inline VM::EInfo einfo(const Failure& f) { VM::EInfo i = { f ? f.kind() : (int)VM::E_NONE, f.code() }; return i; }
#if VF_EXC
inline void from_exception_ptr(Failure& f, std::exception_ptr p) { VM::EInfo i = VM::classify(p); f.put(i.kind, i.code); }
#endif
}

#if PART == 0
VF_PROPERTY_CFG(vf::ERR | vf::CONTENT, EV_FAULT, 3, false)
#endif
namespace VM
{
typedef user_side::Failure XErr;
#if PART == 0
    VF_MACHINE(vec_Tr_T_faulty, 1, faulty, VecMachine<Tr, TA<Tr>, XErr>);
    VF_MACHINE(vec_Tq_N_faulty, 1, faulty, VecMachine<Tq, nestl::allocator<Tq>, DErr>);
    VF_MACHINE(vec_Tq_M_enumerate, 1, enumerate, VecMachine<Tq, MA<Tq>, UErr>);
#elif PART == 1
    VF_MACHINE(list_Tr_T_faulty, 1, faulty, ListMachine<Tr, TA<Tr>, XErr>);
    VF_MACHINE(list_Tp_N_faulty, 1, faulty, ListMachine<Tp, nestl::allocator<Tp>, DErr>);
    VF_MACHINE(list_Tp_T_enumerate, 1, enumerate, ListMachine<Tp, TA<Tp>, UErr>);
#elif PART == 2
    VF_MACHINE(set_Tr_T_faulty, 1, faulty, SetMachine<Tr, TA<Tr>, XErr>);
    VF_MACHINE(set_Tq_N_faulty, 1, faulty, SetMachine<Tq, nestl::allocator<Tq>, DErr>);
    VF_MACHINE(set_Tq_M_enumerate, 1, enumerate, SetMachine<Tq, MA<Tq>, UErr>);
#elif PART == 3
    VF_MACHINE(ptr_two_phase, 1, faulty, PtrMachine<K_TWOPHASE, XErr>);
#if VF_EXC
    VF_MACHINE(ptr_throwing, 1, faulty, PtrMachine<K_THROW, DErr>);
    VF_MACHINE(vec_Tm_T_faulty, 1, faulty, VecMachine<Tm, TA<Tm>, DErr>);
    VF_MACHINE(vec_Tm_T_enumerate, 1, enumerate, VecMachine<Tm, TA<Tm>, XErr>);
#endif
#elif PART == 4
#if VF_EXC
    VF_MACHINE(list_Th_T_faulty, 1, faulty, ListMachine<Th, TA<Th>, XErr>);
    VF_MACHINE(list_Th_T_enumerate, 1, enumerate, ListMachine<Th, TA<Th>, DErr>);
    VF_MACHINE(set_Th_T_faulty, 1, faulty, SetMachine<Th, TA<Th>, DErr>);
    VF_MACHINE(set_Th_T_enumerate, 1, enumerate, SetMachine<Th, TA<Th>, XErr>);
#else
    VF_MACHINE(vec_NV_T_faulty, 1, faulty, VecMachine<NV, TA<NV>, XErr>);
#endif
#else

// sizes that cannot exist are length errors, sizes that merely do not fit are bad_alloc, others succeed
template <class T, class Err> static void sizes(vf::Src& s)
{
    typedef nestl::vector<T> C;
    W().reset();
    {
        C c;
        Err e0;
        unsigned n0 = s.small(6);
        for (unsigned q = 0; q < n0; ++q) c.push_back_nothrow(e0, (T)q);
        size_t ms = c.max_size(), n;
        switch (s.draw(7))
        {
        case 0: n = ms + 1 + s.small(40); break;
        case 1: n = ~(size_t)0 - s.small(40); break;
        case 2: n = ms - s.small(40); break;
        case 3: n = ms / 2 + s.small(40); break;
        case 4: n = (~(size_t)0 / sizeof(T)) + 1 + s.small(40); if (n < ms) n = ms + 1; break;
        case 5: n = ((size_t)1 << 40) + s.draw(1000); break;
        default: n = s.draw(300); break;
        }
        unsigned op = s.draw(4);
        int want = n > ms ? E_LENGTH : n * sizeof(T) > vf::g_nt.limit ? E_BADALLOC : E_NONE;
        if (n <= c.size() && op != 3) want = E_NONE;
        Err err;
        T v = (T)7;
        static const char* const on[] = { "reserve", "resize", "resize with a value", "assign by count" };
        VF_NOTE("%s(%zu) on a vector of %u elements, max_size %zu", on[op], n, n0, ms);
        if (op == 0) c.reserve_nothrow(err, n);
        else if (op == 1) c.resize_nothrow(err, n);
        else if (op == 2) c.resize_nothrow(err, n, v);
        else c.assign_nothrow(err, n, v);
        EInfo e = einfo(err);
        if (want != E_NONE) vf::nontrivial();
        VF_CHECK(vf::ERR, e.kind == want, "%s(%zu) reported %s, expected %s (max_size is %zu)", on[op], n, ekind(e.kind), ekind(want), ms);
        if (want == E_NONE) VF_CHECK(vf::ERR, op == 0 ? c.capacity() >= n : c.size() == n, "%s(%zu) reported success but did not do it", on[op], n);
    }
    final_balance();
}
VF_SCENARIO_T(sizes_int, 1, sizes<int, DErr>);
VF_SCENARIO_T(sizes_char, 1, sizes<char, XErr>);
struct P24 { long a, b, c; explicit P24(long x = 0) noexcept : a(x), b(x), c(x) {} };
VF_SCENARIO_T(sizes_24, 1, sizes<P24, UErr>);

#if VF_EXC
// whatever an element throws arrives unchanged
struct ZBad : std::bad_alloc { int code; explicit ZBad(int c) : code(c) {} };
struct ZLen : std::length_error { int code; explicit ZLen(int c) : std::length_error("z"), code(c) {} };
struct ZRun : std::runtime_error { int code; explicit ZRun(int c) : std::runtime_error("z"), code(c) {} };
struct ZOdd { virtual ~ZOdd() {} };
struct ZOdd2 : ZOdd { int code; explicit ZOdd2(int c) : code(c) {} };
static int g_zkind = 0;
static void zthrow(int code)
{
    switch (g_zkind)
    {
    case 0: throw Boom(code);
    case 1: throw ZBad(code);
    case 2: throw ZLen(code);
    case 3: throw ZRun(code);
    case 4: throw ZOdd2(code);
    case 5: throw code;
    default: throw std::string(1 + code % 50, 'x');
    }
}
static bool zmatch(std::exception_ptr p, int code)
{
    if (!p) return false;
    try { std::rethrow_exception(p); }
    catch (const Boom& b) { return g_zkind == 0 && b.code == code; }
    catch (const ZBad& b) { return g_zkind == 1 && b.code == code; }
    catch (const ZLen& b) { return g_zkind == 2 && b.code == code; }
    catch (const ZRun& b) { return g_zkind == 3 && b.code == code; }
    catch (const ZOdd& b) { const ZOdd2* z = dynamic_cast<const ZOdd2*>(&b); return g_zkind == 4 && z && z->code == code; }
    catch (int c) { return g_zkind == 5 && c == code; }
    catch (const std::string& t) { return g_zkind == 6 && (int)t.size() == 1 + code % 50; }
    catch (...) { return false; }
}
struct Tz
{
    int k;
    static void t() { if (W().tick()) zthrow(W().code); }
    explicit Tz(int x) : k(x) { t(); }
    Tz() : k(0) { t(); }
    Tz(const Tz& o) : k(o.k) { t(); }
    Tz(Tz&& o) : k(o.k) { t(); }
    Tz& operator=(const Tz& o) { t(); k = o.k; return *this; }
    bool operator<(const Tz& o) const { return k < o.k; }
};
inline std::exception_ptr eptr_of(const DErr& e) { return e.value(); }
inline std::exception_ptr eptr_of(const UErr& e) { return e.set ? e.eptr : std::exception_ptr(); }

template <class Err> static void zoo(vf::Src& s)
{
    W().reset();
    {
        typedef nestl::vector<Tz> V; typedef nestl::list<Tz> L; typedef nestl::set<Tz> S;
        V v, v2; L l, l2; S t, t2;
        DErr e0;
        unsigned n = 1 + s.small(6);
        for (unsigned q = 0; q < n; ++q) { Tz z((int)q * 3); v.push_back_nothrow(e0, z); l.push_back_nothrow(e0, z); t.insert_nothrow(e0, z); }
        std::vector<Tz> src(3), dst(3);
        g_zkind = (int)s.draw(7);
        static const char* const names[] = { "vector push_back", "vector insert", "vector reserve", "vector resize", "vector assign", "vector copy", "vector range insert",
            "list push_back", "list push_front", "list insert", "list assign", "list copy", "set insert", "set copy", "make_shared", "construct", "assign", "copy",
            "throwing vector push_back", "vector copy construction", "vector copy assignment", "list copy construction", "vector emplace_back", "vector shrink_to_fit", "list copy assignment", "copy_if", "throwing push_back of temporary" };
        unsigned op = s.draw(sizeof names / sizeof *names);
        Tz z((int)s.small(20));
        size_t at = s.draw(n + 1);
        long arm = (long)s.small(10);
        bool have_room = s.draw(2) != 0;
        if (have_room) v.reserve_nothrow(e0, n + 3);
        Err err;
        W().clear_fired();
        W().code = 1 + (int)s.draw(900);
        W().elem_fail_in = arm;
        VF_NOTE("%s; element operation %ld throws kind %d", names[op], arm, g_zkind);
        std::exception_ptr thrown;
        bool throwing = false;
        typename std::aligned_storage<sizeof(Tz), alignof(Tz)>::type raw;
        std::vector<Tz>::iterator out = dst.end();
        switch (op)
        {
        case 0: v.push_back_nothrow(err, z); break;
        case 1: v.insert_nothrow(err, v.cbegin() + at, z); break;
        case 2: v.reserve_nothrow(err, 40); break;
        case 3: v.resize_nothrow(err, n + 3, z); break;
        case 4: v.assign_nothrow(err, (size_t)4, z); break;
        case 5: v2.copy_nothrow(err, v); break;
        case 6: v.insert_nothrow(err, v.cbegin() + at, src.begin(), src.end()); break;
        case 7: l.push_back_nothrow(err, z); break;
        case 8: l.push_front_nothrow(err, z); break;
        case 9: l.insert_nothrow(err, l.cbegin(), z); break;
        case 10: l.assign_nothrow(err, src.begin(), src.end()); break;
        case 11: l2.copy_nothrow(err, l); break;
        case 12: if (at % 2) t.insert_nothrow(err, std::move(z)); else t.insert_nothrow(err, z); break;
        case 13: t2.copy_nothrow(err, t); break;
        case 14: { nestl::shared_ptr<Tz> p = nestl::make_shared_nothrow<Tz>(err, z); VF_CHECK(vf::ERR, (bool)p == !err, "make_shared_nothrow returned %s with%s error", p ? "an object" : "nothing", err ? " an" : "out"); break; }
        case 15: nestl::class_operations::construct(err, reinterpret_cast<Tz*>(&raw), z); break;
        case 16: nestl::class_operations::assign(err, dst[0], z); break;
        case 17: out = nestl::copy(err, src.begin(), src.end(), dst.begin()); break;
        case 18: throwing = true; try { v.push_back(z); } catch (...) { thrown = std::current_exception(); } break;
        case 19: throwing = true; try { V x(static_cast<const V&>(v)); } catch (...) { thrown = std::current_exception(); } break;
        case 20: throwing = true; try { v2 = static_cast<const V&>(v); } catch (...) { thrown = std::current_exception(); } break;
        case 21: throwing = true; try { L x(static_cast<const L&>(l)); } catch (...) { thrown = std::current_exception(); } break;
        case 22: v.emplace_back_nothrow(err, 5); break;
        case 23: v.shrink_to_fit_nothrow(err); break;
        case 24: throwing = true; try { l2 = static_cast<const L&>(l); } catch (...) { thrown = std::current_exception(); } break;
        case 25: out = nestl::copy_if(err, src.begin(), src.end(), dst.begin(), [](const Tz&) { return true; }); break;
        default: throwing = true; try { v.push_back(std::move(z)); } catch (...) { thrown = std::current_exception(); } break;
        }
        bool fired = W().elem_fired;
        W().disarm();
        std::exception_ptr got = throwing ? thrown : eptr_of(err);
        if (fired)
        {
            vf::nontrivial();
            vf::hit("element threw one of seven exception types");
            VF_CHECK(vf::ERR, got != nullptr, "%s: an element threw but no error was reported", names[op]);
            VF_CHECK(vf::ERR, zmatch(got, W().code), "%s: the error is not the exception the element threw (type or value differs)", names[op]);
        }
        else VF_CHECK(vf::ERR, got == nullptr, "%s: an error was reported although no element threw", names[op]);
    }
    vf::g_nt.enabled = false;
}
VF_SCENARIO_T(zoo_D, 2, zoo<DErr>);
VF_SCENARIO_T(zoo_U, 1, zoo<UErr>);
#endif
#endif
}
