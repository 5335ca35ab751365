// PARTS 5
// The same choice sequence drives the library compiled with and without exceptions; the transcripts must agree.
#ifdef VF_NEUTRAL

#include "engine.hpp"
#include <stdio.h>

typedef void (*Fn)(vf::Src&);
static void compare(vf::Src& s, Fn exc, Fn nx)
{
    std::vector<vf::TrItem> a, b;
    size_t start = s.mark();
    vf::g_fault_seen = false;
    VF_NOTE("-- with exceptions");
    vf::g_tr = &a;
    exc(s);
    s.rewind(start);
    vf::g_fault_seen = false;
    VF_NOTE("-- without exceptions");
    vf::g_tr = &b;
    nx(s);
    vf::g_tr = 0;
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; ++i)
        if (std::string(a[i].what) != b[i].what || a[i].v != b[i].v)
            VF_FAIL("the library modes differ at observation %zu: with exceptions: %s = %lld, without: %s = %lld", i, a[i].what, a[i].v, b[i].what, b[i].v);
    if (a.size() != b.size()) VF_FAIL("the library modes differ: %zu observations with exceptions, %zu without", a.size(), b.size());
}
#define BOTH(name, weight) \
    namespace vm_exc { void name(vf::Src&); } \
    namespace vm_nx { void name(vf::Src&); } \
    static void both_##name(vf::Src& s) { compare(s, &vm_exc::name, &vm_nx::name); } \
    static vf::Register reg_##name(#name, weight, &both_##name);
#define MACH(name, weight, fn, ...) BOTH(name, weight)
#define PLAINFN(name, weight) BOTH(name, weight)
#define ON(p) 1

#else

#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "ptrm.hpp"
#if PART == 1
VF_PROPERTY_CFG(0, EV_FAULT | EV_MIDDLE | EV_REALLOC | EV_TRANSFER | EV_MOVE | EV_COPY | EV_ERASE | EV_DUP, 3, false)
#endif
#define MACH(name, weight, fn, ...) namespace VM { void name(vf::Src& s); void name(vf::Src& s) { typedef __VA_ARGS__ M; M::fn(s); } }
#define ON(p) (PART == p)

#endif

#if ON(1)
MACH(vec_int_faulty, 2, faulty, VecMachine<int, nestl::allocator<int>, DErr>)
MACH(vec_Tr_faulty, 1, faulty, VecMachine<Tr, TA<Tr>, DErr>)
MACH(vec_Tr_enumerate, 1, enumerate, VecMachine<Tr, TA<Tr>, DErr>)
MACH(vec_Tp_faulty, 2, faulty, VecMachine<Tp, TA<Tp>, DErr>)
MACH(vec_Tp_enumerate, 1, enumerate, VecMachine<Tp, TA<Tp>, DErr>)
MACH(vec_Tq_faulty, 1, faulty, VecMachine<Tq, nestl::allocator<Tq>, UErr>)
#endif
#if ON(2)
MACH(list_int_faulty, 2, faulty, ListMachine<int, nestl::allocator<int>, DErr>)
MACH(list_Tp_faulty, 2, faulty, ListMachine<Tp, TA<Tp>, DErr>)
MACH(list_Tp_enumerate, 1, enumerate, ListMachine<Tp, TA<Tp>, DErr>)
MACH(list_Tr_faulty, 1, faulty, ListMachine<Tr, TA<Tr>, UErr>)
#endif
#if ON(3)
MACH(set_int_faulty, 2, faulty, SetMachine<int, nestl::allocator<int>, DErr>)
MACH(set_Tq_faulty, 2, faulty, SetMachine<Tq, TA<Tq>, DErr>)
MACH(set_Tq_enumerate, 1, enumerate, SetMachine<Tq, TA<Tq>, UErr>)
MACH(ptr_plain, 2, plain, PtrMachine<K_PLAIN, DErr>)
MACH(ptr_two_phase, 2, faulty, PtrMachine<K_TWOPHASE, DErr>)
#endif
#if ON(4)
MACH(vec_NV_faulty, 1, faulty, VecMachine<NV, TA<NV>, DErr>)
MACH(list_NV_faulty, 1, faulty, ListMachine<NV, TA<NV>, DErr>)
MACH(vec_NL_enumerate, 1, enumerate, VecMachine<NL, TA<NL>, UErr>)
MACH(vec_SP_faulty, 1, faulty, VecMachine<SP, TA<SP>, DErr>)
MACH(set_NV_faulty, 1, faulty, SetMachine<NV, TA<NV>, DErr>)
#endif
