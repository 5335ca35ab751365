// PARTS 6
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "ptrm.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::CONTENT | vf::NOFAIL, EV_MOVE | EV_ERASE | EV_TRANSFER | EV_DUP, 0, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(vec_int_N_plain, 1, plain, VecMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(vec_Tr_T_plain, 1, plain, VecMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(vec_Tq_T_plain, 1, plain, VecMachine<Tq, TA<Tq >, DErr>);
#elif PART == 1
    VF_MACHINE(vec_NL_T_plain, 1, plain, VecMachine<NL, TA<NL >, DErr>);
    VF_MACHINE(vec_NV_N_plain, 1, plain, VecMachine<NV, nestl::allocator<NV >, UErr>);
#if VF_EXC
    VF_MACHINE(vec_Tm_T_plain, 1, plain, VecMachine<Tm, TA<Tm >, DErr>);
#endif
#elif PART == 2
    VF_MACHINE(list_int_N_plain, 3, plain, ListMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(list_Tr_T_plain, 3, plain, ListMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(list_Tq_T_plain, 2, plain, ListMachine<Tq, TA<Tq >, DErr>);
#elif PART == 3
    VF_MACHINE(list_NV_N_plain, 1, plain, ListMachine<NV, nestl::allocator<NV >, DErr>);
#if VF_EXC
    VF_MACHINE(list_Tm_T_plain, 3, plain, ListMachine<Tm, TA<Tm >, DErr>);
#endif
#elif PART == 4
    VF_MACHINE(set_int_N_plain, 3, plain, SetMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(set_Tq_M_plain, 2, plain, SetMachine<Tq, MA<Tq >, DErr>);
    VF_MACHINE(set_NV_T_plain, 1, plain, SetMachine<NV, TA<NV >, UErr>);
#if VF_EXC
    VF_MACHINE(set_Tm_T_plain, 3, plain, SetMachine<Tm, TA<Tm >, DErr>);
#endif
#else
    VF_MACHINE(ptr_plain_D, 2, plain, PtrMachine<K_PLAIN, DErr>);
    VF_MACHINE(ptr_twophase_U, 2, plain, PtrMachine<K_TWOPHASE, UErr>);
#if VF_EXC
    VF_MACHINE(ptr_throwing_D, 2, plain, PtrMachine<K_THROW, DErr>);
#endif
#endif
}
