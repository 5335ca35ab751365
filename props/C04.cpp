// PARTS 8
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "ptrm.hpp"
#include "kinds.hpp"
#include "ptrkinds.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::LIFE | vf::BLOCK, EV_FAULT | EV_MOVE | EV_COPY, 3, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(vec_Tr_T_faulty, 1, faulty, VecMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(vec_Tr_T_enumerate, 1, enumerate, VecMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(vec_Tq_N_faulty, 1, faulty, VecMachine<Tq, nestl::allocator<Tq >, DErr>);
    VF_MACHINE(vec_Tq_N_enumerate, 1, enumerate, VecMachine<Tq, nestl::allocator<Tq >, DErr>);
#elif PART == 1
    VF_MACHINE(vec_Tp_T_faulty, 1, faulty, VecMachine<Tp, TA<Tp >, DErr>);
    VF_MACHINE(vec_Tp_T_enumerate, 1, enumerate, VecMachine<Tp, TA<Tp >, DErr>);
#if VF_EXC
    VF_MACHINE(vec_Th_N_faulty, 1, faulty, VecMachine<Th, nestl::allocator<Th >, DErr>);
    VF_MACHINE(vec_Th_N_enumerate, 1, enumerate, VecMachine<Th, nestl::allocator<Th >, DErr>);
    VF_MACHINE(vec_Tm_T_faulty, 1, faulty, VecMachine<Tm, TA<Tm >, UErr>);
    VF_MACHINE(vec_Tm_T_enumerate, 1, enumerate, VecMachine<Tm, TA<Tm >, UErr>);
#endif
#elif PART == 2
    VF_MACHINE(list_Tr_N_faulty, 1, faulty, ListMachine<Tr, nestl::allocator<Tr >, UErr>);
    VF_MACHINE(list_Tr_N_enumerate, 1, enumerate, ListMachine<Tr, nestl::allocator<Tr >, UErr>);
    VF_MACHINE(list_Tq_T_faulty, 1, faulty, ListMachine<Tq, TA<Tq >, DErr>);
    VF_MACHINE(list_Tq_T_enumerate, 1, enumerate, ListMachine<Tq, TA<Tq >, DErr>);
#elif PART == 3
    VF_MACHINE(list_Tp_T_faulty, 1, faulty, ListMachine<Tp, TA<Tp >, DErr>);
    VF_MACHINE(list_Tp_T_enumerate, 1, enumerate, ListMachine<Tp, TA<Tp >, DErr>);
#if VF_EXC
    VF_MACHINE(list_Th_N_faulty, 1, faulty, ListMachine<Th, nestl::allocator<Th >, DErr>);
    VF_MACHINE(list_Th_N_enumerate, 1, enumerate, ListMachine<Th, nestl::allocator<Th >, DErr>);
    VF_MACHINE(list_Tm_T_faulty, 1, faulty, ListMachine<Tm, TA<Tm >, UErr>);
    VF_MACHINE(list_Tm_T_enumerate, 1, enumerate, ListMachine<Tm, TA<Tm >, UErr>);
#endif
#elif PART == 4
    VF_MACHINE(set_Tr_T_faulty, 1, faulty, SetMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(set_Tr_T_enumerate, 1, enumerate, SetMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(set_Tq_M_faulty, 1, faulty, SetMachine<Tq, MA<Tq >, DErr>);
    VF_MACHINE(set_Tq_M_enumerate, 1, enumerate, SetMachine<Tq, MA<Tq >, DErr>);
#if VF_EXC
    VF_MACHINE(set_Th_N_faulty, 1, faulty, SetMachine<Th, nestl::allocator<Th >, DErr>);
    VF_MACHINE(set_Th_N_enumerate, 1, enumerate, SetMachine<Th, nestl::allocator<Th >, DErr>);
    VF_MACHINE(set_Tm_T_faulty, 1, faulty, SetMachine<Tm, TA<Tm >, UErr>);
    VF_MACHINE(set_Tm_T_enumerate, 1, enumerate, SetMachine<Tm, TA<Tm >, UErr>);
#endif
#elif PART == 5
    VF_MACHINE(ptr_two_phase, 2, faulty, PtrMachine<K_TWOPHASE, DErr>);
#if VF_EXC
    VF_MACHINE(ptr_throwing, 1, faulty, PtrMachine<K_THROW, UErr>);
#endif
    VF_MACHINE(vec_SP_T_faulty, 1, faulty, VecMachine<SP, TA<SP >, DErr>);
    VF_MACHINE(vec_SP_T_enumerate, 1, enumerate, VecMachine<SP, TA<SP >, DErr>);
    VF_MACHINE(list_SP_T_faulty, 1, faulty, ListMachine<SP, TA<SP >, DErr>);
#elif PART == 6
    VF_MACHINE(vec_Em_T_faulty, 1, faulty, VecMachine<Em, TA<Em >, DErr>);
    VF_MACHINE(vec_Tt_N_faulty, 1, faulty, VecMachine<Tt, nestl::allocator<Tt >, DErr>);
    VF_MACHINE(list_Em_N_faulty, 1, faulty, ListMachine<Em, nestl::allocator<Em >, DErr>);
    VF_MACHINE(list_Tt_T_faulty, 1, faulty, ListMachine<Tt, TA<Tt >, DErr>);
    VF_MACHINE(set_Em_T_faulty, 1, faulty, SetMachine<Em, TA<Em >, DErr>);
    VF_MACHINE(set_Tt_M_faulty, 1, faulty, SetMachine<Tt, MA<Tt >, DErr>);
#elif PART == 7
    VF_SCENARIO_T(ptr_Em, 1, ptr_kind<Em>);
    VF_SCENARIO_T(ptr_Tt, 1, ptr_kind<Tt>);
    VF_SCENARIO_T(ptr_Big, 1, ptr_kind<Big>);
#endif
}
