// PARTS 7
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "moveonly.hpp"
#include "kinds.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::CONTENT | vf::XFER, EV_MOVE | EV_COPY, 0, true)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(vec_int_N_plain, 1, plain, VecMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(vec_Tr_T_plain, 1, plain, VecMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(vec_NV_T_plain, 1, plain, VecMachine<NV, TA<NV >, DErr>);
#elif PART == 1
    VF_MACHINE(vec_Tq_M_plain, 1, plain, VecMachine<Tq, MA<Tq >, DErr>);
#if VF_EXC
    VF_MACHINE(vec_Th_T_plain, 1, plain, VecMachine<Th, TA<Th >, DErr>);
#endif
#elif PART == 2
    VF_MACHINE(list_int_N_plain, 1, plain, ListMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(list_Tr_T_plain, 1, plain, ListMachine<Tr, TA<Tr >, UErr>);
#elif PART == 3
    VF_MACHINE(list_NL_T_plain, 1, plain, ListMachine<NL, TA<NL >, DErr>);
#if VF_EXC
    VF_MACHINE(list_Th_T_plain, 1, plain, ListMachine<Th, TA<Th >, DErr>);
#endif
#elif PART == 4
    VF_MACHINE(set_int_N_plain, 2, plain, SetMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(set_Tr_T_plain, 2, plain, SetMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(set_NV_T_plain, 2, plain, SetMachine<NV, TA<NV >, DErr>);
#elif PART == 5
    VF_SCENARIO_T(list_move_only, 1, MoveOnly::lists);
    VF_SCENARIO_T(set_move_only, 1, MoveOnly::sets);
#elif PART == 6
    VF_MACHINE(vec_Pd_N_plain, 1, plain, VecMachine<Pd, nestl::allocator<Pd >, DErr>);
    VF_MACHINE(list_Pd_T_plain, 1, plain, ListMachine<Pd, TA<Pd >, DErr>);
    VF_MACHINE(set_Pd_N_plain, 1, plain, SetMachine<Pd, nestl::allocator<Pd >, DErr>);
    VF_MACHINE(vec_Em_N_plain, 1, plain, VecMachine<Em, nestl::allocator<Em >, DErr>);
    VF_MACHINE(list_Em_T_plain, 1, plain, ListMachine<Em, TA<Em >, DErr>);
    VF_MACHINE(set_Em_T_plain, 1, plain, SetMachine<Em, TA<Em >, DErr>);
#endif
}
