// PARTS 6
#include "listm.hpp"
#include "large.hpp"
#include "kinds.hpp"
#include "convert.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::CONTENT | vf::RESULT, EV_MIDDLE | EV_TRANSFER, 0, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(list_int_N_plain, 2, plain, ListMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(list_Tr_T_plain, 2, plain, ListMachine<Tr, TA<Tr >, UErr>);
#elif PART == 1
    VF_MACHINE(list_char_T_plain, 1, plain, ListMachine<signed char, TA<signed char >, DErr>);
    VF_MACHINE(list_Tq_T_plain, 1, plain, ListMachine<Tq, TA<Tq >, DErr>);
    VF_SCENARIO_T(large, 1, LargeList::scenario);
#elif PART == 2
    VF_MACHINE(list_NV_T_plain, 1, plain, ListMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(list_SP_N_plain, 1, plain, ListMachine<SP, nestl::allocator<SP >, DErr>);
#elif PART == 3
    VF_MACHINE(list_Big_T_plain, 1, plain, ListMachine<Big, TA<Big >, DErr>);
    VF_MACHINE(list_Tp_T_plain, 1, plain, ListMachine<Tp, TA<Tp >, UErr>);
#if VF_EXC
    VF_MACHINE(list_Th_T_plain, 1, plain, ListMachine<Th, TA<Th >, DErr>);
#endif
#elif PART == 4
    VF_MACHINE(list_Pd_N_plain, 1, plain, ListMachine<Pd, nestl::allocator<Pd >, DErr>);
    VF_MACHINE(list_Tt_T_plain, 1, plain, ListMachine<Tt, TA<Tt >, UErr>);
    VF_MACHINE(list_Em_T_plain, 1, plain, ListMachine<Em, TA<Em >, DErr>);
    VF_MACHINE(list_bool_N_plain, 1, plain, ListMachine<bool, nestl::allocator<bool >, DErr>);
    VF_MACHINE(list_Pt_T_plain, 1, plain, ListMachine<Pt, TA<Pt >, DErr>);
#elif PART == 5
    VF_CONVERSIONS(nestl::list);
#endif
}
