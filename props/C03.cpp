// PARTS 5
#include "setm.hpp"
#include "large.hpp"
#include "kinds.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::CONTENT | vf::RESULT, EV_ERASE | EV_DUP, 0, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(set_int_N_plain, 3, plain, SetMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(set_Tr_T_plain, 3, plain, SetMachine<Tr, TA<Tr >, UErr>);
#elif PART == 1
    VF_MACHINE(set_char_T_plain, 1, plain, SetMachine<signed char, TA<signed char >, DErr>);
    VF_MACHINE(set_Tq_M_plain, 1, plain, SetMachine<Tq, MA<Tq >, DErr>);
    VF_SCENARIO_T(large, 1, LargeSet::scenario);
#elif PART == 2
    VF_MACHINE(set_NV_T_plain, 1, plain, SetMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(set_SP_N_plain, 1, plain, SetMachine<SP, nestl::allocator<SP >, DErr>);
#elif PART == 3
    VF_MACHINE(set_Big_T_plain, 1, plain, SetMachine<Big, TA<Big >, DErr>);
    VF_MACHINE(set_Tp_T_plain, 1, plain, SetMachine<Tp, TA<Tp >, UErr>);
#if VF_EXC
    VF_MACHINE(set_Th_T_plain, 1, plain, SetMachine<Th, TA<Th >, DErr>);
#endif
#elif PART == 4
    VF_MACHINE(set_Pd_N_plain, 1, plain, SetMachine<Pd, nestl::allocator<Pd >, DErr>);
    VF_MACHINE(set_Tt_T_plain, 1, plain, SetMachine<Tt, TA<Tt >, UErr>);
    VF_MACHINE(set_Em_T_plain, 1, plain, SetMachine<Em, TA<Em >, DErr>);
    VF_MACHINE(set_Pt_T_plain, 1, plain, SetMachine<Pt, TA<Pt >, DErr>);
#endif
}
