// PARTS 6
#include "vecm.hpp"
#include "large.hpp"
#include "kinds.hpp"
#include "convert.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::CONTENT | vf::RESULT, EV_MIDDLE | EV_REALLOC | EV_INPLACE, 0, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(vec_int_N_plain, 2, plain, VecMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(vec_Tr_T_plain, 2, plain, VecMachine<Tr, TA<Tr >, UErr>);
#elif PART == 1
    VF_MACHINE(vec_char_T_plain, 1, plain, VecMachine<signed char, TA<signed char >, DErr>);
    VF_MACHINE(vec_Tq_M_plain, 1, plain, VecMachine<Tq, MA<Tq >, DErr>);
    VF_SCENARIO_T(large, 1, LargeVec::scenario);
#elif PART == 2
    VF_MACHINE(vec_NV_T_plain, 1, plain, VecMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(vec_SP_N_plain, 1, plain, VecMachine<SP, nestl::allocator<SP >, DErr>);
#elif PART == 3
    VF_MACHINE(vec_Big_T_plain, 1, plain, VecMachine<Big, TA<Big >, DErr>);
    VF_MACHINE(vec_Tp_T_plain, 1, plain, VecMachine<Tp, TA<Tp >, UErr>);
#if VF_EXC
    VF_MACHINE(vec_Th_T_plain, 1, plain, VecMachine<Th, TA<Th >, DErr>);
#endif
#elif PART == 4
    VF_MACHINE(vec_Pd_N_plain, 1, plain, VecMachine<Pd, nestl::allocator<Pd >, DErr>);
    VF_MACHINE(vec_Tt_T_plain, 1, plain, VecMachine<Tt, TA<Tt >, UErr>);
    VF_MACHINE(vec_Em_T_plain, 1, plain, VecMachine<Em, TA<Em >, DErr>);
    VF_MACHINE(vec_bool_N_plain, 1, plain, VecMachine<bool, nestl::allocator<bool >, DErr>);
    VF_MACHINE(vec_Pt_T_plain, 1, plain, VecMachine<Pt, TA<Pt >, DErr>);
#elif PART == 5
    VF_CONVERSIONS(nestl::vector);
#endif
}
