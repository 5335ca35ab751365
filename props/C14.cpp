// PARTS 5
#include "listm.hpp"
#include "setm.hpp"
#include "kinds.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::STAB, EV_TRANSFER | EV_MOVE | EV_ERASE, 0, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(list_int_N_plain, 3, plain, ListMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(list_Tr_T_plain, 3, plain, ListMachine<Tr, TA<Tr >, UErr>);
#elif PART == 1
    VF_MACHINE(list_NL_T_plain, 1, plain, ListMachine<NL, TA<NL >, DErr>);
    VF_MACHINE(list_Tq_T_plain, 1, plain, ListMachine<Tq, TA<Tq >, DErr>);
#elif PART == 2
    VF_MACHINE(set_int_N_plain, 3, plain, SetMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(set_Tr_T_plain, 3, plain, SetMachine<Tr, TA<Tr >, UErr>);
#elif PART == 3
    VF_MACHINE(set_NV_T_plain, 1, plain, SetMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(set_Tq_M_plain, 1, plain, SetMachine<Tq, MA<Tq >, DErr>);
    VF_MACHINE(set_Big_T_plain, 1, plain, SetMachine<Big, TA<Big >, DErr>);
#elif PART == 4
    VF_MACHINE(list_Pd_N_plain, 1, plain, ListMachine<Pd, nestl::allocator<Pd >, DErr>);
    VF_MACHINE(list_Pt_T_plain, 1, plain, ListMachine<Pt, TA<Pt >, DErr>);
    VF_MACHINE(set_Pd_N_plain, 1, plain, SetMachine<Pd, nestl::allocator<Pd >, DErr>);
    VF_MACHINE(set_bool_N_plain, 1, plain, SetMachine<bool, nestl::allocator<bool >, DErr>);
#endif
}
