// PARTS 6
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "ptrm.hpp"
#include "kinds.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::GUAR | vf::ERR | vf::AFTER | vf::RETRY | vf::LIFE | vf::BLOCK, EV_FAULT, 1, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(vec_int_N_faulty, 1, faulty, VecMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(vec_int_N_enumerate, 1, enumerate, VecMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(vec_Tr_T_faulty, 1, faulty, VecMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(vec_Tr_T_enumerate, 1, enumerate, VecMachine<Tr, TA<Tr >, UErr>);
#elif PART == 1
    VF_MACHINE(vec_NV_T_faulty, 1, faulty, VecMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(vec_NV_T_enumerate, 1, enumerate, VecMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(vec_Tq_M_faulty, 1, faulty, VecMachine<Tq, MA<Tq >, DErr>);
    VF_MACHINE(vec_Tq_M_enumerate, 1, enumerate, VecMachine<Tq, MA<Tq >, DErr>);
#elif PART == 2
    VF_MACHINE(list_int_N_faulty, 1, faulty, ListMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(list_int_N_enumerate, 1, enumerate, ListMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(list_Tr_T_faulty, 1, faulty, ListMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(list_Tr_T_enumerate, 1, enumerate, ListMachine<Tr, TA<Tr >, UErr>);
#elif PART == 3
    VF_MACHINE(ptr_plain, 1, faulty, PtrMachine<K_PLAIN, DErr>);
    VF_MACHINE(list_NL_T_faulty, 1, faulty, ListMachine<NL, TA<NL >, DErr>);
    VF_MACHINE(list_NL_T_enumerate, 1, enumerate, ListMachine<NL, TA<NL >, DErr>);
    VF_MACHINE(set_NV_T_faulty, 1, faulty, SetMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(set_NV_T_enumerate, 1, enumerate, SetMachine<NV, TA<NV >, DErr>);
#elif PART == 4
    VF_MACHINE(set_int_N_faulty, 1, faulty, SetMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(set_int_N_enumerate, 1, enumerate, SetMachine<int, nestl::allocator<int >, DErr>);
    VF_MACHINE(set_Tr_T_faulty, 1, faulty, SetMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(set_Tr_T_enumerate, 1, enumerate, SetMachine<Tr, TA<Tr >, UErr>);
    VF_MACHINE(set_Tq_M_faulty, 1, faulty, SetMachine<Tq, MA<Tq >, DErr>);
    VF_MACHINE(set_Tq_M_enumerate, 1, enumerate, SetMachine<Tq, MA<Tq >, DErr>);
#elif PART == 5
    VF_MACHINE(vec_Tt_T_faulty, 1, faulty, VecMachine<Tt, TA<Tt >, DErr>);
    VF_MACHINE(vec_Pd_T_faulty, 1, faulty, VecMachine<Pd, TA<Pd >, DErr>);
    VF_MACHINE(list_Tt_T_faulty, 1, faulty, ListMachine<Tt, TA<Tt >, DErr>);
    VF_MACHINE(list_Pd_N_enumerate, 1, enumerate, ListMachine<Pd, nestl::allocator<Pd >, DErr>);
    VF_MACHINE(set_Pd_T_enumerate, 1, enumerate, SetMachine<Pd, TA<Pd >, DErr>);
#endif
}
