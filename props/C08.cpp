// PARTS 5
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "ptrm.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::ARENA, EV_ARENAS, 3, true)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(vec_int_T_plain, 1, plain, VecMachine<int, TA<int >, DErr>);
    VF_MACHINE(vec_int_T_faulty, 1, faulty, VecMachine<int, TA<int >, DErr>);
    VF_MACHINE(vec_Tq_M_plain, 1, plain, VecMachine<Tq, MA<Tq >, UErr>);
    VF_MACHINE(vec_Tq_M_faulty, 1, faulty, VecMachine<Tq, MA<Tq >, UErr>);
#elif PART == 1
    VF_MACHINE(ptr_plain, 2, faulty, PtrMachine<K_PLAIN, DErr>);
    VF_MACHINE(vec_NV_T_plain, 1, plain, VecMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(vec_NV_T_faulty, 1, faulty, VecMachine<NV, TA<NV >, DErr>);
#if VF_EXC
    VF_MACHINE(vec_Th_T_faulty, 1, faulty, VecMachine<Th, TA<Th >, DErr>);
#endif
#elif PART == 2
    VF_MACHINE(list_int_T_plain, 1, plain, ListMachine<int, TA<int >, DErr>);
    VF_MACHINE(list_int_T_faulty, 1, faulty, ListMachine<int, TA<int >, DErr>);
    VF_MACHINE(list_Tq_T_plain, 1, plain, ListMachine<Tq, TA<Tq >, UErr>);
    VF_MACHINE(list_Tq_T_faulty, 1, faulty, ListMachine<Tq, TA<Tq >, UErr>);
#elif PART == 3
    VF_MACHINE(list_NL_T_plain, 1, plain, ListMachine<NL, TA<NL >, DErr>);
    VF_MACHINE(list_NL_T_faulty, 1, faulty, ListMachine<NL, TA<NL >, DErr>);
#if VF_EXC
    VF_MACHINE(list_Th_T_faulty, 1, faulty, ListMachine<Th, TA<Th >, DErr>);
#endif
#elif PART == 4
    VF_MACHINE(set_int_T_plain, 1, plain, SetMachine<int, TA<int >, DErr>);
    VF_MACHINE(set_int_T_faulty, 1, faulty, SetMachine<int, TA<int >, DErr>);
    VF_MACHINE(set_Tq_M_plain, 1, plain, SetMachine<Tq, MA<Tq >, UErr>);
    VF_MACHINE(set_Tq_M_faulty, 1, faulty, SetMachine<Tq, MA<Tq >, UErr>);
    VF_MACHINE(set_int_P_plain, 1, plain, SetMachine<int, PA<int >, UErr>);
    VF_MACHINE(set_Tq_P_faulty, 1, faulty, SetMachine<Tq, PA<Tq >, DErr>);
    VF_MACHINE(set_NV_T_plain, 1, plain, SetMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(set_NV_T_faulty, 1, faulty, SetMachine<NV, TA<NV >, DErr>);
#endif
}
