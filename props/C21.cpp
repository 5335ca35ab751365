// PARTS 7
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "kinds.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::CONTENT | vf::GUAR | vf::ERR | vf::RETRY | vf::BLOCK, EV_NESTED, 3, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(vec_NV_T_plain, 1, plain, VecMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(vec_NV_T_faulty, 1, faulty, VecMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(vec_NL_T_plain, 1, plain, VecMachine<NL, TA<NL >, UErr>);
    VF_MACHINE(vec_NL_T_faulty, 1, faulty, VecMachine<NL, TA<NL >, UErr>);
#elif PART == 1
    VF_MACHINE(vec_NLV_T_faulty, 1, faulty, VecMachine<NLV, TA<NLV >, DErr>);
    VF_MACHINE(vec_NLV_T_enumerate, 1, enumerate, VecMachine<NLV, TA<NLV >, DErr>);
    VF_MACHINE(vec_NVL_N_faulty, 1, faulty, VecMachine<NVL, nestl::allocator<NVL >, DErr>);
    VF_MACHINE(vec_NVL_N_enumerate, 1, enumerate, VecMachine<NVL, nestl::allocator<NVL >, DErr>);
#elif PART == 2
    VF_MACHINE(list_NV_T_plain, 1, plain, ListMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(list_NV_T_faulty, 1, faulty, ListMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(list_NL_T_plain, 1, plain, ListMachine<NL, TA<NL >, UErr>);
    VF_MACHINE(list_NL_T_faulty, 1, faulty, ListMachine<NL, TA<NL >, UErr>);
#elif PART == 3
    VF_MACHINE(list_NLV_T_faulty, 1, faulty, ListMachine<NLV, TA<NLV >, DErr>);
    VF_MACHINE(list_NLV_T_enumerate, 1, enumerate, ListMachine<NLV, TA<NLV >, DErr>);
    VF_MACHINE(list_NVL_N_faulty, 1, faulty, ListMachine<NVL, nestl::allocator<NVL >, DErr>);
    VF_MACHINE(list_NVL_N_enumerate, 1, enumerate, ListMachine<NVL, nestl::allocator<NVL >, DErr>);
#elif PART == 4
    VF_MACHINE(vec_SP_T_faulty, 1, faulty, VecMachine<SP, TA<SP >, DErr>);
    VF_MACHINE(vec_Tq_N_faulty, 1, faulty, VecMachine<Tq, nestl::allocator<Tq >, DErr>);
    VF_MACHINE(list_SP_T_faulty, 1, faulty, ListMachine<SP, TA<SP >, DErr>);
    VF_MACHINE(list_Tq_N_faulty, 1, faulty, ListMachine<Tq, nestl::allocator<Tq >, DErr>);
#elif PART == 5
    VF_MACHINE(set_NV_T_faulty, 1, faulty, SetMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(set_NL_N_faulty, 1, faulty, SetMachine<NL, nestl::allocator<NL >, DErr>);
    VF_MACHINE(vec_NV_T_enumerate, 1, enumerate, VecMachine<NV, TA<NV >, DErr>);
    VF_MACHINE(list_NL_N_enumerate, 1, enumerate, ListMachine<NL, nestl::allocator<NL >, DErr>);
#elif PART == 6
    VF_MACHINE(vec_Tt_T_faulty, 1, faulty, VecMachine<Tt, TA<Tt >, DErr>);
    VF_MACHINE(list_Tt_N_faulty, 1, faulty, ListMachine<Tt, nestl::allocator<Tt >, DErr>);
    VF_MACHINE(set_Tt_T_faulty, 1, faulty, SetMachine<Tt, TA<Tt >, DErr>);
#endif
}
