// PARTS 6
#include "vecm.hpp"
#include "listm.hpp"
#include "setm.hpp"
#include "ptrm.hpp"
#include "kinds.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::GUAR | vf::ERR | vf::AFTER | vf::RETRY | vf::LIFE | vf::BLOCK, EV_FAULT, 2, false)
#endif
namespace VM
{
#if PART == 4 && VF_EXC
// a set is copied together with its comparator (and, if wanted, its allocator): their assignment may fail as well
struct ThCmp
{
    int mode;
    explicit ThCmp(int m = 0) noexcept : mode(m) {}
    ThCmp(const ThCmp& o) noexcept : mode(o.mode) {}
    ThCmp& operator=(const ThCmp& o) { if (W().tick()) throw Boom(W().code); mode = o.mode; return *this; }
    bool operator()(const Tr& a, const Tr& b) const noexcept { return val_less(mode, ET<Tr>::get(a), ET<Tr>::get(b)); }
};
template <class T> class ThPA : public PA<T>
{
public:
    template <class U> struct rebind { typedef ThPA<U> other; };
    ThPA() noexcept {}
    explicit ThPA(int a) noexcept : PA<T>(a) {}
    ThPA(const ThPA& o) noexcept : PA<T>(o.arena) {}
    template <class U> ThPA(const ThPA<U>& o) noexcept : PA<T>(o.arena) {}
    ThPA& operator=(const ThPA& o) { if (W().tick()) throw Boom(W().code); this->arena = o.arena; return *this; }
};
template <class A, class Err> static void failing_comparator(vf::Src& s)
{
    typedef nestl::set<Tr, ThCmp, A> C;
    W().reset();
    {
        int m1 = (int)s.draw(5), m2 = (int)s.draw(5);
        C a((ThCmp(m1)), A(1)), b((ThCmp(m2)), A(2));
        Err err;
        unsigned na = s.small(12), nb = s.small(12);
        for (unsigned q = 0; q < na; ++q) a.insert_nothrow(err, Tr((int)s.draw(30), (int)q));
        for (unsigned q = 0; q < nb; ++q) b.insert_nothrow(err, Tr((int)s.draw(30), (int)q + 100));
        VF_CHECK(vf::GUAR, !err, "an insertion failed although nothing was injected");
        std::vector<Val> va, vb;
        for (typename C::const_iterator i = a.cbegin(); i != a.cend(); ++i) va.push_back(ET<Tr>::get(*i));
        for (typename C::const_iterator i = b.cbegin(); i != b.cend(); ++i) vb.push_back(ET<Tr>::get(*i));
        for (int k = 0; k < 3; ++k)
        {
            W().elem_fail_in = k; W().elem_fired = false; W().code = 7 + k;
            err = Err();
            a.copy_nothrow(err, b);
            bool fired = W().elem_fired;
            W().disarm();
            EInfo e = einfo(err);
            VF_NOTE("copy of a set of %zu elements over one of %zu, assignment %d of comparator or allocator fails: %s", vb.size(), va.size(), k, ekind(e.kind));
            if (fired) ev(EV_FAULT);
            VF_CHECK(vf::ERR, fired ? e.kind == E_CUSTOM && e.code == 7 + k : e.kind == E_NONE, "copy of a set whose comparator or allocator assignment %s reported %s (code %d)", fired ? "failed" : "succeeded", ekind(e.kind), e.code);
            std::vector<Val> now;
            for (typename C::const_iterator i = a.cbegin(); i != a.cend(); ++i) now.push_back(ET<Tr>::get(*i));
            VF_CHECK(vf::GUAR, a.size() == now.size() && (fired ? now.empty() || now == va : now == vb), "after the %s copy the set holds %s, before it held %s, the source %s", fired ? "failed" : "successful", shows(now).c_str(), shows(va).c_str(), shows(vb).c_str());
            // usable
            err = Err();
            a.insert_nothrow(err, Tr(77, 1));
            VF_CHECK(vf::GUAR, !err && a.find(Tr(77, 9)) != a.end(), "the set is not usable after a failed copy");
            va.clear();
            for (typename C::const_iterator i = a.cbegin(); i != a.cend(); ++i) va.push_back(ET<Tr>::get(*i));
            if (!fired) break;
        }
        std::vector<Val> same;
        for (typename C::const_iterator i = b.cbegin(); i != b.cend(); ++i) same.push_back(ET<Tr>::get(*i));
        VF_CHECK(vf::GUAR, same == vb, "copying altered the source");
    }
    final_balance();
}
VF_SCENARIO_T(set_comparator_fails, 1, failing_comparator<TA<Tr>, DErr>);
VF_SCENARIO_T(set_allocator_fails, 1, failing_comparator<ThPA<Tr>, UErr>);
#endif
#if PART == 0
    VF_MACHINE(vec_Tp_N_faulty, 1, faulty, VecMachine<Tp, nestl::allocator<Tp >, DErr>);
    VF_MACHINE(vec_Tp_N_enumerate, 1, enumerate, VecMachine<Tp, nestl::allocator<Tp >, DErr>);
    VF_MACHINE(vec_Tq_M_faulty, 1, faulty, VecMachine<Tq, MA<Tq >, UErr>);
    VF_MACHINE(vec_Tq_M_enumerate, 1, enumerate, VecMachine<Tq, MA<Tq >, UErr>);
#elif PART == 1
#if VF_EXC
    VF_MACHINE(vec_Th_T_faulty, 1, faulty, VecMachine<Th, TA<Th >, DErr>);
    VF_MACHINE(vec_Th_T_enumerate, 1, enumerate, VecMachine<Th, TA<Th >, DErr>);
    VF_MACHINE(vec_Tm_N_faulty, 1, faulty, VecMachine<Tm, nestl::allocator<Tm >, UErr>);
    VF_MACHINE(vec_Tm_N_enumerate, 1, enumerate, VecMachine<Tm, nestl::allocator<Tm >, UErr>);
#endif
#elif PART == 2
    VF_MACHINE(list_Tp_N_faulty, 1, faulty, ListMachine<Tp, nestl::allocator<Tp >, DErr>);
    VF_MACHINE(list_Tp_N_enumerate, 1, enumerate, ListMachine<Tp, nestl::allocator<Tp >, DErr>);
    VF_MACHINE(list_Tq_T_faulty, 1, faulty, ListMachine<Tq, TA<Tq >, UErr>);
    VF_MACHINE(list_Tq_T_enumerate, 1, enumerate, ListMachine<Tq, TA<Tq >, UErr>);
#elif PART == 3
#if VF_EXC
    VF_MACHINE(list_Th_T_faulty, 1, faulty, ListMachine<Th, TA<Th >, DErr>);
    VF_MACHINE(list_Th_T_enumerate, 1, enumerate, ListMachine<Th, TA<Th >, DErr>);
    VF_MACHINE(list_Tm_N_faulty, 1, faulty, ListMachine<Tm, nestl::allocator<Tm >, UErr>);
    VF_MACHINE(list_Tm_N_enumerate, 1, enumerate, ListMachine<Tm, nestl::allocator<Tm >, UErr>);
#endif
#elif PART == 4
    VF_MACHINE(ptr_two_phase, 1, faulty, PtrMachine<K_TWOPHASE, DErr>);
#if VF_EXC
    VF_MACHINE(ptr_throwing, 1, faulty, PtrMachine<K_THROW, UErr>);
#endif
    VF_MACHINE(set_Tp_N_faulty, 1, faulty, SetMachine<Tp, nestl::allocator<Tp >, DErr>);
    VF_MACHINE(set_Tp_N_enumerate, 1, enumerate, SetMachine<Tp, nestl::allocator<Tp >, DErr>);
    VF_MACHINE(set_Tq_M_faulty, 1, faulty, SetMachine<Tq, MA<Tq >, UErr>);
    VF_MACHINE(set_Tq_M_enumerate, 1, enumerate, SetMachine<Tq, MA<Tq >, UErr>);
#if VF_EXC
    VF_MACHINE(set_Th_T_faulty, 1, faulty, SetMachine<Th, TA<Th >, DErr>);
    VF_MACHINE(set_Th_T_enumerate, 1, enumerate, SetMachine<Th, TA<Th >, DErr>);
    VF_MACHINE(set_Tm_N_faulty, 1, faulty, SetMachine<Tm, nestl::allocator<Tm >, UErr>);
    VF_MACHINE(set_Tm_N_enumerate, 1, enumerate, SetMachine<Tm, nestl::allocator<Tm >, UErr>);
#endif
#elif PART == 5
    VF_MACHINE(vec_Tt_T_faulty, 1, faulty, VecMachine<Tt, TA<Tt >, DErr>);
    VF_MACHINE(vec_Tt_N_enumerate, 1, enumerate, VecMachine<Tt, nestl::allocator<Tt >, DErr>);
    VF_MACHINE(list_Tt_T_faulty, 1, faulty, ListMachine<Tt, TA<Tt >, DErr>);
    VF_MACHINE(set_Tt_T_enumerate, 1, enumerate, SetMachine<Tt, TA<Tt >, DErr>);
#endif
}
