// PARTS 4
#include "vecm.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::CAP, EV_INPLACE | EV_REALLOC, 3, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(vec_int_N_plain, 2, plain, VecMachine<int, nestl::allocator<int>, DErr>);
    VF_MACHINE(vec_Tr_T_plain, 2, plain, VecMachine<Tr, TA<Tr>, UErr>);
#elif PART == 1
    VF_MACHINE(vec_Tq_M_faulty, 1, faulty, VecMachine<Tq, MA<Tq>, DErr>);
    VF_MACHINE(vec_Tr_T_faulty, 1, faulty, VecMachine<Tr, TA<Tr>, UErr>);
    VF_MACHINE(vec_NV_T_plain, 1, plain, VecMachine<NV, TA<NV>, DErr>);
#elif PART == 2
    VF_MACHINE(vec_char_T_plain, 1, plain, VecMachine<signed char, TA<signed char>, DErr>);
    VF_MACHINE(vec_Tp_T_plain, 1, plain, VecMachine<Tp, TA<Tp>, DErr>);
#if VF_EXC
    VF_MACHINE(vec_Th_T_plain, 1, plain, VecMachine<Th, TA<Th>, DErr>);
#endif
#else

// pointers into a reserved vector survive any growth that stays within the reservation;
// the capacity only changes when an operation needs more room
template <class T, class A> static void pointers(vf::Src& s)
{
    typedef nestl::vector<T, A> C;
    typedef ET<T> E;
    W().reset();
    {
        C c(AllocInfo<A>::make(1));
        Seq m;
        std::vector<const T*> addr;
        size_t n = 1 + s.small(s.draw(8) == 0 ? 600 : 40);
        DErr err;
        c.reserve_nothrow(err, n);
        size_t cap = c.capacity();
        VF_CHECK(vf::CAP, !err && cap >= n, "after reserve(%zu) the capacity is %zu", n, cap);
        VF_NOTE("reserve(%zu) gives %zu", n, cap);
        int tag = 0;
        unsigned steps = 4 + s.small(60);
        for (unsigned q = 0; q < steps && !err; ++q)
        {
            size_t from = m.size();       // first position that may change
            unsigned op = s.draw(7);
            size_t allocs = W().total_allocs();
            Val v = E::norm(mk(s.value(), ++tag));
            typename E::Holder h(v);
            const T& cr = h.ref();
            if (op == 0 && m.size() < cap) { VF_NOTE("push_back"); c.push_back_nothrow(err, cr); m.push_back(v); }
            else if (op == 1 && m.size() < cap) { VF_NOTE("push_back temporary"); c.push_back_nothrow(err, std::move(h.ref())); m.push_back(v); }
            else if (op == 2 && m.size() < cap)
            {
                from = s.draw((uint32_t)m.size() + 1);
                VF_NOTE("insert at %zu", from);
                c.insert_nothrow(err, c.cbegin() + from, cr); m.insert(m.begin() + from, v);
            }
            else if (op == 3)
            {
                size_t k = s.small((uint32_t)cap); from = std::min(from, k);
                VF_NOTE("resize to %zu", k);
                c.resize_nothrow(err, k, cr); m.resize(k, v);
            }
            else if (op == 4 && s.draw(4) == 0) { VF_NOTE("clear"); c.clear(); m.clear(); from = 0; }
            else if (op == 5) { size_t k = s.draw((uint32_t)cap + 1); VF_NOTE("reserve %zu", k); c.reserve_nothrow(err, k); }
            else if (op == 6 && m.size() < cap)
            {
                size_t k = s.small((uint32_t)std::min<size_t>(cap - m.size(), 30));
                from = s.draw((uint32_t)m.size() + 1);
                Vals<T> vs(Seq(k, v));
                VF_NOTE("insert %zu elements at %zu", k, from);
                c.insert_nothrow(err, c.cbegin() + from, static_cast<const T*>(vs.begin()), static_cast<const T*>(vs.end()));
                m.insert(m.begin() + from, k, v);
            }
            else continue;
            VF_CHECK(vf::CAP, !err, "an operation within the reserved capacity failed");
            VF_CHECK(vf::CAP, c.capacity() == cap, "the capacity changed from %zu to %zu although %zu elements fit", cap, (size_t)c.capacity(), m.size());
            VF_CHECK(vf::CAP, W().total_allocs() == allocs || E::nested, "memory was allocated although %zu elements fit into %zu", m.size(), cap);
            VF_CHECK(vf::CAP, c.size() == m.size(), "the size is %zu, expected %zu", (size_t)c.size(), m.size());
            if (addr.size() > from) addr.resize(from);
            for (size_t j = 0; j < addr.size(); ++j)
                VF_CHECK(vf::CAP, addr[j] == &c[j] && E::get(*addr[j]) == m[j], "a pointer to element %zu no longer refers to its value although the change happened at %zu", j, from);
            if (addr.size() > 1) ev(EV_INPLACE);
            for (size_t j = addr.size(); j < m.size(); ++j)
            {
                VF_CHECK(vf::CAP, E::get(c[j]) == m[j], "element %zu is wrong after an operation within the capacity", j);
                addr.push_back(&c[j]);
            }
        }
    }
    final_balance();
}

// appending n elements one by one costs a linear number of element constructions and a logarithmic number of allocations
template <class T, class A> static void append(vf::Src& s)
{
    typedef nestl::vector<T, A> C;
    W().reset();
    {
        C c(AllocInfo<A>::make(1));
        DErr err;
        size_t start = s.draw(2) ? 0 : s.small(300);
        Seq init(start, mk(1, 1));
        Vals<T> vs(init);
        unsigned how = s.draw(3);
        if (how == 0) c.assign_nothrow(err, static_cast<const T*>(vs.begin()), static_cast<const T*>(vs.end()));
        else if (how == 1 && start) c.resize_nothrow(err, start, static_cast<const T&>(*vs.begin()));
        else { c.insert_nothrow(err, c.cend(), static_cast<const T*>(vs.begin()), static_cast<const T*>(vs.end())); }
        unsigned prep = s.draw(3);
        if (prep == 1) c.shrink_to_fit_nothrow(err);
        if (prep == 2) c.reserve_nothrow(err, start + s.draw(50));
        size_t n = s.draw(16) == 0 ? 1000 + s.draw(3000) : 16 + s.small(700);
        unsigned op = s.draw(4);
        VF_NOTE("%zu appends to a vector of %zu elements, capacity %zu, by method %u", n, (size_t)c.size(), (size_t)c.capacity(), op);
        size_t m0 = c.size();
        uint64_t made = W().ctors + W().copies + W().moves + W().assigns;
        size_t allocs = W().total_allocs();
        size_t cap = c.capacity(), grew = 0;
        for (size_t q = 0; q < n; ++q)
        {
            typename ET<T>::Holder h(mk((int)q, 7));
            const T& cr = h.ref();
            switch (op)
            {
            case 0: c.push_back_nothrow(err, cr); break;
            case 1: c.push_back_nothrow(err, std::move(h.ref())); break;
            case 2: c.emplace_back_nothrow(err, (int)q, 7); break;
            default: c.insert_nothrow(err, c.cend(), cr); break;
            }
            if (c.capacity() != cap) { ++grew; VF_CHECK(vf::CAP, c.capacity() > cap, "growth lowered the capacity from %zu to %zu", cap, (size_t)c.capacity()); cap = c.capacity(); }
        }
        VF_CHECK(vf::CAP, !err && c.size() == m0 + n, "appending failed");
        uint64_t used = W().ctors + W().copies + W().moves + W().assigns - made;
        uint64_t na = W().total_allocs() - allocs;
        double lg = 1; for (double x = (double)(m0 + n + 1); x > 1; x /= 2) lg += 1;
        if (grew > 2) ev(EV_REALLOC);
        VF_CHECK(vf::CAP, used <= 12 * (m0 + n) + 64, "appending %zu elements to %zu needed %llu element constructions", n, m0, (unsigned long long)used);
        VF_CHECK(vf::CAP, (double)na <= 6 * lg + 12, "appending %zu elements to %zu needed %llu allocations", n, m0, (unsigned long long)na);
        VF_CHECK(vf::CAP, c.capacity() <= 8 * (m0 + n) + 1024, "a vector of %zu elements occupies room for %zu", m0 + n, (size_t)c.capacity());
        for (size_t q = 0; q < n; ++q) VF_CHECK(vf::CAP, ET<T>::get(c[m0 + q]) == mk((int)q, 7), "growth altered element %zu", m0 + q);
    }
    final_balance();
}
// the same over longer runs, looking at the cost only
static void p_tr(vf::Src& s) { pointers<Tr, TA<Tr> >(s); }
static void p_int(vf::Src& s) { pointers<int, nestl::allocator<int> >(s); }
static void p_tq(vf::Src& s) { pointers<Tq, MA<Tq> >(s); }
static void a_tr(vf::Src& s) { append<Tr, TA<Tr> >(s); }
static void a_tq(vf::Src& s) { append<Tq, nestl::allocator<Tq> >(s); }
VF_SCENARIO_T(pointers_Tr, 2, p_tr);
VF_SCENARIO_T(pointers_int, 1, p_int);
VF_SCENARIO_T(pointers_Tq, 1, p_tq);
VF_SCENARIO_T(append_Tr, 1, a_tr);
VF_SCENARIO_T(append_Tq, 1, a_tq);
#endif
}
