// PARTS 3
#include "ptrm.hpp"
#include "large.hpp"
#include "ptrkinds.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::MISC | vf::LIFE | vf::BLOCK, EV_MIDDLE | EV_TRANSFER, 3, false)
#endif
namespace VM
{
#if PART == 0
    VF_MACHINE(graph, 4, plain, PtrMachine<K_PLAIN, DErr>);

// One object, up to 70000 owners and observers, let go in any order
VF_SCENARIO(many_owners, 1)
{
    W().reset();
    {
        typedef nestl::shared_ptr<Tr> S;
        typedef nestl::weak_ptr<Tr> Wk;
        DErr err;
        TA<Tr> a(1);
        S first = nestl::make_shared_a_nothrow<Tr>(err, a, 7, 7);
        VF_CHECK(vf::MISC, !err && first, "make_shared failed although nothing was in its way");
        std::vector<S> own;
        std::vector<Wk> obs;
        size_t n = any_size(s), k = any_size(s);
        unsigned how = s.draw(4);
        VF_NOTE("%zu owners, %zu observers, order %u", n, k, how);
        own.reserve(n); obs.reserve(k);
        for (size_t i = 0; i < n; ++i) own.push_back(i & 1 && how & 1 ? own.back() : first);
        for (size_t i = 0; i < k; ++i) obs.push_back(Wk(i & 1 && n ? own[i % n] : first));
        if (n + k > 2) vf::nontrivial();
        if (n > 65536 || k > 65536) vf::hit("more than 65536 owners or observers");
        VF_CHECK(vf::MISC, (size_t)first.use_count() == n + 1, "%zu owners, but use_count() is %ld", n + 1, (long)first.use_count());
        bool keep = s.draw(2) == 0;          // the first handle outlives the others
        if (!keep) first.reset();
        bool alive = keep || n;
        for (size_t q = 0; q < n; ++q)
        {
            VF_CHECK(vf::MISC | vf::LIFE, W().live == 1, "the object died while %zu owners remained", n - q + (keep ? 1 : 0));
            size_t x = how < 2 ? q : n - 1 - q;
            own[x].reset();
            if (!obs.empty() && q % 16 == 0) { size_t o = q % obs.size(); VF_CHECK(vf::MISC, obs[o].expired() == !(keep || q + 1 < n), "expired() of observer %zu is wrong", o); if (how == 3 && q % 32 == 0) obs[o].reset(), obs[o] = Wk(keep ? first : q + 1 < n ? own[how < 2 ? n - 1 : 0] : S()); }
        }
        alive = keep;
        VF_CHECK(vf::MISC | vf::LIFE, W().live == (alive ? 1 : 0), "%d owners remain but %ld objects are alive", (int)alive, W().live);
        if (keep && first) VF_CHECK(vf::MISC, first.use_count() == 1, "one owner remains but use_count() is %ld", (long)first.use_count());
        std::vector<S> locked;
        for (size_t q = 0; q < k; ++q)
        {
            VF_CHECK(vf::MISC, obs[q].expired() == !alive || how == 3, "observer %zu: expired() is wrong", q);
            S l = obs[q].lock();
            VF_CHECK(vf::MISC, (l.get() != 0) == alive || how == 3, "observer %zu: lock() gave %s", q, l ? "an object" : "nothing");
            if (l && q % 2) locked.push_back(l);
            if (q % 3 == 0) obs[q].reset();
        }
        if (keep) VF_CHECK(vf::MISC, (size_t)first.use_count() == locked.size() + 1, "%zu owners, but use_count() is %ld", locked.size() + 1, (long)first.use_count());
        first.reset();
        VF_CHECK(vf::MISC | vf::LIFE, W().live == (locked.empty() ? 0 : 1), "after the first handle: %zu owners remain and %ld objects are alive", locked.size(), W().live);
        locked.clear();
        VF_CHECK(vf::MISC | vf::LIFE, W().live == 0, "no owner remains but the object is alive");
        obs.clear();
    }
    final_balance();
}
#elif PART == 1
    VF_MACHINE(graph_two_phase, 2, faulty, PtrMachine<K_TWOPHASE, UErr>);
#if VF_EXC
    VF_MACHINE(graph_throwing, 1, faulty, PtrMachine<K_THROW, DErr>);
#endif
#elif PART == 2
    VF_SCENARIO_T(ptr_Em, 1, ptr_kind<Em>);
    VF_SCENARIO_T(ptr_Tt, 1, ptr_kind<Tt>);
    VF_SCENARIO_T(ptr_Pd, 1, ptr_kind<Pd>);
    VF_SCENARIO_T(ptr_bool, 1, ptr_kind<bool>);
    VF_SCENARIO_T(ptr_Pt, 1, ptr_kind<Pt>);
    VF_SCENARIO_T(ptr_Big, 1, ptr_kind<Big>);
#endif
}
