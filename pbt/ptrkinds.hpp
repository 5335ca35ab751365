// Shared and weak pointers to objects of the kinds of kinds.hpp, against owner counts.
#ifndef VF_PTRKINDS_HPP
#define VF_PTRKINDS_HPP
#include "kinds.hpp"

namespace VM
{
template <class T> void ptr_kind(vf::Src& s)
{
    typedef ET<T> E;
    typedef nestl::shared_ptr<T> S;
    typedef nestl::weak_ptr<T> Wk;
    enum { N = 4 };
    W().reset();
    {
        std::vector<Val> vals;               // value of each object ever made
        S sh[N]; Wk wk[N];
        int sm[N], wm[N];                    // object owned / observed, -1 for none
        for (int i = 0; i < N; ++i) sm[i] = wm[i] = -1;
        TA<T> alloc(2);
        unsigned len = 3 + s.draw(30);
        for (unsigned q = 0; q < len; ++q)
        {
            int i = (int)s.draw(N), j = (int)s.draw(N);
            const char* what = "";
            switch (s.draw(9))
            {
            case 0: case 1:
            {
                what = "make_shared";
                Val v = E::norm(mk(s.value(), (int)q + 1));
                typename E::Holder h(v);
                DErr err;
                bool fail = s.draw(4) == 3;
                if (fail) vf::g_nt.fail_in = 0;
                S n = nestl::make_shared_a_nothrow<T>(err, alloc, static_cast<const T&>(h.ref()));
                W().disarm();
                VF_CHECK(vf::MISC, bool(err) == fail && bool(n) == !fail, "make_shared %s", fail ? "without memory did not report it" : "failed although nothing was in its way");
                if (err) break;
                sh[i] = std::move(n);
                vals.push_back(v);
                sm[i] = (int)vals.size() - 1;
                break;
            }
            case 2: what = "copy assignment"; sh[i] = static_cast<const S&>(sh[j]); sm[i] = sm[j]; break;
            case 3: what = "move assignment"; if (i != j) { sh[i] = std::move(sh[j]); sm[i] = sm[j]; sm[j] = -1; } break;
            case 4: what = "reset"; sh[i].reset(); sm[i] = -1; break;
            case 5: what = "swap"; sh[i].swap(sh[j]); std::swap(sm[i], sm[j]); break;
            case 6: what = "observe"; wk[i] = sh[j]; wm[i] = sm[j]; break;
            case 7: what = "forget"; wk[i].reset(); wm[i] = -1; break;
            case 8:
            {
                what = "lock";
                bool alive = wm[i] >= 0 && std::count(sm, sm + N, wm[i]);
                S l = wk[i].lock();
                VF_CHECK(vf::MISC, bool(l) == alive, "lock() of an observer gave %s", alive ? "nothing" : "an object nobody owns");
                if (alive) { sh[j] = l; sm[j] = wm[i]; }
                break;
            }
            }
            VF_NOTE("%s %d %d", what, i, j);
            std::vector<int> alive(sm, sm + N), held;
            std::sort(alive.begin(), alive.end());
            alive.erase(std::unique(alive.begin(), alive.end()), alive.end());
            if (!alive.empty() && alive[0] < 0) alive.erase(alive.begin());
            held = alive;
            for (int x = 0; x < N; ++x) if (wm[x] >= 0 && !std::count(held.begin(), held.end(), wm[x])) held.push_back(wm[x]);
            if (held.size() > 1) vf::nontrivial();
            if (E::counted) VF_CHECK(vf::MISC | vf::LIFE, W().live == (long)alive.size(), "after %s %zu objects have an owner but %ld are alive", what, alive.size(), W().live);
            VF_CHECK(vf::MISC | vf::BLOCK, W().blocks.size() == held.size(), "after %s %zu blocks are held for %zu objects owned or observed", what, W().blocks.size(), held.size());
            for (int x = 0; x < N; ++x)
            {
                VF_CHECK(vf::MISC, (sh[x].get() != 0) == (sm[x] >= 0) && bool(sh[x]) == (sm[x] >= 0), "after %s handle %d is %s", what, x, sh[x] ? "not empty" : "empty");
                VF_CHECK(vf::MISC, sm[x] < 0 || E::get(*sh[x]) == vals[sm[x]], "after %s the object of handle %d has the wrong value", what, x);
                VF_CHECK(vf::MISC, sh[x].use_count() == (sm[x] < 0 ? 0 : (long)std::count(sm, sm + N, sm[x])), "after %s use_count() of handle %d is %ld", what, x, (long)sh[x].use_count());
                VF_CHECK(vf::MISC, wk[x].use_count() == (wm[x] < 0 ? 0 : (long)std::count(sm, sm + N, wm[x])), "after %s use_count() of observer %d is %ld", what, x, (long)wk[x].use_count());
            }
        }
    }
    final_balance();
}
}
#endif
