// PARTS 4
#include "args.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::MISC, 0, 2, false)
#endif
namespace VM
{

template <class T> struct Place        // room for one object with guard zones
{
    unsigned char pre[16];
    typename std::aligned_storage<sizeof(T), alignof(T)>::type mem;
    unsigned char post[16];
    Place() { memset(static_cast<void*>(this), 0xa5, sizeof *this); }
    T* ptr() { return reinterpret_cast<T*>(&mem); }
    bool intact() const { for (int i = 0; i < 16; ++i) if (pre[i] != 0xa5 || post[i] != 0xa5) return false; return true; }
};

template <class T, class Err, class... A> static void do_construct(vf::Src& s, const std::vector<Seen>& want, A&&... args)
{
    Place<T>* p = new Place<T>;
    Err err;
    long arm = (long)s.draw(4) - 1;          // -1: nothing fails
    g.reset();
    W().clear_fired();
    W().code = 1 + (int)s.draw(900);
    W().elem_fail_in = arm;
    long tr = W().live;
    VF_NOTE("construct from %s%s", show_seen(want).c_str(), arm >= 0 ? " with a failure armed" : "");
    nestl::class_operations::construct(err, p->ptr(), std::forward<A>(args)...);
    bool fired = W().elem_fired;
    W().disarm();
    EInfo e = einfo(err);
    int way = Way<T>::of(want.size(), want);
    vf::nontrivial();
    VF_CHECK(vf::MISC, p->intact(), "memory outside the object was written");
    VF_CHECK(vf::MISC, !g.bad_target, "the initialiser was given an object that does not exist");
    if (fired)
    {
        vf::hit("construction failed");
        VF_CHECK(vf::MISC, e.kind == E_CUSTOM && e.code == W().code, "construction failed with code %d but the error object holds %s %d", W().code, ekind(e.kind), e.code);
        VF_CHECK(vf::MISC, g.live == 0 && W().live == tr, "construction failed but %d objects (%ld parts) are left", g.live, W().live - tr);
        VF_CHECK(vf::MISC, g.made == g.died && g.made <= 1, "construction failed: %d objects made, %d destroyed", g.made, g.died);
    }
    else
    {
        VF_CHECK(vf::MISC, e.kind == E_NONE, "construction succeeded but the error object holds %s", ekind(e.kind));
        VF_CHECK(vf::MISC, g.made == 1 && g.live == 1 && g.died == 0 && g.at == p->ptr(), "construction made %d objects and destroyed %d, %d are alive", g.made, g.died, g.live);
        bool ok = g.args.size() == want.size();
        for (size_t i = 0; ok && i < want.size(); ++i) ok = same(g.args[i], want[i]);
        VF_CHECK(vf::MISC, ok, "construction from %s passed %s on (or copies of the arguments)", show_seen(want).c_str(), show_seen(g.args).c_str());
        VF_CHECK(vf::MISC, way == 1 ? g.inits == 0 : g.inits == 1, "%d two-phase initialisations, expected the %s", g.inits, way == 1 ? "constructor only" : "initialiser once");
        if (way == 2) { vf::hit("two-phase initialisation used"); VF_CHECK(vf::MISC, g.defaults == 1, "two-phase initialisation without default construction"); }
        p->ptr()->~T();
        VF_CHECK(vf::MISC, g.live == 0 && W().live == tr, "the object did not go away");
    }
    delete p;
}

template <class T, class Err, class A> static void do_assign(vf::Src& s, const std::vector<Seen>& want, A&& arg, bool may_fail)
{
    Place<T>* p = new Place<T>;
    g.reset();
    W().disarm();
    ::new (static_cast<void*>(p->ptr())) T();
    long tr = W().live;
    Err err;
    long arm = may_fail ? (long)s.draw(3) - 1 : -1;
    g.reset(); g.live = 1;
    W().clear_fired();
    W().code = 1 + (int)s.draw(900);
    W().elem_fail_in = arm;
    VF_NOTE("assign from %s%s", show_seen(want).c_str(), arm >= 0 ? " with a failure armed" : "");
    nestl::class_operations::assign(err, *p->ptr(), std::forward<A>(arg));
    bool fired = W().elem_fired;
    W().disarm();
    EInfo e = einfo(err);
    vf::nontrivial();
    VF_CHECK(vf::MISC, p->intact() && !g.bad_target, "assignment went to something else than the target");
    VF_CHECK(vf::MISC, g.assigns == 1 && g.made == 0 && g.died == 0 && g.live == 1 && W().live == tr, "assignment: %d assignments, %d objects made, %d destroyed", g.assigns, g.made, g.died);
    VF_CHECK(vf::MISC, g.args.size() == 1 && same(g.args[0], want[0]), "assignment from %s passed %s on", show_seen(want).c_str(), show_seen(g.args).c_str());
    if (fired) { vf::hit("assignment failed"); VF_CHECK(vf::MISC, e.kind == E_CUSTOM && e.code == W().code, "assignment failed with code %d but the error object holds %s %d", W().code, ekind(e.kind), e.code); }
    else VF_CHECK(vf::MISC, e.kind == E_NONE, "assignment succeeded but the error object holds %s", ekind(e.kind));
    p->ptr()->~T();
    delete p;
}

template <class T, class Err> struct Construct
{
    template <class... A> void operator()(vf::Src& s, const std::vector<Seen>& want, A&&... args) { do_construct<T, Err>(s, want, std::forward<A>(args)...); }
};
template <class T, class Err, int Max> static void ctor(vf::Src& s)
{
    W().reset();
    std::vector<Seen> want;
    Construct<T, Err> f;
    Gen<Construct<T, Err>, Max>::go(f, s, want);
}
template <class T, class Err, int F> static void asgn(vf::Src& s)
{
    W().reset();
    std::vector<Seen> want(1);
    int v = s.value();
    int k = (int)s.draw(NKINDS);
    want[0].kind = k; want[0].val = v;
#define ASG(K) case K: { Arg<K> a(v); want[0].addr = a.addr(); do_assign<T, Err>(s, want, a.get(), F != 0); break; }
    switch (k) { ASG(INT_L) ASG(INT_CL) ASG(INT_R) ASG(TOK_L) ASG(TOK_CL) ASG(TOK_R) default: break; }
#undef ASG
}

// ordinary types: plain values, aggregates of them, copying and moving objects
struct Pod { int a; long b; char c[5]; };
template <class Err> static void plain(vf::Src& s)
{
    W().reset();
    {
        unsigned op = s.draw(12);
        Err err;
        VF_NOTE("plain operation %u", op);
        vf::nontrivial();
        int v = s.value();
        switch (op)
        {
        case 0: { Place<int> p; nestl::class_operations::construct(err, p.ptr()); VF_CHECK(vf::MISC, *p.ptr() == 0 && p.intact(), "an int constructed without arguments is %d", *p.ptr()); break; }
        case 1: { Place<int> p; nestl::class_operations::construct(err, p.ptr(), v); VF_CHECK(vf::MISC, *p.ptr() == v && p.intact(), "an int constructed from %d is %d", v, *p.ptr()); break; }
        case 2: { Place<Pod> p; nestl::class_operations::construct(err, p.ptr()); Pod& x = *p.ptr(); VF_CHECK(vf::MISC, x.a == 0 && x.b == 0 && x.c[0] == 0 && x.c[4] == 0 && p.intact(), "an aggregate constructed without arguments is not zero"); break; }
        case 3: { Place<Pod> p; Pod q = { v, (long)v * 3, { 1, 2, 3, 4, (char)v } }; nestl::class_operations::construct(err, p.ptr(), q); Pod& x = *p.ptr(); VF_CHECK(vf::MISC, x.a == q.a && x.b == q.b && x.c[4] == q.c[4] && p.intact(), "an aggregate was copied wrongly"); break; }
        case 4: { Place<const void*> p; const void* q = &err; nestl::class_operations::construct(err, p.ptr(), q); VF_CHECK(vf::MISC, *p.ptr() == q, "a pointer was copied wrongly"); break; }
        case 5: { int d = 1; nestl::class_operations::assign(err, d, v); VF_CHECK(vf::MISC, d == v, "an int assigned from %d is %d", v, d); break; }
        case 6: { Pod d = { 0, 0, { 0, 0, 0, 0, 0 } }; const Pod q = { v, 4, { 1, 2, 3, 4, 5 } }; nestl::class_operations::assign(err, d, q); VF_CHECK(vf::MISC, d.a == v && d.c[4] == 5, "an aggregate was assigned wrongly"); break; }
        case 7: { Place<Tr> p; Tr q(v, 1); uint64_t c = W().copies; nestl::class_operations::construct(err, p.ptr(), static_cast<const Tr&>(q)); VF_CHECK(vf::MISC, W().copies == c + 1 && W().moves == 0 && ET<Tr>::get(*p.ptr()) == mk(v, 1) && ET<Tr>::get(q) == mk(v, 1), "copy construction of an object is wrong"); p.ptr()->~Tr(); break; }
        case 8: { Place<Tr> p; Tr q(v, 1); nestl::class_operations::construct(err, p.ptr(), std::move(q)); VF_CHECK(vf::MISC, W().copies == 0 && W().moves == 1 && ET<Tr>::get(*p.ptr()) == mk(v, 1) && q.key == K_MOVED, "a temporary was not moved once: %lu copies, %lu moves", (unsigned long)W().copies, (unsigned long)W().moves); p.ptr()->~Tr(); break; }
        case 9: { Tr d(1, 1), q(v, 2); nestl::class_operations::assign(err, d, std::move(q)); VF_CHECK(vf::MISC, W().assigns == 1 && W().copies + W().moves == 0 && ET<Tr>::get(d) == mk(v, 2) && q.key == K_MOVED, "move assignment of an object is wrong"); break; }
        case 10: { Tr d(1, 1), q(v, 2); nestl::class_operations::assign(err, d, q); VF_CHECK(vf::MISC, W().assigns == 1 && W().copies + W().moves == 0 && ET<Tr>::get(d) == mk(v, 2) && ET<Tr>::get(q) == mk(v, 2), "copy assignment of an object is wrong"); break; }
        default:
        {
            // nested containers: copied by two-phase initialisation, all or nothing
            Place<NV> p;
            typename ET<NV>::Holder h(mk(v, 5));
            long k = (long)s.draw(4) - 1;
            vf::g_nt.fail_in = k;
            nestl::class_operations::construct(err, p.ptr(), static_cast<const NV&>(h.ref()));
            bool fired = vf::g_nt.fired;
            W().disarm();
            VF_CHECK(vf::MISC, ET<NV>::get(h.ref()) == mk(v, 5), "copying a nested container changed the source");
            if (fired) { VF_CHECK(vf::MISC, einfo(err).kind == E_BADALLOC, "a failed copy of a nested container reported %s", ekind(einfo(err).kind)); err = Err(); }
            else { VF_CHECK(vf::MISC, !err && ET<NV>::get(*p.ptr()) == mk(v, 5), "a nested container was copied wrongly"); p.ptr()->~NV(); }
            break;
        }
        }
        VF_CHECK(vf::MISC, !err, "a plain operation reported an error");
    }
    VF_CHECK(vf::MISC, W().live == 0 && W().blocks.size() == 0, "%ld objects and %zu blocks are left", W().live, W().blocks.size());
}

#if PART == 0
VF_SCENARIO_T(any_D, 3, ctor<Any, DErr, 3>);
VF_SCENARIO_T(plain_D, 1, plain<DErr>);
VF_SCENARIO_T(many_any_U, 1, ctor<Any, UErr, MANY>);
#elif PART == 1
VF_SCENARIO_T(phase_D, 3, ctor<Phase, DErr, 2>);
VF_SCENARIO_T(phase_U, 2, ctor<Phase, UErr, 2>);
VF_SCENARIO_T(plain_U, 1, plain<UErr>);
VF_SCENARIO_T(many_phase_D, 1, ctor<Phase, DErr, MANY>);
#elif PART == 2
VF_SCENARIO_T(mixed_D, 3, ctor<Mixed, DErr, 2>);
VF_SCENARIO_T(assign_any_D, 1, asgn<Any, DErr, 0>);
VF_SCENARIO_T(assign_any_U, 1, asgn<Any, UErr, 0>);
#else
#if VF_EXC
VF_SCENARIO_T(many_throwing_D, 1, ctor<AnyT, DErr, MANY>);
VF_SCENARIO_T(any_throwing_D, 3, ctor<AnyT, DErr, 2>);
VF_SCENARIO_T(phase_throwing_D, 3, ctor<PhaseT, DErr, 2>);
VF_SCENARIO_T(phase_throwing_U, 2, ctor<PhaseT, UErr, 1>);
VF_SCENARIO_T(assign_throwing_D, 2, asgn<AnyT, DErr, 1>);
VF_SCENARIO_T(assign_throwing_U, 1, asgn<AnyT, UErr, 1>);
#else
VF_SCENARIO_T(mixed_U, 1, ctor<Mixed, UErr, 2>);
#endif
#endif
}
