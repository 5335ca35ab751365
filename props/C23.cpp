// PARTS 8
// Emplacing hands the arguments on exactly.
#include "args.hpp"

#if PART == 0
VF_PROPERTY_CFG(vf::MISC, 0, 2, false)
#endif
namespace VM
{
// elements of a vector: also copyable and movable, the copy keeps the identity
struct VAny : Obj0
{
    VAny() noexcept { ++g.defaults; birth(); }
    template <class H, class... R, class = typename std::enable_if<!std::is_base_of<Obj0, typename std::decay<H>::type>::value>::type>
    explicit VAny(H&& h, R&&... r) noexcept { rec_all(g.args, std::forward<H>(h), std::forward<R>(r)...); birth(); }
    VAny(const VAny& o) noexcept : Obj0() { ++g.copies; born_of(o); }
    VAny(VAny&& o) noexcept : Obj0() { ++g.moves; born_of(o); o.id = -o.id; }
    VAny& operator=(const VAny& o) noexcept { ++g.copies; id = o.id; return *this; }
    VAny& operator=(VAny&& o) noexcept { ++g.moves; id = o.id; o.id = -o.id; return *this; }
    ~VAny() { death(); }
};
// default constructor, copy, move; everything else by two-phase initialisation
struct VPhase : Obj0
{
    VPhase() noexcept { ++g.defaults; birth(); }
    VPhase(const VPhase& o) noexcept : Obj0() { ++g.copies; born_of(o); }
    VPhase(VPhase&& o) noexcept : Obj0() { ++g.moves; born_of(o); o.id = -o.id; }
    VPhase& operator=(const VPhase& o) noexcept { ++g.copies; id = o.id; return *this; }
    VPhase& operator=(VPhase&& o) noexcept { ++g.moves; id = o.id; o.id = -o.id; return *this; }
    ~VPhase() { death(); }
};
#if VF_EXC
struct VAnyT : Obj0
{
    Tr part;
    VAnyT() { if (W().tick()) throw Boom(W().code); ++g.defaults; birth(); }
    template <class H, class... R, class = typename std::enable_if<!std::is_base_of<Obj0, typename std::decay<H>::type>::value>::type>
    explicit VAnyT(H&& h, R&&... r) { rec_all(g.args, std::forward<H>(h), std::forward<R>(r)...); if (W().tick()) throw Boom(W().code); birth(); }
    VAnyT(const VAnyT& o) : Obj0(), part(o.part) { if (W().tick()) throw Boom(W().code); ++g.copies; born_of(o); }
    VAnyT(VAnyT&& o) : Obj0() { if (W().tick()) throw Boom(W().code); ++g.moves; born_of(o); o.id = -o.id; }
    VAnyT& operator=(const VAnyT& o) { if (W().tick()) throw Boom(W().code); ++g.copies; id = o.id; return *this; }
    VAnyT& operator=(VAnyT&& o) { if (W().tick()) throw Boom(W().code); ++g.moves; id = o.id; o.id = -o.id; return *this; }
    ~VAnyT() { death(); }
};
#endif
} // namespace VM
namespace nestl
{
template <> struct two_phase_initializator<VM::VPhase> : VM::Init2 {};
}
namespace VM
{
template <> struct Way<VAny> { static int of(size_t, const std::vector<Seen>&) { return 1; } };
template <> struct Way<VPhase> { static int of(size_t n, const std::vector<Seen>&) { return n == 0 ? 1 : 2; } };
#if VF_EXC
template <> struct Way<VAnyT> { static int of(size_t, const std::vector<Seen>&) { return 1; } };
#endif

// what must have happened when an object was built from the arguments; in_place: where it must be
static void check_built(const std::vector<Seen>& want, int way, const char* what)
{
    VF_CHECK(vf::MISC, !g.bad_target, "%s: the initialiser was given an object that does not exist", what);
    VF_CHECK(vf::MISC, g.made == 1, "%s: %d objects were built from the arguments", what, g.made);
    bool ok = g.args.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); ++i) ok = same(g.args[i], want[i]);
    VF_CHECK(vf::MISC, ok, "%s from %s passed %s on (or copies of the arguments)", what, show_seen(want).c_str(), show_seen(g.args).c_str());
    VF_CHECK(vf::MISC, way == 1 ? g.inits == 0 : (g.inits == 1 && g.defaults == 1), "%s: %d two-phase initialisations and %d default constructions, expected the %s", what, g.inits, g.defaults, way == 1 ? "constructor only" : "initialiser once");
    if (way == 2) vf::hit("two-phase initialisation used");
}

// ---------------------------------------------------------------- vectors
template <class V, class Err> struct VecEmplace
{
    typedef typename V::value_type T;
    V& c;
    std::vector<int> ids;
    explicit VecEmplace(V& v) : c(v) {}
    void compare(const char* what)
    {
        VF_CHECK(vf::MISC, c.size() == ids.size(), "%s: %zu elements, expected %zu", what, c.size(), ids.size());
        for (size_t i = 0; i < ids.size(); ++i)
            VF_CHECK(vf::MISC, c[i].magic == 0x600dcafe && c[i].id == ids[i], "%s: element %zu is object %d, expected %d", what, i, c[i].id, ids[i]);
        VF_CHECK(vf::MISC, g.live == (int)ids.size(), "%s: %d objects alive, %zu elements", what, g.live, ids.size());
    }
    template <class... A> void operator()(vf::Src& s, const std::vector<Seen>& want, A&&... args)
    {
        Err err;
        W().clear_fired();
        W().code = 1 + (int)s.draw(900);
        unsigned f = s.draw(8);
        if (f == 6) W().elem_fail_in = s.draw(6); else if (f == 7) vf::g_nt.fail_in = 0;
        g.forget();
        bool room = c.size() < c.capacity();
        VF_NOTE("emplace_back %s, size %zu capacity %zu%s", show_seen(want).c_str(), c.size(), c.capacity(), f == 6 ? ", an element may fail" : f == 7 ? ", allocation fails" : "");
        c.emplace_back_nothrow(err, std::forward<A>(args)...);
        bool elem = W().elem_fired, fired = W().fired();
        W().disarm();
        EInfo e = einfo(err);
        vf::nontrivial();
        if (fired)
        {
            vf::hit("emplace_back failed");
            VF_CHECK(vf::MISC, elem ? e.kind == E_CUSTOM && e.code == W().code : e.kind == E_BADALLOC, "a failing emplace_back left the error object with %s %d", ekind(e.kind), e.code);
            VF_CHECK(vf::MISC, g.made <= 1, "failed emplace_back: %d objects were built from the arguments", g.made);
            compare("failed emplace_back");
            return;
        }
        VF_CHECK(vf::MISC, e.kind == E_NONE, "emplace_back succeeded but the error object holds %s", ekind(e.kind));
        check_built(want, Way<T>::of(want.size(), want), "emplace_back");
        if (room)
        {
            vf::hit("emplaced within capacity");
            VF_CHECK(vf::MISC, g.copies == 0 && g.moves == 0 && g.at == c.data() + c.size() - 1, "emplace_back within the capacity made %d copies and %d moves", g.copies, g.moves);
        }
        ids.push_back(g.last_id);
        compare("emplace_back");
    }
};
template <class T, class A, class Err, int Max> static void vec(vf::Src& s)
{
    W().reset();
    g.reset();
    {
        typedef nestl::vector<T, A> V;
        V c(AllocInfo<A>::make(0));
        if (s.draw(2))
        {
            Err err;
            c.reserve_nothrow(err, s.draw(12));
        }
        typedef VecEmplace<V, Err> F;
        F f(c);
        unsigned n = 1 + s.draw(7);
        for (unsigned i = 0; i < n; ++i)
        {
            std::vector<Seen> want;
            Gen<F, Max>::go(f, s, want);
            if (s.draw(8) == 7) { VF_NOTE("clear"); c.clear(); f.ids.clear(); f.compare("clear"); }
        }
    }
    VF_CHECK(vf::MISC, g.live == 0 && W().live == 0, "%d objects are left", g.live);
    VF_CHECK(vf::MISC, W().blocks.size() == 0 && vf::g_nt.live == 0, "blocks are left");
}

// ---------------------------------------------------------------- lists
template <class L, class Err> struct ListEmplace
{
    typedef typename L::value_type T;
    typedef typename L::iterator It;
    L& c;
    std::vector<int> ids;
    std::vector<const void*> at;
    explicit ListEmplace(L& l) : c(l) {}
    void compare(const char* what)
    {
        size_t i = 0;
        VF_CHECK(vf::MISC, (size_t)c.size() == ids.size(), "%s: %zu elements, expected %zu", what, (size_t)c.size(), ids.size());
        for (It it = c.begin(); it != c.end() && i < ids.size(); ++it, ++i)
        {
            VF_CHECK(vf::MISC, &*it == at[i], "%s: element %zu is not where it was built", what, i);
            VF_CHECK(vf::MISC, it->magic == 0x600dcafe && it->id == ids[i], "%s: element %zu is object %d, expected %d", what, i, it->id, ids[i]);
        }
        VF_CHECK(vf::MISC, i == ids.size() && g.live == (int)ids.size(), "%s: %d objects alive, %zu elements", what, g.live, ids.size());
    }
    template <class... A> void operator()(vf::Src& s, const std::vector<Seen>& want, A&&... args)
    {
        Err err;
        W().clear_fired();
        W().code = 1 + (int)s.draw(900);
        unsigned op = s.draw(4);
        size_t pos = op == 0 ? ids.size() : op == 1 ? 0 : s.draw((uint32_t)ids.size() + 1);
        It p = c.begin();
        for (size_t i = 0; i < pos; ++i) ++p;
        unsigned f = s.draw(8);
        if (f == 6) W().elem_fail_in = s.draw(2); else if (f == 7) vf::g_nt.fail_in = 0;
        g.forget();
        static const char* const nm[] = { "emplace_back", "emplace_front", "emplace", "emplace at a const position" };
        VF_NOTE("%s %s at %zu of %zu%s", nm[op], show_seen(want).c_str(), pos, ids.size(), f == 6 ? ", the element may fail" : f == 7 ? ", allocation fails" : "");
        It r = c.end();
        typename L::const_iterator cp = p;
        if (op == 0) c.emplace_back_nothrow(err, std::forward<A>(args)...);
        else if (op == 1) c.emplace_front_nothrow(err, std::forward<A>(args)...);
        else if (op == 2) r = c.emplace_nothrow(err, p, std::forward<A>(args)...);
        else r = c.emplace_nothrow(err, cp, std::forward<A>(args)...);
        bool elem = W().elem_fired, fired = W().fired();
        W().disarm();
        EInfo e = einfo(err);
        vf::nontrivial();
        if (fired)
        {
            vf::hit("emplace failed");
            VF_CHECK(vf::MISC, elem ? e.kind == E_CUSTOM && e.code == W().code : e.kind == E_BADALLOC, "a failing %s left the error object with %s %d", nm[op], ekind(e.kind), e.code);
            VF_CHECK(vf::MISC, g.made <= 1, "failed %s: %d objects were built from the arguments", nm[op], g.made);
            compare("failed emplace");
            return;
        }
        VF_CHECK(vf::MISC, e.kind == E_NONE, "%s succeeded but the error object holds %s", nm[op], ekind(e.kind));
        check_built(want, Way<T>::of(want.size(), want), nm[op]);
        ids.insert(ids.begin() + pos, g.last_id);
        at.insert(at.begin() + pos, g.at);
        if (op >= 2) VF_CHECK(vf::MISC, r != c.end() && &*r == g.at, "%s does not return the position of the new element", nm[op]);
        compare(nm[op]);
    }
};
template <class T, class A, class Err, int Max> static void lst(vf::Src& s)
{
    W().reset();
    g.reset();
    {
        typedef nestl::list<T, A> L;
        L c(AllocInfo<A>::make(1));
        typedef ListEmplace<L, Err> F;
        F f(c);
        unsigned n = 1 + s.draw(7);
        for (unsigned i = 0; i < n; ++i)
        {
            std::vector<Seen> want;
            Gen<F, Max>::go(f, s, want);
            if (s.draw(8) == 7) { VF_NOTE("clear"); c.clear(); f.ids.clear(); f.at.clear(); f.compare("clear"); }
        }
    }
    VF_CHECK(vf::MISC, g.live == 0 && W().live == 0, "%d objects are left", g.live);
    VF_CHECK(vf::MISC, W().blocks.size() == 0 && vf::g_nt.live == 0, "blocks are left");
}

// ---------------------------------------------------------------- shared pointers
template <class T, class A, class Err> struct Share
{
    template <class... X> void operator()(vf::Src& s, const std::vector<Seen>& want, X&&... args)
    {
        Err err;
        A alloc(AllocInfo<A>::make(2));
        W().clear_fired();
        W().code = 1 + (int)s.draw(900);
        unsigned f = s.draw(8);
        if (f == 6) W().elem_fail_in = s.draw(2); else if (f == 7) vf::g_nt.fail_in = 0;
        bool own = s.draw(2) != 0;
        g.forget();
        const char* nm = own ? "make_shared_a" : "make_shared";
        VF_NOTE("%s %s%s", nm, show_seen(want).c_str(), f == 6 ? ", the object may fail" : f == 7 ? ", allocation fails" : "");
        {
            nestl::shared_ptr<T> p(own ? nestl::make_shared_a_nothrow<T>(err, alloc, std::forward<X>(args)...) : nestl::make_shared_nothrow<T>(err, std::forward<X>(args)...));
            bool elem = W().elem_fired, fired = W().fired();
            W().disarm();
            EInfo e = einfo(err);
            vf::nontrivial();
            if (fired)
            {
                vf::hit("make_shared failed");
                VF_CHECK(vf::MISC, elem ? e.kind == E_CUSTOM && e.code == W().code : e.kind == E_BADALLOC, "a failing %s left the error object with %s %d", nm, ekind(e.kind), e.code);
                VF_CHECK(vf::MISC, !p && p.get() == 0 && g.live == 0 && g.made <= 1, "a failing %s: %d objects built, %d are left", nm, g.made, g.live);
            }
            else
            {
                VF_CHECK(vf::MISC, e.kind == E_NONE, "%s succeeded but the error object holds %s", nm, ekind(e.kind));
                check_built(want, Way<T>::of(want.size(), want), nm);
                VF_CHECK(vf::MISC, p && p.get() == g.at && g.live == 1 && p->magic == 0x600dcafe && p.use_count() == 1, "%s does not point to the object it built", nm);
            }
        }
        VF_CHECK(vf::MISC, g.live == 0 && W().live == 0, "%d objects are left", g.live);
        VF_CHECK(vf::MISC, W().blocks.size() == 0 && vf::g_nt.live == 0, "blocks are left");
    }
};
template <class T, class A, class Err, int Max> static void ptr(vf::Src& s)
{
    W().reset();
    g.reset();
    typedef Share<T, A, Err> F;
    F f;
    std::vector<Seen> want;
    Gen<F, Max>::go(f, s, want);
}

#if PART == 0
VF_SCENARIO_T(vec_any_T, 3, vec<VAny, TA<VAny>, DErr, 2>);
VF_SCENARIO_T(vec_any_N, 2, vec<VAny, nestl::allocator<VAny>, UErr, 2>);
#elif PART == 1
VF_SCENARIO_T(vec_phase_T, 2, vec<VPhase, TA<VPhase>, UErr, 2>);
VF_SCENARIO_T(vec_phase_M, 2, vec<VPhase, MA<VPhase>, DErr, 2>);
#elif PART == 2
VF_SCENARIO_T(list_any_T, 3, lst<Any, TA<Any>, DErr, 2>);
VF_SCENARIO_T(list_mixed_N, 2, lst<Mixed, nestl::allocator<Mixed>, UErr, 2>);
#elif PART == 3
VF_SCENARIO_T(list_phase_T, 3, lst<Phase, TA<Phase>, UErr, 2>);
#elif PART == 4
VF_SCENARIO_T(ptr_any_T, 3, ptr<Any, TA<Any>, DErr, 3>);
#elif PART == 5
VF_SCENARIO_T(ptr_phase_T, 2, ptr<Phase, TA<Phase>, UErr, 2>);
VF_SCENARIO_T(ptr_mixed_T, 2, ptr<Mixed, TA<Mixed>, DErr, 2>);
#elif PART == 6
VF_SCENARIO_T(many_vec, 1, vec<VAny, TA<VAny>, UErr, MANY>);
VF_SCENARIO_T(many_list, 1, lst<Any, TA<Any>, UErr, MANY>);
VF_SCENARIO_T(many_list_phase, 1, lst<Phase, TA<Phase>, DErr, MANY>);
VF_SCENARIO_T(many_ptr, 1, ptr<Any, TA<Any>, DErr, MANY>);
VF_SCENARIO_T(many_ptr_phase, 1, ptr<Phase, TA<Phase>, UErr, MANY>);
#else
#if VF_EXC
VF_SCENARIO_T(vec_throwing_T, 3, vec<VAnyT, TA<VAnyT>, DErr, 1>);
VF_SCENARIO_T(list_throwing_T, 2, lst<AnyT, TA<AnyT>, DErr, 2>);
VF_SCENARIO_T(list_phase_throwing_T, 2, lst<PhaseT, TA<PhaseT>, UErr, 1>);
VF_SCENARIO_T(ptr_throwing_T, 2, ptr<AnyT, TA<AnyT>, UErr, 2>);
VF_SCENARIO_T(ptr_phase_throwing_T, 2, ptr<PhaseT, TA<PhaseT>, DErr, 1>);
#else
VF_SCENARIO_T(list_any_N, 1, lst<Any, nestl::allocator<Any>, UErr, 1>);
#endif
#endif
}
