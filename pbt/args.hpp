// Arguments of every value category, objects that record which of them reach their constructor or
// initialiser, and a generator of argument lists.
#ifndef VF_ARGS_HPP
#define VF_ARGS_HPP

#include "machine.hpp"

namespace VM
{

// ---------------------------------------------------------------- arguments
enum Kind { INT_L, INT_CL, INT_R, TOK_L, TOK_CL, TOK_R, NKINDS };
static const char* const kname[] = { "int&", "const int&", "int&&", "token&", "const token&", "token&&" };
struct Tok            // the library must hand it on without copying or moving it
{
    int v;
    explicit Tok(int x) : v(x) {}
    Tok(const Tok&) = delete;
    Tok& operator=(const Tok&) = delete;
};
template <int K> struct Arg;
template <> struct Arg<INT_L> { int x; explicit Arg(int v) : x(v) {} typedef int& type; type get() { return x; } const void* addr() { return &x; } };
template <> struct Arg<INT_CL> { int x; explicit Arg(int v) : x(v) {} typedef const int& type; type get() { return x; } const void* addr() { return &x; } };
template <> struct Arg<INT_R> { int x; explicit Arg(int v) : x(v) {} typedef int&& type; type get() { return static_cast<int&&>(x); } const void* addr() { return &x; } };
template <> struct Arg<TOK_L> { Tok x; explicit Arg(int v) : x(v) {} typedef Tok& type; type get() { return x; } const void* addr() { return &x; } };
template <> struct Arg<TOK_CL> { Tok x; explicit Arg(int v) : x(v) {} typedef const Tok& type; type get() { return x; } const void* addr() { return &x; } };
template <> struct Arg<TOK_R> { Tok x; explicit Arg(int v) : x(v) {} typedef Tok&& type; type get() { return static_cast<Tok&&>(x); } const void* addr() { return &x; } };

struct Seen { int kind; int val; const void* addr; };
inline bool same(const Seen& a, const Seen& b) { return a.kind == b.kind && a.val == b.val && a.addr == b.addr; }
inline std::string show_seen(const std::vector<Seen>& v)
{
    std::string r = "(";
    for (size_t i = 0; i < v.size(); ++i) { char b[80]; snprintf(b, sizeof b, "%s%s %d", i ? ", " : "", kname[v[i].kind], v[i].val); r += b; }
    return r + ")";
}
inline Seen rec(int& a) { Seen s = { INT_L, a, &a }; return s; }
inline Seen rec(const int& a) { Seen s = { INT_CL, a, &a }; return s; }
inline Seen rec(int&& a) { Seen s = { INT_R, a, &a }; return s; }
inline Seen rec(Tok& a) { Seen s = { TOK_L, a.v, &a }; return s; }
inline Seen rec(const Tok& a) { Seen s = { TOK_CL, a.v, &a }; return s; }
inline Seen rec(Tok&& a) { Seen s = { TOK_R, a.v, &a }; return s; }
inline void rec_all(std::vector<Seen>&) {}
template <class H, class... R> void rec_all(std::vector<Seen>& out, H&& h, R&&... r) { out.push_back(rec(std::forward<H>(h))); rec_all(out, std::forward<R>(r)...); }

// ---------------------------------------------------------------- what happened
struct Log
{
    int live, made, defaults, inits, assigns, died, copies, moves;
    int last_id;
    const void* at;                    // where the last object was made
    std::vector<Seen> args;            // arguments of the constructor, initialiser or assignment
    bool bad_target;
    void reset() { live = made = defaults = inits = assigns = died = copies = moves = last_id = 0; at = 0; args.clear(); bad_target = false; }
    void forget() { int l = live, i = last_id; reset(); live = l; last_id = i; }

};
inline Log& the_log() { static Log l; return l; }
#define g the_log()

struct Obj0
{
    volatile unsigned magic;
    int id;
    void birth() { magic = 0x600dcafe; id = ++g.last_id; ++g.live; ++g.made; g.at = this; }
    void born_of(const Obj0& o) { if (o.magic != 0x600dcafe) VF_FAIL("an object was copied or moved that does not exist"); magic = 0x600dcafe; id = o.id; ++g.live; }
    void death() { if (magic != 0x600dcafe) VF_FAIL("an object was destroyed that does not exist"); magic = 0xdead; --g.live; ++g.died; }
};
// nothrow constructor for any arguments
struct Any : Obj0
{
    template <class... A> explicit Any(A&&... a) noexcept { rec_all(g.args, std::forward<A>(a)...); birth(); }
    ~Any() { death(); }
    template <class X> Any& operator=(X&& x) noexcept { ++g.assigns; if (magic != 0x600dcafe) g.bad_target = true; rec_all(g.args, std::forward<X>(x)); return *this; }
};
// only a default constructor, everything else by two-phase initialisation
struct Phase : Obj0
{
    Phase() noexcept { ++g.defaults; birth(); }
    Phase(const Phase&) = delete;
    Phase& operator=(const Phase&) = delete;
    ~Phase() { death(); }
};
// a constructor for ints, two-phase initialisation for the rest
struct Mixed : Obj0
{
    Mixed() noexcept { ++g.defaults; birth(); }
    template <class I, class = typename std::enable_if<std::is_same<typename std::decay<I>::type, int>::value>::type>
    explicit Mixed(I&& i) noexcept { rec_all(g.args, std::forward<I>(i)); birth(); }
    Mixed(const Mixed&) = delete;
    Mixed& operator=(const Mixed&) = delete;
    ~Mixed() { death(); }
};
#if VF_EXC
struct AnyT : Obj0
{
    Tr part;                           // must be cleaned up when the constructor throws
    template <class... A> explicit AnyT(A&&... a) { rec_all(g.args, std::forward<A>(a)...); if (W().tick()) throw Boom(W().code); birth(); }
    ~AnyT() { death(); }
    template <class X> AnyT& operator=(X&& x) { ++g.assigns; if (magic != 0x600dcafe) g.bad_target = true; rec_all(g.args, std::forward<X>(x)); if (W().tick()) throw Boom(W().code); return *this; }
};
struct PhaseT : Obj0                   // default constructor may throw
{
    PhaseT() { if (W().tick()) throw Boom(W().code); ++g.defaults; birth(); }
    PhaseT(const PhaseT&) = delete;
    PhaseT& operator=(const PhaseT&) = delete;
    ~PhaseT() { death(); }
};
#endif

struct Init2
{
    template <class Err, class T, class... A> static void init(Err& err, T& t, A&&... a) NESTL_NOEXCEPT_SPEC
    {
        ++g.inits;
        if (t.magic != 0x600dcafe) g.bad_target = true;
        rec_all(g.args, std::forward<A>(a)...);
        if (W().tick()) set_custom(err, W().code);
    }
};
} // namespace VM
namespace nestl
{
template <> struct two_phase_initializator<VM::Phase> : VM::Init2 {};
template <> struct two_phase_initializator<VM::Mixed> : VM::Init2 {};
template <> struct two_phase_initializator<VM::Any> : VM::Init2 {};          // must not be used: the constructor matches
#if VF_EXC
template <> struct two_phase_initializator<VM::PhaseT> : VM::Init2 {};
template <> struct two_phase_initializator<VM::AnyT> : VM::Init2 {};
#endif
}
namespace VM
{
// ways a type can be built: 1 constructor, 2 default constructor and initialiser
template <class T> struct Way { template <class... K> static int of(size_t n, const std::vector<Seen>&) { return n == 0 ? 1 : 2; } enum { def_fails = 0, ctor_fails = 0 }; };
template <> struct Way<Any> { static int of(size_t, const std::vector<Seen>&) { return 1; } enum { def_fails = 0, ctor_fails = 0 }; };
template <> struct Way<Phase> { static int of(size_t n, const std::vector<Seen>&) { return n == 0 ? 1 : 2; } enum { def_fails = 0, ctor_fails = 0 }; };
template <> struct Way<Mixed> { static int of(size_t n, const std::vector<Seen>& a) { return n == 0 || (n == 1 && a[0].kind <= INT_R) ? 1 : 2; } enum { def_fails = 0, ctor_fails = 0 }; };
#if VF_EXC
template <> struct Way<AnyT> { static int of(size_t, const std::vector<Seen>&) { return 1; } enum { def_fails = 0, ctor_fails = 1 }; };
template <> struct Way<PhaseT> { static int of(size_t n, const std::vector<Seen>&) { return n == 0 ? 1 : 2; } enum { def_fails = 1, ctor_fails = 1 }; };
#endif

// turns a run-time list of argument kinds into a call of f(s, want, arguments...)
template <class F, int Left, class... A> struct Gen
{
    static void go(F& f, vf::Src& s, std::vector<Seen>& want, A&&... args)
    {
        if (s.draw(3) == 0) { f(s, want, std::forward<A>(args)...); return; }
        int v = s.value();
        switch (s.draw(NKINDS))
        {
        case INT_L: { Arg<INT_L> a(v); step<INT_L>(f, s, want, a, std::forward<A>(args)...); break; }
        case INT_CL: { Arg<INT_CL> a(v); step<INT_CL>(f, s, want, a, std::forward<A>(args)...); break; }
        case INT_R: { Arg<INT_R> a(v); step<INT_R>(f, s, want, a, std::forward<A>(args)...); break; }
        case TOK_L: { Arg<TOK_L> a(v); step<TOK_L>(f, s, want, a, std::forward<A>(args)...); break; }
        case TOK_CL: { Arg<TOK_CL> a(v); step<TOK_CL>(f, s, want, a, std::forward<A>(args)...); break; }
        default: { Arg<TOK_R> a(v); step<TOK_R>(f, s, want, a, std::forward<A>(args)...); break; }
        }
    }
    template <int K> static void step(F& f, vf::Src& s, std::vector<Seen>& want, Arg<K>& a, A&&... args)
    {
        Seen x = { K, 0, a.addr() };
        x.val = K <= INT_R ? *static_cast<const int*>(a.addr()) : static_cast<const Tok*>(a.addr())->v;
        want.push_back(x);
        Gen<F, Left - 1, A..., typename Arg<K>::type>::go(f, s, want, std::forward<A>(args)..., a.get());
    }
};
template <class F, class... A> struct Gen<F, 0, A...>
{
    static void go(F& f, vf::Src& s, std::vector<Seen>& want, A&&... args) { f(s, want, std::forward<A>(args)...); }
};
// four to eight arguments, in fixed orders of kinds
enum { MANY = 99 };
template <class F> struct Gen<F, MANY>
{
    template <int K> static Seen seen(Arg<K>& a)
    {
        Seen x = { K, 0, a.addr() };
        x.val = K <= INT_R ? *static_cast<const int*>(a.addr()) : static_cast<const Tok*>(a.addr())->v;
        return x;
    }
    template <int... K> static void call(F& f, vf::Src& s, std::vector<Seen>& want) { call2(f, s, want, Arg<K>(s.value())...); }
    template <int... K> static void call2(F& f, vf::Src& s, std::vector<Seen>& want, Arg<K>&&... a)
    {
        const Seen all[] = { seen(a)... };
        want.assign(all, all + sizeof...(K));
        f(s, want, a.get()...);
    }
    static void go(F& f, vf::Src& s, std::vector<Seen>& want)
    {
        switch (s.draw(9))
        {
        case 0: call<INT_L, TOK_R, INT_CL, TOK_L>(f, s, want); break;
        case 1: call<TOK_CL, INT_R, INT_R, TOK_R>(f, s, want); break;
        case 2: call<INT_R, TOK_L, TOK_CL, INT_L, INT_CL>(f, s, want); break;
        case 3: call<TOK_R, TOK_R, INT_L, INT_CL, TOK_L>(f, s, want); break;
        case 4: call<INT_CL, INT_CL, TOK_L, TOK_R, INT_R, TOK_CL>(f, s, want); break;
        case 5: call<TOK_L, INT_L, INT_R, TOK_CL, TOK_R, INT_R>(f, s, want); break;
        case 6: call<INT_R, INT_L, TOK_R, TOK_CL, INT_CL, TOK_L, INT_R>(f, s, want); break;
        case 7: call<TOK_L, TOK_L, INT_L, INT_L, TOK_CL, INT_CL, TOK_R>(f, s, want); break;
        default: call<INT_L, TOK_R, INT_R, TOK_CL, INT_CL, TOK_L, TOK_R, INT_R>(f, s, want); break;
        }
    }
};
} // namespace VM
#endif
