// Instrumented elements, allocators and error types shared by all harnesses.
// VM is the namespace of everything that depends on the library mode.
#ifndef VF_WORLD_HPP
#define VF_WORLD_HPP

#include "engine.hpp"

#include <nestl/config.hpp>
#include <nestl/vector.hpp>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/algorithm.hpp>
#include <nestl/allocator.hpp>
#include <nestl/allocator_traits.hpp>
#include <nestl/class_operations.hpp>
#include <nestl/default_operation_error.hpp>

#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <new>
#include <vector>
#include <list>
#include <string>
#include <algorithm>
#include <iterator>
#include <type_traits>

#ifndef VM
#define VM vm
#endif

#if NESTL_HAS_EXCEPTIONS
#define VF_EXC 1
#else
#define VF_EXC 0
#endif

namespace VM
{

struct Val
{
    int key;
    int tag;
    bool operator==(const Val& o) const { return key == o.key && tag == o.tag; }
    bool operator!=(const Val& o) const { return !(*this == o); }
};
enum { K_DEFAULT = -777001, K_MOVED = -777002, K_BAD = -777003, K_DEAD = -777004 };
inline Val mk(int k, int t) { Val v; v.key = k; v.tag = t; return v; }

inline std::string show(const Val& v)
{
    char b[64];
    if (v.key == K_DEFAULT) return "default";
    if (v.key == K_MOVED) return "moved-from";
    if (v.key == K_BAD) return "INCOMPLETE";
    if (v.tag) snprintf(b, sizeof b, "%d#%d", v.key, v.tag); else snprintf(b, sizeof b, "%d", v.key);
    return b;
}
template <class Seq> std::string shows(const Seq& s)
{
    std::string r = "[";
    size_t n = 0;
    for (typename Seq::const_iterator i = s.begin(); i != s.end(); ++i, ++n)
    {
        if (n) r += " ";
        if (n >= 24) { char b[40]; snprintf(b, sizeof b, "... %zu in all", (size_t)s.size()); r += b; break; }
        r += show(*i);
    }
    return r + "]";
}

// ------------------------------------------------------------------ world
struct World
{
    long live;                 // element objects alive
    uint64_t ctors, copies, moves, assigns, dtors;
    uint64_t allocs, deallocs;
    uint64_t cmps;
    long elem_fail_in;         // <0 never, 0 next
    bool elem_fired;
    int code;                  // code carried by the injected element failure
    unsigned allowed;          // arenas that may allocate now
    uint64_t ticks;
    long aobjs;                // allocator objects alive
    vf::PtrTable blocks;

    World() { reset(); }
    void reset()
    {
        live = 0; ctors = copies = moves = assigns = dtors = 0; allocs = deallocs = 0; cmps = 0;
        elem_fail_in = -1; elem_fired = false; code = 0; allowed = ~0u; ticks = 0; aobjs = 0;
        blocks.clear();
        vf::nt_reset();
        vf::g_nt.enabled = true;
    }
    uint64_t elem_ops() const { return ctors + copies + moves + assigns + dtors; }
    void disarm() { elem_fail_in = -1; vf::g_nt.fail_in = -1; }
    void clear_fired() { elem_fired = false; vf::g_nt.fired = false; }
    bool fired() const { return elem_fired || vf::g_nt.fired; }
    bool alloc_fired() const { return vf::g_nt.fired; }
    size_t total_allocs() const { return allocs + vf::g_nt.calls; }
    bool tick()
    {
        ++ticks;
        if (vf::g_nt.dry) { ++vf::g_nt.dry_hits; return true; }
        if (elem_fail_in == 0) { elem_fail_in = -1; elem_fired = true; vf::g_fault_seen = true; return true; }
        if (elem_fail_in > 0) --elem_fail_in;
        return false;
    }
};
inline World& W() { static World w; return w; }

// While it exists no memory is to be had and no element can be built (if the property is about that).
struct Dry
{
    bool was; uint64_t made; size_t hits;
    static uint64_t count() { return W().ctors + W().copies + W().moves + W().assigns; }
    Dry() : was(vf::g_nt.dry), made(count()), hits(vf::g_nt.dry_hits) { if (vf::on(vf::NOFAIL)) vf::g_nt.dry = true; }
    ~Dry() { vf::g_nt.dry = was; }
    void done(const char* name)
    {
        vf::g_nt.dry = was;
        VF_CHECK(vf::NOFAIL, hits == vf::g_nt.dry_hits, "%s must not depend on anything that can fail, but asked for memory or built an element that may fail", name);
        VF_CHECK(vf::NOFAIL, made == count(), "%s must not depend on anything that can fail, but built, copied or assigned elements", name);
    }
private:
    Dry(const Dry&);
    Dry& operator=(const Dry&);
};
#define VF_DRY(name, ...) do { ::VM::Dry dry_; __VA_ARGS__; dry_.done(name); } while (0)

// call at the end of a case: nothing may be left
inline void final_balance()
{
    World& w = W();
    VF_CHECK(vf::LIFE, w.live == 0, "at the end of the case %ld element objects are still alive (or destroyed too often)", w.live);
    VF_CHECK(vf::BLOCK, w.blocks.size() == 0, "at the end of the case %zu allocator blocks were never released", w.blocks.size());
    VF_CHECK(vf::BLOCK, vf::g_nt.live == 0, "at the end of the case %zu blocks of the default allocator were never released", vf::g_nt.live);
    VF_CHECK(vf::BLOCK, w.aobjs == 0, "at the end of the case %ld allocator objects are still alive (or destroyed too often)", w.aobjs);
}

// ------------------------------------------------------------------ errors
enum EKind { E_NONE, E_BADALLOC, E_LENGTH, E_CUSTOM, E_OTHER };
struct EInfo { int kind; int code; };
inline const char* ekind(int k)
{
    static const char* const n[] = { "none", "bad_alloc", "length_error", "element failure", "unknown error" };
    return n[k];
}

struct Boom { int code; explicit Boom(int c) : code(c) {} };

// user-supplied error type, found by ADL
struct UErr
{
    int kind; int code; bool set;
#if VF_EXC
    std::exception_ptr eptr;
#endif
    UErr() : kind(E_NONE), code(0), set(false) {}
    explicit operator bool() const { return set; }
};
inline void build_bad_alloc(UErr& e) { e.set = true; e.kind = E_BADALLOC; }
inline void build_length_error(UErr& e) { e.set = true; e.kind = E_LENGTH; }
inline void set_custom(UErr& e, int code) { e.set = true; e.kind = E_CUSTOM; e.code = code; }
#if VF_EXC
inline EInfo classify(std::exception_ptr p)
{
    EInfo i = { E_OTHER, 0 };
    try { std::rethrow_exception(p); }
    catch (const Boom& b) { i.kind = E_CUSTOM; i.code = b.code; }
    catch (const std::bad_alloc&) { i.kind = E_BADALLOC; }
    catch (const std::length_error&) { i.kind = E_LENGTH; }
    catch (...) {}
    return i;
}
inline void from_exception_ptr(UErr& e, std::exception_ptr p)
{
    EInfo i = classify(p);
    e.set = true; e.kind = i.kind; e.code = i.code; e.eptr = p;
}
template <class X> inline void from_exception(UErr& e, X x) { from_exception_ptr(e, std::make_exception_ptr(x)); }
inline void throw_exception(UErr e) { std::rethrow_exception(e.eptr); }
#endif
inline EInfo einfo(const UErr& e)
{
    EInfo i = { e.set ? e.kind : E_NONE, e.code };
    return i;
}

typedef nestl::default_operation_error DErr;
#if VF_EXC
inline void set_custom(DErr& e, int code) { from_exception(e, Boom(code)); }
inline EInfo einfo(const DErr& e)
{
    EInfo i = { E_NONE, 0 };
    if (e) i = classify(e.value());
    return i;
}
#else
inline void set_custom(DErr& e, int code) { e = DErr(10000 + code); }
inline EInfo einfo(const DErr& e)
{
    EInfo i = { E_NONE, 0 };
    if (e)
    {
        if (e.value() == nestl::errc::not_enough_memory) i.kind = E_BADALLOC;
        else if (e.value() == nestl::errc::value_too_large) i.kind = E_LENGTH;
        else if (e.value() >= 10000) { i.kind = E_CUSTOM; i.code = e.value() - 10000; }
        else i.kind = E_OTHER;
    }
    return i;
}
#endif

// ------------------------------------------------------------------ allocators
static const size_t ALLOC_LIMIT = size_t(1) << 30;

struct AObj
{
    AObj() NESTL_NOEXCEPT_SPEC { ++W().aobjs; }
    AObj(const AObj&) NESTL_NOEXCEPT_SPEC { ++W().aobjs; }
    AObj& operator=(const AObj&) NESTL_NOEXCEPT_SPEC { return *this; }
    ~AObj() NESTL_NOEXCEPT_SPEC { --W().aobjs; }
};

template <class T> class TA : AObj     // stateful, tracked, with all nested types
{
public:
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef T& reference;
    typedef const T& const_reference;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <class U> struct rebind { typedef TA<U> other; };

    int arena;

    TA() NESTL_NOEXCEPT_SPEC : arena(0) {}
    explicit TA(int a) NESTL_NOEXCEPT_SPEC : arena(a) {}
    TA(const TA& o) NESTL_NOEXCEPT_SPEC : AObj(), arena(o.arena) {}
    template <class U> TA(const TA<U>& o) NESTL_NOEXCEPT_SPEC : arena(o.arena) {}
    TA& operator=(const TA& o) NESTL_NOEXCEPT_SPEC { arena = o.arena; return *this; }
    ~TA() NESTL_NOEXCEPT_SPEC {}

    template <class Err> T* allocate(Err& err, std::size_t n, const void* = 0) NESTL_NOEXCEPT_SPEC
    {
        World& w = W();
        ++w.allocs;
        VF_CHECK(vf::ARENA, (w.allowed >> arena) & 1u, "memory was requested from allocator instance %d, which does not belong to the container (allowed set %#x)", arena, w.allowed);
        if (vf::g_nt.dry) { ++vf::g_nt.dry_hits; build_bad_alloc(err); return nullptr; }
        if (vf::g_nt.fail_in == 0) { vf::g_nt.fail_in = -1; vf::g_nt.fired = true; vf::g_fault_seen = true; build_bad_alloc(err); return nullptr; }
        if (vf::g_nt.fail_in > 0) --vf::g_nt.fail_in;
        if (n > ALLOC_LIMIT / sizeof(T)) { build_bad_alloc(err); return nullptr; }
        void* p = ::malloc(n * sizeof(T) ? n * sizeof(T) : 1);
        if (!p) { build_bad_alloc(err); return nullptr; }
        vf::PtrTable::Rec r = { p, n, sizeof(T), arena };
        w.blocks.put(r);
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n) NESTL_NOEXCEPT_SPEC
    {
        if (!p) return;
        World& w = W();
        ++w.deallocs;
        vf::PtrTable::Rec* r = w.blocks.get(p);
        VF_CHECK(vf::BLOCK, r != 0, "a block was released that is not outstanding (released twice, or never allocated)");
        if (!r) return;
        VF_CHECK(vf::BLOCK, r->n == n && r->esz == sizeof(T), "block obtained for %zu elements of %zu bytes was released as %zu elements of %zu bytes", r->n, r->esz, n, sizeof(T));
        VF_CHECK(vf::ARENA, r->arena == arena, "block of allocator instance %ld was released through instance %d", r->arena, arena);
        w.blocks.del(p);
        ::free(p);
    }
    bool operator==(const TA& o) const { return arena == o.arena; }
    bool operator!=(const TA& o) const { return arena != o.arena; }
};

template <class T> class MA : AObj    // minimal allocator: only what the documentation requires (vector, set)
{
public:
    typedef T value_type;
    int arena;
    MA() NESTL_NOEXCEPT_SPEC : arena(0) {}
    explicit MA(int a) NESTL_NOEXCEPT_SPEC : arena(a) {}
    MA(const MA& o) NESTL_NOEXCEPT_SPEC : AObj(), arena(o.arena) {}
    template <class U> MA(const MA<U>& o) NESTL_NOEXCEPT_SPEC : arena(o.arena) {}
    MA& operator=(const MA& o) NESTL_NOEXCEPT_SPEC { arena = o.arena; return *this; }
    template <class Err> T* allocate(Err& err, std::size_t n, const void* = 0) NESTL_NOEXCEPT_SPEC { TA<T> t(arena); return t.allocate(err, n); }
    void deallocate(T* p, std::size_t n) NESTL_NOEXCEPT_SPEC { TA<T> t(arena); t.deallocate(p, n); }
};

template <class T> class PA : public TA<T>     // wants to go along when a container is copied over (honoured by set)
{
public:
    typedef std::true_type propagate_on_container_copy_assignment;
    template <class U> struct rebind { typedef PA<U> other; };
    PA() NESTL_NOEXCEPT_SPEC {}
    explicit PA(int a) NESTL_NOEXCEPT_SPEC : TA<T>(a) {}
    PA(const PA& o) NESTL_NOEXCEPT_SPEC : TA<T>(o.arena) {}
    template <class U> PA(const PA<U>& o) NESTL_NOEXCEPT_SPEC : TA<T>(o.arena) {}
    PA& operator=(const PA& o) NESTL_NOEXCEPT_SPEC { this->arena = o.arena; return *this; }
};

template <class A> struct AllocInfo;     // how to make an allocator for an arena
template <class T> struct AllocInfo<TA<T> >
{
    enum { stateful = 1, movable = 1, pocca = 0 };
    static TA<T> make(int a) { return TA<T>(a); }
    static int arena(const TA<T>& a) { return a.arena; }
};
template <class T> struct AllocInfo<PA<T> >
{
    enum { stateful = 1, movable = 1, pocca = 1 };
    static PA<T> make(int a) { return PA<T>(a); }
    static int arena(const PA<T>& a) { return a.arena; }
};
template <class T> struct AllocInfo<MA<T> >
{
    enum { stateful = 1, movable = 0, pocca = 0 };
    static MA<T> make(int a) { return MA<T>(a); }
    static int arena(const MA<T>& a) { return a.arena; }
};
template <class T> struct AllocInfo<nestl::allocator<T> >
{
    enum { stateful = 0, movable = 1, pocca = 0 };
    static nestl::allocator<T> make(int) { return nestl::allocator<T>(); }
    static int arena(const nestl::allocator<T>&) { return -1; }
};

// ------------------------------------------------------------------ elements
struct Raw {};

struct Core
{
    int key, tag;
    volatile unsigned magic;
    const void* volatile self;
    enum { LIVE = 0x11feca7e, DEAD = 0xdeadbea7 };

    void born(int k, int t) { key = k; tag = t; magic = LIVE; self = this; ++W().live; }
    void check(const char* what) const
    {
        VF_CHECK(vf::LIFE, magic == (unsigned)LIVE && self == this, "an element object was %s that is %s", what,
                 magic == (unsigned)LIVE ? "a bitwise copy of another object" : magic == (unsigned)DEAD ? "already destroyed" : "not constructed");
    }
    void die()
    {
        check("destroyed");
        magic = DEAD;
        *const_cast<volatile int*>(&key) = K_DEAD;
        --W().live; ++W().dtors;
    }
};
inline bool operator==(const Core& a, const Core& b) { a.check("compared"); b.check("compared"); return a.key == b.key && a.tag == b.tag; }
inline bool operator<(const Core& a, const Core& b) { a.check("compared"); b.check("compared"); ++W().cmps; return a.key < b.key; }

struct Tr : Core                 // never fails
{
    Tr() noexcept { ++W().ctors; born(K_DEFAULT, 0); }
    Tr(Raw, Val v) noexcept { ++W().ctors; born(v.key, v.tag); }
    Tr(int k, int t) noexcept { ++W().ctors; born(k, t); }
    Tr(const Tr& o) noexcept { o.check("copied"); ++W().copies; born(o.key, o.tag); }
    Tr(Tr&& o) noexcept { o.check("moved"); ++W().moves; born(o.key, o.tag); o.key = K_MOVED; o.tag = 0; }
    Tr& operator=(const Tr& o) noexcept { check("assigned to"); o.check("copied"); ++W().assigns; key = o.key; tag = o.tag; return *this; }
    Tr& operator=(Tr&& o) noexcept
    {
        check("assigned to"); o.check("moved"); ++W().assigns;
        int k = o.key, t = o.tag; o.key = K_MOVED; o.tag = 0; key = k; tag = t; return *this;
    }
    ~Tr() { die(); }
};

struct alignas(16) Big : Core    // large, aligned, never fails
{
    int pad[44];
    void fill() { for (int i = 0; i < 44; ++i) pad[i] = key ^ (i * 7919); }
    void verify() const
    {
        check("read");
        for (int i = 0; i < 44; ++i) VF_CHECK(vf::CONTENT, pad[i] == (key ^ (i * 7919)), "part of a large element was overwritten");
    }
    Big() noexcept { al(); ++W().ctors; born(K_DEFAULT, 0); fill(); }
    Big(Raw, Val v) noexcept { ++W().ctors; born(v.key, v.tag); fill(); }
    Big(int k, int t) noexcept { al(); ++W().ctors; born(k, t); fill(); }
    Big(const Big& o) noexcept { al(); o.verify(); ++W().copies; born(o.key, o.tag); fill(); }
    Big& operator=(const Big& o) noexcept { check("assigned to"); o.verify(); ++W().assigns; key = o.key; tag = o.tag; fill(); return *this; }
    ~Big() { die(); }
    void al() const { VF_CHECK(vf::LIFE, ((uintptr_t)this & 15) == 0, "an element was constructed at a misaligned address"); }
};

#if VF_EXC
struct Th : Core                 // copy and value construction may throw, move does not
{
    static void tick() { if (W().tick()) throw Boom(W().code); }
    Th() { tick(); ++W().ctors; born(K_DEFAULT, 0); }
    Th(Raw, Val v) noexcept { ++W().ctors; born(v.key, v.tag); }
    Th(int k, int t) { tick(); ++W().ctors; born(k, t); }
    Th(const Th& o) { o.check("copied"); tick(); ++W().copies; born(o.key, o.tag); }
    Th(Th&& o) noexcept { o.check("moved"); ++W().moves; born(o.key, o.tag); o.key = K_MOVED; o.tag = 0; }
    Th& operator=(const Th& o) { check("assigned to"); o.check("copied"); tick(); ++W().assigns; key = o.key; tag = o.tag; return *this; }
    ~Th() { die(); }
};
struct Tm : Core                 // everything may throw, including the move constructor
{
    static void tick() { if (W().tick()) throw Boom(W().code); }
    Tm() { tick(); ++W().ctors; born(K_DEFAULT, 0); }
    Tm(Raw, Val v) noexcept { ++W().ctors; born(v.key, v.tag); }
    Tm(int k, int t) { tick(); ++W().ctors; born(k, t); }
    Tm(const Tm& o) { o.check("copied"); tick(); ++W().copies; born(o.key, o.tag); }
    Tm(Tm&& o) { o.check("moved"); tick(); ++W().moves; born(o.key, o.tag); o.key = K_MOVED; o.tag = 0; }
    Tm& operator=(const Tm& o) { check("assigned to"); o.check("copied"); tick(); ++W().assigns; key = o.key; tag = o.tag; return *this; }
    ~Tm() { die(); }
};
#endif

struct Tp : Core                 // two-phase: neither copyable nor movable
{
    Tp() noexcept { ++W().ctors; born(K_DEFAULT, 0); }
    Tp(Raw, Val v) noexcept { ++W().ctors; born(v.key, v.tag); }
    ~Tp() { die(); }
    Tp(const Tp&) = delete;
    Tp& operator=(const Tp&) = delete;
};
struct Tq : Core                 // two-phase copy, nothrow move
{
    Tq() noexcept { ++W().ctors; born(K_DEFAULT, 0); }
    Tq(Raw, Val v) noexcept { ++W().ctors; born(v.key, v.tag); }
    Tq(Tq&& o) noexcept { o.check("moved"); ++W().moves; born(o.key, o.tag); o.key = K_MOVED; o.tag = 0; }
    ~Tq() { die(); }
    Tq(const Tq&) = delete;
    Tq& operator=(const Tq&) = delete;
};

template <class T> struct TwoPhase
{
    template <class Err> static void init(Err& err, T& d, const T& o) NESTL_NOEXCEPT_SPEC
    {
        d.check("initialised"); o.check("copied");
        if (W().tick()) { set_custom(err, W().code); return; }
        ++W().copies;
        d.key = o.key; d.tag = o.tag;
    }
    template <class Err> static void init(Err& err, T& d, int k, int t) NESTL_NOEXCEPT_SPEC
    {
        d.check("initialised");
        if (W().tick()) { set_custom(err, W().code); return; }
        d.key = k; d.tag = t;
    }
};

} // namespace VM

namespace nestl
{
template <> struct two_phase_initializator<VM::Tp> : VM::TwoPhase<VM::Tp> {};
template <> struct two_phase_initializator<VM::Tq> : VM::TwoPhase<VM::Tq> {};
}

namespace VM
{

// ------------------------------------------------------------------ element traits
template <class T> struct ET     // Core-derived classes
{
    enum { counted = 1, nested = 0, emplace2 = 1, less = 1, fails = 0, writable = 1 };
    struct Holder { T v; explicit Holder(Val x) : v(Raw(), x) {} T& ref() { return v; } };
    static Val get(const T& t) { t.check("read"); return mk(t.key, t.tag); }
    static Val norm(Val v) { return v; }
    static Val def() { return mk(K_DEFAULT, 0); }
    static void set(T& t, Val v) { t.key = v.key; t.tag = v.tag; }
    static const char* name();
};
template <> inline Val ET<Big>::get(const Big& t) { t.verify(); return mk(t.key, t.tag); }
template <> inline void ET<Big>::set(Big& t, Val v) { t.key = v.key; t.tag = v.tag; t.fill(); }
template <> inline const char* ET<Tr>::name() { return "tracked"; }
template <> inline const char* ET<Big>::name() { return "big"; }
template <> inline const char* ET<Tp>::name() { return "two-phase"; }
template <> inline const char* ET<Tq>::name() { return "two-phase+move"; }
#if VF_EXC
template <> inline const char* ET<Th>::name() { return "throwing"; }
template <> inline const char* ET<Tm>::name() { return "throwing+move"; }
#endif

template <class I> struct IntET
{
    enum { counted = 0, nested = 0, emplace2 = 0, less = 1, fails = 0, writable = 1 };
    struct Holder { I v; explicit Holder(Val x) : v((I)x.key) {} I& ref() { return v; } };
    static Val get(const I& t) { return mk((int)t, 0); }
    static Val norm(Val v) { return mk((int)(I)v.key, 0); }
    static Val def() { return mk(0, 0); }
    static void set(I& t, Val v) { t = (I)v.key; }
    static const char* name() { return sizeof(I) == 1 ? "char" : "int"; }
};
template <> struct ET<int> : IntET<int> {};
template <> struct ET<signed char> : IntET<signed char> {};

// nested containers: the value is spread over several inner elements, so a partial copy shows
template <class C> struct NestET
{
    enum { counted = 0, nested = 1, emplace2 = 0, less = 0, fails = 0, writable = 0 };
    static int extras(Val v) { return (v.key & 3) + (v.tag & 1); }
    struct Holder
    {
        C v;
        explicit Holder(Val x) : v()
        {
            long save = vf::g_nt.fail_in; vf::g_nt.fail_in = -1;
            bool fired = vf::g_nt.fired;
            unsigned allowed = W().allowed; W().allowed = ~0u;
            DErr err;
            v.push_back_nothrow(err, x.key);
            v.push_back_nothrow(err, x.tag);
            for (int i = 0; i < extras(x); ++i) v.push_back_nothrow(err, x.key ^ (i * 31 + 5));
            if (err) VF_FAIL("harness could not build a nested element");
            vf::g_nt.fail_in = save; vf::g_nt.fired = fired; W().allowed = allowed;
        }
        C& ref() { return v; }
    };
    static Val get(const C& c)
    {
        if (c.empty()) return mk(K_DEFAULT, 0);
        Val r = mk(K_BAD, 0);
        typename C::const_iterator i = c.cbegin(), e = c.cend();
        int k = *i; ++i;
        if (i == e) return r;
        int t = *i; ++i;
        Val v = mk(k, t);
        for (int j = 0; j < extras(v); ++j)
        {
            if (i == e || *i != (k ^ (j * 31 + 5))) return r;
            ++i;
        }
        return i == e ? v : r;
    }
    static Val norm(Val v) { return v; }
    static Val def() { return mk(K_DEFAULT, 0); }
    static void set(C&, Val) {}
    static const char* name() { return "nested"; }
};
typedef nestl::vector<int, TA<int> > NV;
typedef nestl::list<int, TA<int> > NL;
template <> struct ET<NV> : NestET<NV> {};
template <> struct ET<NL> : NestET<NL> {};

// three levels: list of vectors of ints, the value is in every inner vector
typedef nestl::list<nestl::vector<int, TA<int> >, TA<nestl::vector<int, TA<int> > > > NLV;
typedef nestl::vector<nestl::list<int, TA<int> >, TA<nestl::list<int, TA<int> > > > NVL;
template <class C> struct Nest3ET
{
    enum { counted = 0, nested = 1, emplace2 = 0, less = 0, fails = 0, writable = 0 };
    typedef typename C::value_type I;
    static int width(Val v) { return 1 + (v.key & 1) + (v.tag & 1); }
    struct Holder
    {
        C v;
        explicit Holder(Val x) : v()
        {
            long save = vf::g_nt.fail_in; vf::g_nt.fail_in = -1;
            bool fired = vf::g_nt.fired;
            unsigned allowed = W().allowed; W().allowed = ~0u;
            DErr err;
            for (int i = 0; i < width(x); ++i)
            {
                typename ET<I>::Holder h(x);
                v.push_back_nothrow(err, h.ref());
            }
            if (err) VF_FAIL("harness could not build a nested element");
            vf::g_nt.fail_in = save; vf::g_nt.fired = fired; W().allowed = allowed;
        }
        C& ref() { return v; }
    };
    static Val get(const C& c)
    {
        if (c.empty()) return mk(K_DEFAULT, 0);
        typename C::const_iterator i = c.cbegin(), e = c.cend();
        Val v = ET<I>::get(*i); ++i;
        int n = 1;
        for (; i != e; ++i, ++n) if (ET<I>::get(*i) != v) return mk(K_BAD, 0);
        return n == width(v) ? v : mk(K_BAD, 0);
    }
    static Val norm(Val v) { return v; }
    static Val def() { return mk(K_DEFAULT, 0); }
    static void set(C&, Val) {}
    static const char* name() { return "nested3"; }
};
template <> struct ET<NLV> : Nest3ET<NLV> {};
template <> struct ET<NVL> : Nest3ET<NVL> {};

// shared pointers as elements
typedef nestl::shared_ptr<Tr> SP;
template <> struct ET<SP>
{
    enum { counted = 0, nested = 0, emplace2 = 0, less = 0, fails = 0, writable = 0 };
    struct Holder
    {
        SP v;
        explicit Holder(Val x) : v()
        {
            long save = vf::g_nt.fail_in; vf::g_nt.fail_in = -1;
            bool fired = vf::g_nt.fired;
            unsigned allowed = W().allowed; W().allowed = ~0u;
            DErr err;
            TA<Tr> a;
            v = nestl::make_shared_a_nothrow<Tr>(err, a, x.key, x.tag);
            if (err) VF_FAIL("harness could not build a shared element");
            vf::g_nt.fail_in = save; vf::g_nt.fired = fired; W().allowed = allowed;
        }
        SP& ref() { return v; }
    };
    static Val get(const SP& p) { return p ? ET<Tr>::get(*p) : mk(K_DEFAULT, 0); }
    static Val norm(Val v) { return v; }
    static Val def() { return mk(K_DEFAULT, 0); }
    static void set(SP&, Val) {}
    static const char* name() { return "shared_ptr"; }
};

// ------------------------------------------------------------------ input ranges
template <class T> struct InIt      // single-pass input iterator over an array: only the furthest copy may be used
{
    typedef std::input_iterator_tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef T* pointer;
    typedef T& reference;
    struct Proxy { T* v; T& operator*() const { return *v; } };
    T* p;
    T* stop;
    T** front;
    explicit InIt(T* q = 0, T* s = 0, T** f = 0) : p(q), stop(s), front(f) {}
    void use(const char* what) const
    {
        VF_CHECK(vf::CONTENT, p != stop, "an input iterator was %s at the end of its range", what);
        VF_CHECK(vf::CONTENT, !front || *front == p, "an input iterator was %s after another copy of it had been advanced", what);
    }
    T& operator*() const { use("dereferenced"); return *p; }
    T* operator->() const { use("dereferenced"); return p; }
    InIt& operator++() { use("advanced"); ++p; if (front) *front = p; return *this; }
    Proxy operator++(int) { Proxy r = { p }; ++*this; return r; }
    bool operator==(const InIt& o) const { return p == o.p; }
    bool operator!=(const InIt& o) const { return p != o.p; }
};

template <class T, class Tag> struct ArIt      // checked iterator of a given category over an array
{
    typedef Tag iterator_category;
    typedef typename std::remove_const<T>::type value_type;
    typedef std::ptrdiff_t difference_type;
    typedef T* pointer;
    typedef T& reference;
    T* p; T* lo; T* hi;
    ArIt() : p(0), lo(0), hi(0) {}
    ArIt(T* q, T* l, T* h) : p(q), lo(l), hi(h) {}
    ArIt& go(std::ptrdiff_t n) { p += n; VF_CHECK(vf::CONTENT, p >= lo && p <= hi, "an iterator was moved outside its range"); return *this; }
    T& operator*() const { VF_CHECK(vf::CONTENT, p != hi, "the end of a range was dereferenced"); return *p; }
    T* operator->() const { return &**this; }
    ArIt& operator++() { return go(1); }
    ArIt operator++(int) { ArIt r(*this); go(1); return r; }
    ArIt& operator--() { return go(-1); }
    ArIt operator--(int) { ArIt r(*this); go(-1); return r; }
    ArIt& operator+=(std::ptrdiff_t n) { return go(n); }
    ArIt& operator-=(std::ptrdiff_t n) { return go(-n); }
    friend ArIt operator+(ArIt a, std::ptrdiff_t n) { return a.go(n); }
    friend ArIt operator+(std::ptrdiff_t n, ArIt a) { return a.go(n); }
    friend ArIt operator-(ArIt a, std::ptrdiff_t n) { return a.go(-n); }
    friend std::ptrdiff_t operator-(const ArIt& a, const ArIt& b) { return a.p - b.p; }
    T& operator[](std::ptrdiff_t n) const { return *(*this + n); }
    friend bool operator==(const ArIt& a, const ArIt& b) { return a.p == b.p; }
    friend bool operator!=(const ArIt& a, const ArIt& b) { return a.p != b.p; }
    friend bool operator<(const ArIt& a, const ArIt& b) { return a.p < b.p; }
    friend bool operator>(const ArIt& a, const ArIt& b) { return a.p > b.p; }
    friend bool operator<=(const ArIt& a, const ArIt& b) { return a.p <= b.p; }
    friend bool operator>=(const ArIt& a, const ArIt& b) { return a.p >= b.p; }
};

template <class T> struct GenIt      // yields values that exist only for the duration of the expression
{
    typedef std::input_iterator_tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const T* pointer;
    typedef T reference;
    const Val* v;
    explicit GenIt(const Val* q) : v(q) {}
    template <class U> static typename std::enable_if<std::is_arithmetic<U>::value, U>::type make(Val x) { return (U)x.key; }
    template <class U> static typename std::enable_if<!std::is_arithmetic<U>::value, U>::type make(Val x) { return U(Raw(), x); }
    T operator*() const { return make<T>(*v); }
    GenIt& operator++() { ++v; return *this; }
    GenIt operator++(int) { GenIt r(*this); ++v; return r; }
    bool operator==(const GenIt& o) const { return v == o.v; }
    bool operator!=(const GenIt& o) const { return v != o.v; }
};

template <class T> struct Vals     // array of holders, contiguous objects of T
{
    T* mem;
    size_t n;
    std::vector<Val> vals;
    explicit Vals(const std::vector<Val>& v) : mem(0), n(0), vals(v)
    {
        mem = static_cast<T*>(::aligned_alloc(16, ((v.size() * sizeof(T) + 15) / 16) * 16 + 16));
        for (size_t i = 0; i < v.size(); ++i) { new (static_cast<void*>(&mem[i])) typename ET<T>::Holder(v[i]); ++n; }
    }
    ~Vals()
    {
        for (size_t i = n; i-- > 0; ) mem[i].~T();
        ::free(mem);
    }
    T* begin() { return mem; }
    T* end() { return mem + n; }
private:
    Vals(const Vals&);
    Vals& operator=(const Vals&);
};

// hands the values to f as a range of iterators of the chosen kind
enum { RANGE_KINDS = 9 };
inline const char* range_kind(unsigned k)
{
    static const char* const n[RANGE_KINDS] = { "pointer", "single-pass input", "forward", "bidirectional", "random access", "reverse", "moving", "generating", "converting" };
    return n[k];
}
template <class T, class F> struct FeedExtra
{
    template <class U> static typename std::enable_if<ET<U>::emplace2 && std::is_move_constructible<U>::value && std::is_nothrow_move_constructible<U>::value, bool>::type gen(Vals<T>& v, F& f)
    { const Val* q = v.vals.empty() ? 0 : &v.vals[0]; f(GenIt<T>(q), GenIt<T>(q + v.n)); return true; }
    template <class U> static typename std::enable_if<std::is_arithmetic<U>::value, bool>::type gen(Vals<T>& v, F& f)
    { const Val* q = v.vals.empty() ? 0 : &v.vals[0]; f(GenIt<T>(q), GenIt<T>(q + v.n)); return true; }
    template <class U> static typename std::enable_if<!std::is_arithmetic<U>::value && !(ET<U>::emplace2 && std::is_move_constructible<U>::value && std::is_nothrow_move_constructible<U>::value), bool>::type gen(Vals<T>&, F&) { return false; }
    template <class U> static typename std::enable_if<std::is_arithmetic<U>::value, bool>::type conv(Vals<T>& v, F& f)
    {
        std::vector<long long> x;
        for (size_t i = 0; i < v.n; ++i) x.push_back(v.vals[i].key);
        f(x.begin(), x.end());
        return true;
    }
    template <class U> static typename std::enable_if<!std::is_arithmetic<U>::value, bool>::type conv(Vals<T>&, F&) { return false; }
    template <class U> static typename std::enable_if<std::is_move_constructible<U>::value, bool>::type move(Vals<T>& v, F& f)
    { f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); return true; }
    template <class U> static typename std::enable_if<!std::is_move_constructible<U>::value, bool>::type move(Vals<T>&, F&) { return false; }
};
template <class T, class F> void feed(unsigned kind, Vals<T>& v, F f)
{
    typedef const T X;
    X* b = v.begin(); X* e = v.end();
    switch (kind)
    {
    case 1: { X* front = b; f(InIt<X>(b, e, &front), InIt<X>(e, e, &front)); return; }
    case 2: f(ArIt<X, std::forward_iterator_tag>(b, b, e), ArIt<X, std::forward_iterator_tag>(e, b, e)); return;
    case 3: f(ArIt<X, std::bidirectional_iterator_tag>(b, b, e), ArIt<X, std::bidirectional_iterator_tag>(e, b, e)); return;
    case 4: f(ArIt<X, std::random_access_iterator_tag>(b, b, e), ArIt<X, std::random_access_iterator_tag>(e, b, e)); return;
    case 5:
    {
        std::vector<Val> r(v.vals.rbegin(), v.vals.rend());
        Vals<T> w(r);
        f(std::reverse_iterator<X*>(w.end()), std::reverse_iterator<X*>(w.begin()));
        return;
    }
    case 6: if (FeedExtra<T, F>::template move<T>(v, f)) return; break;
    case 7: if (FeedExtra<T, F>::template gen<T>(v, f)) return; break;
    case 8: if (FeedExtra<T, F>::template conv<T>(v, f)) return; break;
    default: break;
    }
    f(b, e);
}

inline std::vector<Val> gen_vals(vf::Src& s, size_t n, int& tagseq)
{
    std::vector<Val> r;
    unsigned pat = s.draw(5);
    int base = s.value();
    if (base > 2000000000) base = 2000000000;
    if (base < -2000000000) base = -2000000000;
    for (size_t i = 0; i < n; ++i)
    {
        int k;
        switch (pat)
        {
        case 0: k = n > 200 ? (int)((i * 2654435761u) >> 8) % 5000 : s.value(); break;
        case 1: k = base + (int)i; break;
        case 2: k = base - (int)i; break;
        case 3: k = (int)(i % 7); break;
        default: k = (i & 1) ? base + (int)i : base - (int)i; break;
        }
        r.push_back(mk(k, ++tagseq));
    }
    return r;
}

} // namespace VM

#endif
