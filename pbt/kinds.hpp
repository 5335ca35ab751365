// Element types that tempt an implementation into a shortcut: trivially copyable ones whose equality is not that of their
// bytes, trivially copyable ones that nevertheless need two-phase initialisation, empty ones, bool, enumerations, pointers.
#ifndef VF_KINDS_HPP
#define VF_KINDS_HPP
#include "machine.hpp"

namespace VM
{

struct Pd                        // trivially copyable; equality and order ignore part of the object
{
    int key, tag; unsigned noise;
    static unsigned next() { static unsigned n = 0; return n += 0x9e3779b9u; }
    Pd() noexcept : key(K_DEFAULT), tag(0), noise(next()) {}
    Pd(int k, int t) noexcept : key(k), tag(t), noise(next()) {}
    Pd(Raw, Val v) noexcept : key(v.key), tag(v.tag), noise(next()) {}
};
inline bool operator==(const Pd& a, const Pd& b) { return a.key == b.key && a.tag == b.tag; }
inline bool operator<(const Pd& a, const Pd& b) { ++W().cmps; return a.key < b.key; }
static_assert(std::is_trivially_copyable<Pd>::value, "");
template <> struct ET<Pd>
{
    enum { counted = 0, nested = 0, emplace2 = 1, less = 1, fails = 0, writable = 1 };
    struct Holder { Pd v; explicit Holder(Val x) : v(x.key, x.tag) {} Pd& ref() { return v; } };
    static Val get(const Pd& t) { return mk(t.key, t.tag); }
    static Val norm(Val v) { return v; }
    static Val def() { return mk(K_DEFAULT, 0); }
    static void set(Pd& t, Val v) { t = Pd(v.key, v.tag); }
    static const char* name() { return "plain struct"; }
};

struct Em                        // empty, but counted
{
    Em() noexcept { ++W().ctors; ++W().live; }
    Em(const Em&) noexcept { ++W().copies; ++W().live; }
    Em& operator=(const Em&) noexcept { ++W().assigns; return *this; }
    ~Em() { --W().live; ++W().dtors; }
};
inline bool operator==(const Em&, const Em&) { return true; }
inline bool operator<(const Em&, const Em&) { ++W().cmps; return false; }
static_assert(std::is_empty<Em>::value, "");
template <> struct ET<Em>
{
    enum { counted = 1, nested = 0, emplace2 = 0, less = 1, fails = 0, writable = 0 };
    struct Holder { Em v; explicit Holder(Val) : v() {} Em& ref() { return v; } };
    static Val get(const Em&) { return mk(0, 0); }
    static Val norm(Val) { return mk(0, 0); }
    static Val def() { return mk(0, 0); }
    static void set(Em&, Val) {}
    static const char* name() { return "empty"; }
};

struct Tt                        // trivially copyable for the compiler, yet made in two phases only: it knows its address
{
    int key, tag; const void* self;
    Tt() noexcept : key(K_DEFAULT), tag(0), self(this) { ++W().ctors; }
    Tt(Raw, Val v) noexcept : key(v.key), tag(v.tag), self(this) { ++W().ctors; }
    Tt(const Tt&) = delete;
    Tt& operator=(const Tt&) = default;
    void check(const char* what) const
    {
        VF_CHECK(vf::LIFE | vf::CONTENT | vf::GUAR, self == this, "an element was %s that was not made by its constructor and initialiser but from the bytes of another", what);
    }
};
inline bool operator==(const Tt& a, const Tt& b) { a.check("compared"); b.check("compared"); return a.key == b.key && a.tag == b.tag; }
inline bool operator<(const Tt& a, const Tt& b) { a.check("compared"); b.check("compared"); ++W().cmps; return a.key < b.key; }
static_assert(std::is_trivially_copyable<Tt>::value, "");
template <> struct ET<Tt>
{
    enum { counted = 0, nested = 0, emplace2 = 1, less = 1, fails = 0, writable = 1 };
    struct Holder { Tt v; explicit Holder(Val x) : v(Raw(), x) {} Tt& ref() { return v; } };
    static Val get(const Tt& t) { t.check("read"); return mk(t.key, t.tag); }
    static Val norm(Val v) { return v; }
    static Val def() { return mk(K_DEFAULT, 0); }
    static void set(Tt& t, Val v) { t.key = v.key; t.tag = v.tag; }
    static const char* name() { return "trivial two-phase"; }
};
template <> struct Fails<Tt> { enum { elem = 1 }; };

template <> struct ET<bool>
{
    enum { counted = 0, nested = 0, emplace2 = 0, less = 1, fails = 0, writable = 1 };
    struct Holder { bool v; explicit Holder(Val x) : v(x.key & 1) {} bool& ref() { return v; } };
    static Val get(const bool& t) { return mk(t, 0); }
    static Val norm(Val v) { return mk(v.key & 1, 0); }
    static Val def() { return mk(0, 0); }
    static void set(bool& t, Val v) { t = v.key & 1; }
    static const char* name() { return "bool"; }
};

typedef int* Pt;
template <> struct ET<Pt>
{
    enum { counted = 0, nested = 0, emplace2 = 0, less = 1, fails = 0, writable = 1 };
    static int* base() { static int cells[256]; return cells; }
    static Pt at(int k) { return k == K_DEFAULT ? 0 : base() + (k & 255); }
    struct Holder { Pt v; explicit Holder(Val x) : v(at(x.key)) {} Pt& ref() { return v; } };
    static Val get(const Pt& t) { return mk(t ? int(t - base()) : int(K_DEFAULT), 0); }
    static Val norm(Val v) { return mk(v.key == K_DEFAULT ? v.key : v.key & 255, 0); }
    static Val def() { return mk(K_DEFAULT, 0); }
    static void set(Pt& t, Val v) { t = at(v.key); }
    static const char* name() { return "pointer"; }
};

} // namespace VM

namespace nestl
{
template <> struct two_phase_initializator<VM::Tt> : VM::TwoPhase<VM::Tt> {};
}
#endif
