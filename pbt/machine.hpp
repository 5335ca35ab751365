// Parts shared by the history machines: fault arming, event classification, swarm selection of operations.
#ifndef VF_MACHINE_HPP
#define VF_MACHINE_HPP

#include "world.hpp"

namespace VM
{

enum Event
{
    EV_FAULT   = 1u << 0,    // an injected failure fired
    EV_MIDDLE  = 1u << 1,    // insertion or erasure strictly inside
    EV_REALLOC = 1u << 2,    // vector storage replaced while holding elements
    EV_TRANSFER= 1u << 3,    // splice / merge / sort moved nodes
    EV_MOVE    = 1u << 4,    // move or swap with elements
    EV_COPY    = 1u << 5,    // copy of a non-empty container
    EV_ERASE   = 1u << 6,
    EV_DUP     = 1u << 7,    // equivalent key inserted into a set
    EV_ARENAS  = 1u << 8,    // two containers with different allocator instances in one operation
    EV_INPLACE = 1u << 9,    // vector growth within capacity
    EV_BIG     = 1u << 10,   // more than 64 elements
    EV_STEPS   = 1u << 11,   // at least 4 modifying operations
    EV_NESTED  = 1u << 12    // elements that are containers, two-phase types or shared pointers were copied
};
extern unsigned g_rule;      // events that make a case non-trivial
extern unsigned g_kinds;     // injected failures: 1 allocations, 2 element constructions
extern bool g_focus;         // favour copies, moves, swaps and writes
extern int g_last_mode;      // set machine: mode of the comparator object used last
#define VF_PROPERTY_CFG(mask, rule, kinds, focus) \
    namespace VM { unsigned g_rule = (rule); unsigned g_kinds = (kinds); bool g_focus = (focus); int g_last_mode = 0; \
    static struct CfgInit { CfgInit() { vf::g_mask = (mask); } } cfg_init_; }
#define VF_MACHINE(name, weight, fn, ...) typedef __VA_ARGS__ name##_machine; VF_SCENARIO_T(name, weight, name##_machine::fn)
inline void ev(unsigned e) { if (e & g_rule) vf::nontrivial(); }

// whether elements of T may fail to construct under injected element faults / injected allocation faults
template <class T> struct Fails { enum { elem = 0 }; };
template <> struct Fails<Tp> { enum { elem = 1 }; };
template <> struct Fails<Tq> { enum { elem = 1 }; };
#if VF_EXC
template <> struct Fails<Th> { enum { elem = 1 }; };
template <> struct Fails<Tm> { enum { elem = 1 }; };
#endif
template <class T> struct HasEq { enum { value = 1 }; };
template <> struct HasEq<SP> { enum { value = 0 }; };

// types whose move constructor marks the source
template <class T> struct Moved { enum { value = 0 }; };
template <> struct Moved<Tr> { enum { value = 1 }; };
template <> struct Moved<Tq> { enum { value = 1 }; };
#if VF_EXC
template <> struct Moved<Th> { enum { value = 1 }; };
template <> struct Moved<Tm> { enum { value = 1 }; };
#endif
template <class T> inline void taken(const char* name, const T& source)
{
    if (Moved<T>::value) VF_CHECK(vf::XFER, ET<T>::get(source).key == K_MOVED, "%s of a temporary copied it instead of moving it", name);
}
template <class T> inline void untouched(const char* name, const T& source, const Val& v)
{
    VF_CHECK(vf::XFER | vf::CONTENT, ET<T>::get(source) == v, "%s changed its argument from %s to %s", name, show(v).c_str(), show(ET<T>::get(source)).c_str());
}

template <class Err> struct MachBase
{
    vf::Src& s;
    int tagseq;
    unsigned fault_rate;       // in 1/16 per operation
    bool can_alloc, can_elem;
    int force_kind; long force_k; bool forced_fired;
    int ncode;
    unsigned steps;
    std::vector<unsigned char> enabled;

    explicit MachBase(vf::Src& src)
        : s(src), tagseq(0), fault_rate(0), can_alloc((g_kinds & 1) != 0), can_elem((g_kinds & 2) != 0), force_kind(0), force_k(0), forced_fired(false), ncode(0), steps(0) {}

    void swarm(unsigned nops)
    {
        enabled.assign(nops, 1);
        if (s.draw(3) == 0) return;
        for (unsigned i = 0; i < nops; ++i) enabled[i] = s.draw(2) == 0;
    }
    unsigned pick_op(const unsigned char* weights, unsigned nops)
    {
        unsigned total = 0;
        for (unsigned i = 0; i < nops; ++i) total += enabled[i] ? weights[i] : 0;
        if (!total) return 0;
        unsigned x = s.draw(total);
        for (unsigned i = 0; i < nops; ++i)
        {
            unsigned wt = enabled[i] ? weights[i] : 0;
            if (x < wt) return i;
            x -= wt;
        }
        return 0;
    }

    // Runs one fallible operation, possibly under an armed fault. Returns true if it reported an error.
    template <class Exec> bool attempt(const char* name, Exec& ex, bool armable, bool& alloc)
    {
        World& w = W();
        Err err;
        int kind = 0; long k = -1;
        if (armable && force_kind) { kind = force_kind; k = force_k; }
        else if (armable && fault_rate && (can_alloc || can_elem) && s.coin(fault_rate, 16))
        {
            kind = (can_elem && (!can_alloc || s.draw(2))) ? 2 : 1;
            k = (long)s.small(12);
        }
        w.clear_fired();
        w.code = ++ncode % 1000 + 1;
        if (kind == 1) vf::g_nt.fail_in = k;
        if (kind == 2) w.elem_fail_in = k;
        if (kind) VF_NOTE("   (armed: %s number %ld fails)", kind == 1 ? "allocation" : "element construction", k);
        ex(err);
        w.disarm();
        bool fired = w.fired();
        alloc = w.alloc_fired();
        EInfo e = einfo(err);
        vf::tr("error kind", e.kind); vf::tr("error code", e.code); vf::tr("injected failure fired", fired);
        if (fired)
        {
            vf::hit(alloc ? "allocation failure injected" : "element failure injected");
            ev(EV_FAULT);
            VF_CHECK(vf::ERR, e.kind != E_NONE, "%s: an injected %s failure was not reported: the error object is clear", name, alloc ? "allocation" : "element");
            VF_CHECK(vf::ERR, e.kind == (alloc ? E_BADALLOC : E_CUSTOM), "%s: an injected %s failure was reported as %s", name, alloc ? "allocation" : "element", ekind(e.kind));
            VF_CHECK(vf::ERR, alloc || e.code == w.code, "%s: the element failed with code %d but the error object holds code %d", name, w.code, e.code);
        }
        else VF_CHECK(vf::ERR, e.kind == E_NONE, "%s: reported %s although nothing failed", name, ekind(e.kind));
        if (armable && force_kind) { forced_fired = fired; force_kind = 0; }
        return e.kind != E_NONE;
    }
};

// ------------------------------------------------------------------ helpers over sequences of values
typedef std::vector<Val> Seq;
inline bool is_prefix(const Seq& a, const Seq& b, size_t from = 0)   // a is a prefix of b[from..]
{
    if (a.size() + from > b.size()) return false;
    return std::equal(a.begin(), a.end(), b.begin() + from);
}
inline bool is_subseq(const Seq& a, const Seq& b)
{
    size_t j = 0;
    for (size_t i = 0; i < a.size(); ++i)
    {
        while (j < b.size() && b[j] != a[i]) ++j;
        if (j == b.size()) return false;
        ++j;
    }
    return true;
}
// actual is pre with some prefix of ins inserted at pos
inline bool is_prefix_inserted(const Seq& actual, const Seq& pre, size_t pos, const Seq& ins)
{
    if (actual.size() < pre.size()) return false;
    size_t k = actual.size() - pre.size();
    if (k > ins.size()) return false;
    return std::equal(pre.begin(), pre.begin() + pos, actual.begin())
        && std::equal(ins.begin(), ins.begin() + k, actual.begin() + pos)
        && std::equal(pre.begin() + pos, pre.end(), actual.begin() + pos + k);
}

} // namespace VM

#endif
