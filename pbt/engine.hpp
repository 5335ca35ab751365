// Choice-sequence property-based testing engine (C++11, usable with -fno-exceptions).
// A case is a function of a sequence of bounded choices; failing sequences are shrunk
// by the engine (in forked children) and written to a replay file.
#ifndef VF_ENGINE_HPP
#define VF_ENGINE_HPP

#include <stdint.h>
#include <stddef.h>
#include <vector>
#include <string>

namespace vf
{

class Src
{
public:
    uint32_t draw(uint32_t n);              // uniform in [0, n); 0 is the simplest choice
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
    bool coin(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
    uint32_t small(uint32_t max);           // skewed towards small values, in [0, max]
    int32_t value();                        // integers with boundary values, biased to small magnitudes
    size_t mark() const { return m_pos; }
    void rewind(size_t pos) { m_pos = pos; }

    // engine side
    enum Mode { Random, Replay, Bytes };
    Mode m_mode;
    uint64_t m_state;
    std::vector<uint32_t> m_ch;
    size_t m_pos;
    size_t m_max;
    const uint8_t* m_data;
    size_t m_size;
    size_t m_off;
    Src() : m_mode(Replay), m_state(0), m_pos(0), m_max(0), m_data(0), m_size(0), m_off(0) {}
private:
    uint64_t next();
};

typedef void (*ScenarioFn)(Src&);
struct Register
{
    Register(const char* name, unsigned weight, ScenarioFn fn);
};

// check categories; a harness switches on those that belong to its property
enum Cat
{
    CONTENT = 1u << 0,   // element sequence equals the model
    RESULT  = 1u << 1,   // returned iterators / flags / counts
    LIFE    = 1u << 2,   // element life cycle
    BLOCK   = 1u << 3,   // memory block balance
    ARENA   = 1u << 4,   // allocator instance fidelity
    GUAR    = 1u << 5,   // state after a failed operation
    ERR     = 1u << 6,   // error object
    CAP     = 1u << 7,   // capacity promises
    XFER    = 1u << 8,   // moves and swaps do not touch elements
    STAB    = 1u << 9,   // address / iterator stability
    AFTER   = 1u << 10,  // CONTENT, but only once a fault has fired in this case
    MISC    = 1u << 11,  // property-specific checks
    RETRY   = 1u << 12,  // a failed operation succeeds when repeated
    COST    = 1u << 13,  // operation counts
    WALK    = 1u << 14,  // iterator walks
    ALIGN   = 1u << 16,  // addresses of elements suit their type
    NOFAIL  = 1u << 15   // operations that cannot report a failure need nothing that can fail
};

extern unsigned g_mask;          // active categories, set by the harness
extern bool g_fault_seen;        // a fault fired in the current case
extern const char* g_property;   // "C01"
inline bool on(unsigned cat)
{
    return (g_mask & cat) != 0 || ((cat & CONTENT) && (g_mask & AFTER) && g_fault_seen);
}

__attribute__((noreturn, format(printf, 3, 4)))
void fail_at(const char* file, int line, const char* fmt, ...);

// transcript of observable behaviour, recorded while g_tr is set (C16 compares two of them)
struct TrItem { const char* what; long long v; };
extern std::vector<TrItem>* g_tr;
inline void tr(const char* what, long long v) { if (g_tr) { TrItem i = { what, v }; g_tr->push_back(i); } }
inline void tr_check(unsigned cat, int line)
{
    if (g_tr && (cat & (CONTENT | RESULT | GUAR | ERR | RETRY | CAP | MISC))) tr("outcome of a check at line", line);
}

bool tracing();
__attribute__((format(printf, 1, 2)))
void note(const char* fmt, ...);
void hit(const char* label);     // label must be a string literal
void nontrivial();

// tracking of blocks from ::operator new(size_t, nothrow), which nestl::allocator uses
struct Nothrow
{
    bool enabled;
    long fail_in;         // <0: never; 0: the next one fails
    bool fired;
    size_t limit;         // larger requests fail
    size_t live;          // outstanding blocks
    size_t calls;
    size_t largest;       // largest request seen
    size_t last;          // last request seen
    bool dry;             // every request fails and is counted
    size_t dry_hits;
};
extern Nothrow g_nt;
void nt_reset();

void before_case();              // provided by the engine: resets per-case state
bool has_option(const char* name);

// open-addressing pointer table that never calls operator new
class PtrTable
{
public:
    struct Rec { void* p; size_t n; size_t esz; long arena; };
    PtrTable();
    ~PtrTable();
    void put(const Rec& r);
    Rec* get(void* p);
    bool del(void* p);
    void clear();
    size_t size() const { return m_count; }
private:
    Rec* m_tab; size_t m_cap; size_t m_count; size_t m_used;
    void grow();
    PtrTable(const PtrTable&);
    PtrTable& operator=(const PtrTable&);
};

} // namespace vf

#define VF_FAIL(...) ::vf::fail_at(__FILE__, __LINE__, __VA_ARGS__)
#define VF_CHECK(cat, cond, ...) do { if (!(cond)) { if (::vf::on(cat)) ::vf::fail_at(__FILE__, __LINE__, __VA_ARGS__); ::vf::tr_check(cat, __LINE__); } } while (0)
#define VF_NOTE(...) do { if (::vf::tracing()) ::vf::note(__VA_ARGS__); } while (0)
#define VF_SCENARIO(name, weight) \
    static void name(::vf::Src& s); \
    static ::vf::Register reg_##name(#name, weight, &name); \
    static void name(::vf::Src& s)
#define VF_SCENARIO_T(name, weight, ...) \
    static ::vf::Register reg_##name(#name, weight, &__VA_ARGS__)

#endif
