// PARTS 2
// The stack an operation needs does not grow with the number of elements.
#include "machine.hpp"
#include <pthread.h>
#include <sys/mman.h>
#include <set>

#if PART == 0
VF_PROPERTY_CFG(vf::MISC, 0, 0, false)
#endif
#if defined(__clang__)
#define VF_RAW __attribute__((no_sanitize("address"), noinline))
#else
#define VF_RAW __attribute__((no_sanitize_address, noinline))
#endif
namespace VM
{
// a thread on a painted stack: how deep it got is read off afterwards, running over the end is a fault
static const size_t stack_size = 1u << 20, stack_limit = 96u << 10;
VF_RAW static void paint(unsigned char* p, size_t n) { volatile uint64_t* q = (volatile uint64_t*)p; for (size_t i = 0; i < n / 8; ++i) q[i] = 0xA5A5A5A5A5A5A5A5ull; }
VF_RAW static size_t depth(const unsigned char* p, size_t n) { const volatile uint64_t* q = (const volatile uint64_t*)p; size_t i = 0; while (i < n / 8 && q[i] == 0xA5A5A5A5A5A5A5A5ull) ++i; return n - i * 8; }
static unsigned char* the_stack()
{
    static unsigned char* p = 0;
    if (!p)
    {
        void* m = mmap(0, stack_size + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
        if (m == MAP_FAILED) VF_FAIL("harness could not map a stack");
        mprotect(m, 65536, PROT_NONE);
        p = (unsigned char*)m + 65536;
        paint(p, stack_size);
    }
    return p;
}
static size_t dirty = stack_size;           // how much of the stack may differ from the paint
struct Call { void (*fn)(void*); void* arg; };
static void* start(void* a) { Call* c = static_cast<Call*>(a); c->fn(c->arg); return 0; }
static void on_small_stack(void (*fn)(void*), void* arg, const char* what, size_t n)
{
    unsigned char* st = the_stack();
    paint(st + stack_size - dirty, dirty);
    Call c = { fn, arg };
    pthread_attr_t at;
    pthread_attr_init(&at);
    if (pthread_attr_setstack(&at, st, stack_size)) VF_FAIL("harness could not set a stack");
    pthread_t th;
    if (pthread_create(&th, &at, &start, &c)) VF_FAIL("harness could not start a thread");
    pthread_join(th, 0);
    pthread_attr_destroy(&at);
    dirty = depth(st, stack_size);
    VF_NOTE("%s: %zu bytes of stack", what, dirty);
    VF_CHECK(vf::MISC, dirty <= stack_limit, "%s with %zu elements needed %zu bytes of stack (allowed: %zu)", what, n, dirty, (size_t)stack_limit);
}

struct El27 { int k; int serial; };
struct Less27 { bool operator()(const El27& a, const El27& b) const { return a.k < b.k; } };
inline bool operator==(const El27& a, const El27& b) { return a.k == b.k && a.serial == b.serial; }
inline bool operator<(const El27& a, const El27& b) { return a.k < b.k; }

struct St
{
    typedef nestl::vector<El27> V; typedef nestl::list<El27> L; typedef nestl::set<El27, Less27> S;
    V v; L l, l2; S s;
    std::vector<El27> in;         // elements to be put in
    size_t k;                     // a position
    nestl::shared_ptr<El27> p; std::vector<nestl::weak_ptr<El27> > w; std::vector<nestl::shared_ptr<El27> > o;
    bool ok;
    St() : k(0), ok(true) {}
};
typedef nestl::default_operation_error Err;
#define OP(name) static void name(void* a)
#define IN St& x = *static_cast<St*>(a); Err err; (void)err
#define OUT x.ok = x.ok && !err
OP(v_push) { IN; for (size_t i = 0; i < x.in.size(); ++i) x.v.push_back_nothrow(err, x.in[i]); OUT; }
OP(v_assign) { IN; x.v.assign_nothrow(err, x.in.begin(), x.in.end()); OUT; }
OP(v_fill) { IN; El27 e = { 1, 2 }; x.v.assign_nothrow(err, x.in.size(), e); OUT; }
OP(v_resize) { IN; El27 e = { 1, 2 }; x.v.resize_nothrow(err, x.v.size() / 2 + x.in.size(), e); OUT; }
OP(v_insert) { IN; size_t n = x.in.size() < 500 ? x.in.size() : 500; x.v.insert_nothrow(err, x.v.cbegin() + x.k % (x.v.size() + 1), x.in.begin(), x.in.begin() + n); OUT; }
OP(v_insert1) { IN; El27 e = { 1, 2 }; x.v.insert_nothrow(err, x.v.cbegin() + x.k % (x.v.size() + 1), e); OUT; }
OP(v_copy) { IN; St::V c; c.copy_nothrow(err, x.v); x.ok = x.ok && c == x.v; x.v.swap(c); OUT; }
OP(v_move) { IN; St::V c(std::move(x.v)); x.v = std::move(c); OUT; }
OP(v_fit) { IN; x.v.shrink_to_fit_nothrow(err); OUT; }
OP(v_clear) { IN; x.v.clear(); OUT; }
OP(v_die) { IN; St::V c; c.swap(x.v); OUT; }
OP(l_push) { IN; for (size_t i = 0; i < x.in.size(); ++i) { if (x.k & 1) x.l.push_back_nothrow(err, x.in[i]); else x.l.push_front_nothrow(err, x.in[i]); } OUT; }
OP(l_assign) { IN; x.l.assign_nothrow(err, x.in.begin(), x.in.end()); OUT; }
OP(l_fill) { IN; El27 e = { 1, 2 }; x.l.assign_nothrow(err, x.in.size(), e); OUT; }
OP(l_insert) { IN; x.l.insert_nothrow(err, x.k & 1 ? x.l.cbegin() : x.l.cend(), x.in.begin(), x.in.end()); OUT; }
OP(l_insertn) { IN; El27 e = { 7, 2 }; x.l.insert_nothrow(err, x.k & 1 ? x.l.cbegin() : x.l.cend(), x.in.size(), e); OUT; }
OP(l_sort) { IN; x.l.sort(); OUT; }
OP(l_sortl) { IN; x.l.sort(Less27()); OUT; }
OP(l_merge) { IN; x.l2.copy_nothrow(err, x.l); x.l.sort(); x.l2.sort(); if (x.k & 1) x.l.merge(x.l2); else x.l.merge(x.l2, Less27()); OUT; }
OP(l_splice) { IN; x.l2.copy_nothrow(err, x.l); x.l.splice(x.k & 1 ? x.l.cbegin() : x.l.cend(), x.l2); OUT; }
OP(l_splicer) { IN; x.l2.copy_nothrow(err, x.l); x.l.splice(x.k & 1 ? x.l.cbegin() : x.l.cend(), x.l2, x.l2.cbegin(), x.l2.cend()); OUT; }
OP(l_copy) { IN; St::L c; c.copy_nothrow(err, x.l); x.ok = x.ok && c == x.l && (size_t)c.size() == (size_t)x.l.size(); x.l.swap(c); OUT; }
OP(l_move) { IN; St::L c(std::move(x.l)); x.l2 = std::move(c); x.l.swap(x.l2); OUT; }
OP(l_erase) { IN; St::L::const_iterator b = x.l.cbegin(), e = x.l.cend(); if (b != e) ++b; x.l.erase(b, e); OUT; }
OP(l_pop) { IN; while (!x.l.empty()) { if (x.k & 1) x.l.pop_back(); else x.l.pop_front(); } OUT; }
OP(l_clear) { IN; x.l.clear(); OUT; }
OP(l_die) { IN; St::L c; c.swap(x.l); OUT; }
OP(s_insert) { IN; for (size_t i = 0; i < x.in.size(); ++i) x.s.insert_nothrow(err, x.in[i]); OUT; }
OP(s_find) { IN; for (size_t i = 0; i < x.in.size(); i += 7) x.s.find(x.in[i]); OUT; }
OP(s_erase) { IN; for (size_t i = 0; i < x.in.size(); i += 2) x.s.erase(x.in[i]); OUT; }
OP(s_erasep) { IN; size_t n = x.s.size() / 2; while (n--) x.s.erase(x.s.cbegin()); OUT; }
OP(s_walk) { IN; size_t n = 0; for (St::S::const_iterator i = x.s.begin(); i != x.s.end(); ++i) ++n; for (St::S::const_reverse_iterator i = x.s.rbegin(); i != x.s.rend(); ++i) --n; x.ok = x.ok && n == 0; }
OP(s_copy) { IN; St::S c; c.copy_nothrow(err, x.s); x.ok = x.ok && c.size() == x.s.size(); x.s = std::move(c); OUT; }
OP(s_clear) { IN; x.s.clear(); OUT; }
OP(s_die) { IN; St::S c(std::move(x.s)); OUT; }
OP(p_many) { IN; El27 e = { 1, 2 }; x.p = nestl::make_shared_nothrow<El27>(err, e); for (size_t i = 0; i < x.in.size(); ++i) { x.w.push_back(nestl::weak_ptr<El27>(x.p)); x.o.push_back(x.p); } x.p.reset(); x.ok = x.ok && (x.in.empty() || (size_t)x.o[0].use_count() == x.in.size()); x.o.clear(); x.w.clear(); OUT; }

struct Ent { void (*fn)(void*); const char* name; };
static const Ent vec_ops[] = { { v_push, "appending to a vector" }, { v_assign, "assigning a range to a vector" }, { v_fill, "assigning a count to a vector" }, { v_resize, "resizing a vector" }, { v_insert, "inserting a range into a vector" }, { v_insert1, "inserting into a vector" },
    { v_copy, "copying a vector" }, { v_move, "moving a vector" }, { v_fit, "shrinking a vector" }, { v_clear, "clearing a vector" }, { v_die, "destroying a vector" } };
static const Ent list_ops[] = { { l_push, "pushing into a list" }, { l_assign, "assigning a range to a list" }, { l_fill, "assigning a count to a list" }, { l_insert, "inserting a range into a list" }, { l_insertn, "inserting a count into a list" }, { l_sort, "sorting a list" }, { l_sortl, "sorting a list by an ordering" }, { l_merge, "merging lists" },
    { l_splice, "splicing a list" }, { l_splicer, "splicing a range of a list" }, { l_copy, "copying a list" }, { l_move, "moving a list" }, { l_erase, "erasing a range of a list" }, { l_pop, "popping from a list" }, { l_clear, "clearing a list" }, { l_die, "destroying a list" } };
static const Ent set_ops[] = { { s_insert, "inserting into a set" }, { s_insert, "inserting into a set" }, { s_find, "looking up in a set" }, { s_erase, "erasing keys from a set" }, { s_erasep, "erasing positions from a set" }, { s_walk, "walking over a set" }, { s_copy, "copying a set" }, { s_clear, "clearing a set" }, { s_die, "destroying a set" }, { p_many, "many pointers to one object" } };

static const size_t sizes[] = { 3, 100, 1000, 4000, 10000, 25000, 60000 };
static void fill(vf::Src& s, std::vector<El27>& in, size_t n)
{
    in.clear();
    unsigned how = s.draw(6);
    uint32_t r = 12345u + s.draw(1000) * 77u;
    for (size_t i = 0; i < n; ++i)
    {
        r = r * 1664525u + 1013904223u;
        int k = how == 0 ? (int)i : how == 1 ? (int)(n - i) : how == 2 ? (int)(r >> 8) : how == 3 ? 5 : how == 4 ? (int)(i % 50) * 1000 + (int)(i / 50) : (i & 1 ? (int)i : (int)(2 * n - i));
        El27 e = { k, (int)i };
        in.push_back(e);
    }
}
template <int W3> static void deep(vf::Src& s)
{
    W().reset();
    vf::g_nt.enabled = false;
    St x;
    unsigned ops = 1 + s.small(7);
    size_t most = 0;
    static const size_t nv = sizeof(vec_ops) / sizeof(Ent), nl = sizeof(list_ops) / sizeof(Ent), ns = sizeof(set_ops) / sizeof(Ent);
    for (unsigned i = 0; i < ops; ++i)
    {
        size_t n = sizes[s.draw(7)];
        const Ent& e = W3 == 0 ? vec_ops[s.draw(nv)] : W3 == 1 ? list_ops[s.draw(nl)] : set_ops[s.draw(ns)];
        fill(s, x.in, n);
        x.k = s.draw(1000);
        size_t held = W3 == 0 ? x.v.size() : W3 == 1 ? (size_t)x.l.size() : (size_t)x.s.size();
        if (held > 150000) { x.v.clear(); x.l.clear(); x.s.clear(); held = 0; }
        most = std::max(most, std::max(n, held));
        on_small_stack(e.fn, &x, e.name, std::max(n, held));
        VF_CHECK(vf::MISC, x.ok, "%s: a result is wrong or an error was reported", e.name);
    }
    x.l2.clear();
    if (most >= 4000) vf::nontrivial();
}
#if PART == 0
VF_SCENARIO_T(vectors, 1, deep<0>);
VF_SCENARIO_T(lists, 2, deep<1>);
#else
VF_SCENARIO_T(sets, 1, deep<2>);
#endif
}
