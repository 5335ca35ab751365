// PARTS 3
// Const operations write nothing, and separate objects share nothing: both may be used by several threads at once.
#include "machine.hpp"
#include <pthread.h>
#include <set>

#if PART == 0
VF_PROPERTY_CFG(vf::MISC, 0, 0, false)
#endif
namespace VM
{
typedef std::vector<uint32_t> Choices;
struct Tape                   // choices drawn beforehand, used by one thread
{
    const Choices& c; size_t i;
    explicit Tape(const Choices& x) : c(x), i(0) {}
    bool more() const { return i < c.size(); }
    uint32_t draw(uint32_t n) { uint32_t v = i < c.size() ? c[i] : 0; ++i; return n ? v % n : 0; }
};
template <class T> struct El;
template <> struct El<int> { static int make(uint32_t v) { return (int)(v % 40); } static int key(const int& x) { return x; } };
struct Pair { int k; long w[3]; };
inline bool operator<(const Pair& a, const Pair& b) { return a.k < b.k; }
inline bool operator==(const Pair& a, const Pair& b) { return a.k == b.k && a.w[2] == b.w[2]; }
template <> struct El<Pair> { static Pair make(uint32_t v) { Pair p = { (int)(v % 40), { 1, 2, (long)(v % 40) * 3 } }; return p; } static int key(const Pair& p) { return p.w[2] == p.k * 3L ? p.k : -1; } };

#define REQ(c, what) do { if (!(c)) VF_FAIL("a thread that runs beside others: %s", what); } while (0)

// what the const interface of a container shows
template <class C> static std::vector<int> keys(const C& c)
{
    std::vector<int> r;
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) r.push_back(El<typename C::value_type>::key(*i));
    return r;
}
template <class C> static std::vector<int> rkeys(const C& c)
{
    std::vector<int> r;
    for (typename C::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i) r.push_back(El<typename C::value_type>::key(*i));
    std::reverse(r.begin(), r.end());
    return r;
}
template <class T> struct Shared
{
    nestl::vector<T> v, v2; nestl::list<T> l, l2; nestl::set<T> s; nestl::shared_ptr<T> p; nestl::shared_ptr<const T> q;
    std::vector<int> mv, ml, ms; int mp;
};
template <class T> static void read_shared(Tape& t, const Shared<T>& x)
{
    T val = El<T>::make(t.draw(40));
    nestl::default_operation_error err;
    switch (t.draw(16))
    {
    case 0: REQ(keys(x.v) == x.mv && x.v.size() == x.mv.size() && x.v.empty() == x.mv.empty() && x.v.capacity() >= x.mv.size(), "a vector that is only read has the wrong content"); break;
    case 1: REQ(rkeys(x.v) == x.mv && x.v.max_size() > 0, "a vector that is only read has the wrong content in reverse"); break;
    case 2: if (!x.mv.empty()) REQ(El<T>::key(x.v.front()) == x.mv.front() && El<T>::key(x.v.back()) == x.mv.back() && x.v.data() == &x.v[0], "front or back of a vector that is only read"); break;
    case 3: REQ(keys(x.l) == x.ml && (size_t)x.l.size() == x.ml.size() && x.l.empty() == x.ml.empty(), "a list that is only read has the wrong content"); break;
    case 4: REQ(rkeys(x.l) == x.ml, "a list that is only read has the wrong content in reverse"); break;
    case 5: if (!x.ml.empty()) REQ(El<T>::key(x.l.front()) == x.ml.front() && El<T>::key(x.l.back()) == x.ml.back(), "front or back of a list that is only read"); break;
    case 6: REQ(keys(x.s) == x.ms && (size_t)x.s.size() == x.ms.size() && x.s.empty() == x.ms.empty(), "a set that is only read has the wrong content"); break;
    case 7: REQ(rkeys(x.s) == x.ms, "a set that is only read has the wrong content in reverse"); break;
    case 8: case 9: { typename nestl::set<T>::const_iterator i = x.s.find(val); bool in = std::binary_search(x.ms.begin(), x.ms.end(), El<T>::key(val)); REQ((i != x.s.end()) == in && (!in || El<T>::key(*i) == El<T>::key(val)), "find in a set that is only read"); break; }
    case 10: { nestl::vector<T> c; c.copy_nothrow(err, x.v); REQ(!err && keys(c) == x.mv, "a copy of a vector that is only read"); break; }
    case 11: { nestl::list<T> c; c.copy_nothrow(err, x.l); REQ(!err && keys(c) == x.ml, "a copy of a list that is only read"); break; }
    case 12: { nestl::set<T> c; c.copy_nothrow(err, x.s); REQ(!err && keys(c) == x.ms, "a copy of a set that is only read"); break; }
    case 13: REQ(x.v == x.v2 && x.l == x.l2, "comparing containers that are only read"); break;
    case 14: REQ(x.p && El<T>::key(*x.p) == x.mp && El<T>::key(*x.p.get()) == x.mp && x.p.use_count() == 2 && !x.p.unique(), "a shared pointer that is only read"); break;
    default: { nestl::allocator<T> a(x.v.get_allocator()), b(x.l.get_allocator()); (void)a; (void)b; break; }
    }
}
// a history of its own
template <class T> static void own(Tape& t, const Shared<T>& x, bool with_shared)
{
    typedef nestl::vector<T> V; typedef nestl::list<T> L; typedef nestl::set<T> S;
    V v; std::vector<int> mv;
    L l; std::vector<int> ml;
    S s; std::set<int> ms;
    nestl::shared_ptr<T> p[3]; nestl::weak_ptr<T> w; int mp[3] = { -1, -1, -1 };
    while (t.more())
    {
        if (with_shared && t.draw(3) == 0) { read_shared(t, x); continue; }
        nestl::default_operation_error err;
        T val = El<T>::make(t.draw(40));
        int k = El<T>::key(val);
        switch (t.draw(26))
        {
        case 0: v.push_back_nothrow(err, val); mv.push_back(k); break;
        case 1: { size_t at = t.draw((uint32_t)mv.size() + 1); v.insert_nothrow(err, v.cbegin() + at, val); mv.insert(mv.begin() + at, k); break; }
        case 2: v.reserve_nothrow(err, t.draw(60)); break;
        case 3: { size_t n = t.draw(20); v.assign_nothrow(err, n, val); mv.assign(n, k); break; }
        case 4: { size_t n = t.draw(20); v.resize_nothrow(err, n, val); mv.resize(n, k); break; }
        case 5: v.clear(); mv.clear(); break;
        case 6: { V o; o.copy_nothrow(err, v); o.push_back_nothrow(err, val); v.swap(o); mv.push_back(k); break; }
        case 7: { V o(std::move(v)); v = std::move(o); break; }
        case 8: { nestl::default_operation_error big; v.reserve_nothrow(big, v.max_size()); REQ(!!big, "an impossible reservation succeeded"); break; }
        case 9: l.push_back_nothrow(err, val); ml.push_back(k); break;
        case 10: l.push_front_nothrow(err, val); ml.insert(ml.begin(), k); break;
        case 11: { size_t n = t.draw(20); l.assign_nothrow(err, n, val); ml.assign(n, k); break; }
        case 12: if (!ml.empty()) { l.pop_front(); ml.erase(ml.begin()); } break;
        case 13: if (!ml.empty()) { l.pop_back(); ml.pop_back(); } break;
        case 14: l.sort(); std::stable_sort(ml.begin(), ml.end()); break;
        case 15: { L o; o.copy_nothrow(err, l); l.sort(); o.sort(); l.merge(o); std::vector<int> d(ml); ml.insert(ml.end(), d.begin(), d.end()); std::sort(ml.begin(), ml.end()); if (ml.size() > 40) { l.clear(); ml.clear(); } break; }
        case 16: { L o; o.push_back_nothrow(err, val); l.splice(l.cbegin(), o); ml.insert(ml.begin(), k); break; }
        case 17: if (!ml.empty()) { size_t at = t.draw((uint32_t)ml.size()); typename L::iterator i = l.begin(); for (size_t j = 0; j < at; ++j) ++i; l.erase(i); ml.erase(ml.begin() + at); } break;
        case 18: { L o(std::move(l)); l = std::move(o); L e; e.swap(l); l.swap(e); break; }
        case 19: case 20: REQ(s.insert_nothrow(err, val).second == ms.insert(k).second, "insertion into its own set"); break;
        case 21: REQ((size_t)s.erase(val) == ms.erase(k), "erasure from its own set"); break;
        case 22: { S o; o.copy_nothrow(err, s); s.clear(); REQ((size_t)o.size() == ms.size(), "copy of its own set"); s = std::move(o); break; }
        case 23: { int i = (int)t.draw(3); p[i] = nestl::make_shared_nothrow<T>(err, val); mp[i] = k; break; }
        case 24: { int i = (int)t.draw(3), j = (int)t.draw(3); p[i] = p[j]; mp[i] = mp[j]; break; }
        default: { int i = (int)t.draw(3); w = p[i]; nestl::shared_ptr<T> q(w.lock()); REQ((q.get() == 0) == (mp[i] < 0) && (mp[i] < 0 || El<T>::key(*q) == mp[i]), "locking its own weak pointer"); break; }
        }
        REQ(!err, "an operation reported an error");
        REQ(keys(v) == mv, "its own vector has the wrong content");
        REQ(keys(l) == ml, "its own list has the wrong content");
        REQ(keys(s) == std::vector<int>(ms.begin(), ms.end()), "its own set has the wrong content");
        if (mv.size() > 60) { v.clear(); mv.clear(); }
    }
}
template <class T> struct Job { const Choices* c; const Shared<T>* x; bool with_shared; };
template <class T> static void* run_job(void* a)
{
    Job<T>* j = static_cast<Job<T>*>(a);
    Tape t(*j->c);
    own<T>(t, *j->x, j->with_shared);
    return 0;
}
template <class T> static void threads(vf::Src& s)
{
    W().reset();
    vf::g_nt.enabled = false;
    {
        Shared<T> x;
        nestl::default_operation_error err;
        unsigned n = s.draw(12) == 11 ? s.draw(200) : s.draw(20);
        std::set<int> seen;
        for (unsigned i = 0; i < n; ++i)
        {
            T val = El<T>::make(s.draw(40));
            int k = El<T>::key(val);
            x.v.push_back_nothrow(err, val); x.mv.push_back(k);
            x.l.push_front_nothrow(err, val); x.ml.insert(x.ml.begin(), k);
            x.s.insert_nothrow(err, val); seen.insert(k);
            if (s.draw(6) == 5) { x.l.sort(); std::stable_sort(x.ml.begin(), x.ml.end()); }
            if (s.draw(6) == 5) { T d = El<T>::make(s.draw(40)); x.s.erase(d); seen.erase(El<T>::key(d)); }
        }
        x.v2.copy_nothrow(err, x.v); x.l2.copy_nothrow(err, x.l);
        x.ms.assign(seen.begin(), seen.end());
        T pv = El<T>::make(s.draw(40));
        x.p = nestl::make_shared_nothrow<T>(err, pv); x.mp = El<T>::key(pv);
        nestl::shared_ptr<T> second(x.p);
        if (err) VF_FAIL("harness could not build the shared containers");
        unsigned nt = 2 + s.draw(2);
        bool with_shared = s.draw(4) != 3;
        VF_NOTE("shared containers with up to %u elements, %u threads%s", n, nt, with_shared ? "" : " that do not use them");
        std::vector<Choices> ch(nt);
        std::vector<Job<T> > jobs(nt);
        bool three = true;
        for (unsigned i = 0; i < nt; ++i)
        {
            unsigned ops = s.small(30);
            if (ops < 3) three = false;
            for (unsigned j = 0; j < ops * 3; ++j) ch[i].push_back(s.draw(26 * 40 * 16 * 3));
            std::string d;
            if (vf::tracing()) for (size_t j = 0; j < ch[i].size(); ++j) { char b[16]; snprintf(b, sizeof b, " %u", ch[i][j]); d += b; }
            VF_NOTE("thread %u: choices%s", i, d.c_str());
            Job<T> jb = { &ch[i], &x, with_shared };
            jobs[i] = jb;
        }
        if (three) vf::nontrivial();
        vf::hit("threads ran side by side");
        std::vector<pthread_t> th(nt);
        for (unsigned i = 0; i < nt; ++i) if (pthread_create(&th[i], 0, &run_job<T>, &jobs[i])) VF_FAIL("harness could not start a thread");
        for (unsigned i = 0; i < nt; ++i) pthread_join(th[i], 0);
    }
}
#if PART == 0
VF_SCENARIO_T(threads_int, 2, threads<int>);
#elif PART == 1
VF_SCENARIO_T(threads_pair, 1, threads<Pair>);
#else
// re-entry: while one container works, its element or comparator uses another container
struct Hook { void (*fn)(void*); void* arg; bool busy; };
inline Hook& hook() { static Hook h; return h; }
inline void poke() { Hook& h = hook(); if (h.fn && !h.busy) { h.busy = true; h.fn(h.arg); h.busy = false; } }
struct Re
{
    int k;
    Re() noexcept : k(0) { poke(); }
    explicit Re(int x) noexcept : k(x) {}
    Re(const Re& o) noexcept : k(o.k) { poke(); }
    Re(Re&& o) noexcept : k(o.k) { poke(); }
    Re& operator=(const Re& o) noexcept { k = o.k; poke(); return *this; }
    ~Re() { poke(); }
};
inline bool operator<(const Re& a, const Re& b) { poke(); return a.k < b.k; }
inline bool operator==(const Re& a, const Re& b) { poke(); return a.k == b.k; }
template <> struct El<Re> { static Re make(uint32_t v) { return Re((int)(v % 40)); } static int key(const Re& x) { return x.k; } };
struct Inner { Tape* t; nestl::vector<Re> v; nestl::list<Re> l; nestl::set<Re> s; std::vector<int> mv, ml; std::set<int> ms; };
static void inner_step(void* a)
{
    Inner& in = *static_cast<Inner*>(a);
    Tape& t = *in.t;
    if (!t.more() || t.draw(4)) return;
    nestl::default_operation_error err;
    Re val((int)t.draw(40));
    switch (t.draw(8))
    {
    case 0: in.v.push_back_nothrow(err, val); in.mv.push_back(val.k); break;
    case 1: in.v.insert_nothrow(err, in.v.cbegin(), val); in.mv.insert(in.mv.begin(), val.k); break;
    case 2: in.v.resize_nothrow(err, 3, val); in.mv.resize(3, val.k); break;
    case 3: in.l.push_back_nothrow(err, val); in.ml.push_back(val.k); break;
    case 4: in.l.sort(); std::stable_sort(in.ml.begin(), in.ml.end()); break;
    case 5: { nestl::list<Re> o; o.copy_nothrow(err, in.l); in.l.swap(o); break; }
    case 6: in.s.insert_nothrow(err, val); in.ms.insert(val.k); break;
    default: in.s.erase(val); in.ms.erase(val.k); break;
    }
    if (err) VF_FAIL("an operation run while another container was busy reported an error");
}
static void reentry(vf::Src& s)
{
    W().reset();
    vf::g_nt.enabled = false;
    {
        Choices outer, inner;
        unsigned ops = s.small(30);
        for (unsigned j = 0; j < ops * 3; ++j) { outer.push_back(s.draw(26 * 40 * 16 * 3)); inner.push_back(s.draw(4 * 40 * 8)); inner.push_back(s.draw(4 * 40 * 8)); }
        Tape to(outer), ti(inner);
        Inner in;
        in.t = &ti;
        Shared<Re> none;
        VF_NOTE("%u operations on one set of containers while elements and orderings use another", ops);
        if (ops >= 3) vf::nontrivial();
        hook().arg = &in; hook().busy = false; hook().fn = &inner_step;
        own<Re>(to, none, false);
        hook().fn = 0;
        VF_CHECK(vf::MISC, keys(in.v) == in.mv && keys(in.l) == in.ml && keys(in.s) == std::vector<int>(in.ms.begin(), in.ms.end()), "containers used while others were busy have the wrong content");
    }
}
VF_SCENARIO_T(reentry_Re, 1, reentry);
#endif
}
