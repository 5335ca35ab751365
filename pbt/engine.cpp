#include "engine.hpp"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <new>
#include <set>

#ifndef VF_PROPERTY
#define VF_PROPERTY "C00"
#endif
#ifndef VF_MODE
#define VF_MODE "none"
#endif

extern "C" const char* __asan_default_options();
extern "C" const char* __asan_default_options()
{
    return "allocator_may_return_null=1:detect_leaks=0:exitcode=97:abort_on_error=0:"
           "hard_rss_limit_mb=2800:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:"
           "quarantine_size_mb=16:handle_abort=0:symbolize=0:detect_container_overflow=0:print_legend=0:print_scariness=0";
}
extern "C" const char* __ubsan_default_options();
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=97"; }
extern "C" const char* __tsan_default_options();
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=97:allocator_may_return_null=1:report_signal_unsafe=0:history_size=4:atexit_sleep_ms=0"; }

namespace vf
{

unsigned g_mask = 0;
std::vector<TrItem>* g_tr = 0;
bool g_fault_seen = false;
const char* g_property = VF_PROPERTY;
Nothrow g_nt = { false, -1, false, size_t(1) << 40, 0, 0, 0, 0, false, 0 };

// ---------------------------------------------------------------- pointer table
PtrTable::PtrTable() : m_tab(0), m_cap(0), m_count(0), m_used(0) {}
PtrTable::~PtrTable() { ::free(m_tab); }
static size_t ptr_hash(void* p)
{
    uint64_t x = (uint64_t)(uintptr_t)p;
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33;
    return (size_t)x;
}
static void* const TOMB = (void*)(uintptr_t)1;
void PtrTable::grow()
{
    size_t ncap = m_cap;
    if (m_count * 2 >= m_cap || m_cap == 0) ncap = m_cap ? m_cap * 2 : 256;
    Rec* nt = (Rec*)::calloc(ncap, sizeof(Rec));
    for (size_t i = 0; i < m_cap; ++i)
        if (m_tab[i].p && m_tab[i].p != TOMB)
        {
            size_t h = ptr_hash(m_tab[i].p) & (ncap - 1);
            while (nt[h].p) h = (h + 1) & (ncap - 1);
            nt[h] = m_tab[i];
        }
    ::free(m_tab);
    m_tab = nt; m_cap = ncap; m_used = m_count;
}
void PtrTable::put(const Rec& r)
{
    if ((m_used + 1) * 4 >= m_cap * 3) grow();
    size_t h = ptr_hash(r.p) & (m_cap - 1);
    while (m_tab[h].p && m_tab[h].p != TOMB) h = (h + 1) & (m_cap - 1);
    if (!m_tab[h].p) ++m_used;
    m_tab[h] = r;
    ++m_count;
}
PtrTable::Rec* PtrTable::get(void* p)
{
    if (!m_cap || !p) return 0;
    size_t h = ptr_hash(p) & (m_cap - 1);
    while (m_tab[h].p)
    {
        if (m_tab[h].p == p) return &m_tab[h];
        h = (h + 1) & (m_cap - 1);
    }
    return 0;
}
bool PtrTable::del(void* p)
{
    Rec* r = get(p);
    if (!r) return false;
    r->p = TOMB;
    --m_count;
    return true;
}
void PtrTable::clear()
{
    if (m_cap > 4096) { ::free(m_tab); m_tab = 0; m_cap = 0; }
    else if (m_cap) ::memset(m_tab, 0, m_cap * sizeof(Rec));
    m_count = m_used = 0;
}

static PtrTable* nt_table()
{
    static char buf[sizeof(PtrTable)] __attribute__((aligned(16)));
    static PtrTable* t = new (buf) PtrTable();
    return t;
}

void nt_reset()
{
    g_nt.enabled = false; g_nt.fail_in = -1; g_nt.fired = false; g_nt.limit = size_t(1) << 30;
    g_nt.live = 0; g_nt.calls = 0; g_nt.largest = 0; g_nt.last = 0; g_nt.dry = false; g_nt.dry_hits = 0;
    nt_table()->clear();
}

} // namespace vf

// replaced global allocation functions
void* operator new(size_t n)
{
    void* p = ::malloc(n ? n : 1);
    if (!p) { ::write(2, "harness out of memory\n", 22); ::_exit(90); }
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    using namespace vf;
    if (!g_nt.enabled) return ::malloc(n ? n : 1);
    ++g_nt.calls;
    g_nt.last = n;
    if (n > g_nt.largest) g_nt.largest = n;
    if (g_nt.dry) { ++g_nt.dry_hits; return 0; }
    if (g_nt.fail_in == 0) { g_nt.fail_in = -1; g_nt.fired = true; g_fault_seen = true; return 0; }
    if (g_nt.fail_in > 0) --g_nt.fail_in;
    if (n > g_nt.limit) return 0;
    void* p = ::malloc(n ? n : 1);
    if (!p) return 0;
    PtrTable::Rec r = { p, n, 1, -1 };
    nt_table()->put(r);
    ++g_nt.live;
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept
{
    using namespace vf;
    if (p && nt_table()->size() && nt_table()->del(p)) --g_nt.live;
    ::free(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
#if __cpp_sized_deallocation || defined(__clang__)
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#else
void operator delete(void* p, size_t) noexcept;
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept;
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

namespace vf
{

// ---------------------------------------------------------------- choice source
static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
uint64_t Src::next() { return splitmix(m_state); }

static uint32_t* g_rec = 0;       // shared memory: [0] = count, then choices
static const size_t REC_MAX = 1u << 19;

uint32_t Src::draw(uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t v;
    if (m_pos < m_ch.size()) v = m_ch[m_pos] % n;
    else
    {
        if (m_ch.size() >= REC_MAX - 8) v = 0;
        else
        {
            if (m_mode == Random) v = (uint32_t)(next() >> 11) % n;
            else if (m_mode == Bytes)
            {
                uint32_t x = 0;
                int k = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
                for (int i = 0; i < k; ++i) x = (x << 8) | (m_off < m_size ? m_data[m_off++] : 0);
                v = x % n;
            }
            else v = 0;
            m_ch.push_back(v);
            if (g_rec && m_ch.size() < REC_MAX) { g_rec[m_ch.size()] = v; g_rec[0] = (uint32_t)m_ch.size(); }
        }
    }
    ++m_pos;
    if (m_pos > m_max) m_max = m_pos;
    return v;
}

uint32_t Src::small(uint32_t max)
{
    if (max == 0) return 0;
    uint32_t c = draw(16);
    uint32_t lim = c < 6 ? 3 : c < 11 ? 8 : c < 14 ? 20 : c < 15 ? 70 : max;
    if (lim > max) lim = max;
    return draw(lim + 1);
}

int32_t Src::value()
{
    switch (draw(8))
    {
    case 0: case 1: case 2: return (int32_t)draw(8);
    case 3: case 4: return (int32_t)draw(100);
    case 5: return -(int32_t)draw(100);
    case 6: return (int32_t)draw(1000000);
    default:
    {
        static const int32_t edge[] = { 0, 1, -1, 2147483646, -2147483646, 65535, 65536, 255, 256, -128, 1073741824, -1073741824 };
        return edge[draw(sizeof(edge) / sizeof(edge[0]))];
    }
    }
}

// ---------------------------------------------------------------- scenarios and per-process state
struct Scen { const char* name; unsigned weight; ScenarioFn fn; };
static std::vector<Scen>& scens() { static std::vector<Scen> v; return v; }
Register::Register(const char* name, unsigned weight, ScenarioFn fn)
{
    Scen s = { name, weight, fn };
    scens().push_back(s);
}

static const int MAX_LABEL = 512;
static const int MAX_SCEN = 64;
static const size_t MAX_HASH = 1u << 18;
struct Worker
{
    volatile uint64_t cur;            // case index + 1; 0 = idle
    volatile int scen;
    uint64_t evals;
    uint64_t nontriv;
    uint64_t maxlen;
    uint64_t scen_evals[MAX_SCEN];
    uint64_t scen_first[MAX_SCEN];    // index + 1 of first nontrivial case, per scenario
    uint64_t scen_second[MAX_SCEN];
    struct { const char* name; uint64_t count; } labels[MAX_LABEL];
    uint64_t nhash;
    uint64_t hash[MAX_HASH];
};
struct Shared
{
    volatile int stop;
    char msg[4096];
    size_t tracelen;
    char trace[1 << 18];
    uint32_t rec[REC_MAX];
};
static Shared* g_sh = 0;
static Worker* g_w = 0;
static bool g_trace = false;
static bool g_case_nontriv = false;
static bool g_in_fuzzer = false;

bool tracing() { return g_trace; }
void note(const char* fmt, ...)
{
    if (!g_trace || !g_sh) return;
    size_t left = sizeof(g_sh->trace) - g_sh->tracelen;
    if (left < 600) return;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(g_sh->trace + g_sh->tracelen, 500, fmt, ap);
    va_end(ap);
    if (k > 499) k = 499;
    g_sh->tracelen += (size_t)k;
    g_sh->trace[g_sh->tracelen++] = '\n';
    g_sh->trace[g_sh->tracelen] = 0;
}
void hit(const char* label)
{
    if (!g_w) return;
    size_t h = ((uintptr_t)label >> 2) % MAX_LABEL;
    for (int i = 0; i < MAX_LABEL; ++i, h = (h + 1) % MAX_LABEL)
    {
        if (g_w->labels[h].name == label) { ++g_w->labels[h].count; return; }
        if (!g_w->labels[h].name) { g_w->labels[h].name = label; g_w->labels[h].count = 1; return; }
    }
}
void nontrivial() { g_case_nontriv = true; }

void fail_at(const char* file, int line, const char* fmt, ...)
{
    char buf[3000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    const char* base = strrchr(file, '/');
    base = base ? base + 1 : file;
    if (g_sh) snprintf(g_sh->msg, sizeof(g_sh->msg), "%s  [%s:%d]", buf, base, line);
    if (g_trace) note("FAIL: %s", buf);
    if (g_in_fuzzer) { fprintf(stderr, "VF-FAIL %s\n", buf); abort(); }
    _exit(99);
}

static uint64_t str_hash(const char* s)
{
    uint64_t h = 1469598103934665603ULL;
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ULL; }
    return h;
}

static void cpu_limit(int secs)
{
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, 0);
}
static int g_case_cpu = 20;

static int pick_scenario(uint64_t index)
{
    unsigned total = 0;
    for (size_t i = 0; i < scens().size(); ++i) total += scens()[i].weight;
    unsigned slot = (unsigned)((index + index / total) % total);
    for (size_t i = 0; i < scens().size(); ++i)
    {
        if (slot < scens()[i].weight) return (int)i;
        slot -= scens()[i].weight;
    }
    return 0;
}

static void seed_src(Src& s, uint64_t seed, int scen, uint64_t index)
{
    uint64_t st = seed * 0x9e3779b97f4a7c15ULL ^ str_hash(scens()[scen].name);
    splitmix(st);
    st ^= index * 0xd1342543de82ef95ULL;
    splitmix(st);
    s.m_mode = Src::Random;
    s.m_state = st;
}

static void run_one(int scen, Src& s)
{
    g_case_nontriv = false;
    g_fault_seen = false;
    nt_reset();
    cpu_limit(g_case_cpu);
    scens()[scen].fn(s);
    g_nt.enabled = false;
}

static void run_index(uint64_t seed, uint64_t index)
{
    int scen = pick_scenario(index);
    Src s;
    seed_src(s, seed, scen, index);
    g_w->scen = scen;
    g_w->cur = index + 1;
    run_one(scen, s);
    g_w->cur = 0;
    ++g_w->evals;
    ++g_w->scen_evals[scen];
    if (s.m_max > g_w->maxlen) g_w->maxlen = s.m_max;
    if (g_case_nontriv)
    {
        ++g_w->nontriv;
        if (!g_w->scen_first[scen]) g_w->scen_first[scen] = index + 1;
        else if (!g_w->scen_second[scen]) g_w->scen_second[scen] = index + 1;
        uint64_t h = str_hash(scens()[scen].name);
        for (size_t i = 0; i < s.m_ch.size() && i < s.m_max; ++i) { h ^= s.m_ch[i] + 0x9e3779b9; h *= 1099511628211ULL; h ^= h >> 29; }
        if (g_w->nhash < MAX_HASH) g_w->hash[g_w->nhash++] = h;
    }
}

static double now()
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Opt
{
    uint64_t seed; uint64_t cases; uint64_t mincases; double secs; double hard; int workers;
    const char* json; const char* replay; const char* out; const char* scenario; uint64_t start;
};

static void child_setup(int errfd)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    if (errfd >= 0) { dup2(errfd, 2); }
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) dup2(nul, 1);
}

// Runs one choice sequence (or one indexed case) in a child; returns true if it fails.
struct Outcome { bool failed; int status; bool timeout; };
static Outcome run_child(int scen, const std::vector<uint32_t>* ch, uint64_t seed, uint64_t index, bool trace, bool record, int errfd)
{
    g_sh->msg[0] = 0;
    g_sh->tracelen = 0; g_sh->trace[0] = 0;
    if (record) g_sh->rec[0] = 0;
    fflush(0);
    pid_t pid = fork();
    if (pid == 0)
    {
        child_setup(errfd);
        g_trace = trace;
        g_rec = record ? g_sh->rec : 0;
        Src s;
        if (ch) { s.m_mode = Src::Replay; s.m_ch = *ch; }
        else seed_src(s, seed, scen, index);
        run_one(scen, s);
        _exit(0);
    }
    Outcome o = { false, 0, false };
    double t0 = now();
    for (;;)
    {
        int st;
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) { o.status = st; break; }
        if (now() - t0 > 240) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.status = st; o.timeout = true; break; }
        usleep(now() - t0 < 0.02 ? 300 : 3000);
    }
    o.failed = !(WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0) && !o.timeout;
    if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 90) o.failed = false;
    if (WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGKILL) o.failed = false;  // ended from outside
    return o;
}

static std::string describe(const Outcome& o, const std::string& errtxt)
{
    std::string r;
    if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 99) r = g_sh->msg;
    else
    {
        char b[200];
        if (WIFSIGNALED(o.status))
        {
            int sg = WTERMSIG(o.status);
            snprintf(b, sizeof b, "%s", sg == SIGPROF ? "case did not finish within its CPU limit" :
                     sg == SIGABRT ? "aborted (assertion or terminate)" : sg == SIGSEGV ? "segmentation fault" : "killed by signal");
        }
        else snprintf(b, sizeof b, "sanitizer or abnormal exit (status %d)", WEXITSTATUS(o.status));
        r = b;
        size_t n = 0, at = 0;
        // first lines of stderr that say something
        while (n < 3 && at < errtxt.size())
        {
            size_t e = errtxt.find('\n', at);
            if (e == std::string::npos) e = errtxt.size();
            std::string line = errtxt.substr(at, e - at);
            at = e + 1;
            if (line.find("ERROR") != std::string::npos || line.find("ssertion") != std::string::npos ||
                line.find("runtime error") != std::string::npos || line.find("terminate") != std::string::npos ||
                line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("Location is") != std::string::npos)
            { r += "; " + line.substr(0, 300); ++n; }
        }
    }
    return r;
}

static std::string read_fd_file(int fd)
{
    std::string r; char b[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0 && r.size() < 65536) r.append(b, (size_t)k);
    return r;
}

static void shrink(int scen, std::vector<uint32_t>& ch, double budget)
{
    double t0 = now();
    int nul = open("/dev/null", O_WRONLY);
    bool progress = true;
    long tries = 0;
    struct T
    {
        static bool fails(int scen, const std::vector<uint32_t>& c, int nul) { return run_child(scen, &c, 0, 0, false, false, nul).failed; }
    };
    while (progress && now() - t0 < budget)
    {
        progress = false;
        // shorten from the end
        for (size_t cut = ch.size() / 2; cut >= 1 && now() - t0 < budget; cut /= 2)
            while (ch.size() >= cut && ch.size() > 0 && now() - t0 < budget)
            {
                std::vector<uint32_t> c(ch.begin(), ch.end() - cut);
                ++tries;
                if (T::fails(scen, c, nul)) { ch = c; progress = true; } else break;
            }
        // delete blocks
        for (size_t k = 32; k >= 1; k /= 2)
            for (size_t i = ch.size(); i-- > 0 && now() - t0 < budget; )
            {
                if (i + k > ch.size()) continue;
                std::vector<uint32_t> c(ch);
                c.erase(c.begin() + i, c.begin() + i + k);
                ++tries;
                if (T::fails(scen, c, nul)) { ch = c; progress = true; }
                else if (k > 1 && i >= k) i -= k - 1;
            }
        // zero blocks, then lower single values
        for (size_t k = 8; k >= 2; k /= 2)
            for (size_t i = 0; i + k <= ch.size() && now() - t0 < budget; i += k)
            {
                bool nz = false;
                for (size_t j = 0; j < k; ++j) nz = nz || ch[i + j];
                if (!nz) continue;
                std::vector<uint32_t> c(ch);
                for (size_t j = 0; j < k; ++j) c[i + j] = 0;
                ++tries;
                if (T::fails(scen, c, nul)) { ch = c; progress = true; }
            }
        for (size_t i = 0; i < ch.size() && now() - t0 < budget; ++i)
        {
            if (!ch[i]) continue;
            uint32_t lo = 0, hi = ch[i];   // smallest failing value assumed in [lo, hi]
            std::vector<uint32_t> c(ch);
            c[i] = 0;
            ++tries;
            if (T::fails(scen, c, nul)) { ch = c; progress = true; continue; }
            while (hi - lo > 1 && now() - t0 < budget)
            {
                uint32_t mid = lo + (hi - lo) / 2;
                c[i] = mid;
                ++tries;
                if (T::fails(scen, c, nul)) { hi = mid; ch = c; progress = true; } else lo = mid;
            }
        }
    }
    while (!ch.empty() && ch.back() == 0) ch.pop_back();
    close(nul);
}

static void json_str(FILE* f, const std::string& s)
{
    fputc('"', f);
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static std::string tmpfile_name(const char* tag)
{
    const char* d = getenv("VF_TMP");
    char b[512];
    snprintf(b, sizeof b, "%s/vf-%s-%d", d ? d : "/tmp", tag, (int)getpid());
    return b;
}

// Confirms and minimises a failing case, writes the replay file. Returns false if it does not reproduce.
static bool handle_failure(const Opt& o, int scen, const std::vector<uint32_t>& given, bool indexed, uint64_t index, std::string& message)
{
    std::string ef = tmpfile_name("err");
    int errfd = open(ef.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    std::vector<uint32_t> ch;
    if (indexed)
    {
        Outcome r = run_child(scen, 0, o.seed, index, false, true, errfd);
        if (!r.failed) { close(errfd); unlink(ef.c_str()); return false; }
        ch.assign(g_sh->rec + 1, g_sh->rec + 1 + g_sh->rec[0]);
    }
    else ch = given;
    Outcome r = run_child(scen, &ch, 0, 0, false, false, errfd);
    if (!r.failed) { close(errfd); unlink(ef.c_str()); return false; }
    std::vector<uint32_t> best = ch;
    double t1 = now();
    bool slow;
    { run_child(scen, &ch, 0, 0, false, false, errfd); slow = now() - t1 > 3; }
    if (!slow || ch.size() < 64) shrink(scen, best, slow ? 60 : 40);
    for (int i = 0; i < 2; ++i)
        if (!run_child(scen, &best, 0, 0, false, false, errfd).failed) { best = ch; break; }
    ftruncate(errfd, 0);
    lseek(errfd, 0, SEEK_SET);
    r = run_child(scen, &best, 0, 0, true, false, errfd);
    if (!r.failed) { close(errfd); unlink(ef.c_str()); return false; }
    std::string errtxt = read_fd_file(errfd);
    message = describe(r, errtxt);
    FILE* f = fopen(o.out, "w");
    if (f)
    {
        fprintf(f, "property %s\nmode %s\nscenario %s\nchoices", VF_PROPERTY, VF_MODE, scens()[scen].name);
        for (size_t i = 0; i < best.size(); ++i) fprintf(f, " %u", best[i]);
        fprintf(f, "\n# message: %s\n", message.c_str());
        if (indexed) fprintf(f, "# found at seed %llu, case %llu; shrunk from %zu to %zu choices\n", (unsigned long long)o.seed, (unsigned long long)index, ch.size(), best.size());
        fprintf(f, "# trace of the failing case:\n");
        std::string tr(g_sh->trace, g_sh->tracelen);
        size_t at = 0;
        while (at < tr.size())
        {
            size_t e = tr.find('\n', at);
            if (e == std::string::npos) e = tr.size();
            fprintf(f, "#   %s\n", tr.substr(at, e - at).c_str());
            at = e + 1;
        }
        fprintf(f, "# stderr:\n");
        at = 0;
        int lines = 0;
        while (at < errtxt.size() && lines++ < 40)
        {
            size_t e = errtxt.find('\n', at);
            if (e == std::string::npos) e = errtxt.size();
            fprintf(f, "#   %s\n", errtxt.substr(at, e - at).c_str());
            at = e + 1;
        }
        fclose(f);
    }
    close(errfd);
    unlink(ef.c_str());
    return true;
}

static bool read_replay(const char* path, int& scen, std::vector<uint32_t>& ch)
{
    FILE* f = fopen(path, "r");
    if (!f) return false;
    scen = -1;
    std::string text; char b[4096]; size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) text.append(b, k);
    fclose(f);
    size_t at = 0;
    while (at < text.size())
    {
        size_t e = text.find('\n', at);
        if (e == std::string::npos) e = text.size();
        std::string line = text.substr(at, e - at);
        at = e + 1;
        if (line.compare(0, 9, "scenario ") == 0)
        {
            for (size_t i = 0; i < scens().size(); ++i) if (line.substr(9) == scens()[i].name) scen = (int)i;
        }
        else if (line.compare(0, 7, "choices") == 0)
        {
            const char* p = line.c_str() + 7; char* q;
            for (;;) { unsigned long v = strtoul(p, &q, 10); if (q == p) break; ch.push_back((uint32_t)v); p = q; }
        }
    }
    return scen >= 0;
}

static void init_shared()
{
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static int real_main(int argc, char** argv)
{
    Opt o = { 1, 100000, 0, 10, 300, 4, 0, 0, "replay.txt", 0, 0 };
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        const char* v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--seed") { o.seed = strtoull(v, 0, 10); ++i; }
        else if (a == "--cases") { o.cases = strtoull(v, 0, 10); ++i; }
        else if (a == "--mincases") { o.mincases = strtoull(v, 0, 10); ++i; }
        else if (a == "--secs") { o.secs = atof(v); ++i; }
        else if (a == "--hard") { o.hard = atof(v); ++i; }
        else if (a == "--workers") { o.workers = atoi(v); ++i; }
        else if (a == "--json") { o.json = v; ++i; }
        else if (a == "--replay") { o.replay = v; ++i; }
        else if (a == "--out") { o.out = v; ++i; }
        else if (a == "--scenario") { o.scenario = v; ++i; }
        else if (a == "--start") { o.start = strtoull(v, 0, 10); ++i; }
        else if (a == "--list") { for (size_t k = 0; k < scens().size(); ++k) printf("%s\n", scens()[k].name); return 0; }
    }
    std::sort(scens().begin(), scens().end(), [](const Scen& a, const Scen& b) { return strcmp(a.name, b.name) < 0; });
    if (o.scenario)
    {
        std::vector<Scen> keep;
        for (size_t i = 0; i < scens().size(); ++i) if (!strcmp(scens()[i].name, o.scenario)) keep.push_back(scens()[i]);
        scens() = keep;
    }
    init_shared();
    if (o.replay)
    {
        int scen; std::vector<uint32_t> ch;
        if (!read_replay(o.replay, scen, ch)) { fprintf(stderr, "cannot read replay %s\n", o.replay); return 2; }
        if (o.json)   // minimise it (used for inputs found by the coverage-guided fuzzer)
        {
            std::string msg;
            if (!handle_failure(o, scen, ch, false, 0, msg)) return 0;
            FILE* f = fopen(o.json, "w");
            fprintf(f, "{\"failed\":true,\"message\":"); json_str(f, msg); fprintf(f, "}\n"); fclose(f);
            return 1;
        }
        std::string ef = tmpfile_name("err");
        int errfd = open(ef.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        Outcome r = run_child(scen, &ch, 0, 0, true, false, errfd);
        fwrite(g_sh->trace, 1, g_sh->tracelen, stdout);
        std::string et = read_fd_file(errfd);
        printf("%s\n", et.c_str());
        if (r.failed) printf("REPLAY FAILED: %s\n", describe(r, et).c_str()); else printf("REPLAY PASSED\n");
        unlink(ef.c_str());
        return r.failed ? 1 : 0;
    }

    if (scens().empty() || scens().size() > (size_t)MAX_SCEN) { fprintf(stderr, "bad scenario count\n"); return 2; }
    int W = o.workers;
    Worker* ws = (Worker*)mmap(0, sizeof(Worker) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = now();
    std::vector<pid_t> pids(W, 0);
    std::vector<uint64_t> next_start(W, 0);
    std::string ef = tmpfile_name("werr");
    int werr = open(ef.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
    struct Start
    {
        static pid_t worker(int w, int W, uint64_t from, const Opt& o, double t0, Worker* ws, int werr)
        {
            fflush(0);
            pid_t pid = fork();
            if (pid) return pid;
            child_setup(werr);
            g_w = &ws[w];
            // the total number of cases is shared out evenly; each worker stops on its own clock
            for (uint64_t i = from; ; i += W)
            {
                if (i >= o.start + o.cases) break;
                double el = now() - t0;
                if (el > o.hard) break;
                if (el > o.secs && i >= o.start + o.mincases) break;
                if (g_sh->stop) break;
                run_index(o.seed, i);
            }
            _exit(0);
        }
    };
    for (int w = 0; w < W; ++w) pids[w] = Start::worker(w, W, o.start + w, o, t0, ws, werr);
    bool failed = false; int fscen = -1; std::string message; int unrepro = 0;
    int alive = W;
    std::vector<std::pair<int, uint64_t> > fails;
    while (alive > 0)
    {
        int st;
        pid_t p = wait(&st);
        if (p < 0) break;
        for (int w = 0; w < W; ++w)
            if (pids[w] == p)
            {
                pids[w] = 0; --alive;
                bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                if (bad && ws[w].cur)
                {
                    uint64_t idx = ws[w].cur - 1;
                    bool outside = (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 90);
                    if (!outside)
                    {
                        fails.push_back(std::make_pair((int)ws[w].scen, idx));
                        g_sh->stop = 1;
                    }
                    else
                    {
                        ++unrepro;
                        ws[w].cur = 0;
                        if (unrepro < 20) { pids[w] = Start::worker(w, W, idx + W, o, t0, ws, werr); ++alive; }
                    }
                }
                else if (bad && !ws[w].cur) ++unrepro;
            }
    }
    for (size_t i = 0; i < fails.size() && !failed; ++i)
    {
        std::string m;
        if (handle_failure(o, fails[i].first, std::vector<uint32_t>(), true, fails[i].second, m)) { failed = true; message = m; fscen = fails[i].first; }
        else ++unrepro;
    }
    // merge results
    uint64_t evals = 0, nontriv = 0, maxlen = 0;
    std::set<uint64_t> hs; std::map<std::string, uint64_t> labels; std::vector<uint64_t> se(scens().size(), 0);
    for (int w = 0; w < W; ++w)
    {
        evals += ws[w].evals; nontriv += ws[w].nontriv; maxlen = std::max<uint64_t>(maxlen, ws[w].maxlen);
        hs.insert(ws[w].hash, ws[w].hash + ws[w].nhash);
        for (int i = 0; i < MAX_LABEL; ++i) if (ws[w].labels[i].name) labels[ws[w].labels[i].name] += ws[w].labels[i].count;
        for (size_t i = 0; i < scens().size(); ++i) se[i] += ws[w].scen_evals[i];
    }
    std::vector<std::string> samples;
    if (!failed)
    {
        size_t step = scens().size() > 6 ? scens().size() / 6 + 1 : 1;
        for (size_t i = (size_t)(o.seed % step); i < scens().size() && samples.size() < 6; i += step)
        {
            uint64_t idx = 0;
            for (int w = 0; w < W && !idx; ++w) idx = ws[w].scen_second[i] ? ws[w].scen_second[i] : ws[w].scen_first[i];
            if (!idx) continue;
            int nul = open("/dev/null", O_WRONLY);
            run_child((int)i, 0, o.seed, idx - 1, true, false, nul);
            close(nul);
            std::string t(g_sh->trace, std::min<size_t>(g_sh->tracelen, 1200));
            char hd[200];
            snprintf(hd, sizeof hd, "[%s] case %llu of seed %llu:\n", scens()[i].name, (unsigned long long)(idx - 1), (unsigned long long)o.seed);
            samples.push_back(hd + t);
        }
    }
    FILE* f = o.json ? fopen(o.json, "w") : stdout;
    if (!f) return 2;
    fprintf(f, "{\"failed\":%s,\"message\":", failed ? "true" : "false");
    json_str(f, message);
    fprintf(f, ",\"scenario\":"); json_str(f, failed ? scens()[fscen].name : "");
    fprintf(f, ",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"longest_choice_sequence\":%llu,\"unreproduced\":%d,\"wall_s\":%.2f,\"scenarios\":{",
            (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)hs.size(), (unsigned long long)maxlen, unrepro, now() - t0);
    for (size_t i = 0; i < scens().size(); ++i) { if (i) fputc(',', f); json_str(f, scens()[i].name); fprintf(f, ":%llu", (unsigned long long)se[i]); }
    fprintf(f, "},\"labels\":{");
    bool first = true;
    for (std::map<std::string, uint64_t>::iterator it = labels.begin(); it != labels.end(); ++it) { if (!first) fputc(',', f); first = false; json_str(f, it->first); fprintf(f, ":%llu", (unsigned long long)it->second); }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) { if (i) fputc(',', f); json_str(f, samples[i]); }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    unlink(ef.c_str());
    return failed ? 1 : 0;
}

} // namespace vf

#ifdef VF_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size);
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    using namespace vf;
    if (size < 2) return 0;
    static bool init = false;
    static FILE* out = 0;
    if (!init)
    {
        init = true;
        g_in_fuzzer = true;
        std::sort(scens().begin(), scens().end(), [](const Scen& a, const Scen& b) { return strcmp(a.name, b.name) < 0; });
        init_shared();
    }
    int scen = data[0] % scens().size();
    Src s;
    s.m_mode = Src::Bytes; s.m_data = data + 1; s.m_size = size - 1;
    const char* dump = getenv("VF_DUMP");
    if (dump)
    {
        g_rec = g_sh->rec;
        g_rec[0] = 0;
        pid_t pid = fork();
        if (pid == 0) { scens()[scen].fn(s); _exit(0); }
        int st; waitpid(pid, &st, 0);
        out = fopen(dump, "w");
        if (out)
        {
            fprintf(out, "property %s\nmode %s\nscenario %s\nchoices", VF_PROPERTY, VF_MODE, scens()[scen].name);
            for (uint32_t i = 0; i < g_rec[0]; ++i) fprintf(out, " %u", g_rec[1 + i]);
            fprintf(out, "\n");
            fclose(out);
        }
        return 0;
    }
    g_fault_seen = false;
    nt_reset();
    scens()[scen].fn(s);
    g_nt.enabled = false;
    return 0;
}
#else
int main(int argc, char** argv) { return vf::real_main(argc, argv); }
#endif
