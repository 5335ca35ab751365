// History machine for shared_ptr / weak_ptr: a graph of objects that own and observe each other,
// against a model that counts owners.
#ifndef VF_PTRM_HPP
#define VF_PTRM_HPP

#include "machine.hpp"
#include <map>

namespace VM
{

struct Reg                      // what really happened to the objects of the current case
{
    struct O { const void* addr; bool alive; int deaths; };
    std::vector<O> o;
    uint64_t births, deaths;
    std::vector<const void*> live_addr;
    void* machine;                              // last words: what the destructor of an object does to other handles
    void (*last_words)(void* machine, int id);
};
inline Reg& R() { static Reg r; return r; }

// no virtual destructors: the pointer must remember how to destroy the object it was made with
struct Base1 { int b1; int id1; };
struct Base2 { int b2; int id2; };

enum { K_PLAIN = 0, K_TWOPHASE = 1, K_THROW = 2 };

template <int K> struct Obj : Base1, Base2
{
    typedef nestl::shared_ptr<Obj> S;
    typedef nestl::weak_ptr<Obj> Wk;
    int id;
    volatile unsigned magic;
    S child;
    nestl::shared_ptr<Base2> child2;
    Wk weak;

    Obj() NESTL_NOEXCEPT_SPEC : id(-1) { born(); }
    template <class I> explicit Obj(I i, typename std::enable_if<K == K_PLAIN && std::is_same<I, int>::value>::type* = 0) NESTL_NOEXCEPT_SPEC : id(-1) { born(); name(i); }
#if VF_EXC
    struct Thr {};
    Obj(int i, Thr) : id(-1) { if (W().tick()) throw Boom(W().code); born(); name(i); }
#endif
    void born() { b1 = 101; b2 = 202; id1 = id2 = -1; magic = Core::LIVE; ++W().live; }
    void name(int i)
    {
        id = i; id1 = i; id2 = i;
        Reg& r = R();
        if ((size_t)i >= r.o.size()) { Reg::O z = { 0, false, 0 }; r.o.resize(i + 1, z); }
        r.o[i].addr = this; r.o[i].alive = true;
    }
    ~Obj()
    {
        VF_CHECK(vf::LIFE | vf::MISC, magic == (unsigned)Core::LIVE, "a shared object was destroyed that is %s", magic == (unsigned)Core::DEAD ? "already destroyed" : "not constructed");
        --W().live;
        if (id >= 0)
        {
            Reg::O& o = R().o[id];
            VF_CHECK(vf::MISC, o.alive, "object %d was destroyed twice", id);
            o.alive = false; ++o.deaths;
            if (R().last_words) R().last_words(R().machine, id);
            // a weak reference to the object from inside its destructor must not resurrect it
            if (weak_self())
            {
                VF_CHECK(vf::MISC, weak.expired() && !weak.lock(), "a weak reference to an object under destruction could be locked");
            }
        }
        magic = Core::DEAD;
    }
    bool weak_self() const { return self_flag; }
    bool self_flag = false;
private:
    Obj(const Obj&);
    Obj& operator=(const Obj&);
};

struct ObjInit
{
    template <class Err, class T> static void init(Err& err, T& o, int i) NESTL_NOEXCEPT_SPEC
    {
        if (W().tick()) { set_custom(err, W().code); return; }
        o.name(i);
    }
};

} // namespace VM

namespace nestl
{
template <> struct two_phase_initializator<VM::Obj<VM::K_TWOPHASE> > : VM::ObjInit {};
}

namespace VM
{

template <int K, class Err> struct PtrMachine : MachBase<Err>
{
    typedef Obj<K> O;
    typedef nestl::shared_ptr<O> S;
    typedef nestl::weak_ptr<O> Wk;
    typedef nestl::shared_ptr<Base1> S1;
    typedef nestl::shared_ptr<Base2> S2;
    typedef nestl::weak_ptr<Base2> W2;
    typedef MachBase<Err> B;
    using B::s;

    enum { NS = 5, N1 = 2, N2 = 2, NW = 4, NW2 = 2 };
    S* sp[NS]; S1* s1[N1]; S2* s2[N2]; Wk* wk[NW]; W2* w2[NW2];

    // model: object id or -1 per handle
    int ms[NS], m1[N1], m2[N2], mw[NW], mw2[NW2];
    struct MO { bool alive; int child, child2, weak; int arena; };
    std::vector<MO> mo;
    struct Will { unsigned char kind, a, b; };   // by object id; the model is brought up to date before each real
    std::vector<Will> wills;                     // operation, so that a destructor sees and changes consistent handles
    unsigned nwills;

    explicit PtrMachine(vf::Src& src) : B(src)
    {
        this->can_elem = this->can_elem && K != K_PLAIN;
        R().o.clear();
        nwills = 0;
        R().machine = this; R().last_words = &PtrMachine::last_words;
        for (int i = 0; i < NS; ++i) { sp[i] = new S(); ms[i] = -1; }
        for (int i = 0; i < N1; ++i) { s1[i] = new S1(); m1[i] = -1; }
        for (int i = 0; i < N2; ++i) { s2[i] = new S2(); m2[i] = -1; }
        for (int i = 0; i < NW; ++i) { wk[i] = new Wk(); mw[i] = -1; }
        for (int i = 0; i < NW2; ++i) { w2[i] = new W2(); mw2[i] = -1; }
    }
    ~PtrMachine()
    {
        R().last_words = 0;
        for (int i = 0; i < NS; ++i) delete sp[i];
        for (int i = 0; i < N1; ++i) delete s1[i];
        for (int i = 0; i < N2; ++i) delete s2[i];
        for (int i = 0; i < NW; ++i) delete wk[i];
        for (int i = 0; i < NW2; ++i) delete w2[i];
    }

    // run by the destructor of object id: the handles outside must be up to date and usable
    static void last_words(void* self, int id)
    {
        PtrMachine& m = *static_cast<PtrMachine*>(self);
        if ((size_t)id >= m.wills.size() || !m.wills[id].kind) return;
        Will w = m.wills[id];
        m.wills[id].kind = 0;
        vf::hit("destructor uses other handles"); ev(EV_TRANSFER);
        for (int i = 0; i < NS; ++i)
        {
            const void* want = m.ms[i] >= 0 ? as(m.ms[i], static_cast<O*>(0)) : 0;
            VF_CHECK(vf::MISC | vf::CONTENT, m.sp[i]->get() == want, "while object %d is destroyed, shared pointer %d refers to %s", id, i, want ? "the wrong object" : "an object, expected none");
            if (m.sp[i]->get() != want) return;
            VF_CHECK(vf::MISC | vf::CONTENT, !want || (R().o[m.ms[i]].alive && m.sp[i]->use_count() > 0 && (*m.sp[i])->id == m.ms[i]), "while object %d is destroyed, shared pointer %d owns a dead object", id, i);
        }
        for (int i = 0; i < NW; ++i)
        {
            bool want = m.mw[i] >= 0 && R().o[m.mw[i]].alive;
            VF_CHECK(vf::MISC | vf::CONTENT, m.wk[i]->expired() == !want, "while object %d is destroyed, weak pointer %d is %s", id, i, want ? "expired" : "not expired");
        }
        int a = w.a % NS, b = w.b % NS, x = w.a % NW, y = w.b % NW;
        switch (w.kind)
        {
        case 1: m.ms[a] = -1; m.sp[a]->reset(); break;
        case 2: { m.ms[a] = m.ms[b]; const S& src = *m.sp[b]; *m.sp[a] = src; break; }
        case 3: m.ms[a] = m.mw[y] >= 0 && R().o[m.mw[y]].alive ? m.mw[y] : -1; *m.sp[a] = m.wk[y]->lock(); break;
        case 4: m.mw[x] = m.ms[b]; *m.wk[x] = *m.sp[b]; break;
        case 5: m.mw[x] = -1; m.wk[x]->reset(); break;
        case 6: if (a != b) { m.ms[a] = m.ms[b]; m.ms[b] = -1; *m.sp[a] = std::move(*m.sp[b]); } break;
        case 7: { int q = w.a % N2; m.m2[q] = m.ms[b]; *m.s2[q] = *m.sp[b]; break; }
        case 8: m.ms[a] = -1; *m.sp[a] = nullptr; break;
        default: break;
        }
    }

    // ---------------------------------------------------------------- model
    void owners(std::vector<long>& n) const
    {
        n.assign(mo.size(), 0);
        for (int i = 0; i < NS; ++i) if (ms[i] >= 0) ++n[ms[i]];
        for (int i = 0; i < N1; ++i) if (m1[i] >= 0) ++n[m1[i]];
        for (int i = 0; i < N2; ++i) if (m2[i] >= 0) ++n[m2[i]];
        for (size_t q = 0; q < mo.size(); ++q) if (mo[q].alive) { if (mo[q].child >= 0) ++n[mo[q].child]; if (mo[q].child2 >= 0) ++n[mo[q].child2]; }
    }
    void cascade(std::vector<long>& n)
    {
        for (bool again = true; again; )
        {
            again = false;
            owners(n);
            for (size_t q = 0; q < mo.size(); ++q)
                if (mo[q].alive && n[q] == 0) { mo[q].alive = false; mo[q].child = mo[q].child2 = mo[q].weak = -1; again = true; vf::hit("object dies"); ev(EV_ERASE); }
        }
    }
    void check(const char* name)
    {
        std::vector<long> n;
        cascade(n);
        ++this->steps;
        for (size_t q = 0; q < mo.size(); ++q)
        {
            bool real = q < R().o.size() && R().o[q].alive;
            VF_CHECK(vf::MISC | vf::CONTENT, real == mo[q].alive, "after %s: object %zu is %s although it has %ld owners", name, q, real ? "alive" : "destroyed", n[q]);
            if (real != mo[q].alive) return;
        }
        for (int i = 0; i < NS; ++i) one(name, "shared pointer", i, *sp[i], ms[i], n, static_cast<O*>(0));
        for (int i = 0; i < N1; ++i) one(name, "shared pointer to first base", i, *s1[i], m1[i], n, static_cast<Base1*>(0));
        for (int i = 0; i < N2; ++i) one(name, "shared pointer to second base", i, *s2[i], m2[i], n, static_cast<Base2*>(0));
        for (int i = 0; i < NW; ++i) weak(name, "weak pointer", i, *wk[i], mw[i], n, static_cast<O*>(0));
        for (int i = 0; i < NW2; ++i) weak(name, "weak pointer to second base", i, *w2[i], mw2[i], n, static_cast<Base2*>(0));
        for (size_t q = 0; q < mo.size(); ++q)
            if (mo[q].alive)
            {
                O* o = obj((int)q);
                one(name, "child of object", (int)q, o->child, mo[q].child, n, static_cast<O*>(0));
                one(name, "base child of object", (int)q, o->child2, mo[q].child2, n, static_cast<Base2*>(0));
                weak(name, "weak member of object", (int)q, o->weak, mo[q].weak, n, static_cast<O*>(0));
                VF_CHECK(vf::MISC, o->id == (int)q && o->b1 == 101 && o->b2 == 202, "after %s: object %zu was altered", name, q);
            }
        // blocks: one per object that is alive or still weakly referenced
        std::vector<char> need(mo.size(), 0);
        for (size_t q = 0; q < mo.size(); ++q) if (mo[q].alive) { need[q] = 1; if (mo[q].weak >= 0) need[mo[q].weak] = 1; }
        for (int i = 0; i < NW; ++i) if (mw[i] >= 0) need[mw[i]] = 1;
        for (int i = 0; i < NW2; ++i) if (mw2[i] >= 0) need[mw2[i]] = 1;
        size_t want = 0, have = W().blocks.size() + vf::g_nt.live, dead = 0;
        for (size_t q = 0; q < mo.size(); ++q) { want += need[q]; if (need[q] && !mo[q].alive) ++dead; }
        if (dead) { vf::hit("dead object with weak references"); ev(EV_MIDDLE); }
        VF_CHECK(vf::MISC | vf::BLOCK, want == have, "after %s: %zu memory blocks are held; objects that are alive or weakly referenced: %zu", name, have, want);
        VF_CHECK(vf::LIFE, W().live == (long)alive_count(), "after %s: %ld objects exist, expected %ld", name, W().live, (long)alive_count());
    }
    size_t alive_count() const { size_t n = 0; for (size_t q = 0; q < mo.size(); ++q) n += mo[q].alive; return n; }
    static O* obj(int q) { return static_cast<O*>(const_cast<void*>(R().o[q].addr)); }
    static const void* as(int q, O*) { return obj(q); }
    static const void* as(int q, Base1*) { return static_cast<Base1*>(obj(q)); }
    static const void* as(int q, Base2*) { return static_cast<Base2*>(obj(q)); }
    static int id_of(O& o) { return o.id; }
    static int id_of(Base1& o) { return o.id1; }
    static int id_of(Base2& o) { return o.id2; }

    template <class P, class X> void one(const char* name, const char* what, int i, const P& p, int m, const std::vector<long>& n, X* x)
    {
        long want = m >= 0 ? n[m] : 0;
        vf::tr("use_count", p.use_count());
        VF_CHECK(vf::MISC | vf::CONTENT, p.get() == (m >= 0 ? as(m, x) : 0), "after %s: %s %d refers to %s", name, what, i, m >= 0 ? "the wrong object" : "an object, expected none");
        VF_CHECK(vf::MISC | vf::CONTENT, p.use_count() == want, "after %s: use_count of %s %d is %ld, there are %ld owners", name, what, i, p.use_count(), want);
        VF_CHECK(vf::MISC | vf::CONTENT, p.unique() == (want == 1), "after %s: unique() of %s %d is wrong", name, what, i);
        VF_CHECK(vf::MISC | vf::CONTENT, (p ? true : false) == (m >= 0), "after %s: the bool test of %s %d is wrong", name, what, i);
        if (m >= 0 && p.get())
        {
            VF_CHECK(vf::MISC | vf::CONTENT, id_of(*p) == m && &*p == p.get() && p.operator->() == p.get(), "after %s: dereferencing %s %d reaches the wrong object", name, what, i);
        }
    }
    template <class P, class X> void weak(const char* name, const char* what, int i, P& p, int m, const std::vector<long>& n, X* x)
    {
        long want = m >= 0 ? n[m] : 0;
        vf::tr("use_count", p.use_count());
        VF_CHECK(vf::MISC | vf::CONTENT, p.use_count() == want, "after %s: use_count of %s %d is %ld, there are %ld owners", name, what, i, p.use_count(), want);
        VF_CHECK(vf::MISC | vf::CONTENT, p.expired() == (want == 0), "after %s: expired() of %s %d is wrong", name, what, i);
        {
            nestl::shared_ptr<X> l = p.lock();
            VF_CHECK(vf::MISC | vf::CONTENT, l.get() == (want ? as(m, x) : 0), "after %s: lock() of %s %d gave %s", name, what, i, want ? "the wrong result" : "an owner of a dead object");
            VF_CHECK(vf::MISC | vf::CONTENT, l.use_count() == (want ? want + 1 : 0), "after %s: use_count of a locked %s %d is %ld, expected %ld", name, what, i, l.use_count(), want ? want + 1 : 0);
        }
        VF_CHECK(vf::MISC | vf::CONTENT, p.use_count() == want, "after %s: locking %s %d changed the number of owners", name, what, i);
    }

    // ---------------------------------------------------------------- operations
    template <int Q> typename std::enable_if<Q == K_THROW, S>::type build(Err& err, int id, int arena)
    {
#if VF_EXC
        if (arena >= 0) { TA<O> a(arena); return nestl::make_shared_a_nothrow<O>(err, a, id, typename O::Thr()); }
        return nestl::make_shared_nothrow<O>(err, id, typename O::Thr());
#else
        (void)err; (void)id; (void)arena;
        return S();
#endif
    }
    template <int Q> typename std::enable_if<Q != K_THROW, S>::type build(Err& err, int id, int arena)
    {
        if (arena >= 0) { TA<O> a(arena); return nestl::make_shared_a_nothrow<O>(err, a, id); }
        return nestl::make_shared_nothrow<O>(err, id);
    }
    void make()
    {
        int i = (int)s.draw(NS);
        int id = (int)mo.size();
        int arena = (int)s.draw(4) - 1;
        VF_NOTE("p%d = make_shared(object %d, allocator %d)", i, id, arena);
        W().allowed = arena >= 0 ? 1u << arena : 0;
        if (arena > 0) ev(EV_ARENAS);
        for (int round = 0; round < 2; ++round)
        {
            bool alloc = false;
            S r;
            auto ex = [&](Err& err)
            {
                r = this->template build<K>(err, id, arena);
                if (err) VF_CHECK(vf::GUAR | vf::MISC, !r && r.get() == 0 && r.use_count() == 0, "a failed make_shared returned an owner");
                else VF_CHECK(vf::GUAR | vf::MISC, r && r.get() != 0 && r.use_count() == 1, "a successful make_shared did not return a sole owner");
            };
            unsigned rate = this->fault_rate; if (round) this->fault_rate = 0;
            bool failed = this->attempt("make_shared", ex, true, alloc);
            this->fault_rate = rate;
            if (!failed)
            {
                MO m = { true, -1, -1, -1, arena };
                mo.push_back(m);
                W().allowed = 0;
                ms[i] = id;
                *sp[i] = r;      // copy, then the local owner goes away
                r.reset();
                break;
            }
            VF_NOTE("   -> failed");
            VF_CHECK(vf::RETRY, round == 0, "make_shared fails again although nothing fails any more");
            if (!vf::on(vf::RETRY)) { check("failed make_shared"); return; }
            check("failed make_shared");
        }
        check("make_shared");
    }
    int some(const int* m, int n) { int i = (int)s.draw((uint32_t)n); for (int k = 0; k < n; ++k) if (m[(i + k) % n] >= 0) return (i + k) % n; return i; }

    enum Op { MAKE, COPY, MOVE, SWAP, RESET, NUL, CONV1, CONV2, CONV2M, COPY2, DOWN, WEAKS, WEAKW, WEAKM, WRESET, LOCK, W2S, W2W, CHILD, CHILD2, WFIELD, FROMCHILD, FROMCHILDM, CLEARF, RECREATE, BYVALUE, CHAIN, WILL, NOPS };

    void step()
    {
        static const unsigned char weights[NOPS] = { 16, 10, 8, 4, 6, 2, 5, 5, 4, 3, 2, 8, 5, 5, 3, 8, 4, 3, 10, 4, 8, 6, 6, 5, 4, 3, 1, 6 };
        do_op(this->pick_op(weights, NOPS));
    }
    void do_op(unsigned op)
    {
        if (mo.size() > 60 && op == MAKE) op = RESET;
        W().allowed = 0;
        if (op == MAKE) make();
        else if (op == CHAIN) chain();
        else VF_DRY("an operation of a shared or weak pointer", handle_op(op));
        if (this->steps >= 4) ev(EV_STEPS);
    }
    void handle_op(unsigned op)
    {
        switch (op)
        {
        case COPY: { int i = (int)s.draw(NS), j = some(ms, NS); VF_NOTE("p%d = p%d", i, j); const S& src = *sp[j]; ms[i] = ms[j]; *sp[i] = src; check("copy assignment"); break; }
        case MOVE:
        {
            int i = (int)s.draw(NS), j = some(ms, NS);
            VF_NOTE("p%d = move(p%d)", i, j);
            if (i == j)        // self move: keep or drop
            {
                if (nwills) break;
                *sp[i] = std::move(*sp[j]);
                if (!sp[i]->get()) ms[i] = -1;
            }
            else { ms[i] = ms[j]; ms[j] = -1; *sp[i] = std::move(*sp[j]); }
            check("move assignment");
            break;
        }
        case SWAP: { int i = (int)s.draw(NS), j = (int)s.draw(NS); VF_NOTE("p%d.swap(p%d)", i, j); sp[i]->swap(*sp[j]); std::swap(ms[i], ms[j]); check("swap"); break; }
        case RESET: { int i = some(ms, NS); VF_NOTE("p%d.reset()", i); ms[i] = -1; sp[i]->reset(); check("reset"); break; }
        case NUL: { int i = (int)s.draw(NS); VF_NOTE("p%d = nullptr", i); ms[i] = -1; *sp[i] = nullptr; check("assignment of nullptr"); break; }
        case CONV1: { int i = (int)s.draw(N1), j = some(ms, NS); VF_NOTE("b%d = p%d (first base)", i, j); m1[i] = ms[j]; *s1[i] = *sp[j]; check("conversion to base"); break; }
        case CONV2:
        {
            int i = (int)s.draw(N2), j = some(ms, NS);
            VF_NOTE("c%d = p%d (second base)", i, j);
            m2[i] = ms[j];
            if (s.draw(2)) { S2 t(*sp[j]); *s2[i] = t; }
            else *s2[i] = *sp[j];
            check("conversion to base");
            break;
        }
        case CONV2M: { int i = (int)s.draw(N2), j = some(ms, NS); VF_NOTE("c%d = move(p%d) (second base)", i, j); m2[i] = ms[j]; ms[j] = -1; *s2[i] = std::move(*sp[j]); check("move to base"); break; }
        case COPY2:
        {
            int i = (int)s.draw(N2), j = (int)s.draw(N2);
            bool mv = s.draw(2);
            VF_NOTE("c%d = %s(c%d)", i, mv ? "move" : "", j);
            if (mv && i != j) { m2[i] = m2[j]; m2[j] = -1; *s2[i] = std::move(*s2[j]); }
            else { const S2& c = *s2[j]; m2[i] = m2[j]; *s2[i] = c; }
            check("assignment");
            break;
        }
        case DOWN: { int i = (int)s.draw(2); VF_NOTE("reset base pointers %d", i); m1[i] = -1; s1[i]->reset(); m2[i] = -1; s2[i]->reset(); check("reset"); break; }
        case WEAKS: { int i = (int)s.draw(NW), j = some(ms, NS); VF_NOTE("w%d = p%d", i, j); *wk[i] = *sp[j]; mw[i] = ms[j]; check("weak assignment"); break; }
        case WEAKW: { int i = (int)s.draw(NW), j = some(mw, NW); VF_NOTE("w%d = w%d", i, j); const Wk& src = *wk[j]; *wk[i] = src; mw[i] = mw[j]; check("weak copy assignment"); break; }
        case WEAKM:
        {
            int i = (int)s.draw(NW), j = some(mw, NW);
            VF_NOTE("w%d = move(w%d)", i, j);
            *wk[i] = std::move(*wk[j]);
            if (i == j)          // self move: keep or drop, told apart by the blocks held
            {
                if (mw[i] >= 0) { wk[i]->reset(); mw[i] = -1; }
            }
            else { mw[i] = mw[j]; mw[j] = -1; }
            check("weak move assignment");
            break;
        }
        case WRESET: { int i = some(mw, NW); VF_NOTE("w%d.reset()", i); wk[i]->reset(); mw[i] = -1; check("weak reset"); break; }
        case LOCK:
        {
            int i = (int)s.draw(NS), j = some(mw, NW);
            VF_NOTE("p%d = w%d.lock()", i, j);
            if (mw[j] >= 0 && mo[mw[j]].alive) ev(EV_COPY);
            ms[i] = mw[j] >= 0 && mo[mw[j]].alive ? mw[j] : -1;
            *sp[i] = wk[j]->lock();
            check("lock");
            break;
        }
        case W2S: { int i = (int)s.draw(NW2), j = some(m2, N2); VF_NOTE("x%d = c%d", i, j); *w2[i] = *s2[j]; mw2[i] = m2[j]; check("weak assignment"); break; }
        case W2W:
        {
            int i = (int)s.draw(NW2), j = (int)s.draw(N2);
            VF_NOTE("c%d = x%d.lock()", j, i);
            m2[j] = mw2[i] >= 0 && mo[mw2[i]].alive ? mw2[i] : -1;
            *s2[j] = w2[i]->lock();
            check("lock");
            break;
        }
        case CHILD: case CHILD2:
        {
            int i = some(ms, NS), j = (int)s.draw(NS);
            if (ms[i] < 0) break;
            int o = ms[i];
            bool mv = s.draw(2) && i != j;
            VF_NOTE("p%d->%s = %s(p%d)", i, op == CHILD ? "child" : "child2", mv ? "move" : "", j);
            ev(EV_TRANSFER);
            if (ms[j] == o) ev(EV_BIG);
            (op == CHILD ? mo[o].child : mo[o].child2) = ms[j];
            if (mv) ms[j] = -1;
            if (op == CHILD) { if (mv) obj(o)->child = std::move(*sp[j]); else obj(o)->child = static_cast<const S&>(*sp[j]); }
            else { if (mv) obj(o)->child2 = std::move(*sp[j]); else obj(o)->child2 = *sp[j]; }
            check("assignment to a member");
            break;
        }
        case WFIELD:
        {
            int i = some(ms, NS), j = s.draw(2) ? i : (int)s.draw(NS);
            if (ms[i] < 0) break;
            int o = ms[i];
            VF_NOTE("p%d->weak = p%d", i, j);
            obj(o)->weak = *sp[j];
            obj(o)->self_flag = ms[j] == o;
            mo[o].weak = ms[j];
            ev(EV_TRANSFER);
            check("assignment to a weak member");
            break;
        }
        case FROMCHILD: case FROMCHILDM:
        {
            int i = some(ms, NS), j = s.draw(3) ? i : (int)s.draw(NS);
            if (ms[i] < 0) break;
            int o = ms[i];
            int c = mo[o].child;
            VF_NOTE("p%d = %s(p%d->child)", j, op == FROMCHILDM ? "move" : "", i);
            ev(EV_TRANSFER);
            ms[j] = c;
            if (op == FROMCHILD) *sp[j] = static_cast<const S&>(obj(o)->child);
            else { mo[o].child = -1; *sp[j] = std::move(obj(o)->child); }
            check("assignment from a member of the owned object");
            break;
        }
        case CLEARF:
        {
            int i = some(ms, NS);
            if (ms[i] < 0) break;
            int o = ms[i];
            unsigned w = s.draw(4);
            VF_NOTE("p%d->members.reset()", i);
            // the reset may destroy the object itself, so each is a separate step
            if (w == 0) { mo[o].child = -1; obj(o)->child.reset(); }
            else if (w == 1) { mo[o].child2 = -1; obj(o)->child2.reset(); }
            else if (w == 2) { obj(o)->weak.reset(); obj(o)->self_flag = false; mo[o].weak = -1; }
            else { int j = (int)s.draw(NS); obj(o)->child.swap(*sp[j]); std::swap(mo[o].child, ms[j]); }
            check("member reset");
            break;
        }
        case RECREATE:
        {
            unsigned w = s.draw(7);
            int i = (int)s.draw(NS), j = some(ms, NS), k = (int)s.draw(NW), l = some(mw, NW);
            VF_NOTE("reconstruct, kind %u (%d %d %d %d)", w, i, j, k, l);
            S* old = sp[i];
            if (w == 0) { sp[i] = new S(static_cast<const S&>(*sp[j])); ms[i] = ms[j]; delete old; }
            else if (w == 1) { S* n = new S(std::move(*sp[j])); int id = ms[j]; ms[j] = -1; sp[i] = n; ms[i] = id; delete old; }
            else if (w == 2) { Wk* n = new Wk(*sp[j]); delete wk[k]; wk[k] = n; mw[k] = ms[j]; }
            else if (w == 3) { Wk* n = new Wk(static_cast<const Wk&>(*wk[l])); delete wk[k]; wk[k] = n; mw[k] = mw[l]; }
            else if (w == 4) { Wk* n = new Wk(std::move(*wk[l])); int id = mw[l]; mw[l] = -1; delete wk[k]; wk[k] = n; mw[k] = id; }
            else if (w == 5) { S1* n = new S1(*sp[j]); int q = i % N1; S1* o = s1[q]; s1[q] = n; m1[q] = ms[j]; delete o; }
            else { sp[i] = s.draw(2) ? new S(nullptr) : new S(); ms[i] = -1; delete old; }
            check("construction");
            break;
        }
        case BYVALUE:
        {
            int i = some(ms, NS);
            long before = sp[i]->use_count();
            std::vector<S> v(1 + s.draw(5), *sp[i]);
            VF_NOTE("%zu temporary copies of p%d", v.size(), i);
            VF_CHECK(vf::MISC, sp[i]->use_count() == (ms[i] >= 0 ? before + (long)v.size() : 0), "use_count with %zu temporary copies is %ld, without them %ld", v.size(), sp[i]->use_count(), before);
            v.clear();
            check("temporary copies");
            break;
        }
        case WILL:
        {
            int i = some(ms, NS);
            Will w = { (unsigned char)(1 + s.draw(9)), (unsigned char)s.draw(20), (unsigned char)s.draw(20) };
            if (ms[i] < 0) break;
            VF_NOTE("the destructor of object %d (p%d) shall act on other handles, kind %u (%u %u)", ms[i], i, w.kind, w.a, w.b);
            Will none = { 0, 0, 0 };
            if (wills.size() < mo.size()) wills.resize(mo.size(), none);
            wills[ms[i]] = w;
            ++nwills;
            break;
        }
        default: break;
        }
    }
    void chain()
    {
        {
            // p_i -> n objects in a row; dropping the head destroys them all
            int i = (int)s.draw(NS);
            unsigned n = 2 + s.small(12);
            VF_NOTE("p%d = head of a chain of %u objects", i, n);
            for (unsigned q = 0; q < n; ++q)
            {
                Err err;
                int id = (int)mo.size();
                S t = this->template build<K>(err, id, -1);
                if (err || !t) { VF_CHECK(vf::MISC, false, "make_shared failed although nothing was injected"); return; }
                MO m = { true, -1, -1, -1, -1 };
                mo.push_back(m);
                t->child = *sp[i];
                mo[id].child = ms[i];
                *sp[i] = t;
                ms[i] = id;
            }
            check("building a chain");
        }
    }
    void finish()
    {
        // break cycles, then drop everything
        wills.clear();
        for (size_t q = 0; q < mo.size(); ++q)
            if (mo[q].alive)
            {
                S keep = keepalive((int)q);
                S2 keep2 = keepalive2((int)q);
                obj((int)q)->child.reset(); mo[q].child = -1;
                obj((int)q)->child2.reset(); mo[q].child2 = -1;
                keep.reset();
                keep2.reset();
                std::vector<long> n; cascade(n);
            }
        for (int i = 0; i < NS; ++i) { sp[i]->reset(); ms[i] = -1; }
        for (int i = 0; i < N1; ++i) { s1[i]->reset(); m1[i] = -1; }
        for (int i = 0; i < N2; ++i) { s2[i]->reset(); m2[i] = -1; }
        check("all owners are gone");
        VF_CHECK(vf::MISC | vf::LIFE, W().live == 0, "%ld objects live although all owners are gone", W().live);
        for (int i = 0; i < NW; ++i) { wk[i]->reset(); mw[i] = -1; }
        for (int i = 0; i < NW2; ++i) { W2 none; *w2[i] = none; mw2[i] = -1; }
        check("all pointers are gone");
        for (size_t q = 0; q < mo.size(); ++q) VF_CHECK(vf::MISC | vf::LIFE, R().o[q].deaths == 1, "object %zu was destroyed %d times", q, R().o[q].deaths);
        final_balance();
    }
    // an owner of a living object, found through whatever handle refers to it
    S keepalive(int q)
    {
        for (int i = 0; i < NS; ++i) if (ms[i] == q) return *sp[i];
        for (int i = 0; i < NW; ++i) if (mw[i] == q) return wk[i]->lock();
        for (size_t r = 0; r < mo.size(); ++r)
            if (mo[r].alive) { if (mo[r].child == q) return obj((int)r)->child; if (mo[r].weak == q) return obj((int)r)->weak.lock(); }
        return S();
    }
    S2 keepalive2(int q)
    {
        for (int i = 0; i < N2; ++i) if (m2[i] == q) return *s2[i];
        for (size_t r = 0; r < mo.size(); ++r) if (mo[r].alive && mo[r].child2 == q) return obj((int)r)->child2;
        return S2();
    }
    static void history(vf::Src& s, unsigned rate)
    {
        W().reset();
        PtrMachine m(s);
        m.fault_rate = rate;
        m.swarm(NOPS);
        m.enabled[MAKE] = 1;
        unsigned n = 4 + s.small(45);
        for (unsigned q = 0; q < n; ++q) m.step();
        m.fault_rate = 0;
        m.finish();
    }
    static void plain(vf::Src& s) { history(s, 0); }
    static void faulty(vf::Src& s) { history(s, 6); }
};

} // namespace VM

#endif
