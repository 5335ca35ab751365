"""C28: containers ask of the user's types only what the operation needs.

Generates whole programs: an element type with a random set of capabilities, an ordering, an allocator, an error type
and a history of exactly those operations the capabilities allow; the expected contents are computed here. A program
must compile (in both library modes) and give those contents, and every element must be destroyed. A program that fails
is reduced (operations dropped, capabilities made ordinary) to a smallest failing one, which is the replay file.
"""
import concurrent.futures, os, random, re, subprocess

PRELUDE = r'''
%(includes)s
#include <cstdio>
#include <cstdlib>
#include <cstddef>
#include <iterator>
#include <string>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <exception>
namespace t
{
static const char* cur = "";
inline void fail(const char* what) { std::printf("FAILED %%s: %%s\n", cur, what); std::fflush(stdout); std::_Exit(1); }
inline void expect(bool b, const char* what) { if (!b) fail(what); }
template <class C> void same(const C& c, const int* e, std::size_t n, const char* what)
{
    std::size_t i = 0;
    for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) { if (i >= n || (*it).get() != e[i]) fail(what); ++i; }
    expect(i == n && c.size() == n && c.empty() == (n == 0), what);
}
// a read-only range of elements that live elsewhere
template <class E, class Cat> struct it
{
    typedef Cat iterator_category;
    typedef E value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const E* pointer;
    typedef const E& reference;
    const E* const* p;
    explicit it(const E* const* q) : p(q) {}
    const E& operator*() const { return **p; }
    const E* operator->() const { return *p; }
    it& operator++() { ++p; return *this; }
    it operator++(int) { it r(*this); ++p; return r; }
    it& operator--() { --p; return *this; }
    it operator--(int) { it r(*this); --p; return r; }
    it& operator+=(std::ptrdiff_t n) { p += n; return *this; }
    it& operator-=(std::ptrdiff_t n) { p -= n; return *this; }
    it operator+(std::ptrdiff_t n) const { return it(p + n); }
    it operator-(std::ptrdiff_t n) const { return it(p - n); }
    std::ptrdiff_t operator-(const it& o) const { return p - o.p; }
    const E& operator[](std::ptrdiff_t n) const { return *p[n]; }
    bool operator==(const it& o) const { return p == o.p; }
    bool operator!=(const it& o) const { return p != o.p; }
    bool operator<(const it& o) const { return p < o.p; }
    bool operator>(const it& o) const { return p > o.p; }
    bool operator<=(const it& o) const { return p <= o.p; }
    bool operator>=(const it& o) const { return p >= o.p; }
};
template <class I> I at(I i, int n) { while (n--) ++i; return i; }

// the least an error type has to offer
struct uerr
{
    bool set;
    uerr() : set(false) {}
    explicit operator bool() const { return set; }
};
inline void build_bad_alloc(uerr& e) { e.set = true; }
inline void build_length_error(uerr& e) { e.set = true; }
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
inline void from_exception_ptr(uerr& e, std::exception_ptr) { e.set = true; }
#endif

// one that can be neither copied nor assigned nor made from nothing
struct ferr
{
    bool set;
    explicit ferr(int) : set(false) {}
    ferr(const ferr&) = delete;
    ferr& operator=(const ferr&) = delete;
    explicit operator bool() const { return set; }
};
inline void build_bad_alloc(ferr& e) { e.set = true; }
inline void build_length_error(ferr& e) { e.set = true; }
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
inline void from_exception_ptr(ferr& e, std::exception_ptr) { e.set = true; }
#endif

// the least an allocator has to offer (vector and set)
template <class T> struct least
{
    typedef T value_type;
    least() {}
    least(const least&) {}
    template <class U> least(const least<U>&) {}
    least& operator=(const least&) { return *this; }
    template <class Err> T* allocate(Err& err, std::size_t n, const void* = 0) { T* p = static_cast<T*>(std::malloc(n * sizeof(T) + 1)); if (!p) build_bad_alloc(err); return p; }
    void deallocate(T* p, std::size_t) { std::free(p); }
};
// with state, without default constructor
template <class T> struct given
{
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef T& reference;
    typedef const T& const_reference;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    template <class U> struct rebind { typedef given<U> other; };
    typedef std::true_type propagate_on_container_move_assignment;
    int id;
    explicit given(int i) : id(i) {}
    template <class U> given(const given<U>& o) : id(o.id) {}
    template <class Err> T* allocate(Err& err, std::size_t n, const void* = 0) { T* p = static_cast<T*>(std::malloc(n * sizeof(T) + 1)); if (!p) build_bad_alloc(err); return p; }
    void deallocate(T* p, std::size_t) { std::free(p); }
};
}
'''

NEEDED = ["vector", "list", "set", "shared_ptr", "class_operations", "default_operation_error"]
HEADERS = NEEDED + ["allocator", "algorithm", "allocator_traits", "type_traits", "alignment", "exception_support", "config", "string"]


class Type:
    """an element type; caps decide which operations may be used"""
    KINDS = ["copymove", "copy", "twophase", "twophase_move", "moveonly", "fixed", "aggregate", "natural_unique", "natural_string", "tree", "nested2p"]

    def __init__(self, r, simple=False):
        self.kind = r.choice(self.KINDS + ["copymove", "copy", "twophase"])
        self.dflt = r.random() < 0.5
        self.assign = r.choice(["yes", "deleted", "const", "reference"])
        self.payload = r.choice(["int", "heap", "big", "base", "virtual"])
        self.final = r.random() < 0.3
        self.explicit_ = r.random() < 0.6
        self.opnew = r.random() < 0.3
        self.greedy = r.random() < 0.2
        self.conv = r.choice(["", "", "", "bool", "int", "ptr"])
        self.cmp = r.choice(["none", "none", "member", "friend", "free"])
        self.arity = r.choice([1, 1, 2])
        self.nothrow = r.random() < 0.5
        self.norm()

    def norm(self):
        k = self.kind
        if k in ("twophase", "twophase_move", "nested2p"):
            self.dflt = True
        if k in ("natural_unique", "natural_string", "tree", "aggregate", "nested2p"):
            self.assign, self.payload, self.greedy, self.arity, self.conv = "yes", "int", False, 1, ""
        if k == "aggregate":
            self.dflt, self.final = True, False
        if k in ("natural_unique", "natural_string", "tree"):
            self.dflt = True
        if k in ("twophase", "twophase_move") and self.assign in ("const", "reference"):
            self.assign = "deleted"
        if self.payload in ("heap",) and self.assign in ("const", "reference"):
            self.assign = "deleted"
        if k in ("twophase", "twophase_move"):
            self.greedy = False

    # capabilities
    def copyable(self): return self.kind in ("copymove", "copy", "twophase", "twophase_move", "aggregate", "natural_string", "nested2p")
    def movable(self): return self.kind in ("copymove", "copy", "twophase", "twophase_move", "moveonly", "aggregate", "natural_unique", "natural_string", "tree", "nested2p")
    def fromint(self): return self.kind != "aggregate"
    def temporaries(self): return self.kind in ("copymove", "copy", "moveonly", "natural_unique", "natural_string", "aggregate")
    def eq(self): return self.cmp != "none"

    def plain(self):
        """simpler variants, for reduction"""
        for a, v in (("greedy", False), ("opnew", False), ("final", False), ("conv", ""), ("payload", "int"), ("assign", "yes"), ("arity", 1), ("explicit_", True), ("cmp", "member"), ("dflt", True), ("kind", "copymove")):
            if getattr(self, a) != v:
                t = Type.__new__(Type)
                t.__dict__ = dict(self.__dict__)
                setattr(t, a, v)
                t.norm()
                if t.__dict__ != self.__dict__:
                    yield t

    def nx(self):
        return ' noexcept' if self.nothrow else ''

    def src(self):
        k, o = self.kind, []
        base = ""
        if self.payload == "base": base = " : B"
        fin = " final" if self.final else ""
        if self.payload == "base": o.append("struct B { int tag; B() : tag(7) {} };")
        o.append("static long live = 0;")
        if k == "natural_unique":
            o.append("struct E%s { std::unique_ptr<int> p; E()%s : p(new int(0)) {} %sE(int v)%s : p(new int(v)) {} int get() const { return *p; } };" % (fin, self.nx(), "explicit " if self.explicit_ else "", self.nx()))
        elif k == "natural_string":
            o.append('struct E%s { std::string s; E()%s : s("0") {} %sE(int v)%s : s(std::to_string(v)) {} E(const E& o)%s : s(o.s) {} E(E&& o)%s : s(std::move(o.s)) {} int get() const { return std::atoi(s.c_str()); } };' % (fin, self.nx(), "explicit " if self.explicit_ else "", self.nx(), self.nx(), self.nx()))
        elif k == "tree":
            # a type that contains containers of itself, declared while it is still incomplete
            o.append("struct E%s { int v; nestl::vector<E> kids; nestl::list<E> more; nestl::shared_ptr<E> up; E()@ : v(0) { ++live; } explicit E(int x)@ : v(x) { ++live; } E(E&& o)@ : v(o.v), kids(std::move(o.kids)), more(std::move(o.more)), up(std::move(o.up)) { ++live; } ~E() { --live; } int get() const { return v; } };".replace("@", self.nx()) % fin)
        elif k == "aggregate":
            o.append("struct E { int v; int get() const { return v; }")
            if self.opnew: o.append("  static void* operator new(std::size_t) = delete;")
            o.append("};")
        elif k == "nested2p":
            o.append("struct E%s { int v; nestl::vector<int> d; E()@ : v(0) { ++live; } ~E() { --live; } E(const E&) = delete; E& operator=(const E&) = delete; int get() const { int s = 0; for (std::size_t i = 0; i < d.size(); ++i) s += d[i]; return s == v * 3 ? v : -1; } };".replace("@", self.nx()) % fin)
        else:
            member, init, get = {"int": ("int v;", "v(%s)", "v"), "heap": ("int* v;", "v(new int(%s))", "*v"), "big": ("char pad[300]; int v;", "v(%s)", "v"),
                                 "base": ("int v;", "v(%s)", "tag == 7 ? v : -1"), "virtual": ("int v;", "v(%s)", "id() == 5 ? v : -1")}[self.payload]
            if self.assign == "const": member, get = member.replace("int v", "const int v"), get
            if self.assign == "reference":
                o.append("inline int& pool(int i) { static int a[4000]; a[i] = i; return a[i]; }")
                member, init = member.replace("int v;", "int& v;"), "v(pool(%s))"
            o.append("struct E%s%s {" % (fin, base))
            o.append("  " + member)
            ini = lambda e: self.nx() + " : %s" % (init % e) + " { ++live; }"
            if self.dflt: o.append("  E()%s" % ini("0"))
            if k not in ("twophase", "twophase_move"):
                o.append("  %sE(int a%s)%s" % ("explicit " if self.explicit_ else "", ", int b" if self.arity == 2 else "", ini("a + b" if self.arity == 2 else "a")))
            other = get.replace("v", "o.v") if self.payload in ("int", "heap", "big") else "o.v"
            if self.payload == "heap": other = "*o.v"
            if k in ("copymove", "copy"): o.append("  E(const E& o)%s%s %s" % (self.nx(), " : B(o)," if base else " :", (init % other) + " { ++live; }"))
            if k == "copymove": o.append("  E(E&& o)%s%s %s" % (self.nx(), " : B(o)," if base else " :", (init % other) + " { ++live; }"))
            if k == "moveonly":
                o.append("  E(const E&) = delete;")
                o.append("  E(E&& o)%s%s %s" % (self.nx(), " : B(o)," if base else " :", (init % other) + " { ++live; }"))
            if k in ("fixed", "twophase", "twophase_move"): o.append("  E(const E&) = delete;")
            if self.greedy:
                o.append("  template <class U, class = typename std::enable_if<std::is_same<typename std::decay<U>::type, const char*>::value>::type> explicit E(U&&)%s" % ini("0"))
            o.append("  %s~E() { --live;%s }" % ("virtual " if self.payload == "virtual" else "", " delete v;" if self.payload == "heap" else ""))
            if self.payload == "virtual": o.append("  virtual int id() const { return 5; }")
            if self.assign in ("deleted", "const", "reference"):
                o.append("  E& operator=(const E&) = delete;")
            elif k in ("copymove", "copy"):
                o.append("  E& operator=(const E& o) { %sv = %so.v; return *this; }" % (("*", "*") if self.payload == "heap" else ("", "")))
            elif k in ("twophase", "twophase_move", "fixed", "moveonly"):
                o.append("  E& operator=(const E&) = delete;")
            o.append("  int get() const { return %s; }" % get)
            if self.opnew:
                o.append("  static void* operator new(std::size_t) = delete;\n  static void* operator new(std::size_t, void*) = delete;\n  static void operator delete(void*)%s;" % (" {}" if self.payload == "virtual" else " = delete"))
            if self.conv == "bool": o.append("  explicit operator bool() const { return false; }")
            if self.conv == "int": o.append("  operator int() const { return -1; }")
            if self.conv == "ptr": o.append("  operator void*() const { return nullptr; }")
            if self.cmp == "member": o.append("  bool operator==(const E& x) const { return get() == x.get(); }\n  bool operator<(const E& x) const { return get() < x.get(); }")
            if self.cmp == "friend": o.append("  friend bool operator==(const E& l, const E& x) { return l.get() == x.get(); }\n  friend bool operator<(const E& l, const E& x) { return l.get() < x.get(); }")
            o.append("};")
        natural = k in ("natural_unique", "natural_string", "tree", "aggregate", "nested2p")
        if self.cmp == "free" or (natural and self.cmp != "none"):
            o.append("inline bool operator==(const E& l, const E& x) { return l.get() == x.get(); }\ninline bool operator<(const E& l, const E& x) { return l.get() < x.get(); }")
        return o

    def special(self, ns):
        """specialisation of nestl::two_phase_initializator"""
        if self.kind not in ("twophase", "twophase_move", "nested2p"): return []
        E = ns + "::E"
        if self.kind == "nested2p":
            one = "dst.v = %s; dst.d.assign_nothrow(err, 3, %s);"
            cp = "dst.v = o.v; dst.d.copy_nothrow(err, o.d);"
        else:
            st = "*dst.v = %s;" if self.payload == "heap" else "dst.v = %s;"
            one = "(void)err; " + st + " (void)sizeof(%s);"
            cp = "(void)err; " + (st % ("*o.v" if self.payload == "heap" else "o.v"))
        o = ["namespace nestl { template <> struct two_phase_initializator<%s> {" % E]
        if self.arity == 2:
            o.append("  template <class Err> static void init(Err& err, %s& dst, int a, int b) { int s = a + b; %s }" % (E, one % ("s", "s")))
        else:
            o.append("  template <class Err> static void init(Err& err, %s& dst, int a) { %s }" % (E, one % ("a", "a")))
        o.append("  template <class Err> static void init(Err& err, %s& dst, const %s& o) { %s }" % (E, E, cp))
        if self.kind == "twophase_move":
            o.append("  template <class Err> static void init(Err& err, %s& dst, %s&& o) { %s }" % (E, E, cp))
        o.append("}; }")
        return o

    def holder(self):
        """a local object of the type with a given value, built without the library's containers"""
        if self.kind == "aggregate": return "struct H { E e; explicit H(int v) : e() { e.v = v; } };"
        if self.kind == "nested2p": return "struct H { E e; explicit H(int v) : e() { nestl::default_operation_error x; nestl::two_phase_initializator<E>::init(x, e, v); } };"
        if self.kind in ("twophase", "twophase_move"):
            return "struct H { E e; explicit H(int v) : e() { %se.v = v; } };" % ("*" if self.payload == "heap" else "")
        return "struct H { E e; explicit H(int v) : e(v%s) {} };" % (", 0" if self.arity == 2 else "")

    def args(self, v):
        return "%d, %d" % (v - 1, 1) if self.arity == 2 else str(v)

    def show(self):
        return "%s%s assign=%s payload=%s cmp=%s%s" % (self.kind, "+default" if self.dflt else "", self.assign, self.payload, self.cmp,
                                                       "".join(" " + f for f in ("final", "opnew", "greedy") if getattr(self, f)) + (" conv=" + self.conv if self.conv else ""))


ORDERS = {
    # name: (declaration, type, object, default constructible, assignable)
    "functor": ("struct C { bool operator()(const E& l, const E& x) const { return l.get() < x.get(); } };", "C", "C()", True, True),
    "final": ("struct C final { bool operator()(const E& l, const E& x) const { return l.get() < x.get(); } };", "C", "C()", True, True),
    "pointer": ("inline bool less(const E& l, const E& x) { return l.get() < x.get(); }\ntypedef bool (*C)(const E&, const E&);", "C", "&less", False, True),
    "state": ("struct C { const int* k; explicit C(const int* q) : k(q) {} bool operator()(const E& l, const E& x) const { return l.get() * *k < x.get() * *k; } };\nstatic const int one = 1;", "C", "C(&one)", False, True),
    "fixedstate": ("struct C { const int k; explicit C(int q) : k(q) {} bool operator()(const E& l, const E& x) const { return l.get() * k < x.get() * k; } };", "C", "C(1)", False, False),
    "overloaded": ("struct C { bool operator()(const E& l, const E& x) const { return l.get() < x.get(); } bool operator()(int, int) const { return false; } void operator()(const E&) const {} };", "C", "C()", True, True),
    "int": ("struct C { int operator()(const E& l, const E& x) const { return l.get() < x.get() ? 2 : 0; } };", "C", "C()", True, True),
}


class Case:
    def __init__(self, r, mode=None):
        self.type = Type(r)
        self.cont = r.choice(["vector", "list", "list", "set", "set", "shared"])
        t = self.type
        while (self.cont == "vector" and not (t.copyable())) or (self.cont == "set" and not t.movable()):
            self.type = t = Type(r)
        self.alloc = r.choice(["default", "default", "explicit", "given"] + (["least"] if self.cont in ("vector", "set") else []))
        self.err = r.choice(["default", "default", "errc", "user", "fixed", "eptr"])
        self.order = r.choice(sorted(ORDERS))
        self.mode = mode or r.choice(["exc", "nx"])
        self.derived = r.random() < 0.15
        if self.mode == "nx": self.type.nothrow = True
        self.cat = r.choice(["input", "forward", "bidirectional", "random_access"])
        # the history: (op, random numbers); what it expects is worked out when the program is written
        pool = [o for o in OPS[self.cont] if OPS[self.cont][o][0](self)]
        self.ops = [(r.choice(pool), [r.randrange(1000) for _ in range(6)]) for _ in range(r.choice([3, 5, 8, 12, 16]))]

    def clone(self, **kw):
        c = Case.__new__(Case)
        c.__dict__ = dict(self.__dict__)
        c.__dict__.update(kw)
        return c

    def sound(self):
        t = self.type
        if self.cont == "vector" and not t.copyable(): return False
        if self.cont == "set" and not t.movable(): return False
        return all(OPS[self.cont][o][0](self) for o, _ in self.ops)

    def errtype(self):
        e = self.err
        if e == "eptr" and self.mode == "nx": e = "default"
        if e == "errc" and self.mode == "exc" and not self.type.nothrow: e = "user"
        return {"default": "nestl::default_operation_error", "errc": "nestl::no_exceptions::errc_based_error", "user": "t::uerr", "fixed": "t::ferr", "eptr": "nestl::has_exceptions::exception_ptr_error"}[e]

    def ctype(self):
        a = {"default": None, "explicit": "nestl::allocator<E>", "given": "t::given<E>", "least": "t::least<E>"}[self.alloc]
        if self.cont == "set":
            return "nestl::set<E, C%s>" % (", " + a if a else "")
        return "nestl::%s<E%s>" % (self.cont, ", " + a if a else "")

    def make(self, name):
        args = []
        if self.cont == "set": args.append("(" + ORDERS[self.order][2] + ")")
        if self.alloc == "given": args.append("t::given<E>(3)")
        if self.cont == "set" and ORDERS[self.order][3] and self.alloc != "given": args = []
        return "K %s%s;" % (name, "(" + ", ".join(args) + ")" if args else "")

    def text(self, ns):
        """(lines of the case, name of its entry)"""
        t = self.type
        o = ["// %s of %s; order %s, allocator %s, error %s, %s" % (self.cont, t.show(), self.order if self.cont == "set" else "-", self.alloc, self.err, " ".join(n for n, _ in self.ops))]
        o.append("namespace %s {" % ns)
        o += t.src()
        o.append("}")
        o += t.special(ns)
        o.append("namespace %s {" % ns)
        o.append(t.holder())
        if self.cont != "shared":
            o.append(ORDERS[self.order][0])
            if self.derived:
                o.append("struct K : %s { typedef %s Base;%s };" % (self.ctype(), self.ctype(), self.derived_ctors()))
            else:
                o.append("typedef %s K;" % self.ctype())
        o.append("inline void run() {")
        o.append('  t::cur = "%s";' % ns)
        o.append("  {")
        o.append("  typedef %s Err;" % self.errtype())
        w = Writer(self, o)
        if self.cont == "shared": w.shared()
        else: w.container()
        o.append("  }")
        o.append('  t::expect(live == 0, "elements left over or destroyed twice");')
        o.append("}")
        o.append("}")
        return o

    def derived_ctors(self):
        args = []
        if self.cont == "set" and not (ORDERS[self.order][3] and self.alloc != "given"): args.append(("const C& c", "c"))
        if self.alloc == "given": 
            if self.cont == "set" and not args: args.append(("const C& c", "c"))
            args.append(("const t::given<E>& a", "a"))
        s = " K(%s) : Base(%s) {}" % (", ".join(a for a, _ in args), ", ".join(b for _, b in args)) if args else " K() {}"
        return s + " K(K&& o) : Base(std::move(o)) {}" + (" K& operator=(K&& o) { Base::operator=(std::move(o)); return *this; }" if goes_along[0](self) else "")

    def simpler(self):
        """smaller variants, for reduction"""
        n = len(self.ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield self.clone(ops=self.ops[:i] + self.ops[i + size:])
            size //= 2
        for a, v in (("derived", False), ("alloc", "default"), ("err", "default"), ("order", "functor"), ("cat", "random_access")):
            if getattr(self, a) != v: yield self.clone(**{a: v})
        for t in self.type.plain():
            if self.mode == "nx": t.nothrow = True
            yield self.clone(type=t)
        for i, (o, r) in enumerate(self.ops):
            for q in range(6):
                if r[q]:
                    yield self.clone(ops=self.ops[:i] + [(o, r[:q] + [r[q] // 2 if r[q] > 3 else 0] + r[q + 1:])] + self.ops[i + 1:])


class Writer:
    """writes the statements of a case and follows the contents alongside"""

    def __init__(self, case, out):
        self.c, self.o, self.n = case, out, 0
        self.m = [[], []]
        self.fresh = 0

    def add(self, s): self.o.append("    " + s)

    def name(self):
        self.fresh += 1
        return "x%d" % self.fresh

    def holder(self, v):
        x = self.name()
        self.add("H %s(%d);" % (x, v))
        return x

    def ok(self, what): self.add('t::expect(!e, "%s reported an error");' % what)

    def same(self, k, what):
        m = self.m[k]
        self.n += 1
        if m:
            self.add("{ const int v[] = { %s }; t::same(%s, v, %d, \"contents after %s\"); }" % (", ".join(map(str, m)), "ab"[k], len(m), what))
        else:
            self.add("t::same(%s, nullptr, 0, \"contents after %s\");" % ("ab"[k], what))

    def container(self):
        self.o.append("    Err e%s;" % ("(0)" if self.c.err == "fixed" else ""))
        self.add(self.c.make("a"))
        self.add(self.c.make("b"))
        for op, r in self.c.ops:
            self.add("{")
            getattr(self, "do_" + op)(r, self.m)
            self.same(0, op)
            self.same(1, op)
            self.add("}")

    def shared(self):
        self.o.append("    Err e%s;" % ("(0)" if self.c.err == "fixed" else ""))
        self.add("{ nestl::shared_ptr<E> p[3]; nestl::weak_ptr<E> w; %s" % ("t::given<E> al(3);" if self.c.alloc == "given" else "nestl::allocator<E> al;"))
        self.m = [None, None, None]
        for op, r in self.c.ops:
            i, j, v = r[0] % 3, r[1] % 3, 1 + r[2]
            if op == "make":
                self.add("p[%d] = nestl::make_shared_nothrow<E>(e%s);" % (i, ", " + self.c.type.args(v)))
                self.ok(op); self.m[i] = [v]
            elif op == "make_a":
                self.add("p[%d] = nestl::make_shared_a_nothrow<E>(e, al%s);" % (i, ", " + self.c.type.args(v)))
                self.ok(op); self.m[i] = [v]
            elif op == "make_default":
                self.add("p[%d] = nestl::make_shared_nothrow<E>(e);" % i)
                self.ok(op); self.m[i] = [0]
            elif op == "make_copy":
                x = self.holder(v)
                self.add("p[%d] = nestl::make_shared_nothrow<E>(e, static_cast<const E&>(%s.e));" % (i, x))
                self.ok(op); self.m[i] = [v]
            elif op == "make_move":
                x = self.holder(v)
                self.add("p[%d] = nestl::make_shared_nothrow<E>(e, std::move(%s.e));" % (i, x))
                self.ok(op); self.m[i] = [v]
            elif op == "copy":
                self.add("p[%d] = p[%d];" % (i, j)); self.m[i] = self.m[j]
            elif op == "constant":
                self.add("{ nestl::shared_ptr<const E> q(p[%d]); nestl::shared_ptr<const E> q2(q); q = q2; t::expect(q.get() == p[%d].get(), \"converted pointer\"); }" % (i, i))
            elif op == "move":
                if i == j: continue          # a self-move may keep or drop
                self.add("p[%d] = std::move(p[%d]);" % (i, j))
                self.m[i], self.m[j] = self.m[j], None
            elif op == "reset":
                self.add("p[%d].reset();" % i); self.m[i] = None
            elif op == "swap":
                self.add("p[%d].swap(p[%d]);" % (i, j)); self.m[i], self.m[j] = self.m[j], self.m[i]
            elif op == "weak":
                self.add("w = p[%d]; { nestl::shared_ptr<E> q = w.lock(); t::expect(q.get() == p[%d].get(), \"lock\"); }" % (i, i))
            for k in range(3):
                if self.m[k] is None: self.add("t::expect(!p[%d].get(), \"empty pointer after %s\");" % (k, op))
                else:
                    self.add("t::expect(p[%d].get() && p[%d]->get() == %d && (*p[%d]).get() == %d && p[%d].use_count() == %d, \"object after %s\");" % (k, k, self.m[k][0], k, self.m[k][0], k, sum(1 for x in self.m if x is self.m[k]), op))
        self.add("}")

    # arguments
    def range(self, vs):
        cat = "t::it<E, std::%s_iterator_tag>" % self.c.cat
        if not vs:
            return "%s(nullptr)" % cat, "%s(nullptr)" % cat
        xs = [self.holder(v) for v in vs]
        p = self.name()
        self.add("const E* %s[] = { %s };" % (p, ", ".join("&%s.e" % x for x in xs)))
        return "%s(%s)" % (cat, p), "%s(%s + %d)" % (cat, p, len(vs))

    def vals(self, r, n): return [1 + (r[k % 6] * (k + 3)) % 50 for k in range(n)]

    def which(self, r): return r[0] % 2

    # sequences
    def do_emplace_back(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        self.add("%s.emplace_back_nothrow(e, %s);" % ("ab"[k], self.c.type.args(v))); self.ok("emplace_back"); m[k].append(v)

    def do_emplace_front(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        self.add("%s.emplace_front_nothrow(e, %s);" % ("ab"[k], self.c.type.args(v))); self.ok("emplace_front"); m[k].insert(0, v)

    def do_emplace(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        p = r[2] % (len(m[k]) + 1)
        self.add("t::expect((*%s.emplace_nothrow(e, t::at(%s.cbegin(), %d), %s)).get() == %d, \"emplace returned another position\");" % ("ab"[k], "ab"[k], p, self.c.type.args(v), v)); self.ok("emplace"); m[k].insert(p, v)

    def do_push_back(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        x = self.holder(v)
        self.add("%s.push_back_nothrow(e, %s);" % ("ab"[k], ["%s.e", "static_cast<const E&>(%s.e)"][r[2] % 2] % x)); self.ok("push_back"); m[k].append(v)

    def do_push_front(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        x = self.holder(v)
        self.add("%s.push_front_nothrow(e, %s);" % ("ab"[k], ["%s.e", "static_cast<const E&>(%s.e)"][r[2] % 2] % x)); self.ok("push_front"); m[k].insert(0, v)

    def do_push_back_move(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        x = self.holder(v)
        self.add("%s.push_back_nothrow(e, std::move(%s.e));" % ("ab"[k], x)); self.ok("push_back(&&)"); m[k].append(v)

    def do_insert(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        p = r[2] % (len(m[k]) + 1)
        x = self.holder(v)
        self.add("t::expect((*%s.insert_nothrow(e, t::at(%s.cbegin(), %d), static_cast<const E&>(%s.e))).get() == %d, \"insert returned another position\");" % ("ab"[k], "ab"[k], p, x, v)); self.ok("insert"); m[k].insert(p, v)

    def do_insert_move(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        p = r[2] % (len(m[k]) + 1)
        x = self.holder(v)
        self.add("t::expect((*%s.insert_nothrow(e, t::at(%s.cbegin(), %d), std::move(%s.e))).get() == %d, \"insert returned another position\");" % ("ab"[k], "ab"[k], p, x, v)); self.ok("insert(&&)"); m[k].insert(p, v)

    def do_insert_range(self, r, m):
        k = self.which(r)
        p = r[2] % (len(m[k]) + 1)
        vs = self.vals(r, r[3] % 5)
        f, l = self.range(vs)
        self.add("%s.insert_nothrow(e, t::at(%s.cbegin(), %d), %s, %s);" % ("ab"[k], "ab"[k], p, f, l)); self.ok("insert of a range"); m[k][p:p] = vs

    def do_insert_count(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        p, n = r[2] % (len(m[k]) + 1), r[3] % 4
        x = self.holder(v)
        self.add("%s.insert_nothrow(e, t::at(%s.cbegin(), %d), std::size_t(%d), %s.e);" % ("ab"[k], "ab"[k], p, n, x)); self.ok("insert of a count"); m[k][p:p] = [v] * n

    def do_assign_count(self, r, m):
        k, v, n = self.which(r), 1 + r[1] % 60, r[2] % 6
        x = self.holder(v)
        self.add("%s.assign_nothrow(e, std::size_t(%d), %s.e);" % ("ab"[k], n, x)); self.ok("assign"); m[k][:] = [v] * n

    def do_assign_default(self, r, m):
        k, n = self.which(r), r[2] % 6
        self.add("%s.assign_nothrow(e, std::size_t(%d));" % ("ab"[k], n)); self.ok("assign"); m[k][:] = [0] * n

    def do_assign_range(self, r, m):
        k = self.which(r)
        vs = self.vals(r, r[3] % 7)
        f, l = self.range(vs)
        self.add("%s.assign_nothrow(e, %s, %s);" % ("ab"[k], f, l)); self.ok("assign of a range"); m[k][:] = vs

    def ints(self, vs):
        p = self.name()
        if not vs: return "static_cast<const int*>(nullptr)", "static_cast<const int*>(nullptr)"
        self.add("const int %s[] = { %s };" % (p, ", ".join(map(str, vs))))
        return p, "%s + %d" % (p, len(vs))

    def do_assign_ints(self, r, m):
        k = self.which(r)
        vs = self.vals(r, r[3] % 7)
        self.add("%s.assign_nothrow(e, %s);" % ("ab"[k], ", ".join(self.ints(vs)))); self.ok("assign of a range of another type"); m[k][:] = vs

    def do_insert_ints(self, r, m):
        k = self.which(r)
        p = r[2] % (len(m[k]) + 1)
        vs = self.vals(r, r[3] % 5)
        self.add("%s.insert_nothrow(e, t::at(%s.cbegin(), %d), %s);" % ("ab"[k], "ab"[k], p, ", ".join(self.ints(vs)))); self.ok("insert of a range of another type"); m[k][p:p] = vs

    def do_resize(self, r, m):
        k, n = self.which(r), r[2] % 9
        self.add("%s.resize_nothrow(e, %d);" % ("ab"[k], n)); self.ok("resize"); m[k][:] = (m[k] + [0] * n)[:n]

    def do_resize_value(self, r, m):
        k, v, n = self.which(r), 1 + r[1] % 60, r[2] % 9
        x = self.holder(v)
        self.add("%s.resize_nothrow(e, %d, %s.e);" % ("ab"[k], n, x)); self.ok("resize"); m[k][:] = (m[k] + [v] * n)[:n]

    def do_reserve(self, r, m):
        k = self.which(r)
        self.add("%s.reserve_nothrow(e, %d);" % ("ab"[k], r[2] % 20)); self.ok("reserve")

    def do_shrink(self, r, m):
        k = self.which(r)
        self.add("%s.shrink_to_fit_nothrow(e);" % "ab"[k]); self.ok("shrink_to_fit")

    def do_clear(self, r, m):
        k = self.which(r)
        self.add("%s.clear();" % "ab"[k]); m[k][:] = []

    def do_swap(self, r, m):
        self.add("a.swap(b);"); m[0], m[1] = m[1], m[0]

    def do_move(self, r, m):
        # move out into a new container and back
        k = self.which(r)
        self.add("K x(std::move(%s)); t::expect(x.size() == %d, \"size after moving\");" % ("ab"[k], len(m[k])))
        if goes_along[0](self.c): self.add("%s = std::move(x);" % "ab"[k])
        else:
            self.add("%s.clear();" % "ab"[k])
            m[k][:] = []

    def do_move_over(self, r, m):
        k = self.which(r)
        self.add("%s = std::move(%s); %s.clear();" % ("ab"[k], "ab"[1 - k], "ab"[1 - k])); m[k], m[1 - k] = m[1 - k], []

    def do_copy(self, r, m):
        k = self.which(r)
        self.add("%s.copy_nothrow(e, %s);" % ("ab"[k], "ab"[1 - k])); self.ok("copy"); m[k] = list(m[1 - k])

    def do_copy_throwing(self, r, m):
        k = self.which(r)
        self.add("const K& cc = %s; K x(cc); %s = cc; { K y(x); x = y; }" % ("ab"[k], "ab"[1 - k])); m[1 - k] = list(m[k])

    def do_push_back_throwing(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        x = self.holder(v)
        self.add("%s.push_back(%s.e);" % ("ab"[k], x)); m[k].append(v)

    def do_push_back_throwing_move(self, r, m):
        k, v = self.which(r), 1 + r[1] % 60
        x = self.holder(v)
        self.add("%s.push_back(std::move(%s.e));" % ("ab"[k], x)); m[k].append(v)

    def do_walk(self, r, m):
        k = self.which(r)
        q = "ab"[k]
        self.add("{ const K& cc = %s; int s = 0; for (K::const_reverse_iterator i = cc.rbegin(); i != cc.rend(); ++i) s = s * 3 + (*i).get() %% 7; int u = 0; for (K::reverse_iterator i = %s.rbegin(); i != %s.rend(); i++) u = u * 3 + i->get() %% 7; t::expect(s == u && s == %d, \"backward walk\"); }" % (q, q, q, self.back(m[k])))
        if self.c.cont == "vector" and m[k]:
            self.add("t::expect(%s[%d].get() == %d && %s.front().get() == %d && %s.back().get() == %d && %s.data()[%d].get() == %d, \"access\");" % (q, r[1] % len(m[k]), m[k][r[1] % len(m[k])], q, m[k][0], q, m[k][-1], q, r[1] % len(m[k]), m[k][r[1] % len(m[k])]))
        if self.c.cont == "list" and m[k]:
            self.add("t::expect(%s.front().get() == %d && %s.back().get() == %d, \"access\");" % (q, m[k][0], q, m[k][-1]))

    @staticmethod
    def back(l):
        s = 0
        for v in reversed(l): s = (s * 3 + v % 7)
        s &= 0xffffffff
        return s - (1 << 32) if s >= (1 << 31) else s

    def do_equal(self, r, m):
        self.add("t::expect((a == b) == %s, \"comparison\");" % ("true" if m[0] == m[1] else "false"))

    def do_pop_back(self, r, m):
        k = self.which(r)
        if m[k]:
            self.add("%s.pop_back();" % "ab"[k]); m[k].pop()

    def do_pop_front(self, r, m):
        k = self.which(r)
        if m[k]:
            self.add("%s.pop_front();" % "ab"[k]); m[k].pop(0)

    def do_erase(self, r, m):
        k = self.which(r)
        if m[k]:
            p = r[1] % len(m[k])
            self.add("%s.erase(t::at(%s.cbegin(), %d));" % ("ab"[k], "ab"[k], p)); del m[k][p]

    def do_erase_range(self, r, m):
        k = self.which(r)
        p = r[1] % (len(m[k]) + 1)
        q = p + r[2] % (len(m[k]) - p + 1)
        self.add("%s.erase(t::at(%s.cbegin(), %d), t::at(%s.cbegin(), %d));" % ("ab"[k], "ab"[k], p, "ab"[k], q)); del m[k][p:q]

    def do_splice(self, r, m):
        k = self.which(r)
        p = r[1] % (len(m[k]) + 1)
        how = r[2] % 3
        A, B = "ab"[k], "ab"[1 - k]
        if how == 0:
            self.add("%s.splice(t::at(%s.cbegin(), %d), %s);" % (A, A, p, B)); m[k][p:p] = m[1 - k]; m[1 - k][:] = []
        elif how == 1 and m[1 - k]:
            q = r[3] % len(m[1 - k])
            self.add("%s.splice(t::at(%s.cbegin(), %d), %s, t::at(%s.cbegin(), %d));" % (A, A, p, B, B, q)); m[k].insert(p, m[1 - k].pop(q))
        elif how == 2:
            q = r[3] % (len(m[1 - k]) + 1)
            s = q + r[4] % (len(m[1 - k]) - q + 1)
            self.add("%s.splice(t::at(%s.cbegin(), %d), %s, t::at(%s.cbegin(), %d), t::at(%s.cbegin(), %d));" % (A, A, p, B, B, q, B, s)); m[k][p:p] = m[1 - k][q:s]; del m[1 - k][q:s]

    PRED2 = ["[](const E& l, const E& x) { return l.get() %s x.get(); }", "rel()", "[&e](const E& l, const E& x) -> bool { return !e && l.get() %s x.get(); }"]

    def pred2(self, r, rel):
        h = r % 3
        if h == 1:
            self.add("struct rel { const int k; rel() : k(1) {} rel(const rel&) = default; rel& operator=(const rel&) = delete; bool operator()(const E& l, const E& x) const { return l.get() * k %s x.get() * k; } };" % rel)
            return "rel()"
        return self.PRED2[h] % rel

    def do_sort_by(self, r, m):
        k = self.which(r)
        self.add("%s.sort(%s);" % ("ab"[k], self.pred2(r[1], "<"))) if r[1] % 3 != 1 else self.late("%s.sort(%%s);" % "ab"[k], r[1], "<")
        m[k].sort()

    def late(self, fmt, r, rel):
        p = self.pred2(r, rel)
        self.add(fmt % p)

    def do_sort(self, r, m):
        k = self.which(r)
        self.add("%s.sort();" % "ab"[k]); m[k].sort()

    def do_merge_by(self, r, m):
        self.add("a.sort([](const E& l, const E& x) { return l.get() < x.get(); }); b.sort([](const E& l, const E& x) { return l.get() < x.get(); });")
        k = self.which(r)
        self.late("%s.merge(%s, %%s);" % ("ab"[k], "ab"[1 - k]), r[1], "<")
        m[k][:] = sorted(m[0] + m[1]); m[1 - k][:] = []

    def do_merge(self, r, m):
        self.add("a.sort(); b.sort();")
        k = self.which(r)
        self.add("%s.merge(%s);" % ("ab"[k], "ab"[1 - k]))
        m[k][:] = sorted(m[0] + m[1]); m[1 - k][:] = []

    def do_unique_by(self, r, m):
        k = self.which(r)
        self.late("%s.unique(%%s);" % "ab"[k], r[1], "==")
        m[k][:] = [v for i, v in enumerate(m[k]) if i == 0 or m[k][i - 1] != v]

    def do_unique(self, r, m):
        k = self.which(r)
        self.add("%s.unique();" % "ab"[k])
        m[k][:] = [v for i, v in enumerate(m[k]) if i == 0 or m[k][i - 1] != v]

    def do_reverse(self, r, m):
        k = self.which(r)
        self.add("%s.reverse();" % "ab"[k]); m[k].reverse()

    # sets
    def ins(self, k, m, v, what, arg):
        had = v in m[k]
        self.add("{ std::pair<K::iterator, bool> q = %s.insert_nothrow(e, %s); t::expect(!e && q.second == %s && (*q.first).get() == %d, \"%s\"); }" % ("ab"[k], arg, "false" if had else "true", v, what))
        if not had:
            m[k].append(v); m[k].sort()

    def do_s_insert(self, r, m):
        k, v = self.which(r), 1 + r[1] % 30
        x = self.holder(v)
        self.ins(k, m, v, "insert", "static_cast<const E&>(%s.e)" % x)

    def do_s_insert_move(self, r, m):
        k, v = self.which(r), 1 + r[1] % 30
        x = self.holder(v)
        self.ins(k, m, v, "insert(&&)", "std::move(%s.e)" % x)

    def do_s_find(self, r, m):
        k, v = self.which(r), 1 + r[1] % 30
        x = self.holder(v)
        q = "ab"[k]
        self.add("{ const K& cc = %s; t::expect((%s.find(%s.e) != %s.end()) == %s && (cc.find(%s.e) != cc.end()) == %s, \"find\"); }" % (q, q, x, q, "true" if v in m[k] else "false", x, "true" if v in m[k] else "false"))

    def do_s_erase_key(self, r, m):
        k = self.which(r)
        v = m[k][r[1] % len(m[k])] if m[k] and r[2] % 2 else 1 + r[1] % 30
        x = self.holder(v)
        self.add("t::expect(%s.erase(%s.e) == %d, \"erase by key\");" % ("ab"[k], x, 1 if v in m[k] else 0))
        if v in m[k]: m[k].remove(v)

    def do_s_many(self, r, m):
        for q in range(4): 
            rr = [r[0], r[(q + 1) % 6] + q, 0, 0, 0, 0]
            (self.do_s_insert if self.c.type.copyable() and r[3] % 2 else self.do_s_insert_move)(rr, m)


T = lambda f: (lambda c: f(c.type),)
any_ = T(lambda t: True)
fromint = T(lambda t: t.fromint())
cp = T(lambda t: t.copyable())
mv = T(lambda t: t.movable())
goes_along = (lambda c: c.alloc != "least" and (c.cont != "set" or ORDERS[c.order][4]),)
implicit = (lambda c: not c.type.explicit_ and c.type.arity == 1 and c.type.kind in ("copymove", "copy", "moveonly", "natural_unique", "natural_string"),)
sorts = (lambda c: c.alloc != "given",)
sorts_plain = (lambda c: c.alloc != "given" and c.type.eq(),)

SEQ = {
    "clear": any_, "swap": any_, "move": any_, "walk": any_,
    "emplace_back": fromint, "push_back": cp, "push_back_move": mv,
    "insert": cp, "insert_move": mv, "insert_range": cp, "assign_count": cp, "assign_range": cp,
    "assign_default": T(lambda t: t.copyable() and t.dflt),
    "move_over": goes_along, "assign_ints": implicit, "insert_ints": implicit,
    "equal": T(lambda t: t.eq()),
    "copy": cp,
    "copy_throwing": (lambda c: c.mode == "exc" and c.type.copyable() and not c.derived,),
    "push_back_throwing": (lambda c: c.mode == "exc" and c.type.copyable(),),
    "push_back_throwing_move": (lambda c: c.mode == "exc" and c.type.copyable() and c.type.movable(),),
}
OPS = {
    "vector": dict(SEQ, resize=T(lambda t: t.dflt), resize_value=cp, reserve=any_, shrink=any_),
    "list": dict(SEQ, emplace_front=fromint, emplace=fromint, push_front=cp, insert_count=cp, pop_back=any_, pop_front=any_, erase=any_, erase_range=any_, splice=any_,
                 sort_by=sorts, merge_by=sorts, sort=sorts_plain, merge=sorts_plain),
    "set": {"clear": any_, "move": any_, "walk": any_, "move_over": goes_along, "s_insert": cp, "s_insert_move": mv, "s_find": any_, "s_erase_key": any_, "erase": any_, "s_many": mv,
            "copy": (lambda c: c.type.copyable() and ORDERS[c.order][4],)},
    "shared": {"make": fromint, "make_a": fromint, "make_default": T(lambda t: t.dflt and t.kind not in ()), "make_copy": cp, "make_move": mv, "copy": any_, "constant": any_, "move": any_, "reset": any_, "swap": any_, "weak": any_},
}




def unit(cases, first, repo, r, entry):
    hs = [h for h in HEADERS if os.path.exists(os.path.join(repo, "nestl", h + ".hpp"))]
    r.shuffle(hs)
    inc = [h for h in hs if h in NEEDED or r.random() < 0.5]
    o = [PRELUDE % {"includes": "\n".join("#include <nestl/%s.hpp>" % h for h in inc)}]
    for i, c in enumerate(cases):
        o += c.text("case%d" % (first + i))
    o.append("void %s();\nvoid %s()\n{" % (entry, entry))
    for i in range(len(cases)): o.append("  case%d::run();" % (first + i))
    o.append("}")
    return "\n".join(o) + "\n"


class Program:
    """two translation units (one for a reduced program) and how to build them"""

    def __init__(self, cases, cxx, flags, incseed):
        self.cases, self.cxx, self.flags, self.incseed = cases, cxx, flags, incseed

    def text(self, repo):
        r = random.Random(self.incseed)
        h = len(self.cases) // 2
        a = unit(self.cases[h:], h, repo, r, "entry_a")
        if not h:
            return a + 'int main() { entry_a(); std::puts("all held"); }\n'
        b = unit(self.cases[:h], 0, repo, r, "entry_b")
        return "#ifndef SECOND\n" + a + 'void entry_b();\nint main() { entry_a(); entry_b(); std::puts("all held"); }\n#else\n' + b + "#endif\n"


def head(cxx, flags):
    return "// build: %s %s   (with -I of the repository)\n" % (cxx, " ".join(flags))


def call(cmd, timeout=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace", timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -999, "did not end within %s s" % timeout


def attempt(path, repo, cxx, flags):
    """builds and runs a program file; (None, ""), or ("compile"|"run", text)"""
    exe = path + ".exe"
    second = "#ifndef SECOND" in open(path, errors="replace").read(200)
    base = [cxx] + flags + ["-w", "-I" + repo]
    objs = []
    try:
        for k in range(2 if second else 1):
            obj = "%s-%d.o" % (path, k)
            objs.append(obj)
            for again in range(3):
                rc, text = call(base + (["-DSECOND"] if k else []) + ["-c", path, "-o", obj], 300)
                if not rc: break
                if rc > 0 and not re.search(r"internal compiler error|Killed|No space left|cannot execute|memory exhausted|PLEASE submit", text): break
            if rc: return "compile", text
        rc, text = call(base + objs + ["-o", exe], 300)
        if rc:
            rc, text = call(base + objs + ["-o", exe], 300)
        if rc: return "compile", text
        for again in range(2):
            rc, text = call([exe], 30)
            if rc == 0 and "all held" in text: return None, ""
        return "run", text
    finally:
        for f in objs + [exe]:
            if os.path.exists(f): os.unlink(f)


SANF = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,object-size,vptr", "-fno-sanitize-recover=all"]


def brief(text):
    ls = [l for l in text.splitlines() if re.search(r"error|FAILED|undefined reference|runtime error|ERROR|multiple definition|did not end", l)]
    ls = [l for l in ls if "In instantiation" not in l and "required from" not in l] or ls or text.splitlines()
    return " | ".join(l.strip()[:300] for l in ls[:2])


def generate(seed, number, per):
    r = random.Random("%d/%d" % (seed, number))
    mode = "nx" if number % 2 else "exc"
    cxx = "clang++" if number % 5 == 4 else "g++"
    std = ["gnu++11", "gnu++11", "c++11", "gnu++14", "gnu++17", "gnu++20"][r.randrange(6)]
    opt = ["-O0", "-O0", "-O0", "-O1"][r.randrange(4)]
    flags = ["-std=" + std, opt] + SANF + (["-fno-exceptions"] if mode == "nx" else [])
    return Program([Case(r, mode) for _ in range(per)], cxx, flags, r.randrange(1 << 30))


def search(repo, work, seed, programs, per, cores, budget):
    """returns (statistics, None or (message, replay text))"""
    import time
    t0 = time.time()
    stats = {"programs": 0, "cases": 0, "distinct": set(), "samples": [], "events": {}}
    bad = []

    def one(n):
        if bad or time.time() - t0 > budget: return None
        p = generate(seed, n, per)
        path = os.path.join(work, "p%d.cpp" % n)
        with open(path, "w") as f: f.write(p.text(repo))
        kind, text = attempt(path, repo, p.cxx, p.flags)
        os.unlink(path)
        if kind: bad.append((n, kind, text))
        return p

    with concurrent.futures.ThreadPoolExecutor(cores) as ex:
        for p in ex.map(one, range(programs)):
            if p is None: continue
            stats["programs"] += 1
            for c in p.cases:
                stats["cases"] += 1
                k = (c.cont, c.type.show(), c.alloc, c.err, c.order if c.cont == "set" else "", c.mode, tuple(o for o, _ in c.ops))
                if len(c.ops) >= 3 and unusual(c): stats["distinct"].add(k)
                if len(stats["samples"]) < 8: stats["samples"].append("%s %s %s: %s of %s, allocator %s, error %s: %s" % (p.cxx, p.flags[0], c.mode, c.cont, c.type.show(), c.alloc, c.err, " ".join(o for o, _ in c.ops)))
                for e in ["container " + c.cont, "element " + c.type.kind, "allocator " + c.alloc, "error " + c.err, "assignment " + c.type.assign] + ["operation " + o for o, _ in c.ops] + (["order " + c.order] if c.cont == "set" else []):
                    stats["events"][e] = stats["events"].get(e, 0) + 1
    if not bad: return stats, None
    n, kind, text = min(bad)
    p = generate(seed, n, per)

    def fails(q, name):
        path = os.path.join(work, name)
        try:
            with open(path, "w") as f: f.write(q.text(repo))
            k, t = attempt(path, repo, q.cxx, q.flags)
            return t if k == kind else None
        finally:
            os.unlink(path)

    def first(cands):
        """the first of the candidates that still fails"""
        for base in range(0, len(cands), cores):
            with concurrent.futures.ThreadPoolExecutor(cores) as ex:
                ts = list(ex.map(lambda iq: fails(iq[1], "s%d.cpp" % iq[0]), list(enumerate(cands[base:base + cores]))))
            for q, t in zip(cands[base:base + cores], ts):
                if t is not None: return q, t
            if time.time() - t1 > 150: break
        return None

    t1 = time.time()
    got = first([Program([c], p.cxx, p.flags, p.incseed) for c in sorted(p.cases, key=lambda c: len(c.ops))])
    if got:
        p, text = got
        while time.time() - t1 < 150:
            c = p.cases[0]
            cands = []
            for d in c.simpler():
                if d.sound(): cands.append(Program([d], p.cxx, p.flags, p.incseed))
            got = first(cands)
            if not got: break
            p, text = got
    src = head(p.cxx, p.flags) + p.text(repo)
    what = "does not compile" if kind == "compile" else "does not behave as its operations say"
    return stats, ("a generated program that uses only what the operations ask for %s (%s): %s" % (what, "exceptions on" if p.cases[0].mode == "exc" else "exceptions off", brief(text)), src)


def unusual(c):
    """non-trivial: the element, ordering, allocator or error type lacks something an ordinary one has"""
    t = c.type
    return not (t.kind in ("copymove", "copy") and t.dflt and t.assign == "yes") or c.alloc in ("least", "given") or c.err in ("user", "fixed") or (c.cont == "set" and c.order not in ("functor", "final"))


def replay(path, repo, work):
    text = open(path, errors="replace").read()
    m = re.match(r"// build: (\S+) (.*?)   \(", text)
    dst = os.path.join(work, "replay.cpp")
    with open(dst, "w") as f: f.write(text)
    kind, out = attempt(dst, repo, m.group(1), m.group(2).split())
    if kind:
        print("%s failure:\n%s" % (kind, out[:4000]))
        return 1
    print("the program compiles and behaves now")
    return 0
