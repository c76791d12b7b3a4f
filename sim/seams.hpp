// The seams through which the simulator owns everything the containers depend on:
// allocator, element type, error type, comparator and input iterators.
#ifndef SIM_SEAMS_HPP
#define SIM_SEAMS_HPP

#include "core.hpp"

#include <iterator>
#include <limits>
#include <stdexcept>
#include <type_traits>

#include <nestl/config.hpp>
#include <nestl/exception_support.hpp>
#include <nestl/default_operation_error.hpp>
#include <nestl/allocator.hpp>
#include <nestl/class_operations.hpp>
#include <nestl/type_traits.hpp>

#if defined(__cpp_exceptions)
#define SIM_EXC 1
#else
#define SIM_EXC 0
#endif

namespace sim {

// ---------------------------------------------------------------- faults and causes
struct SimFault { u32 id; };
// what elements throw is of several kinds, among them some that derive from types the library throws itself
struct SimNoRoom : std::bad_alloc { u32 id; explicit SimNoRoom(u32 i) noexcept : id(i) {} };
static const std::length_error too_long("simulated"); // copies share its text and need no memory
struct SimTooLong : std::length_error { u32 id; explicit SimTooLong(u32 i) noexcept : std::length_error(too_long), id(i) {} };
struct SimBroken : std::exception { u32 id; explicit SimBroken(u32 i) noexcept : id(i) {} };
#if SIM_EXC
[[noreturn]] inline void throw_fault(u32 id) {
    switch (id % 7) {
        case 1: throw SimNoRoom(id);
        case 2: throw SimTooLong(id);
        case 3: throw SimBroken(id);
        case 4: throw id;
    }
    SimFault f; f.id = id;
    throw f;
}
#endif

enum CauseType { CAUSE_NONE, CAUSE_FAULT, CAUSE_BADALLOC, CAUSE_LENGTH, CAUSE_OTHER };
struct Cause { CauseType type; u32 id; };

// error type of the simulator: remembers the first cause written into it
struct SimError {
    Cause cause;
    int writes;
    SimError() noexcept { cause.type = CAUSE_NONE; cause.id = 0; writes = 0; }
    explicit operator bool() const noexcept { return cause.type != CAUSE_NONE; }
    void set(CauseType t, u32 id) noexcept { cause.type = t; cause.id = id; ++writes; }
};

inline void build_bad_alloc(SimError& e) noexcept { e.set(CAUSE_BADALLOC, 0); }
inline void build_length_error(SimError& e) noexcept { e.set(CAUSE_LENGTH, 0); }

#if SIM_EXC
inline Cause decode(std::exception_ptr p) {
    Harness h;
    Cause c; c.type = CAUSE_OTHER; c.id = 0;
    if (!p) { c.type = CAUSE_NONE; return c; }
    try { std::rethrow_exception(p); }
    catch (const SimFault& f) { c.type = CAUSE_FAULT; c.id = f.id; }
    catch (const SimNoRoom& f) { c.type = CAUSE_FAULT; c.id = f.id; }
    catch (const SimTooLong& f) { c.type = CAUSE_FAULT; c.id = f.id; }
    catch (const SimBroken& f) { c.type = CAUSE_FAULT; c.id = f.id; }
    catch (u32 f) { c.type = CAUSE_FAULT; c.id = f; }
    catch (const std::bad_alloc&) { c.type = CAUSE_BADALLOC; }
    catch (const std::length_error&) { c.type = CAUSE_LENGTH; }
    catch (...) {}
    return c;
}
inline void from_exception_ptr(SimError& e, std::exception_ptr p) noexcept { Cause c = decode(p); e.set(c.type, c.id); }
inline Cause cause_of(const nestl::has_exceptions::exception_ptr_error& e) { return decode(e.value()); }
#else
inline Cause cause_of(const nestl::no_exceptions::errc_based_error& e) {
    Cause c; c.id = 0;
    switch (e.value()) {
        case 0: c.type = CAUSE_NONE; break;
        case nestl::errc::not_enough_memory: c.type = CAUSE_BADALLOC; break;
        case nestl::errc::value_too_large: c.type = CAUSE_LENGTH; break;
        default: if (e.value() >= 1000 || e.value() <= -1000) { c.type = CAUSE_FAULT; c.id = u32((e.value() < 0 ? -e.value() : e.value()) - 1000); } else c.type = CAUSE_OTHER;
    }
    return c;
}
#endif
inline Cause cause_of(const SimError& e) { return e.cause; }

// an allocator that wants to report its own reason
inline void report_alloc(SimError& e, u32 id) noexcept { e.set(CAUSE_FAULT, id); }
template <class Err> void report_alloc(Err& e, u32) noexcept { build_bad_alloc(e); }

// a two-phase initialisation that fails
inline void report_init(SimError& e, u32 id) noexcept { e.set(CAUSE_FAULT, id); }
#if SIM_EXC
inline void report_init(nestl::has_exceptions::exception_ptr_error& e, u32 id) noexcept { Harness h; SimFault f; f.id = id; from_exception(e, f); }
#else
inline void report_init(nestl::no_exceptions::errc_based_error& e, u32 id) noexcept { e = nestl::no_exceptions::errc_based_error(id % 2 ? int(1000 + id) : -int(1000 + id)); } // any code but 0 is a failure
#endif

inline const char* name_of(const SimError*) { return "sim-error"; }
inline const char* name_of(const nestl::default_operation_error*) { return "default-error"; }

// true: the operation succeeded; false: it failed, for a reason that really happened
template <class Err>
bool judge(const Err& e, const char* op) {
    Cause c = cause_of(e);
    bool failed = bool(e);
    S.mix(failed ? 2 : 1);
    // the report of an impossible size may itself lack memory in one mode only; identity is judged below, not hashed
    if (failed && (!S.oversize || (S.plan.empty() && !S.outage && S.quota < 0))) S.mix(u64(c.type));
    if (S.stats && failed) ++S.stats->ops_failed;
    if (!failed) return true;
    if (S.fired.empty() && !S.oversize) {
        S.fail(P(CAUSE) | P(VALID) | S.scope, "%s reported an error although nothing failed", op);
        return false;
    }
    bool ok = false;
    switch (c.type) {
        case CAUSE_FAULT: for (size_t i = 0; i < S.fired.size(); ++i) ok = ok || S.fired[i].id == c.id; break;
        case CAUSE_BADALLOC: ok = S.fired_kind(F_ALLOC) || S.oversize; break;
        case CAUSE_LENGTH: ok = S.oversize; break;
        default: break;
    }
    if (!ok) S.fail(P(CAUSE), "%s reported a cause (type %d, fault %u) that is not the one that made it fail", op, int(c.type), c.id);
    return false;
}

// ---------------------------------------------------------------- allocator
struct alloc_count {
    volatile u32 magic;
    alloc_count() noexcept : magic(seal()) { ++S.allocators; }
    alloc_count(const alloc_count& o) noexcept : magic(seal()) { o.alive("copied"); ++S.allocators; }
    ~alloc_count() { alive("destroyed"); magic = 0xDEADDEAD; --S.allocators; }
    u32 seal() const { return u32(uintptr_t(this) >> 2) * 2654435761u ^ 0xA110CA7E; }
    void alive(const char* what) const { if (magic != seal()) S.fail(P(MEM) | P(ALLOC) | S.scope, "an allocator that does not exist (any more) is %s", what); }
};

// memory behind a gigantic request that is honoured
enum { LAZY_BYTES = 1 << 18 };

template <class T>
class SimAlloc : private alloc_count {
public:
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef T& reference;
    typedef const T& const_reference;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <class U> struct rebind { typedef SimAlloc<U> other; };

    int arena;
    SimAlloc() noexcept : arena(0) {}
    explicit SimAlloc(int a) noexcept : arena(a) {}
    SimAlloc(const SimAlloc& o) noexcept : alloc_count(), arena(o.arena) {}
    template <class U> SimAlloc(const SimAlloc<U>& o) noexcept : arena(o.arena) {}
    SimAlloc& operator=(const SimAlloc& o) noexcept { arena = o.arena; return *this; }
    bool operator==(const SimAlloc& o) const noexcept { return arena == o.arena; }
    bool operator!=(const SimAlloc& o) const noexcept { return arena != o.arena; }

    template <class Err>
    T* allocate(Err& err, size_type n, const void* = 0) noexcept {
        this->alive("asked for memory");
        if (n > std::numeric_limits<size_type>::max() / sizeof(T)) S.fail(P(HUGE_), "an allocator was asked for %zu elements of %zu bytes, a size in bytes that wraps around", n, sizeof(T));
        bool huge = n > (size_type(1) << 30) / sizeof(T);
        if (huge && S.lazy && n <= size_type(std::numeric_limits<std::ptrdiff_t>::max()) / sizeof(T)) { // address space without memory behind most of it
            u32 id = S.alloc_point(LAZY_BYTES, false);
            if (id) { report_alloc(err, id); return nullptr; }
            return static_cast<T*>(S.take(LAZY_BYTES, n, arena));
        }
        u32 id = S.alloc_point(huge ? std::numeric_limits<size_t>::max() : n * sizeof(T), huge);
        if (id) { report_alloc(err, id); return nullptr; }
        return static_cast<T*>(S.take(n * sizeof(T), n, arena));
    }
    void deallocate(T* p, size_type n) noexcept { this->alive("given memory back"); S.give(p, n, arena, true); }
};

// the same, following the elements when a container is copied onto another one
template <class T>
class SimAllocFollow : public SimAlloc<T> {
public:
    typedef std::true_type propagate_on_container_copy_assignment;
    template <class U> struct rebind { typedef SimAllocFollow<U> other; };
    SimAllocFollow() noexcept {}
    explicit SimAllocFollow(int a) noexcept : SimAlloc<T>(a) {}
    SimAllocFollow(const SimAllocFollow& o) noexcept : SimAlloc<T>(o) {}
    template <class U> SimAllocFollow(const SimAllocFollow<U>& o) noexcept : SimAlloc<T>(o.arena) {}
    SimAllocFollow& operator=(const SimAllocFollow& o) noexcept { this->arena = o.arena; return *this; }
};
template <class A> struct follows_copy { enum { value = 0 }; };
template <class T> struct follows_copy<SimAllocFollow<T> > { enum { value = 1 }; };

template <class T> int arena_of(const SimAlloc<T>& a) { return a.arena; }
template <class T> int arena_of(const nestl::allocator<T>&) { return 0; }
template <class A> struct make_alloc;
template <class T> struct make_alloc<SimAlloc<T> > { static SimAlloc<T> of(int a) { return SimAlloc<T>(a); } enum { arenas = 2 }; };
template <class T> struct make_alloc<SimAllocFollow<T> > { static SimAllocFollow<T> of(int a) { return SimAllocFollow<T>(a); } enum { arenas = 2 }; };
template <class T> struct make_alloc<nestl::allocator<T> > { static nestl::allocator<T> of(int) { return nestl::allocator<T>(); } enum { arenas = 1 }; };
template <class T> const char* name_of(const SimAlloc<T>*) { return "sim-allocator"; }
template <class T> const char* name_of(const SimAllocFollow<T>*) { return "sim-allocator-following-copies"; }
template <class T> const char* name_of(const nestl::allocator<T>*) { return "nestl-allocator"; }

// ---------------------------------------------------------------- elements
// Values carry a key (v / 8) used for ordering, and a payload (v % 8) used to observe stability.
enum { V_MOVED = -99999, V_HALF = -88888, V_DEFAULT = 0 };
enum ElemKind { E_THR = 1, E_THRMV = 2, E_TWO = 3, E_TWOMV = 4, E_PLAIN = 5, E_THRMVTHR = 6, E_TWODEF = 7, E_TRIV = 8 };

// some kinds need more than the alignment every heap and stack has anyway
template <int K>
struct alignas(K == E_THRMV || K == E_TWO ? 64 : 16) Core {
    int v;
    u32 magic;
    static u32 seal(const void* p) { return u32(uintptr_t(p) >> 3) * 2654435761u ^ u32(K); }
    explicit Core(int x) : v(x), magic(seal(this)) { S.born(this, K, alignof(Core)); }
    ~Core() { S.died(this, K); magic = 0xDEADDEAD; v = -77777; }
    Core(const Core&) = delete;
    Core& operator=(const Core&) = delete;
    int value(const char* use) const {
        if (!S.alive(this, use)) return -66666;
        if (magic != seal(this)) S.fail(P(LIFE) | S.scope, "element was copied bytewise instead of being constructed");
        return v;
    }
    int get() const { return value("read"); }
};

inline int may_throw(int v, u32 id) {
#if SIM_EXC
    if (id) throw_fault(id);
#else
    if (id) S.fatal(P(CAUSE) | S.scope, "a throwing element was built without exception support");
#endif
    return v;
}

template <int K> struct Elem;

// copy may throw, no move
template <> struct Elem<E_THR> : Core<E_THR> {
    Elem() : Core(may_throw(V_DEFAULT, S.copy_point(V_DEFAULT))) {}
    explicit Elem(int x) : Core(may_throw(x, S.copy_point(x))) {}
    Elem(const Elem& o) : Core(from(o)) {}
    Elem& operator=(const Elem& o) { ++S.assigns; int x = o.value("assign from"); value("assign to"); may_throw(x, S.point(F_ASSIGN)); v = x; return *this; }
    static int from(const Elem& o) { int x = o.value("copy"); return may_throw(x, S.copy_point(x)); }
    static const char* name() { return "throwing-copy"; }
};
// copy may throw, move does not
template <> struct Elem<E_THRMV> : Core<E_THRMV> {
    Elem() noexcept : Core(V_DEFAULT) {}
    explicit Elem(int x) : Core(may_throw(x, S.copy_point(x))) {}
    Elem(const Elem& o) : Core(from(o)) {}
    Elem(Elem&& o) noexcept : Core(o.value("move from")) { o.v = V_MOVED; }
    Elem& operator=(const Elem& o) { ++S.assigns; int x = o.value("assign from"); value("assign to"); may_throw(x, S.point(F_ASSIGN)); v = x; return *this; }
    Elem& operator=(Elem&& o) noexcept { ++S.assigns; int x = o.value("move assign from"); value("assign to"); o.v = V_MOVED; v = x; return *this; }
    static int from(const Elem& o) { int x = o.value("copy"); return may_throw(x, S.copy_point(x)); }
    static const char* name() { return "throwing-copy-nothrow-move"; }
};
// copy and move may throw
template <> struct Elem<E_THRMVTHR> : Core<E_THRMVTHR> {
    Elem() : Core(may_throw(V_DEFAULT, S.copy_point(V_DEFAULT))) {}
    explicit Elem(int x) : Core(may_throw(x, S.copy_point(x))) {}
    Elem(const Elem& o) : Core(from(o)) {}
    Elem(Elem&& o) : Core(from(o)) { o.v = V_MOVED; }
    Elem& operator=(const Elem& o) { ++S.assigns; int x = o.value("assign from"); value("assign to"); may_throw(x, S.point(F_ASSIGN)); v = x; return *this; }
    static int from(const Elem& o) { int x = o.value("copy"); return may_throw(x, S.copy_point(x)); }
    static const char* name() { return "throwing-copy-throwing-move"; }
};
// no copy at all: duplicated by two-phase initialisation, which may fail
template <> struct Elem<E_TWO> : Core<E_TWO> {
    Elem() noexcept : Core(V_DEFAULT) {}
    Elem(const Elem&) = delete;
    Elem& operator=(const Elem&) = delete;
    static const char* name() { return "two-phase"; }
};
template <> struct Elem<E_TWOMV> : Core<E_TWOMV> {
    Elem() noexcept : Core(V_DEFAULT) {}
    Elem(const Elem&) = delete;
    Elem& operator=(const Elem&) = delete;
    Elem(Elem&& o) noexcept : Core(o.value("move from")) { o.v = V_MOVED; }
    static const char* name() { return "two-phase-nothrow-move"; }
};
// already the first of the two phases may fail
template <> struct Elem<E_TWODEF> : Core<E_TWODEF> {
    Elem() : Core(may_throw(V_DEFAULT, S.copy_point(V_DEFAULT))) {}
    Elem(const Elem&) = delete;
    Elem& operator=(const Elem&) = delete;
    static const char* name() { return "two-phase-throwing-default"; }
};
// nothing fails
template <> struct Elem<E_PLAIN> : Core<E_PLAIN> {
    Elem() noexcept : Core(V_DEFAULT) {}
    explicit Elem(int x) noexcept : Core(x) {}
    Elem(const Elem& o) noexcept : Core(o.value("copy")) {}
    Elem(Elem&& o) noexcept : Core(o.value("move from")) { o.v = V_MOVED; }
    Elem& operator=(const Elem& o) noexcept { ++S.assigns; int x = o.value("assign from"); value("assign to"); v = x; return *this; }
    Elem& operator=(Elem&& o) noexcept { ++S.assigns; int x = o.value("move assign from"); value("assign to"); o.v = V_MOVED; v = x; return *this; }
    static const char* name() { return "nothrow"; }
};

// trivial: may be copied bytewise, has no life that could be followed, and is complete only if all of it was copied
template <> struct Elem<E_TRIV> {
    int v, twice;
    char tail[3];
    Elem() = default;
    explicit Elem(int x) noexcept : v(x), twice(2 * x), tail() { tail[2] = char(x); }
    void set(int x) { *this = Elem(x); }
    int value(const char* use) const {
        if (twice != 2 * v || tail[2] != char(v)) S.fail(P(LIFE) | S.scope, "%s of an element that is only partly there", use);
        return v;
    }
    int get() const { return value("read"); }
    static const char* name() { return "trivial"; }
};
template <class E> struct followed { enum { value = 1 }; };
template <> struct followed<Elem<E_TRIV> > { enum { value = 0 }; };

template <int K> bool operator==(const Elem<K>& l, const Elem<K>& r) { return l.value("compare") == r.value("compare"); }
template <int K> bool operator<(const Elem<K>& l, const Elem<K>& r) { return (l.value("compare") >> 3) < (r.value("compare") >> 3); }

template <class E> struct is_two { enum { value = 0 }; };
template <> struct is_two<Elem<E_TWO> > { enum { value = 1 }; };
template <> struct is_two<Elem<E_TWOMV> > { enum { value = 1 }; };
template <> struct is_two<Elem<E_TWODEF> > { enum { value = 1 }; };
template <class E> struct never_fails { enum { value = 0 }; };
template <> struct never_fails<Elem<E_PLAIN> > { enum { value = 1 }; };
template <> struct never_fails<Elem<E_TRIV> > { enum { value = 1 }; };

// kinds whose move cannot fail and leaves a mark: offered as an rvalue they are taken over, not duplicated
template <class E> struct is_taken { enum { value = 0 }; };
template <> struct is_taken<Elem<E_THRMV> > { enum { value = 1 }; };
template <> struct is_taken<Elem<E_TWOMV> > { enum { value = 1 }; };
template <> struct is_taken<Elem<E_PLAIN> > { enum { value = 1 }; };

// make a free-standing element of the harness, outside of the fault space
template <class E> struct Arg {
    E e;
    Arg(int x, std::false_type) : e(x) {}
    Arg(int x, std::true_type) : e() { e.v = x; }
    explicit Arg(int x) : Arg(x, std::integral_constant<bool, is_two<E>::value>()) {}
};

// ---------------------------------------------------------------- single-pass input stream over a buffer of elements
template <class E>
struct Stream {
    const E* const* items; // elements live elsewhere
    size_t n;
    size_t pos;
    size_t reads;
    size_t far; // positions read so far are below this one
    Stream(const E* const* i, size_t n_) : items(i), n(n_), pos(0), reads(0), far(0) {}
};

template <class E>
struct StreamIt {
    typedef std::input_iterator_tag iterator_category;
    typedef E value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const E* pointer;
    typedef const E& reference;
    Stream<E>* s;
    size_t at;
    StreamIt() : s(0), at(0) {}
    explicit StreamIt(Stream<E>* st) : s(st), at(st->pos) {}
    bool done() const { return !s || s->pos >= s->n; }
    const E& operator*() const {
        if (done()) S.fatal(P(BULK) | S.scope, "input stream read past its end");
        if (at != s->pos) S.fail(P(BULK) | S.scope, "single-pass stream read again at a position already passed");
        ++s->reads;
        s->far = s->pos + 1;
        return *s->items[s->pos];
    }
    const E* operator->() const { return &**this; }
    StreamIt& operator++() {
        if (done()) S.fatal(P(BULK) | S.scope, "input stream advanced past its end");
        if (at != s->pos) S.fail(P(BULK) | S.scope, "single-pass stream advanced from a position already passed");
        ++s->pos; at = s->pos;
        return *this;
    }
    StreamIt operator++(int) { StreamIt t = *this; ++*this; return t; }
    bool operator==(const StreamIt& o) const { return done() == o.done(); }
    bool operator!=(const StreamIt& o) const { return !(*this == o); }
};

// ---------------------------------------------------------------- the same elements behind iterators of other kinds
template <class E>
struct FwdIt { // multi-pass, but it can only go forward
    typedef std::forward_iterator_tag iterator_category;
    typedef E value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const E* pointer;
    typedef const E& reference;
    const E* p; const E* end;
    FwdIt() : p(0), end(0) {}
    FwdIt(const E* at, const E* e) : p(at), end(e) {}
    const E& operator*() const { if (p == end) S.fatal(P(BULK) | S.scope, "range read past its end"); return *p; }
    const E* operator->() const { return &**this; }
    FwdIt& operator++() { if (p == end) S.fatal(P(BULK) | S.scope, "range advanced past its end"); ++p; return *this; }
    FwdIt operator++(int) { FwdIt t = *this; ++*this; return t; }
    bool operator==(const FwdIt& o) const { return p == o.p; }
    bool operator!=(const FwdIt& o) const { return p != o.p; }
};
template <class E> struct from_short { enum { value = SIM_EXC ? std::is_constructible<E, const short&>::value : std::is_nothrow_constructible<E, const short&>::value }; };
enum { RANGE_CONST, RANGE_PLAIN, RANGE_FORWARD, RANGE_REVERSE, RANGE_MOVE, RANGE_SHORT, RANGE_KINDS };
template <class E, class Go> void go_move(E* a, int n, Go& go, std::false_type) { go(std::make_move_iterator(a), std::make_move_iterator(a + n)); }
template <class E, class Go> void go_move(E* a, int n, Go& go, std::true_type) { go(const_cast<const E*>(a), const_cast<const E*>(a) + n); }
template <class E, class Go> void go_short(E*, const short* v, int n, Go& go, std::true_type) { go(v, v + n); }
template <class E, class Go> void go_short(E* a, const short*, int n, Go& go, std::false_type) { go(const_cast<const E*>(a), const_cast<const E*>(a) + n); }
template <class E, class Go> void go_range(int kind, E* a, const std::vector<short>& shorts, Go& go) {
    const int n = int(shorts.size());
    const E* f = a;
    typedef std::reverse_iterator<const E*> Rev;
    switch (kind) {
    case RANGE_PLAIN: go(a, a + n); break;
    case RANGE_FORWARD: go(FwdIt<E>(f, f + n), FwdIt<E>(f + n, f + n)); break;
    case RANGE_REVERSE: go(Rev(f + n), Rev(f)); break;
    case RANGE_MOVE: go_move(a, n, go, std::integral_constant<bool, is_two<E>::value>()); break;
    case RANGE_SHORT: go_short(a, shorts.data(), n, go, std::integral_constant<bool, from_short<E>::value>()); break;
    default: go(f, f + n);
    }
}

// ---------------------------------------------------------------- model helpers
typedef std::vector<int> Ints;

inline bool is_subsequence(const Ints& small, const Ints& big) {
    size_t i = 0;
    for (size_t j = 0; i < small.size() && j < big.size(); ++j) if (small[i] == big[j]) ++i;
    return i == small.size();
}
inline bool is_prefix(const Ints& small, const Ints& big) {
    if (small.size() > big.size()) return false;
    for (size_t i = 0; i < small.size(); ++i) if (small[i] != big[i]) return false;
    return true;
}
inline std::string show(const Ints& v) {
    std::string r = "[";
    char b[24];
    for (size_t i = 0; i < v.size() && i < 24; ++i) { snprintf(b, sizeof b, "%s%d", i ? " " : "", v[i]); r += b; }
    if (v.size() > 24) { snprintf(b, sizeof b, " ..(%zu)", v.size()); r += b; }
    return r + "]";
}
// every way of walking over a container visits exactly the elements at these addresses
typedef std::vector<const void*> Addresses;
template <class T> const void* arrow(T* p) { return p; }
template <class It> const void* arrow(const It& i) { return i.operator->(); }
template <class C> bool walk(C& c, const Addresses& at) {
    typedef typename C::iterator It;
    typedef typename C::const_iterator CIt;
    const C& k = c;
    const size_t n = at.size();
    size_t i = 0;
    It it = c.begin();
    while (i < n && it != c.end()) { if (&*it != at[i] || arrow(it) != at[i]) return false; It old = it++; if (&*old != at[i] || old == it || !(old != it)) return false; ++i; }
    if (i != n || !(it == c.end())) return false;
    while (i > 0) { It old = it--; if (old == it) return false; --i; if (&*it != at[i]) return false; }
    if (it != c.begin()) return false;
    CIt ct = c.begin(); // conversion
    for (; i < n && ct != k.end(); ++i) { if (&*ct != at[i] || arrow(ct) != at[i]) return false; CIt old = ct++; if (&*old != at[i] || old == ct) return false; }
    if (i != n || ct != k.end() || ct != k.cend() || ct != CIt(c.end())) return false;
    while (i > 0) { CIt old = ct--; if (!(old != ct)) return false; --i; if (&*ct != at[i]) return false; }
    if (ct != k.begin() || ct != k.cbegin()) return false;
    i = n;
    for (typename C::const_reverse_iterator r = k.rbegin(); r != k.rend(); ++r) { if (!i || &*r != at[--i]) return false; }
    if (i) return false;
    i = n;
    for (typename C::const_reverse_iterator r = k.crbegin(); r != k.crend(); ++r) { if (!i || &*r != at[--i]) return false; }
    if (i) return false;
    i = n;
    for (typename C::reverse_iterator r = c.rbegin(); r != c.rend(); ++r) { if (!i || &*r != at[--i]) return false; }
    return i == 0;
}

inline int pick(int raw, int n) { return n <= 0 ? 0 : int(u32(raw) % u32(n)); }

} // namespace sim

namespace nestl {
template <> struct two_phase_initializator<sim::Elem<sim::E_TWO> > {
    typedef sim::Elem<sim::E_TWO> E;
    template <class Err> static void init(Err& err, E& d, const E& s) noexcept {
        int x = s.value("two-phase copy"); d.value("two-phase target");
        sim::u32 id = sim::S.copy_point(x);
        if (id) { d.v = sim::V_HALF; sim::report_init(err, id); return; }
        d.v = x;
    }
    template <class Err> static void init(Err& err, E& d, int x) noexcept {
        d.value("two-phase target");
        sim::u32 id = sim::S.copy_point(x);
        if (id) { d.v = sim::V_HALF; sim::report_init(err, id); return; }
        d.v = x;
    }
};
template <> struct two_phase_initializator<sim::Elem<sim::E_TWOMV> > {
    typedef sim::Elem<sim::E_TWOMV> E;
    template <class Err> static void init(Err& err, E& d, const E& s) noexcept {
        int x = s.value("two-phase copy"); d.value("two-phase target");
        sim::u32 id = sim::S.copy_point(x);
        if (id) { d.v = sim::V_HALF; sim::report_init(err, id); return; }
        d.v = x;
    }
    template <class Err> static void init(Err& err, E& d, int x) noexcept {
        d.value("two-phase target");
        sim::u32 id = sim::S.copy_point(x);
        if (id) { d.v = sim::V_HALF; sim::report_init(err, id); return; }
        d.v = x;
    }
};
template <> struct two_phase_initializator<sim::Elem<sim::E_TWODEF> > {
    typedef sim::Elem<sim::E_TWODEF> E;
    template <class Err> static void init(Err& err, E& d, const E& s) noexcept {
        int x = s.value("two-phase copy"); d.value("two-phase target");
        sim::u32 id = sim::S.copy_point(x);
        if (id) { d.v = sim::V_HALF; sim::report_init(err, id); return; }
        d.v = x;
    }
    template <class Err> static void init(Err& err, E& d, int x) noexcept {
        d.value("two-phase target");
        sim::u32 id = sim::S.copy_point(x);
        if (id) { d.v = sim::V_HALF; sim::report_init(err, id); return; }
        d.v = x;
    }
};
}

#endif
