// World: the throwing interface (has_exceptions::vector, has_exceptions::list) next to the reporting one. An operation
// of the throwing interface must throw exactly when the reporting one would report, must throw the true cause, and a
// throw must leave every container as it was.
#include "seams.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <nestl/list.hpp>
#include <nestl/vector.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
#define IS_VEC 1
typedef Elem<E_THR> E; typedef SimAlloc<E> A;
#elif VARIANT == 1
#define IS_VEC 1
typedef Elem<E_THRMV> E; typedef nestl::allocator<E> A;
#elif VARIANT == 2
#define IS_VEC 0
typedef Elem<E_THR> E; typedef SimAlloc<E> A;
#elif VARIANT == 3
#define IS_VEC 0
typedef Elem<E_THRMV> E; typedef nestl::allocator<E> A;
#elif VARIANT == 4
#define IS_VEC 1
typedef Elem<E_TWO> E; typedef SimAlloc<E> A;
#elif VARIANT == 5
#define IS_VEC 0
typedef Elem<E_TWOMV> E; typedef SimAlloc<E> A;
#endif

#if IS_VEC
typedef nestl::has_exceptions::vector<E, A> C;
typedef nestl::impl::vector<E, A> Plain;
#else
typedef nestl::has_exceptions::list<E, A> C;
#endif
typedef nestl::default_operation_error Err;

enum { VALUES = 40, SLOTS = 3 };
inline int val(int raw) { return 1 + pick(raw, VALUES); }

#define OPS(X) \
    X(push_copy, 8, P(THROWAPI)) X(push_move, 7, P(THROWAPI)) X(push_own, 4, P(THROWAPI)) X(copy_construct, 5, P(THROWAPI)) X(copy_assign, 6, P(THROWAPI)) X(self_assign, 2, P(THROWAPI)) \
    X(move_construct, 2, P(NOFAIL)) X(move_assign, 3, P(NOFAIL)) X(nothrow_push, 5, P(THROWAPI)) X(nothrow_insert, 4, P(THROWAPI)) X(nothrow_copy, 3, P(THROWAPI)) X(clear, 1, P(NOFAIL)) X(rebuild, 1, 0) \
    X(from_plain_construct, 3, P(THROWAPI)) X(from_plain_assign, 3, P(THROWAPI)) X(take_plain_construct, 2, P(NOFAIL)) X(take_plain_assign, 2, P(NOFAIL)) X(give_plain, 2, P(NOFAIL)) X(plain_push, 4, 0) X(plain_copy, 2, 0) \
    X(sort, 2, P(NOFAIL)) X(merge, 4, P(NOFAIL) | P(THROWAPI)) X(splice_all, 2, P(NOFAIL)) X(splice_one, 2, P(NOFAIL)) X(splice_range, 2, P(NOFAIL)) X(erase, 3, P(NOFAIL))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#if IS_VEC
#define W(n, w) (OP_##n >= OP_sort ? 0 : w)
#else
#define W(n, w) (OP_##n == OP_nothrow_copy || (OP_##n >= OP_from_plain_construct && OP_##n < OP_sort) ? 0 : w)
#endif
#define X(n, w, f) {"throw." #n, W(n, w), f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

inline bool item_up(int a, int b) { return (a >> 3) < (b >> 3); }
inline bool item_down(int a, int b) { return (b >> 3) < (a >> 3); }
struct Down { bool operator()(const E& l, const E& r) const { return r < l; } };

struct Slot { C* c; Ints m; int arena; };

struct ThrowWorld : World {
    Slot s[SLOTS];
#if IS_VEC
    Plain* plain; Ints pm; int parena;
#endif
    static const u32 base = (1u << THROWAPI) | (1u << LIFE) | (1u << MEM);
    static C* raw() { return static_cast<C*>(room(sizeof(C))); }

    template <class K> Ints content(const K& c) {
        Ints r;
        for (typename K::const_iterator i = c.cbegin(); i != c.cend(); ++i) { r.push_back(i->get()); if (r.size() > 5000) S.fatal(base, "iteration does not end"); }
        if (c.size() != r.size() || c.empty() != r.empty()) S.fail(base, "container claims %zu elements, iteration finds %zu", c.size(), r.size());
        return r;
    }
    void nofail(const char* op) { if (S.alloc_requests || S.ctors) S.fail(P(NOFAIL), "%s cannot fail, but asked for memory or constructed elements", op); }
    void shape(const Ints& m) { S.shape = u32(m.size() > 9 ? 9 : m.size()); }

    // run f, which may throw; afterwards: threw iff it could not succeed, and with the true cause
    template <class F> bool attempt(const char* name, F f) {
        bool threw = false;
        Cause c; c.type = CAUSE_NONE; c.id = 0;
        try { f(); }
        catch (...) { threw = true; S.in_op = false; c = decode(std::current_exception()); }
        S.end();
        S.mix(threw ? 2 : 1);
        if (!threw) return true;
        if (S.stats) ++S.stats->ops_failed;
        if (S.fired.empty()) { S.fail(P(THROWAPI) | P(CAUSE), "%s threw although nothing failed", name); return false; }
        bool good = false;
        if (c.type == CAUSE_FAULT) for (size_t i = 0; i < S.fired.size(); ++i) good = good || S.fired[i].id == c.id;
        if (c.type == CAUSE_BADALLOC) good = S.fired_kind(F_ALLOC);
        if (!good) S.fail(P(THROWAPI) | P(CAUSE), "%s threw something that is not what failed (type %d)", name, int(c.type));
        return false;
    }
    void settle(Slot& x, const char* op, bool ok, const Ints& after, u32 extra = 0) {
        Ints now = content(*x.c);
        if (ok && now != after) S.fail(P(THROWAPI) | P(CAUSE) | extra, "%s did not throw: expected %s, got %s", op, show(after).c_str(), show(now).c_str());
        if (!ok && now != x.m) S.fail(P(THROWAPI) | P(STRONG) | extra, "%s threw: was %s, is %s", op, show(x.m).c_str(), show(now).c_str());
        x.m = now;
    }

    void start() override {
        for (int i = 0; i < SLOTS; ++i) { s[i].arena = make_alloc<A>::arenas > 1 ? 1 + i % 2 : 0; s[i].c = new (raw()) C(make_alloc<A>::of(s[i].arena)); }
#if IS_VEC
        parena = make_alloc<A>::arenas > 1 ? 2 : 0;
        plain = new (room(sizeof(Plain))) Plain(make_alloc<A>::of(parena));
#endif
    }

    void replace(Slot& x, C* f, const Ints& m, int arena) { // the freshly built container takes the place of the old one
        S.begin("throw.destroy", base | P(NOFAIL)); x.c->~C(); S.end();
        nofail("throw.destroy");
        free(x.c);
        x.c = f; x.m = m; x.arena = arena;
        settle(x, "throw.replace", true, m);
    }

    void step(const Step& st) override {
        Slot& x = s[pick(st.a, SLOTS)];
        Slot& y = s[pick(st.a / SLOTS, SLOTS)];
        C& c = *x.c;
        const int n = int(x.m.size());
        const char* name = op_table[st.op].name;
        switch (st.op) {
        case OP_push_copy: case OP_push_move: case OP_push_own: {
            if (st.op == OP_push_own && !n) return;
            int v = st.op == OP_push_own ? x.m[size_t(pick(st.d, n))] : val(st.b);
            Arg<E> a(v);
            C::const_iterator it = c.cbegin(); if (st.op == OP_push_own) for (int k = pick(st.d, n); k > 0; --k) ++it;
            const E* mine = st.op == OP_push_own ? &*it : 0;
            Ints after = x.m; after.push_back(v);
            S.begin(name, base | P(STRONG)); S.op_arena = x.arena; shape(x.m);
            bool ok = attempt(name, [&] { if (st.op == OP_push_copy) c.push_back(const_cast<const E&>(a.e)); else if (mine) c.push_back(*mine); else c.push_back(std::move(a.e)); });
            settle(x, name, ok, after);
            if (ok && st.op == OP_push_move && is_taken<E>::value && a.e.get() != V_MOVED) S.fail(P(THROWAPI), "%s duplicated an element that was offered to be moved", name);
            bool memory = !S.allocs; for (size_t i = 0; i < S.fired.size(); ++i) memory = memory && S.fired[i].kind == F_ALLOC;
            if ((st.op == OP_push_copy || (!ok && memory)) && !mine && a.e.get() != v) S.fail(P(THROWAPI) | P(STRONG), "%s: the offered value was consumed", name);
            break;
        }
        case OP_copy_construct: {
            C* f = raw();
            S.begin(name, base | P(STRONG) | P(ALLOC)); S.op_arena = y.arena; shape(y.m);
            bool ok = attempt(name, [&] { new (f) C(const_cast<const C&>(*y.c)); });
            if (!ok) { free(f); break; }
            if (content(*f) != y.m) S.fail(P(THROWAPI) | P(BULK), "copy is %s, source is %s", show(content(*f)).c_str(), show(y.m).c_str());
            if (S.failures.empty()) replace(x, f, Ints(y.m), y.arena);
            break;
        }
        case OP_copy_assign: case OP_self_assign: {
            Slot& src = st.op == OP_copy_assign ? y : x;
            S.begin(name, base | P(STRONG)); shape(src.m);
            bool ok = attempt(name, [&] { c = const_cast<const C&>(*src.c); });
            settle(x, name, ok, Ints(src.m));
            if (ok) x.arena = arena_of(c.get_allocator());
            break;
        }
        case OP_move_construct: {
            C* f = raw();
            S.begin(name, base | P(NOFAIL)); shape(x.m);
            new (f) C(std::move(c));
            S.end();
            nofail(name);
            Ints was = x.m;
            settle(x, name, true, Ints(), P(NOFAIL));
            if (S.failures.empty()) replace(x, f, was, x.arena);
            break;
        }
        case OP_move_assign: {
            if (&x == &y) return;
            S.begin(name, base | P(NOFAIL)); shape(x.m);
            c = std::move(*y.c);
            S.end();
            nofail(name);
            settle(x, name, true, Ints(y.m), P(NOFAIL)); settle(y, name, true, Ints(), P(NOFAIL));
            x.arena = y.arena;
            break;
        }
        case OP_nothrow_push: {
            Arg<E> a(val(st.b));
            Ints after = x.m; after.push_back(val(st.b));
            Err err;
            S.begin(name, base | P(STRONG)); S.op_arena = x.arena; shape(x.m);
            c.push_back_nothrow(err, const_cast<const E&>(a.e));
            S.end();
            settle(x, name, judge(err, name), after);
            break;
        }
        case OP_nothrow_insert: {
            Arg<E> a(val(st.b));
            const int p = pick(st.c, n + 1);
            Ints after = x.m; after.insert(after.begin() + p, val(st.b));
            C::const_iterator at = c.cbegin(); std::advance(at, p);
            Err err;
            S.begin(name, base); S.op_arena = x.arena; shape(x.m);
            C::iterator r = (st.d & 1) ? c.insert_nothrow(err, at, const_cast<const E&>(a.e)) : c.insert_nothrow(err, at, std::move(a.e));
            S.end();
            bool ok = judge(err, name);
            Ints now = content(c);
            if (ok) { if (now != after || r->get() != val(st.b)) S.fail(P(THROWAPI) | P(CAUSE), "%s succeeded: expected %s, got %s", name, show(after).c_str(), show(now).c_str()); }
            else if (now != x.m && (!IS_VEC || !is_subsequence(now, after))) S.fail(P(THROWAPI) | P(VALID), "%s failed: was %s, is %s", name, show(x.m).c_str(), show(now).c_str());
            x.m = now;
            break;
        }
        case OP_nothrow_copy: {
            if (!IS_VEC) return;
            Err err;
            S.begin(name, base); shape(y.m);
#if IS_VEC
            c.copy_nothrow(err, const_cast<const C&>(*y.c).as_noexcept());
#endif
            S.end();
            bool ok = judge(err, name);
            Ints now = content(c);
            if (ok ? now != y.m : now != x.m && !is_prefix(now, y.m)) S.fail(P(THROWAPI) | P(VALID), "%s: was %s, would be %s, is %s", name, show(x.m).c_str(), show(y.m).c_str(), show(now).c_str());
            x.m = now;
            x.arena = arena_of(c.get_allocator());
            break;
        }
        case OP_clear: S.begin(name, base | P(NOFAIL)); c.clear(); S.end(); nofail(name); settle(x, name, true, Ints()); break;
        case OP_rebuild: {
            C* f = raw();
            int arena = make_alloc<A>::arenas > 1 ? 1 + pick(st.b, 2) : 0;
            A al = make_alloc<A>::of(arena);
            S.begin(name, base); new (f) C(al); S.end();
            replace(x, f, Ints(), arena);
            break;
        }
#if IS_VEC
        case OP_from_plain_construct: {
            C* f = raw();
            S.begin(name, base | P(STRONG)); S.op_arena = parena; shape(pm);
            bool ok = attempt(name, [&] { new (f) C(const_cast<const Plain&>(*plain)); });
            if (!ok) { free(f); break; }
            if (S.failures.empty()) replace(x, f, pm, parena);
            break;
        }
        case OP_from_plain_assign: {
            S.begin(name, base | P(STRONG)); shape(pm);
            bool ok = attempt(name, [&] { c = const_cast<const Plain&>(*plain); });
            settle(x, name, ok, pm);
            if (ok) x.arena = arena_of(c.get_allocator());
            break;
        }
        case OP_take_plain_construct: case OP_take_plain_assign: {
            Ints was = pm;
            if (st.op == OP_take_plain_construct) {
                C* f = raw();
                S.begin(name, base | P(NOFAIL)); shape(pm);
                new (f) C(std::move(*plain));
                S.end();
                nofail(name);
                replace(x, f, was, parena);
            } else {
                S.begin(name, base | P(NOFAIL)); shape(pm);
                c = std::move(*plain);
                S.end();
                nofail(name);
                settle(x, name, true, was); x.arena = parena;
            }
            if (!content(*plain).empty()) S.fail(P(THROWAPI), "%s left elements behind", name);
            pm.clear();
            parena = arena_of(plain->get_allocator());
            break;
        }
        case OP_give_plain: {
            S.begin(name, base | P(NOFAIL)); shape(x.m);
            *plain = std::move(c.as_noexcept());
            S.end();
            nofail(name);
            pm = x.m; parena = x.arena;
            settle(x, name, true, Ints());
            if (content(*plain) != pm) S.fail(P(THROWAPI), "%s lost elements", name);
            break;
        }
        case OP_plain_push: case OP_plain_copy: {
            Arg<E> a(val(st.b));
            Ints after = st.op == OP_plain_push ? pm : x.m; if (st.op == OP_plain_push) after.push_back(val(st.b));
            Err err;
            S.begin(name, base); S.op_arena = parena; shape(pm);
            if (st.op == OP_plain_push) plain->push_back_nothrow(err, const_cast<const E&>(a.e)); else plain->copy_nothrow(err, const_cast<const C&>(c).as_noexcept());
            S.end();
            bool ok = judge(err, name);
            Ints now = content(*plain);
            if (ok ? now != after : st.op == OP_plain_push ? now != pm : now != pm && !is_prefix(now, after)) S.fail(P(THROWAPI) | P(VALID), "%s: was %s, would be %s, is %s", name, show(pm).c_str(), show(after).c_str(), show(now).c_str());
            pm = now;
            break;
        }
#else
        case OP_sort: {
            Ints after = x.m;
            const bool down = st.b & 1;
            std::stable_sort(after.begin(), after.end(), down ? item_down : item_up);
            S.begin(name, base | P(NOFAIL)); shape(x.m);
            if (down) c.sort(Down()); else c.sort();
            S.end();
            nofail(name);
            settle(x, name, true, after, P(LIST));
            break;
        }
        case OP_merge: {
            if (&x == &y || x.arena != y.arena) return;
            const bool down = st.b & 2;
            bool (*less)(int, int) = down ? item_down : item_up;
            Ints a = x.m, b = y.m, after;
            std::stable_sort(a.begin(), a.end(), less); std::stable_sort(b.begin(), b.end(), less);
            std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(after), less);
            S.begin(name, base | P(NOFAIL)); shape(x.m);
            if (down) { c.sort(Down()); y.c->sort(Down()); } else { c.sort(); y.c->sort(); }
            if (down && (st.b & 1)) c.merge(*y.c, Down());
            else if (down) c.merge(std::move(*y.c), Down());
            else if (st.b & 1) c.merge(*y.c);
            else c.merge(std::move(*y.c));
            S.end();
            nofail(name);
            settle(x, name, true, after, P(LIST)); settle(y, name, true, Ints(), P(LIST));
            break;
        }
        case OP_splice_all: case OP_splice_one: case OP_splice_range: {
            if (&x == &y || y.m.empty() || x.arena != y.arena) return;
            int p = pick(st.c, n + 1), f = pick(st.d, int(y.m.size())), t = f + pick(st.b, int(y.m.size()) - f + 1);
            if (st.op == OP_splice_all) { f = 0; t = int(y.m.size()); } else if (st.op == OP_splice_one) t = f + 1;
            Ints after = x.m; after.insert(after.begin() + p, y.m.begin() + f, y.m.begin() + t);
            Ints rest = y.m; rest.erase(rest.begin() + f, rest.begin() + t);
            C::const_iterator pi = c.cbegin(), fi = y.c->cbegin(), ti;
            std::advance(pi, p); std::advance(fi, f); ti = fi; std::advance(ti, t - f);
            S.begin(name, base | P(NOFAIL)); shape(x.m);
            if (st.op == OP_splice_all) { if (st.b & 1) c.splice(pi, *y.c); else c.splice(pi, std::move(*y.c)); }
            else if (st.op == OP_splice_one) { if (st.b & 1) c.splice(pi, *y.c, fi); else c.splice(pi, std::move(*y.c), fi); }
            else { if (st.b & 1) c.splice(pi, *y.c, fi, ti); else c.splice(pi, std::move(*y.c), fi, ti); }
            S.end();
            nofail(name);
            settle(x, name, true, after, P(LIST)); settle(y, name, true, rest, P(LIST));
            break;
        }
        case OP_erase: {
            if (!n) return;
            int k = pick(st.b, n);
            Ints after = x.m; after.erase(after.begin() + k);
            C::const_iterator it = c.cbegin(); std::advance(it, k);
            S.begin(name, base | P(NOFAIL)); shape(x.m);
            c.erase(it);
            S.end();
            nofail(name);
            settle(x, name, true, after, P(LIST));
            break;
        }
#endif
        }
        if (S.failures.empty() && arena_of(x.c->get_allocator()) != x.arena) S.fail(P(ALLOC), "%s: container reports allocator %d, expected %d", name, arena_of(x.c->get_allocator()), x.arena);
    }

    void check() override {
        size_t total = 0;
        for (int i = 0; i < SLOTS; ++i) {
            Ints now = content(*s[i].c);
            if (now != s[i].m) S.fail(P(THROWAPI) | P(VALID), "container %d changed by an operation on another one: expected %s, got %s", i, show(s[i].m).c_str(), show(now).c_str());
            total += now.size();
            S.mix(now.size()); for (size_t k = 0; k < now.size(); ++k) S.mix(u64(now[k]));
        }
#if IS_VEC
        if (content(*plain) != pm) S.fail(P(THROWAPI), "a plain vector changed with another one");
        total += pm.size();
#endif
        if (S.elems.size() != total) S.fail(P(LIFE) | P(THROWAPI), "%zu elements are alive, the containers hold %zu", S.elems.size(), total);
    }
    void recover() override {
        for (int i = 0; i < SLOTS && S.failures.empty(); ++i) for (int k = 0; k < 3 && S.failures.empty(); ++k) {
            Arg<E> a(k + 1);
            Ints after = s[i].m; after.push_back(k + 1);
            S.begin("throw.recover", base | P(VALID)); S.op_arena = s[i].arena;
            bool ok = attempt("throw.recover", [&] { s[i].c->push_back(const_cast<const E&>(a.e)); });
            settle(s[i], "throw.recover", ok, after);
        }
    }
    void finish() override {
        for (int i = 0; i < SLOTS; ++i) { S.begin("throw.destroy", base | P(NOFAIL)); s[i].c->~C(); S.end(); nofail("throw.destroy"); free(s[i].c); }
#if IS_VEC
        S.begin("throw.destroy", base | P(NOFAIL)); plain->~Plain(); S.end(); free(plain);
#endif
    }
};

static World* make_world() { return new ThrowWorld; }
static const char* variant() {
    static char b[160];
    snprintf(b, sizeof b, "%d/%s/%s/%s", VARIANT, IS_VEC ? "vector" : "list", E::name(), name_of((A*)0));
    return b;
}
const WorldDef the_world = {"throw", op_table, OP_COUNT, make_world, variant, true, false, VALUES, true};

} // namespace sim
