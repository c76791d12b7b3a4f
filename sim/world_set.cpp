// World: several ordered sets under a history of operations, an adversarial heap, failing element operations and
// failing comparator assignment. Comparators carry state (their direction) and count their calls.
#include "seams.hpp"
#include <functional>
#include <algorithm>
#include <cmath>
#include <memory>
#include <nestl/set.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
typedef Elem<E_THR> E; typedef SimError Err; typedef SimAlloc<E> A; enum { CMP_FAILS = 0 };
#elif VARIANT == 1
typedef Elem<E_THR> E; typedef nestl::default_operation_error Err; typedef SimAlloc<E> A; enum { CMP_FAILS = 1 };
#elif VARIANT == 2
typedef Elem<E_THRMV> E; typedef SimError Err; typedef nestl::allocator<E> A; enum { CMP_FAILS = 1 };
#elif VARIANT == 3
typedef Elem<E_TWO> E; typedef SimError Err; typedef SimAlloc<E> A; enum { CMP_FAILS = 0 };
#elif VARIANT == 4
typedef Elem<E_TWOMV> E; typedef nestl::default_operation_error Err; typedef nestl::allocator<E> A; enum { CMP_FAILS = 0 };
#elif VARIANT == 5
typedef Elem<E_TWO> E; typedef SimError Err; typedef SimAllocFollow<E> A; enum { CMP_FAILS = 0 };
#elif VARIANT == 6
typedef Elem<E_PLAIN> E; typedef SimError Err; typedef SimAlloc<E> A; enum { CMP_FAILS = 0 };
#elif VARIANT == 7
typedef Elem<E_TWODEF> E; typedef SimError Err; typedef SimAlloc<E> A; enum { CMP_FAILS = 0 };
#elif VARIANT == 8
typedef Elem<E_TRIV> E; typedef SimError Err; typedef SimAlloc<E> A; enum { CMP_FAILS = 0 };
#endif

enum { VALUES = 64, SLOTS = 3, CURSORS = 4 };
inline int val(int raw) { return raw % 10 < 7 ? 1 + pick(raw / 10, VALUES) : 1 + pick(raw / 10, 3000); }

// The cost of an operation is counted in different elements looked at, not in calls: whether a level costs one
// comparison or two is the implementation's business, the depth of the tree is not.
static thread_local long cmp_calls = 0;
static thread_local const void* cmp_seen[128];
static thread_local int cmp_nodes = 0; // how many of them; a degenerate tree may exceed the room, which is far beyond every limit
inline void cmp_reset() { cmp_calls = 0; cmp_nodes = 0; }
inline void cmp_note(const void* p) { if (cmp_nodes < 128 && std::find(cmp_seen, cmp_seen + cmp_nodes, p) == cmp_seen + cmp_nodes) cmp_seen[cmp_nodes++] = p; }
static thread_local bool cmp_armed = false;

struct Cmp {
    int dir;
    explicit Cmp(int d = 1) noexcept : dir(d) {}
    Cmp(const Cmp& o) noexcept : dir(o.dir) {}
    Cmp& operator=(const Cmp& o) noexcept(!CMP_FAILS) {
        if (CMP_FAILS && cmp_armed) may_throw(0, S.point(F_ASSIGN));
        dir = o.dir;
        return *this;
    }
    bool operator()(const E& a, const E& b) const {
        ++cmp_calls; cmp_note(&a); cmp_note(&b);
        int x = a.value("compare") >> 3, y = b.value("compare") >> 3;
        return dir > 0 ? x < y : y < x;
    }
};

typedef nestl::set<E, Cmp, A> Set;
typedef Set::iterator It;
typedef Set::const_iterator CIt;

#define OPS(X) \
    X(insert_copy, 9, P(STRONG) | P(SET)) X(insert_move, 7, P(STRONG) | P(SET)) X(insert_own, 2, P(SET)) \
    X(erase_at, 6, P(NOFAIL) | P(SET)) X(erase_key, 6, P(NOFAIL) | P(SET)) X(erase_own_key, 3, P(NOFAIL) | P(SET)) X(find, 4, P(SET)) \
    X(copy, 4, P(BULK) | P(ALLOC)) X(copy_self, 1, P(BULK)) X(clear, 1, P(NOFAIL)) \
    X(move_assign, 3, P(NOFAIL) | P(ALLOC)) X(move_self, 1, P(NOFAIL)) X(move_construct, 2, P(NOFAIL) | P(ALLOC)) X(rebuild, 1, P(ALLOC)) \
    X(fill, 3, P(SET)) X(drain, 3, P(SET)) X(read, 2, P(SET)) X(hold, 2, P(SET))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#define X(n, w, f) {"set." #n, w, f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

struct Item { const E* at; int v; };
inline bool operator==(const Item& a, const Item& b) { return a.at == b.at && a.v == b.v; }
typedef std::vector<Item> Items;
inline Ints values(const Items& m) { Ints r; for (size_t i = 0; i < m.size(); ++i) r.push_back(m[i].v); return r; }

struct Slot { Set* t; Items m; int arena; int dir; };
struct Cursor { It it; const E* at; };

struct SetWorld : World {
    Slot s[SLOTS];
    std::vector<Cursor> held;

    static const u32 base = (1u << SET) | (1u << LIFE) | (1u << MEM) | (1u << VALID) | (is_two<E>::value ? 1u << NEST : 0);
    static Set* raw() { return static_cast<Set*>(room(sizeof(Set))); }

    Items content(Set& t, u32 tags) {
        Items r;
        for (It i = t.begin(); i != t.end(); ++i) {
            Item x; x.at = &*i; x.v = i->get();
            r.push_back(x);
            if (r.size() > 5000) S.fatal(tags | P(SET), "set iteration does not end");
        }
        return r;
    }

    // index of the first element not before v, in the order of the slot
    static int place(const Slot& x, int v) {
        int i = 0;
        while (i < int(x.m.size()) && (x.dir > 0 ? (x.m[size_t(i)].v >> 3) < (v >> 3) : (x.m[size_t(i)].v >> 3) > (v >> 3))) ++i;
        return i;
    }
    static bool present(const Slot& x, int v) { int i = place(x, v); return i < int(x.m.size()) && (x.m[size_t(i)].v >> 3) == (v >> 3); }

    static bool same(const Items& now, const Items& want) {
        if (now.size() != want.size()) return false;
        for (size_t i = 0; i < now.size(); ++i) if (now[i].v != want[i].v || (want[i].at && want[i].at != now[i].at)) return false;
        return true;
    }
    static Item fresh(int v) { Item i; i.at = 0; i.v = v; return i; }

    enum Mode { ALL_OR_NOTHING, OLD_OR_PART };
    void settle(Slot& x, const char* op, bool ok, const Items& after, Mode mode, u32 tags) {
        Items now = content(*x.t, tags);
        if (ok) {
            if (!same(now, after)) S.fail(tags | P(SET) | P(CAUSE), "%s succeeded: expected %s, got %s%s", op, show(values(after)).c_str(), show(values(now)).c_str(), values(now) == values(after) ? " (elements were moved)" : "");
        } else {
            bool good = mode == ALL_OR_NOTHING ? now == x.m : (now == x.m || is_subsequence(values(now), values(after)));
            u32 t = P(VALID) | (mode == ALL_OR_NOTHING ? P(STRONG) : 0) | (tags & P(BULK));
            if (!good) S.fail(t, "%s failed: was %s, would be %s, is %s", op, show(values(x.m)).c_str(), show(values(after)).c_str(), show(values(now)).c_str());
        }
        if (x.t->size() != now.size()) S.fail(tags | P(SET) | (ok ? 0 : P(VALID)), "%s: set claims %zu elements, iteration finds %zu", op, x.t->size(), now.size());
        x.m = now;
    }

    void bound(const char* op, size_t n, int factor) {
        double depth = 2.0 * std::log2(double(n) + 1.0); // no red-black tree of n elements is deeper
        double limit = factor * depth + 3.0, calls = 4.0 * depth + 12.0;
        if (double(cmp_nodes) > limit) S.fail(P(SET), "%s in a set of %zu elements looked at %d of them (limit %.1f)", op, n, cmp_nodes, limit);
        if (double(cmp_calls) > calls) S.fail(P(SET), "%s in a set of %zu elements took %ld comparisons (limit %.1f)", op, n, cmp_calls, calls);
    }
    void shape(Slot& x, int pos) {
        size_t n = x.m.size();
        S.shape = u32((n > 12 ? 12 + (n > 60) : n) * 8 + (pos < 0 ? 7 : pos == 0 ? 0 : size_t(pos) == n ? 1 : 2));
    }
    void nofail(const char* op) {
        if (S.alloc_requests || S.ctors) S.fail(P(NOFAIL), "%s cannot report errors, but asked for memory %ld times and constructed %ld elements", op, S.alloc_requests, S.ctors);
    }
    bool only_memory_failed() { if (S.allocs) return false; for (size_t i = 0; i < S.fired.size(); ++i) if (S.fired[i].kind != F_ALLOC) return false; return true; }

    It at(Slot& x, int k, int how) {
        if (k < int(x.m.size()) && how % 3 == 0)
            for (size_t i = 0; i < held.size(); ++i) if (held[i].at == x.m[size_t(k)].at) return held[i].it;
        It it;
        if (how % 3 == 1) { it = x.t->end(); for (int i = int(x.m.size()); i > k; --i) --it; }
        else { it = x.t->begin(); for (int i = 0; i < k; ++i) ++it; }
        return it;
    }

    void start() override {
        for (int i = 0; i < SLOTS; ++i) {
            s[i].arena = make_alloc<A>::arenas > 1 ? (i == 2 ? 2 : 1) : 0;
            s[i].dir = i == 1 ? -1 : 1;
            s[i].t = new (raw()) Set(Cmp(s[i].dir), make_alloc<A>::of(s[i].arena));
        }
    }

    void insert(Slot& x, const char* name, int how, int w, const E* mine) {
        Set& t = *x.t;
        Arg<E> a(w);
        int p = place(x, w);
        bool dup = present(x, w);
        Items after = x.m;
        if (!dup) after.insert(after.begin() + p, fresh(w));
        Err err;
        S.begin(name, base | P(STRONG)); S.op_arena = x.arena; shape(x, dup ? -1 : p);
        cmp_reset();
        Set::iterator_with_flag r = how == 0 ? t.insert_nothrow(err, const_cast<const E&>(a.e)) : how == 1 ? t.insert_nothrow(err, std::move(a.e)) : t.insert_nothrow(err, *mine);
        S.end();
        bool ok = judge(err, name);
        size_t n = x.m.size();
        settle(x, name, ok, after, ALL_OR_NOTHING, P(STRONG));
        bound(name, n, 1);
        if (!S.failures.empty()) return;
        if (ok) {
            if (r.second != !dup) S.fail(P(SET), "%s of %d reported %s", name, w, r.second ? "insertion of a duplicate" : "a duplicate that does not exist");
            if (r.first == t.end() || &*r.first != x.m[size_t(p)].at) S.fail(P(SET) | P(POS), "%s of %d returned an iterator that is not at the element", name, w);
        }
        if (ok && (how == 1 && !dup) && is_taken<E>::value && a.e.get() != V_MOVED) S.fail(P(SET), "%s duplicated an element that was offered to be moved", name);
        if (dup) {
            if (S.alloc_requests || S.ctors) {} // allowed
            if (!ok && S.fired.empty()) S.fail(P(SET), "duplicate insertion failed");
            if (a.e.get() != w && how < 2) S.fail(P(STRONG) | P(SET), "%s of a duplicate consumed the offered value", name);
        }
        if (((!ok && only_memory_failed()) || how == 0) && a.e.get() != w) S.fail(P(STRONG), "%s: the offered value was consumed by a failed insertion", name);
    }

    void erase_key(Slot& x, const char* name, int w, const E* mine) {
        Arg<E> a(w);
        int p = place(x, w);
        bool has = present(x, w);
        Items after = x.m;
        if (has) after.erase(after.begin() + p);
        size_t n = x.m.size();
        S.begin(name, base | P(NOFAIL)); shape(x, has ? p : -1);
        cmp_reset();
        size_t gone = x.t->erase(mine ? *mine : a.e);
        S.end();
        nofail(name);
        settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
        bound(name, n, 2);
        if (gone != (has ? 1u : 0u)) S.fail(P(SET), "%s of %d removed %zu elements", name, w, gone);
    }

    void step(const Step& st) override {
        Slot& x = s[pick(st.a, SLOTS)];
        Slot& y = s[pick(st.a / SLOTS, SLOTS)];
        Set& t = *x.t;
        const int n = int(x.m.size());
        const int own = n ? pick(st.d, n) : -1;
        const int w = val(st.b);
        const char* name = op_table[st.op].name;
        switch (st.op) {
        case OP_insert_copy: insert(x, name, 0, w, 0); break;
        case OP_insert_move: insert(x, name, 1, w, 0); break;
        case OP_insert_own: if (!n) return; insert(x, name, 2, x.m[size_t(own)].v, x.m[size_t(own)].at); break;
        case OP_erase_key: erase_key(x, name, (st.c & 1) && n ? x.m[size_t(own)].v : w, 0); break;
        case OP_erase_own_key: if (!n) return; erase_key(x, name, x.m[size_t(own)].v, x.m[size_t(own)].at); break;
        case OP_erase_at: {
            if (!n) return;
            CIt where = at(x, own, st.c);
            Items after = x.m; after.erase(after.begin() + own);
            S.begin(name, base | P(NOFAIL)); shape(x, own);
            It it = t.erase(where);
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            if (S.failures.empty() && (own >= int(x.m.size()) ? it != t.end() : (it == t.end() || &*it != x.m[size_t(own)].at))) S.fail(P(SET) | P(POS), "%s returned an iterator that is not behind the erased element", name);
            break;
        }
        case OP_find: {
            int q = (st.c & 1) && n ? x.m[size_t(own)].v : w;
            Arg<E> a(q);
            int p = place(x, q);
            bool has = present(x, q);
            S.begin(name, base | P(NOFAIL)); shape(x, has ? p : -1);
            cmp_reset();
            bool good;
            if (st.c & 2) { It it = t.find(a.e); good = has ? it != t.end() && &*it == x.m[size_t(p)].at : it == t.end(); }
            else { const Set& c = t; CIt it = c.find(a.e); good = has ? it != c.end() && &*it == x.m[size_t(p)].at : it == c.end(); }
            S.end();
            nofail(name);
            bound(name, size_t(n), 1);
            if (!good) S.fail(P(SET), "find of %d in %s is wrong", q, show(values(x.m)).c_str());
            break;
        }
        case OP_clear: {
            S.begin(name, base | P(NOFAIL)); shape(x, -1);
            t.clear();
            S.end();
            nofail(name);
            settle(x, name, true, Items(), ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_copy: case OP_copy_self: {
            Slot& src = st.op == OP_copy ? y : x;
            if (st.op == OP_copy && &x == &y) return;
            Items after;
            if (st.op == OP_copy) for (size_t i = 0; i < src.m.size(); ++i) after.push_back(fresh(src.m[i].v)); else after = x.m;
            Err err;
            const bool follow = follows_copy<A>::value && &src != &x;
            S.begin(name, base | P(BULK) | P(ALLOC)); S.op_arena = follow ? src.arena : x.arena; shape(x, -1);
            cmp_armed = true;
            t.copy_nothrow(err, *src.t);
            cmp_armed = false;
            S.end();
            bool ok = judge(err, name);
            Items was = x.m;
            if (follow) { // the allocator comes along, unless nothing else did
                int now = arena_of(t.get_allocator());
                if (now != src.arena && (ok || now != x.arena)) S.fail(P(ALLOC), "%s: the allocator asks to follow the copy and did not", name);
                x.arena = now;
            }
            settle(x, name, ok, after, OLD_OR_PART, P(BULK));
            if (ok) x.dir = src.dir;
            else if (x.dir != src.dir && S.failures.empty()) { if (x.m.empty()) learn_direction(x); else if (!(x.m == was)) x.dir = src.dir; }
            break;
        }
        case OP_move_assign: {
            if (&x == &y) return;
            S.begin(name, base | P(NOFAIL) | P(ALLOC)); shape(x, -1);
            t = std::move(*y.t);
            S.end();
            nofail(name);
            settle(x, name, true, Items(y.m), ALL_OR_NOTHING, P(NOFAIL));
            settle(y, name, true, Items(), ALL_OR_NOTHING, P(NOFAIL));
            x.arena = y.arena; x.dir = y.dir;
            break;
        }
        case OP_move_self: {
            Set& alias = t;
            S.begin(name, base | P(NOFAIL)); shape(x, -1);
            t = std::move(alias);
            S.end();
            nofail(name);
            Items now = content(t, base);
            if (!now.empty() && !(now == x.m)) S.fail(P(SET) | P(NOFAIL), "self move left %s", show(values(now)).c_str());
            x.m = now;
            break;
        }
        case OP_move_construct: {
            Set* f = raw();
            S.begin(name, base | P(NOFAIL) | P(ALLOC)); shape(x, -1);
            new (f) Set(std::move(t));
            S.end();
            nofail(name);
            Items was = x.m;
            settle(x, name, true, Items(), ALL_OR_NOTHING, P(NOFAIL));
            Set* old = x.t;
            x.t = f; x.m = was;
            settle(x, name, true, was, ALL_OR_NOTHING, P(NOFAIL));
            if (st.b & 1) {
                Slot q; q.t = old; q.arena = arena_of(old->get_allocator()); q.dir = x.dir;
                insert(q, "set.insert_after_move", 0, w, 0);
            }
            if (!S.failures.empty()) return;
            S.begin("set.destroy", base | P(NOFAIL));
            old->~Set();
            S.end();
            nofail("set.destroy");
            free(old);
            break;
        }
        case OP_rebuild: {
            S.begin("set.destroy", base | P(NOFAIL));
            t.~Set();
            S.end();
            nofail("set.destroy");
            x.m.clear();
            x.arena = make_alloc<A>::arenas > 1 ? 1 + pick(st.b, 2) : 0;
            x.dir = (st.b & 4) ? -1 : 1;
            if (st.b & 8) x.dir = 1;
            A alloc = make_alloc<A>::of(x.arena);
            S.begin(name, base | P(NOFAIL) | P(ALLOC));
            if (st.b & 8) new (x.t) Set(alloc); else new (x.t) Set(Cmp(x.dir), alloc);
            S.end();
            nofail(name);
            break;
        }
        case OP_fill: { // many keys in a chosen order: rising, falling, inwards, outwards, random
            S.plan.clear();
            int cnt = 4 + ((st.d & 15) == 0 ? pick(st.c, 300) : pick(st.c, 40));
            int start = 8 * pick(st.b, 200), how = st.d / 16 % 5;
            Rng r(u64(st.b) + 1);
            for (int i = 0; i < cnt && x.m.size() < 340 && S.failures.empty(); ++i) {
                int k = how == 0 ? i : how == 1 ? cnt - i : how == 2 ? (i % 2 ? cnt - i / 2 : i / 2) : how == 3 ? (i % 2 ? cnt / 2 + i / 2 : cnt / 2 - i / 2) : r.below(cnt * 2);
                insert(x, name, i % 2, start + 8 * k + 1 + i % 7, 0);
            }
            break;
        }
        case OP_drain: {
            int cnt = 1 + pick(st.c, n + 1), how = st.d % 5;
            Rng r(u64(st.b) + 1);
            for (int i = 0; i < cnt && !x.m.empty() && S.failures.empty(); ++i) {
                int m = int(x.m.size());
                int k = how == 0 ? 0 : how == 1 ? m - 1 : how == 2 ? m / 2 : how == 3 ? (i % 2 ? 0 : m - 1) : r.below(m);
                if (r.chance(50)) erase_key(x, name, x.m[size_t(k)].v, 0);
                else {
                    CIt where = at(x, k, 2 - i % 2);
                    Items after = x.m; after.erase(after.begin() + k);
                    S.begin(name, base | P(NOFAIL)); shape(x, k);
                    t.erase(where);
                    S.end();
                    nofail(name);
                    settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
                }
            }
            // after erasures the tree must still be shallow
            for (int i = 0; i < 6 && !x.m.empty() && S.failures.empty(); ++i) {
                int k = r.below(int(x.m.size()));
                Arg<E> a(x.m[size_t(k)].v);
                S.begin("set.find_after_drain", base | P(NOFAIL)); shape(x, k);
                cmp_reset();
                It it = t.find(a.e);
                S.end();
                bound("set.find_after_drain", x.m.size(), 1);
                if (it == t.end() || &*it != x.m[size_t(k)].at) S.fail(P(SET), "find lost an element after erasures");
            }
            break;
        }
        case OP_read: {
            const Set& c = t;
            Addresses every; for (int q = 0; q < n; ++q) every.push_back(x.m[size_t(q)].at);
            S.begin(name, base); shape(x, -1);
            bool good = c.size() == x.m.size() && c.empty() == x.m.empty() && c.max_size() >= c.size();
            int i = n;
            for (Set::reverse_iterator r = t.rbegin(); good && r != t.rend(); ++r) good = i > 0 && &*r == x.m[size_t(--i)].at;
            good = good && i == 0;
            i = n;
            for (Set::const_reverse_iterator r = c.crbegin(); good && r != c.crend(); ++r) good = i > 0 && &*r == x.m[size_t(--i)].at;
            good = good && i == 0;
            i = n;
            for (Set::const_reverse_iterator r = c.rbegin(); good && r != c.rend(); ++r) good = i > 0 && &*r == x.m[size_t(--i)].at;
            good = good && i == 0;
            for (CIt r = c.cbegin(); good && r != c.cend(); r++) good = i < n && &*r == x.m[size_t(i++)].at;
            good = good && i == n;
            i = 0;
            for (CIt r = c.begin(); good && r != c.end(); ++r) good = i < n && r.operator->() == x.m[size_t(i++)].at;
            good = good && i == n;
            good = good && walk(t, every);
            S.end();
            nofail(name);
            if (!good) S.fail(P(SET), "observers disagree with the content %s", show(values(x.m)).c_str());
            break;
        }
        case OP_hold: {
            if (!n) return;
            Cursor c; c.it = at(x, own, 2); c.at = x.m[size_t(own)].at;
            if (held.size() >= CURSORS) held.erase(held.begin());
            held.push_back(c);
            break;
        }
        }
        fidelity(x); fidelity(y);
    }

    // a failed copy may or may not have taken over the order of its source: look
    void learn_direction(Slot& x) {
        std::vector<Fault> plan; plan.swap(S.plan);
        std::vector<int> poison; poison.swap(S.poison);
        bool outage = S.outage; long quota = S.quota; S.outage = false; S.quota = -1;
        for (int i = 0; i < 2 && S.failures.empty(); ++i) {
            Arg<E> a(i ? 81 : 9);
            Err err;
            S.begin("set.probe", base); S.op_arena = x.arena;
            x.t->insert_nothrow(err, const_cast<const E&>(a.e));
            S.end();
            if (!judge(err, "set.probe")) S.fail(P(VALID), "set does not work after a failed copy");
        }
        if (S.failures.empty()) {
            Items now = content(*x.t, base | P(VALID));
            if (now.size() != 2 || now[0].v == now[1].v) S.fail(P(VALID), "set does not work after a failed copy");
            else x.dir = now[0].v == 9 ? 1 : -1;
            S.begin("set.probe_clear", base);
            x.t->clear();
            S.end();
        }
        S.outage = outage; S.quota = quota; S.plan.swap(plan); S.poison.swap(poison);
    }

    void fidelity(Slot& x) {
        if (!S.failures.empty()) return;
        if (arena_of(x.t->get_allocator()) != x.arena) S.fail(P(ALLOC), "set reports allocator %d, it was given %d", arena_of(x.t->get_allocator()), x.arena);
    }

    void check() override {
        size_t total = 0;
        u32 t = P(SET) | (S.faults_in_run ? P(VALID) : 0);
        for (int i = 0; i < SLOTS; ++i) {
            Items now = content(*s[i].t, t);
            if (!(now == s[i].m)) S.fail(t, "set %d changed by an operation on another one: expected %s, got %s", i, show(values(s[i].m)).c_str(), show(values(now)).c_str());
            if (s[i].t->size() != now.size()) S.fail(t, "set %d claims %zu elements, iteration finds %zu", i, s[i].t->size(), now.size());
            size_t k = now.size();
            It b = s[i].t->end();
            while (b != s[i].t->begin() && k > 0) { --b; --k; if (&*b != now[k].at) { S.fail(t, "set %d: backward iteration disagrees with forward iteration", i); break; } }
            if (S.failures.empty() && (k != 0 || b != s[i].t->begin())) S.fail(t, "set %d: backward iteration disagrees with forward iteration", i);
            total += now.size();
            S.mix(now.size());
            for (size_t j = 0; j < now.size(); ++j) S.mix(u64(now[j].v));
        }
        if (followed<E>::value && S.elems.size() != total) S.fail(P(LIFE) | (S.faults_in_run ? P(VALID) : 0), "%zu elements are alive, the sets hold %zu", S.elems.size(), total);
        if (!S.failures.empty()) return;
        for (size_t i = 0; i < held.size();) {
            bool exists = false;
            for (int j = 0; j < SLOTS; ++j) for (size_t q = 0; q < s[j].m.size(); ++q) exists = exists || s[j].m[q].at == held[i].at;
            if (!exists) { held.erase(held.begin() + long(i)); continue; }
            if (&*held[i].it != held[i].at) S.fail(t, "an iterator held across operations lost its element");
            ++i;
        }
    }

    void recover() override {
        for (int i = 0; i < SLOTS && S.failures.empty(); ++i) {
            for (int k = 0; k < 4 && S.failures.empty(); ++k) insert(s[i], "set.recover", k % 2, 1 + 8 * ((k * 37 + i) % 60), 0);
            if (S.failures.empty() && !s[i].m.empty()) erase_key(s[i], "set.recover_erase", s[i].m[s[i].m.size() / 2].v, 0);
            if (!S.failures.empty()) for (size_t f = 0; f < S.failures.size(); ++f) S.failures[f].tags |= P(VALID);
            if (!S.failures.empty() && S.prog) S.prog->failtags = S.prog->failtags | P(VALID);
        }
    }

    void finish() override {
        for (int i = 0; i < SLOTS; ++i) {
            S.begin("set.destroy", base | P(NOFAIL));
            s[i].t->~Set();
            S.end();
            nofail("set.destroy");
            free(s[i].t);
        }
    }
};

static World* make_world() { cmp_armed = false; return new SetWorld; }
static const char* variant() {
    static char b[128];
    snprintf(b, sizeof b, "%d/%s/%s/%s/%s", VARIANT, E::name(), name_of((Err*)0), name_of((A*)0), CMP_FAILS ? "failing-comparator-copy" : "nothrow-comparator");
    return b;
}
const WorldDef the_world = {"set", op_table, OP_COUNT, make_world, variant, !never_fails<E>::value, bool(CMP_FAILS), VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim
