// World: several vectors under a history of operations, an adversarial heap and failing element operations.
#include "seams.hpp"
#include <nestl/vector.hpp>
#include <algorithm>
#include <iterator>
#include <memory>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
typedef Elem<E_THR> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 1
typedef Elem<E_THR> E; typedef nestl::default_operation_error Err; typedef SimAlloc<E> A;
#elif VARIANT == 2
typedef Elem<E_THRMV> E; typedef SimError Err; typedef nestl::allocator<E> A;
#elif VARIANT == 3
typedef Elem<E_TWO> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 4
typedef Elem<E_TWOMV> E; typedef nestl::default_operation_error Err; typedef nestl::allocator<E> A;
#elif VARIANT == 5
typedef Elem<E_THRMVTHR> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 6
typedef Elem<E_PLAIN> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 7
typedef Elem<E_TWODEF> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 8
typedef Elem<E_TRIV> E; typedef SimError Err; typedef SimAlloc<E> A;
#endif

#if defined(IMPL_DIRECT)
typedef nestl::impl::vector<E, A> Vec;
#else
typedef nestl::vector<E, A> Vec;   // the public name: a wrapper with exceptions, the implementation itself without
#endif
typedef nestl::impl::vector<E, A> Core_;

template <class V> typename std::enable_if<std::is_same<V, Core_>::value, Core_&>::type core(V& v) { return v; }
template <class V> typename std::enable_if<!std::is_same<V, Core_>::value, Core_&>::type core(V& v) { return v.as_noexcept(); }

enum { VALUES = 40, SLOTS = 3 };
inline int val(int raw) { return 1 + pick(raw, VALUES); }

#define OPS(X) \
    X(push_copy, 6, P(STRONG) | P(CAP)) X(push_move, 5, P(STRONG) | P(CAP)) X(push_own, 5, P(VEC) | P(STRONG)) X(emplace_back, 4, P(STRONG)) \
    X(insert_copy, 6, P(VEC) | P(CAP)) X(insert_move, 4, P(VEC)) X(insert_own, 5, P(VEC)) \
    X(insert_array, 3, P(BULK)) X(insert_stream, 3, P(BULK)) X(insert_other, 3, P(BULK)) \
    X(assign_n, 2, P(BULK)) X(assign_n_own, 2, P(VEC) | P(BULK)) X(assign_default, 2, P(BULK) | P(CAUSE)) X(assign_array, 2, P(BULK)) X(assign_stream, 3, P(BULK)) X(assign_other, 2, P(BULK)) \
    X(copy, 4, P(BULK) | P(ALLOC)) X(copy_self, 2, P(BULK)) \
    X(resize, 4, P(CAP)) X(resize_value, 4, P(CAP)) X(resize_own, 4, P(VEC)) \
    X(reserve, 5, P(CAP) | P(STRONG)) X(shrink, 3, P(CAP)) \
    X(clear, 2, P(NOFAIL)) X(swap, 3, P(NOFAIL) | P(ALLOC)) X(swap_self, 1, P(NOFAIL)) X(move_assign, 3, P(NOFAIL) | P(ALLOC)) X(move_self, 1, P(NOFAIL)) \
    X(move_construct, 2, P(NOFAIL) | P(ALLOC)) X(rebuild, 1, P(ALLOC)) X(compare, 2, P(VEC)) X(read, 1, P(VEC)) \
    X(huge_reserve, 2, P(HUGE_)) X(huge_resize, 2, P(HUGE_)) X(huge_resize_value, 2, P(HUGE_)) X(huge_assign, 1, P(HUGE_)) X(lazy_huge, 2, P(HUGE_) | P(CAP)) X(raw, 1, P(HUGE_) | P(MEM)) X(reserved_fill, 2, P(CAP)) X(append_many, 1, P(CAP) | P(VEC))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#define X(n, w, f) {"vec." #n, w, f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

struct Slot { Vec* v; Ints m; int arena; };

struct VecWorld : World {
    Slot s[SLOTS];

    static const u32 base = (1u << VEC) | (1u << LIFE) | (1u << MEM) | (1u << VALID) | (is_two<E>::value ? 1u << NEST : 0);

    static Vec* raw() { return static_cast<Vec*>(room(sizeof(Vec))); }

    // ---- observation
    Ints content(Vec& v, u32 tags) {
        Ints r;
        size_t n = v.size();
        if (n > 200000) { S.fatal(tags | P(VEC), "vector claims %zu elements", n); }
        for (typename Vec::iterator i = v.begin(); i != v.end(); ++i) r.push_back(i->get());
        return r;
    }

    enum Mode { ALL_OR_NOTHING, SUBSEQUENCE, GROWN, OLD_OR_PREFIX };

    // compare the vector with what the operation promised; the model follows the observation
    void settle(Slot& x, const char* op, bool ok, const Ints& after, Mode mode, u32 tags) {
        Ints now = content(*x.v, tags);
        const Ints& before = x.m;
        if (ok) {
            if (now != after) S.fail(tags | P(VEC) | P(CAUSE), "%s succeeded: expected %s, got %s", op, show(after).c_str(), show(now).c_str());
        } else {
            bool good = false;
            switch (mode) {
                case ALL_OR_NOTHING: good = now == before; break;
                case SUBSEQUENCE: good = is_subsequence(now, after); break;
                case GROWN: good = is_prefix(before, now) && is_prefix(now, after); break;
                case OLD_OR_PREFIX: good = now == before || is_prefix(now, after); break;
            }
            u32 t = P(VALID) | (mode == ALL_OR_NOTHING ? P(STRONG) : 0) | (tags & (P(BULK) | P(HUGE_) | P(CAP)));
            if (!good) S.fail(t, "%s failed: was %s, would be %s, is %s", op, show(before).c_str(), show(after).c_str(), show(now).c_str());
        }
        x.m = now;
    }

    struct Before { size_t cap; const E* begin; };
    Before look(Slot& x) { Before b; b.cap = x.v->capacity(); b.begin = b.cap ? &*x.v->begin() : 0; return b; }
    void shape(Slot& x, int pos) {
        size_t n = x.m.size(), c = x.v->capacity();
        S.shape = u32((n > 6 ? 6 : n) * 64 + (c - n > 4 ? 4 : c - n) * 8 + (pos < 0 ? 7 : pos == 0 ? 0 : size_t(pos) == n ? 1 : 2));
    }
    // within the reserved capacity nothing is requested from the heap and nothing moves
    void promise(Slot& x, const char* op, const Before& b, size_t need) {
        if (need > b.cap) return;
        if (S.alloc_requests) S.fail(P(CAP) | P(NOFAIL), "%s asked for memory although %zu elements fit the reserved capacity %zu", op, need, b.cap);
        else if (x.v->capacity() != b.cap || (b.cap && &*x.v->begin() != b.begin)) S.fail(P(CAP), "%s moved the elements although they fit the reserved capacity", op);
    }
    void nofail(const char* op) {
        if (S.alloc_requests || S.ctors) S.fail(P(NOFAIL), "%s cannot report errors, but asked for memory %ld times and constructed %ld elements", op, S.alloc_requests, S.ctors);
    }
    bool only_memory_failed() { if (S.allocs) return false; for (size_t i = 0; i < S.fired.size(); ++i) if (S.fired[i].kind != F_ALLOC) return false; return true; }

    void start() override {
        for (int i = 0; i < SLOTS; ++i) {
            s[i].arena = i % make_alloc<A>::arenas ? 2 : make_alloc<A>::arenas > 1 ? 1 : 0;
            s[i].v = new (raw()) Vec(make_alloc<A>::of(s[i].arena));
        }
    }

    void step(const Step& st) override {
        Slot& x = s[pick(st.a, SLOTS)];
        Slot& y = s[pick(st.a / SLOTS, SLOTS)];
        Vec& v = *x.v;
        const int n = int(x.m.size());
        const Before bef = look(x);
        const int pos = (st.c & 3) == 0 ? n : (st.c & 3) == 1 ? 0 : pick(st.c >> 2, n + 1);
        const int own = n ? pick(st.d, n) : -1;
        const char* name = op_table[st.op].name;
        switch (st.op) {
        case OP_push_copy: case OP_push_move: case OP_emplace_back: {
            Arg<E> a(val(st.b));
            Ints after = x.m; after.push_back(val(st.b));
            Err err;
            S.begin(name, base | P(STRONG) | P(CAP)); S.op_arena = x.arena; shape(x, n);
            if (st.op == OP_push_copy) v.push_back_nothrow(err, const_cast<const E&>(a.e));
            else if (st.op == OP_push_move) v.push_back_nothrow(err, std::move(a.e));
            else { int k = val(st.b); v.emplace_back_nothrow(err, k); }
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, after, ALL_OR_NOTHING, P(STRONG));
            if (ok && (st.op == OP_push_move) && is_taken<E>::value && a.e.get() != V_MOVED) S.fail(P(VEC), "%s duplicated an element that was offered to be moved", name);
            if ((!ok && only_memory_failed()) || st.op == OP_push_copy)
                if (a.e.get() != val(st.b)) S.fail(P(STRONG), "%s: the offered value was consumed by a failed insertion", name);
            promise(x, name, bef, size_t(n) + 1);
            break;
        }
        case OP_push_own: {
            if (!n) return;
            Ints after = x.m; after.push_back(x.m[size_t(own)]);
            Err err;
            S.begin(name, base | P(STRONG)); S.op_arena = x.arena; shape(x, n);
            v.push_back_nothrow(err, const_cast<const Vec&>(v)[size_t(own)]);
            S.end();
            settle(x, name, judge(err, name), after, ALL_OR_NOTHING, P(STRONG) | P(VEC));
            promise(x, name, bef, size_t(n) + 1);
            break;
        }
        case OP_insert_copy: case OP_insert_move: case OP_insert_own: {
            if (st.op == OP_insert_own && !n) return;
            int k = st.op == OP_insert_own ? x.m[size_t(own)] : val(st.b);
            Arg<E> a(k);
            Ints after = x.m; after.insert(after.begin() + pos, k);
            Err err;
            S.begin(name, base | P(CAP)); S.op_arena = x.arena; shape(x, pos);
            typename Vec::iterator it = st.op == OP_insert_copy ? v.insert_nothrow(err, v.cbegin() + pos, const_cast<const E&>(a.e))
                                      : st.op == OP_insert_move ? v.insert_nothrow(err, v.cbegin() + pos, std::move(a.e))
                                                                : v.insert_nothrow(err, v.cbegin() + pos, const_cast<const Vec&>(v)[size_t(own)]);
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, after, pos == n ? ALL_OR_NOTHING : SUBSEQUENCE, pos == n ? P(STRONG) | P(VEC) : P(VEC));
            if (ok && it - v.begin() != pos) S.fail(P(VEC) | P(POS), "%s returned position %ld, the element was inserted at %d", name, long(it - v.begin()), pos);
            if (ok && (st.op == OP_insert_move) && is_taken<E>::value && a.e.get() != V_MOVED) S.fail(P(VEC), "%s duplicated an element that was offered to be moved", name);
            if (st.op == OP_insert_copy && a.e.get() != k) S.fail(P(VEC), "%s changed its argument", name);
            if (!ok && only_memory_failed() && st.op != OP_insert_own) {
                if (a.e.get() != k) S.fail(P(STRONG), "%s: the offered value was consumed by a failed insertion", name);
            }
            promise(x, name, bef, size_t(n) + 1);
            break;
        }
        case OP_insert_array: case OP_insert_stream: case OP_insert_other: {
            if (st.op == OP_insert_other && &x == &y) return;
            bulk(st, name, x, y, pos, true);
            break;
        }
        case OP_assign_array: case OP_assign_stream: case OP_assign_other: {
            if (st.op == OP_assign_other && &x == &y) return;
            bulk(st, name, x, y, 0, false);
            break;
        }
        case OP_assign_n: case OP_assign_n_own: {
            if (st.op == OP_assign_n_own && !n) return;
            int k = st.op == OP_assign_n_own ? x.m[size_t(own)] : val(st.b);
            int cnt = pick(st.c, 9);
            Arg<E> a(k);
            Ints after(size_t(cnt), k);
            Err err;
            S.begin(name, base | P(BULK)); S.op_arena = x.arena; shape(x, -1);
            v.assign_nothrow(err, size_t(cnt), st.op == OP_assign_n ? const_cast<const E&>(a.e) : const_cast<const Vec&>(v)[size_t(own)]);
            S.end();
            settle(x, name, judge(err, name), after, OLD_OR_PREFIX, P(BULK));
            break;
        }
        case OP_assign_default: {
            int cnt = pick(st.c, 7);
            Err err;
            S.begin(name, base | P(BULK)); S.op_arena = x.arena; shape(x, -1);
            v.assign_nothrow(err, size_t(cnt));
            S.end();
            settle(x, name, judge(err, name), Ints(size_t(cnt), V_DEFAULT), OLD_OR_PREFIX, P(BULK));
            break;
        }
        case OP_copy: case OP_copy_self: {
            Slot& src = st.op == OP_copy ? y : x;
            if (st.op == OP_copy && &x == &y) return;
            Ints after = src.m;
            Err err;
            S.begin(name, base | P(BULK) | P(ALLOC)); S.op_arena = x.arena; shape(x, -1);
            v.copy_nothrow(err, core(*src.v));
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, after, OLD_OR_PREFIX, P(BULK));
            if (st.op == OP_copy && content(*y.v, P(BULK)) != y.m) S.fail(P(BULK) | P(VEC), "%s changed its source", name);
            break;
        }
        case OP_resize: case OP_resize_value: case OP_resize_own: {
            if (st.op == OP_resize_own && !n) return;
            int k = st.op == OP_resize ? int(V_DEFAULT) : st.op == OP_resize_own ? x.m[size_t(own)] : val(st.b);
            int cnt = pick(st.c, 14);
            if (st.op == OP_resize_own && (st.b & 1)) cnt = n + pick(st.b >> 1, 5);
            Arg<E> a(k);
            Ints after = x.m; after.resize(size_t(cnt), k);
            Err err;
            S.begin(name, base | P(CAP)); S.op_arena = x.arena; shape(x, cnt > n ? 1 : 0);
            if (st.op == OP_resize) v.resize_nothrow(err, size_t(cnt));
            else if (st.op == OP_resize_value) v.resize_nothrow(err, size_t(cnt), a.e);
            else v.resize_nothrow(err, size_t(cnt), const_cast<const Vec&>(v)[size_t(own)]);
            S.end();
            settle(x, name, judge(err, name), after, cnt > n ? GROWN : OLD_OR_PREFIX, P(CAP));
            promise(x, name, bef, size_t(cnt));
            break;
        }
        case OP_reserve: case OP_shrink: {
            size_t want = size_t(pick(st.c, 24));
            Err err;
            S.begin(name, base | P(CAP) | P(STRONG)); S.op_arena = x.arena; shape(x, want > bef.cap ? 1 : 0);
            if (st.op == OP_reserve) v.reserve_nothrow(err, want); else v.shrink_to_fit_nothrow(err);
            S.end();
            bool ok = judge(err, name);
            Ints same = x.m;
            settle(x, name, ok, same, ALL_OR_NOTHING, P(STRONG) | P(CAP));
            if (ok && st.op == OP_reserve && v.capacity() < want) S.fail(P(CAP) | P(CAUSE), "reserve of %zu succeeded, capacity is %zu", want, v.capacity());
            if (ok && st.op == OP_shrink && v.capacity() != v.size()) S.fail(P(CAP) | P(CAUSE), "shrink succeeded, capacity is %zu for %zu elements", v.capacity(), v.size());
            if (st.op == OP_reserve) promise(x, name, bef, want);
            break;
        }
        case OP_append_many: {
            // long growth, element by element: content, cost
            const int cnt = st.b % 3 ? 10 + pick(st.c, 40) : st.b % 24 == 0 && S.plan.empty() ? 1000 + pick(st.c, 3000) : 40 + pick(st.c, 360);
            Ints after = x.m;
            Arg<E>* args = static_cast<Arg<E>*>(room(sizeof(Arg<E>) * size_t(cnt)));
            for (int i = 0; i < cnt; ++i) { after.push_back(val(st.d + i * 7)); new (static_cast<void*>(args + i)) Arg<E>(val(st.d + i * 7)); }
            Err err;
            S.begin(name, base | P(CAP)); S.op_arena = x.arena; shape(x, 4);
            for (int i = 0; i < cnt && !err; ++i) {
                if (i & 1) v.push_back_nothrow(err, std::move(args[i].e)); else v.push_back_nothrow(err, const_cast<const E&>(args[i].e));
            }
            S.end();
            for (int i = 0; i < cnt; ++i) args[i].~Arg<E>();
            free(args);
            bool ok = judge(err, name);
            settle(x, name, ok, after, GROWN, P(CAP));
            int allowed = 10;
            for (double c = 1; c < cnt + n; c *= 1.2) ++allowed;
            if (S.alloc_requests > allowed) S.fail(P(CAP), "appending %d elements to %d one by one asked for memory %ld times", cnt, n, S.alloc_requests);
            if (st.d % 4) { v.clear(); x.m.clear(); }
            break;
        }
        case OP_reserved_fill: {
            // the promise in one piece: reserve, then fill under total outage
            Err err;
            size_t want = size_t(n) + size_t(1 + pick(st.c, 8));
            S.begin(name, base | P(CAP) | P(STRONG)); S.op_arena = x.arena; shape(x, 3);
            v.reserve_nothrow(err, want);
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, Ints(x.m), ALL_OR_NOTHING, P(STRONG) | P(CAP));
            if (!ok) break;
            S.plan.clear();
            std::vector<int> poison; poison.swap(S.poison);
            bool outage = S.outage; S.outage = true;
            const E* at = &*v.begin();
            Rng r(u64(st.d) * 77 + 5);
            while (x.m.size() < want && S.failures.empty()) {
                Arg<E> a(val(r.below(1000)));
                int p = r.chance(50) ? int(x.m.size()) : r.below(int(x.m.size()) + 1);
                Ints after = x.m; after.insert(after.begin() + p, a.e.get());
                Err e2;
                S.begin("vec.reserved_insert", base | P(CAP)); S.op_arena = x.arena; shape(x, p);
                if (p == int(x.m.size()) && r.chance(50)) v.push_back_nothrow(e2, const_cast<const E&>(a.e));
                else v.insert_nothrow(e2, v.cbegin() + p, const_cast<const E&>(a.e));
                S.end();
                ok = judge(e2, "vec.reserved_insert");
                if (!ok) S.fail(P(CAP), "insertion within reserved capacity failed");
                settle(x, "vec.reserved_insert", ok, after, SUBSEQUENCE, P(CAP));
                if (S.alloc_requests) S.fail(P(CAP), "insertion within reserved capacity asked for memory");
                if (&*v.begin() != at) S.fail(P(CAP), "insertion within reserved capacity moved the storage");
            }
            S.outage = outage; S.poison.swap(poison);
            break;
        }
        case OP_lazy_huge: {
            // gigantic requests that the allocator does honour, up to the last possible one
            if (make_alloc<A>::arenas < 2) return;
            if ((x.m.size() + 16) * sizeof(E) > LAZY_BYTES) return; // the memory behind the request does not suffice
            const size_t top = v.max_size();
            const size_t table[] = {top, top - 1, top / 2, top / 3 * 2, top / 4 * 3, top / 16 * 15, top / 8, size_t(1) << 40, top / 3 * 2 + 1};
            const size_t nt = sizeof table / sizeof *table;
            const size_t want = table[size_t(pick(st.c, int(nt)))];
            S.lazy = true;
            Err err;
            S.begin(name, base | P(HUGE_) | P(CAP)); S.op_arena = x.arena; shape(x, pick(st.c, int(nt)));
            v.reserve_nothrow(err, want);
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, Ints(x.m), ALL_OR_NOTHING, P(HUGE_) | P(CAP));
            if (!ok && cause_of(err).type == CAUSE_LENGTH) S.fail(P(HUGE_), "reserve of %zu elements, not more than max_size(), reported as too long", want);
            if (!ok || !S.failures.empty()) { S.lazy = false; break; }
            if (v.capacity() < want) S.fail(P(HUGE_) | P(CAP), "reserve of %zu succeeded, capacity is %zu", want, v.capacity());
            std::vector<Fault> plan; plan.swap(S.plan);
            std::vector<int> poison; poison.swap(S.poison);
            const bool outage = S.outage; const long quota = S.quota;
            S.outage = false; S.quota = -1;
            lazy_rest(st, x, top);
            S.lazy = false;
            S.outage = outage; S.quota = quota; S.plan.swap(plan); S.poison.swap(poison);
            break;
        }
        case OP_raw: {
            // the library's own allocator, asked directly: memory for all of the objects or a reported failure
            const size_t M = std::numeric_limits<size_t>::max(), z = sizeof(E);
            const size_t table[] = {1, 2, 3, 7, 100, M, M - 1, M / 2, M / 2 + 1, M / z, M / z + 1, M / z + 2, M / z + 3, M / z + 50, M / z * 2 + 2, M / z * 2 + 7, M / 4 * 3, M / 3 + 1};
            const int nt = int(sizeof table / sizeof *table);
            const size_t want = table[size_t(pick(st.c, nt))];
            nestl::allocator<E> own;
            Err err;
            S.begin(name, base | P(HUGE_) | P(CAUSE)); S.op_arena = 0; shape(x, pick(st.c, nt));
            S.oversize = want > 1000;
            E* p = (st.b & 1) ? own.allocate(err, want) : nestl::allocator_traits<nestl::allocator<E>>::allocate(err, own, want);
            S.end();
            bool ok = judge(err, name);
            if (ok) {
                Block* blk = p ? S.block_of(p) : 0;
                if (!blk) S.fail(P(HUGE_) | P(CAUSE) | P(MEM), "the allocator reported success for %zu objects, but gave no memory", want);
                else if (blk->bytes / z < want) S.fail(P(HUGE_) | P(MEM), "the allocator was asked for %zu objects of %zu bytes and gave %zu bytes", want, z, blk->bytes);
                else {
                    S.begin(name, base | P(MEM));
                    own.deallocate(p, want);
                    S.end();
                }
            }
            break;
        }
        case OP_clear: {
            S.begin(name, base | P(NOFAIL)); shape(x, -1);
            v.clear();
            S.end();
            nofail(name);
            settle(x, name, true, Ints(), ALL_OR_NOTHING, P(NOFAIL));
            if (v.capacity() != bef.cap) S.fail(P(CAP), "clear changed the reserved capacity from %zu to %zu", bef.cap, v.capacity());
            break;
        }
        case OP_swap: case OP_swap_self: {
            Slot& o = st.op == OP_swap ? y : x;
            S.begin(name, base | P(NOFAIL) | P(ALLOC)); shape(x, -1);
            v.swap(core(*o.v));
            S.end();
            nofail(name);
            if (&o != &x) { x.m.swap(o.m); std::swap(x.arena, o.arena); }
            settle(x, name, true, Ints(x.m), ALL_OR_NOTHING, P(NOFAIL));
            settle(o, name, true, Ints(o.m), ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_move_assign: {
            if (&x == &y) return;
            S.begin(name, base | P(NOFAIL) | P(ALLOC)); shape(x, -1);
            v = std::move(*y.v);
            S.end();
            nofail(name);
            settle(x, name, true, Ints(y.m), ALL_OR_NOTHING, P(NOFAIL));
            settle(y, name, true, Ints(), ALL_OR_NOTHING, P(NOFAIL));
            x.arena = y.arena;
            break;
        }
        case OP_move_self: {
            S.begin(name, base | P(NOFAIL)); shape(x, -1);
            Vec& alias = v;
            v = std::move(alias);
            S.end();
            nofail(name);
            Ints now = content(v, base);
            if (!now.empty() && now != x.m) S.fail(P(VEC) | P(NOFAIL), "self move left %s of %s", show(now).c_str(), show(x.m).c_str());
            x.m = now;
            break;
        }
        case OP_move_construct: {
            Vec* fresh = raw();
            S.begin(name, base | P(NOFAIL) | P(ALLOC)); shape(x, -1);
            new (fresh) Vec(std::move(v));
            S.end();
            nofail(name);
            Ints was = x.m;
            settle(x, name, true, Ints(), ALL_OR_NOTHING, P(NOFAIL));
            Vec* old = x.v;
            x.v = fresh; x.m = was;
            settle(x, name, true, was, ALL_OR_NOTHING, P(NOFAIL));
            if (st.b & 1) { // the emptied source must be usable
                Arg<E> a(val(st.b));
                Slot t; t.v = old; t.arena = x.arena;
                Ints after(1, val(st.b));
                Err err;
                S.begin("vec.push_after_move", base); S.op_arena = arena_of(old->get_allocator());
                old->push_back_nothrow(err, a.e);
                S.end();
                settle(t, "vec.push_after_move", judge(err, "vec.push_after_move"), after, ALL_OR_NOTHING, P(STRONG));
            }
            S.begin("vec.destroy", base | P(NOFAIL));
            old->~Vec();
            S.end();
            nofail("vec.destroy");
            free(old);
            break;
        }
        case OP_rebuild: {
            S.begin("vec.destroy", base | P(NOFAIL));
            v.~Vec();
            S.end();
            nofail("vec.destroy");
            x.m.clear();
            x.arena = make_alloc<A>::arenas > 1 ? 1 + pick(st.b, 2) : 0;
            A alloc = make_alloc<A>::of(x.arena);
            S.begin(name, base | P(NOFAIL) | P(ALLOC));
            new (x.v) Vec(alloc);
            S.end();
            nofail(name);
            break;
        }
        case OP_compare: {
            S.begin(name, base); shape(x, &x == &y);
            bool eq = const_cast<const Core_&>(core(v)) == const_cast<const Core_&>(core(*y.v));
            S.end();
            nofail(name);
            if (eq != (x.m == y.m)) S.fail(P(VEC), "comparison of %s and %s gave %d", show(x.m).c_str(), show(y.m).c_str(), int(eq));
            break;
        }
        case OP_read: {
            const Core_& c = core(v);
            Addresses every; for (int q = 0; q < n; ++q) every.push_back(v.begin() + q);
            S.begin(name, base); shape(x, -1);
            bool good = c.size() == x.m.size() && c.empty() == x.m.empty() && c.capacity() >= c.size() && c.max_size() >= c.size()
                        && size_t(c.cend() - c.cbegin()) == x.m.size() && size_t(c.end() - c.begin()) == x.m.size();
            if (good && n) {
                good = c.front().get() == x.m[0] && c.back().get() == x.m[size_t(n) - 1] && core(v).front().get() == x.m[0] && core(v).back().get() == x.m[size_t(n) - 1]
                       && c.data() == &c[0] && core(v).data() == &core(v)[0];
                for (int i = 0; good && i < n; ++i) good = c[size_t(i)].get() == x.m[size_t(i)] && v[size_t(i)].get() == x.m[size_t(i)];
            }
            int k = n;
            for (typename Vec::reverse_iterator r = v.rbegin(); good && r != v.rend(); ++r) good = k > 0 && r->get() == x.m[size_t(--k)];
            good = good && k == 0;
            k = n;
            for (typename Vec::const_reverse_iterator r = v.crbegin(); good && r != v.crend(); ++r) good = k > 0 && r->get() == x.m[size_t(--k)];
            good = good && k == 0;
            k = n;
            for (typename Vec::const_reverse_iterator r = c.rbegin(); good && r != c.rend(); ++r) good = k > 0 && r->get() == x.m[size_t(--k)];
            good = good && k == 0;
            good = good && walk(v, every);
            S.end();
            nofail(name);
            if (!good) S.fail(P(VEC), "observers disagree with the content %s", show(x.m).c_str());
            break;
        }
        case OP_huge_reserve: case OP_huge_resize: case OP_huge_resize_value: case OP_huge_assign: {
            const size_t M = std::numeric_limits<size_t>::max();
            const size_t D = size_t(std::numeric_limits<std::ptrdiff_t>::max());
            const size_t z = sizeof(E);
            const size_t table[] = {M, M - 1, M / 2, M / 2 + 1, M / 3 * 2, M / z, M / z + 1, M / z + 2, M / z + 5, D, D + 1, D / z, D / z + 1, M / z * 2 / 3, M / z / 3 * 2 + 3,
                                    v.max_size(), v.max_size() + 1, v.max_size() - 1, (size_t(1) << 32) + 3, M - size_t(n), (size_t(1) << 31),
                                    M / 3 * 2 + 2, M / 3 * 2 + 5, M / 3 * 2 + 40, M / 2 + 2, M / 2 + 9, M / 3 + 2, M / 3 + 7, M / 4 + 3, M / 8 * 5 + 9, M - 16, M / z + 40};
            size_t want = table[size_t(pick(st.c, int(sizeof table / sizeof *table)))];
            Arg<E> a(val(st.b));
            Ints same = x.m;
            Err err;
            S.begin(name, base | P(HUGE_) | P(CAUSE)); S.op_arena = x.arena; shape(x, pick(st.c, int(sizeof table / sizeof *table)));
            S.oversize = true;
            if (st.op == OP_huge_reserve) v.reserve_nothrow(err, want);
            else if (st.op == OP_huge_resize) v.resize_nothrow(err, want);
            else if (st.op == OP_huge_resize_value) v.resize_nothrow(err, want, a.e);
            else v.assign_nothrow(err, want, const_cast<const E&>(a.e));
            S.end();
            if (S.stats) ++S.stats->fired[FIRED_OVERSIZE];
            bool ok = judge(err, name);
            if (want <= v.max_size() && cause_of(err).type == CAUSE_LENGTH) S.fail(P(HUGE_), "%s of %zu elements is not more than max_size() %zu, but reported as too long", name, want, v.max_size());
            if (ok) S.fail(P(HUGE_) | P(CAUSE) | P(CAP), "%s of %zu elements succeeded (size %zu, capacity %zu)", name, want, v.size(), v.capacity());
            else settle(x, name, false, st.op == OP_huge_assign ? Ints() : same, st.op == OP_huge_assign ? OLD_OR_PREFIX : ALL_OR_NOTHING, P(HUGE_));
            break;
        }
        }
        fidelity(x); fidelity(y);
    }

    void lazy_rest(const Step& st, Slot& x, const size_t top) {
        Vec& v = *x.v;
        const size_t cap = v.capacity();
        {   // within that capacity
            Arg<E> a(val(st.b));
            Ints after = x.m; after.push_back(val(st.b));
            const Before b = look(x);
            Err err;
            S.begin("vec.lazy_push", base | P(HUGE_) | P(CAP)); S.op_arena = x.arena; shape(x, 0);
            v.push_back_nothrow(err, const_cast<const E&>(a.e));
            S.end();
            settle(x, "vec.lazy_push", judge(err, "vec.lazy_push"), after, ALL_OR_NOTHING, P(HUGE_) | P(STRONG));
            promise(x, "vec.lazy_push", b, after.size());
        }
        if (!S.failures.empty()) return;
        if (cap < top && !never_fails<E>::value) {
            // beyond that capacity but possible: the allocation succeeds, some element does not
            const size_t count = cap + 1 + (st.d & 1 ? 0 : st.d & 2 ? (top - cap - 1) / 2 : top - cap - 1);
            Fault f; f.kind = F_CTOR; f.n = int(x.m.size()) + 1 + (st.d >> 2) % 5; f.sticky = true;
            S.plan.push_back(f);
            Arg<E> a(val(st.b));
            Err err;
            S.begin("vec.lazy_resize", base | P(HUGE_) | P(CAP)); S.op_arena = x.arena; shape(x, 1);
            v.resize_nothrow(err, count, a.e);
            S.end();
            S.plan.clear();
            const Cause c = cause_of(err);
            if (c.type == CAUSE_LENGTH) S.fail(P(HUGE_), "resize to %zu elements, not more than max_size() %zu, reported as too long (capacity %zu)", count, top, cap);
            if (S.max_request == 0) S.fail(P(HUGE_) | P(CAP), "resize to %zu elements did not ask for memory beyond the capacity %zu", count, cap);
            bool ok = judge(err, "vec.lazy_resize");
            Ints now = content(v, P(HUGE_));
            if (ok || !is_prefix(x.m, now)) S.fail(P(HUGE_) | P(VALID), "resize to %zu elements that failed left %s of %s", count, show(now).c_str(), show(x.m).c_str());
            for (size_t i = x.m.size(); i < now.size(); ++i) if (now[i] != val(st.b)) S.fail(P(HUGE_) | P(VALID), "resize to %zu elements that failed left %s of %s", count, show(now).c_str(), show(x.m).c_str());
            x.m = now;
        }
        if (!S.failures.empty()) return;
        {   // beyond max_size()
            const size_t M = std::numeric_limits<size_t>::max();
            const size_t table[] = {top + 1, M, M - 1, M / 2 + 2, M / sizeof(E) + 1, M / sizeof(E) + 2, M / 3 * 2 + 3};
            const size_t want = table[size_t(pick(st.d, 7))];
            Arg<E> a(val(st.b));
            Err err;
            S.begin("vec.lazy_beyond", base | P(HUGE_) | P(CAP)); S.op_arena = x.arena; shape(x, 2);
            S.oversize = true;
            if (st.a & 1) v.reserve_nothrow(err, want); else v.resize_nothrow(err, want, a.e);
            S.end();
            bool ok = judge(err, "vec.lazy_beyond");
            if (ok) S.fail(P(HUGE_) | P(CAUSE) | P(CAP), "request for %zu elements succeeded (size %zu, capacity %zu)", want, v.size(), v.capacity());
            else settle(x, "vec.lazy_beyond", false, Ints(x.m), ALL_OR_NOTHING, P(HUGE_));
        }
        if (!S.failures.empty()) return;
        if (st.b & 8) {   // give it back
            S.begin("vec.clear", base | P(NOFAIL)); shape(x, -1);
            v.clear();
            S.end();
            nofail("vec.clear");
            x.m.clear();
            if (v.capacity() < cap) S.fail(P(CAP), "clear changed the reserved capacity from %zu to %zu", cap, v.capacity());
        }
        Err err;
        S.begin("vec.lazy_shrink", base | P(HUGE_) | P(CAP)); S.op_arena = x.arena; shape(x, 3);
        v.shrink_to_fit_nothrow(err);
        S.end();
        bool ok = judge(err, "vec.lazy_shrink");
        settle(x, "vec.lazy_shrink", ok, Ints(x.m), ALL_OR_NOTHING, P(STRONG) | P(CAP) | P(HUGE_));
        if (ok && v.capacity() != v.size()) S.fail(P(CAP) | P(CAUSE), "shrink succeeded, capacity is %zu for %zu elements", v.capacity(), v.size());
    }

    void fidelity(Slot& x) {
        if (!S.failures.empty()) return;
        if (arena_of(x.v->get_allocator()) != x.arena) S.fail(P(ALLOC), "vector reports allocator %d, it was given %d", arena_of(x.v->get_allocator()), x.arena);
    }

    struct Go {
        Vec& c; Err& err; bool insert; int pos;
        template <class F> void operator()(F f, F t) { if (insert) c.insert_nothrow(err, c.cbegin() + pos, f, t); else c.assign_nothrow(err, f, t); }
    };
    void bulk(const Step& st, const char* name, Slot& x, Slot& y, int pos, bool insert) {
        Vec& v = *x.v;
        const Before bef = look(x);
        int cnt = pick(st.b, 8);
        bool other = st.op == OP_insert_other || st.op == OP_assign_other;
        bool stream = st.op == OP_insert_stream || st.op == OP_assign_stream;
        Ints vals;
        // an array that dies with this call
        E* arr = 0;
        int from = 0;
        if (other) {
            from = pick(st.d, int(y.m.size()) + 1);
            cnt = pick(st.b, int(y.m.size()) - from + 1);
            vals.assign(y.m.begin() + from, y.m.begin() + from + cnt);
        } else {
            for (int i = 0; i < cnt; ++i) vals.push_back(val(st.d + i * (1 + st.b % 7)));
            arr = static_cast<E*>(room(sizeof(E) * size_t(cnt + 1)));
            for (int i = 0; i < cnt; ++i) new (static_cast<void*>(arr + i)) Arg<E>(vals[size_t(i)]);
        }
        // the array is read through pointers, other iterators, backwards, moved from, or its values come as shorts
        const int kind = other || stream ? int(RANGE_CONST) : pick(st.a / 16, RANGE_KINDS);
        const std::vector<short> shorts(vals.begin(), vals.end());
        const Ints source(vals);
        if (kind == RANGE_REVERSE) std::reverse(vals.begin(), vals.end());
        Ints after = insert ? x.m : Ints();
        after.insert(after.begin() + pos, vals.begin(), vals.end());
        std::vector<const E*> items;
        for (int i = 0; i < cnt && arr; ++i) items.push_back(arr + i);
        items.push_back(0);
        Stream<E> src(&items[0], size_t(cnt));
        {
            Err err;
            S.begin(name, base | P(BULK)); S.op_arena = x.arena; shape(x, insert ? pos : -1);
            if (stream) {
                if (insert) v.insert_nothrow(err, v.cbegin() + pos, StreamIt<E>(&src), StreamIt<E>());
                else v.assign_nothrow(err, StreamIt<E>(&src), StreamIt<E>());
            } else if (other) {
                const Vec& c = *y.v;
                if (insert) v.insert_nothrow(err, v.cbegin() + pos, c.begin() + from, c.begin() + from + cnt);
                else v.assign_nothrow(err, c.begin() + from, c.begin() + from + cnt);
            } else {
                Go go = {v, err, insert, pos};
                go_range(kind, arr, shorts, go);
            }
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, after, insert ? SUBSEQUENCE : OLD_OR_PREFIX, P(BULK));
            if (ok && stream && src.pos != src.n) S.fail(P(BULK), "%s consumed %zu of %zu elements of the stream", name, src.pos, src.n);
            if (insert) promise(x, name, bef, after.size());
            if (other && content(*y.v, P(BULK)) != y.m) S.fail(P(BULK), "%s changed its source", name);
            for (int i = 0; arr && i < cnt; ++i) if (kind != RANGE_MOVE && arr[i].get() != source[size_t(i)]) S.fail(P(BULK), "%s changed its source", name);
        }
        if (arr) { for (int i = 0; i < cnt; ++i) arr[i].~E(); free(arr); }
    }

    void check() override {
        size_t total = 0;
        u32 t = P(VEC) | (S.faults_in_run ? P(VALID) : 0);
        for (int i = 0; i < SLOTS; ++i) {
            Ints now = content(*s[i].v, t);
            if (now != s[i].m) S.fail(t, "vector %d changed by an operation on another one: expected %s, got %s", i, show(s[i].m).c_str(), show(now).c_str());
            if (s[i].v->capacity() < s[i].v->size()) S.fail(t | P(CAP), "capacity is less than size");
            total += now.size();
            S.mix(now.size());
            for (size_t k = 0; k < now.size(); ++k) S.mix(u64(now[k]));
        }
        if (followed<E>::value && S.elems.size() != total)
            S.fail(P(LIFE) | (S.faults_in_run ? P(VALID) : 0), "%zu elements are alive, the vectors hold %zu", S.elems.size(), total);
        size_t room = 0;
        if (make_alloc<A>::arenas > 1) {
            size_t held = 0;
            for (int i = 0; i < SLOTS; ++i) room += s[i].v->capacity() * sizeof(E);
            for (Sim::BlockMap::iterator b = S.blocks.begin(); b != S.blocks.end(); ++b) if (b->second.arena) held += b->second.bytes;
            if (held != room) S.fail(P(MEM) | (S.faults_in_run ? P(VALID) : 0), "vectors hold %zu bytes, their capacity is %zu bytes", held, room);
        }
    }

    void recover() override {
        for (int i = 0; i < SLOTS && S.failures.empty(); ++i) {
            Slot& x = s[i];
            for (int k = 0; k < 3 && S.failures.empty(); ++k) {
                Arg<E> a(7 + k);
                int pos = k == 1 ? int(x.m.size()) / 2 : int(x.m.size());
                Ints after = x.m; after.insert(after.begin() + pos, 7 + k);
                Err err;
                S.begin("vec.recover", base); S.op_arena = x.arena;
                if (k == 1) x.v->insert_nothrow(err, x.v->cbegin() + pos, const_cast<const E&>(a.e)); else x.v->push_back_nothrow(err, const_cast<const E&>(a.e));
                S.end();
                bool ok = judge(err, "vec.recover");
                if (!ok) S.fail(P(VALID), "vector does not work after the faults ended");
                settle(x, "vec.recover", ok, after, SUBSEQUENCE, P(VALID));
            }
            {
                Err err;
                Ints after(x.m.begin(), x.m.begin() + long(x.m.size() / 2));
                S.begin("vec.recover_resize", base); S.op_arena = x.arena;
                x.v->resize_nothrow(err, after.size());
                S.end();
                bool ok = judge(err, "vec.recover_resize");
                if (!ok) S.fail(P(VALID), "vector does not work after the faults ended");
                settle(x, "vec.recover_resize", ok, after, SUBSEQUENCE, P(VALID));
            }
        }
    }

    void finish() override {
        for (int i = 0; i < SLOTS; ++i) {
            S.begin("vec.destroy", base | P(NOFAIL));
            s[i].v->~Vec();
            S.end();
            nofail("vec.destroy");
            free(s[i].v);
        }
    }
};

static World* make_world() { return new VecWorld; }
static const char* variant() {
    static char b[128];
    snprintf(b, sizeof b, "%d/%s/%s/%s/%s", VARIANT, E::name(), name_of((Err*)0), name_of((A*)0), std::is_same<Vec, Core_>::value ? "impl" : "public");
    return b;
}
const WorldDef the_world = {"vector", op_table, OP_COUNT, make_world, variant, !never_fails<E>::value, false, VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim
