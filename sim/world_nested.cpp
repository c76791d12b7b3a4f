// World: containers whose elements are containers or shared handles. Copying an element is then itself a many-step
// operation that allocates and fails half way; the outer container must stay a sequence of whole, independent elements.
#include "seams.hpp"
#include <algorithm>
#include <memory>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/vector.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
#define OUTER_VEC 1
typedef Elem<E_THR> E; typedef SimError Err; typedef nestl::vector<E, SimAlloc<E> > Inner;
#elif VARIANT == 1
#define OUTER_VEC 0
typedef Elem<E_THR> E; typedef nestl::default_operation_error Err; typedef nestl::vector<E, SimAlloc<E> > Inner;
#elif VARIANT == 2
#define OUTER_VEC 1
typedef Elem<E_THRMV> E; typedef SimError Err; typedef nestl::list<E, SimAlloc<E> > Inner;
#elif VARIANT == 3
#define OUTER_VEC 0
typedef Elem<E_TWO> E; typedef SimError Err; typedef nestl::impl::list<E, SimAlloc<E> > Inner;
#elif VARIANT == 4
#define OUTER_VEC 1
typedef Elem<E_TWO> E; typedef nestl::default_operation_error Err; typedef nestl::impl::vector<E, SimAlloc<E> > Inner;
#elif VARIANT == 5
#define OUTER_VEC 0
typedef Elem<E_THR> E; typedef SimError Err; typedef nestl::list<E, nestl::allocator<E> > Inner;
#elif VARIANT == 6
#define OUTER_VEC 1
typedef Elem<E_PLAIN> E; typedef SimError Err; typedef nestl::shared_ptr<E> Inner;
#elif VARIANT == 7
#define OUTER_VEC 0
typedef Elem<E_PLAIN> E; typedef SimError Err; typedef nestl::shared_ptr<E> Inner;
#elif VARIANT == 8
#define OUTER_VEC 1
typedef Elem<E_TWO> E; typedef SimError Err; typedef nestl::vector<E, nestl::allocator<E> > Inner;
#elif VARIANT == 9
#define OUTER_VEC 1
typedef Elem<E_THR> E; typedef SimError Err; typedef nestl::set<E, std::less<E>, SimAlloc<E> > Inner;
#elif VARIANT == 10
#define OUTER_VEC 0
typedef Elem<E_TWO> E; typedef SimError Err; typedef nestl::set<E, std::less<E>, SimAlloc<E> > Inner;
#endif
#define INNER_SET (VARIANT == 9 || VARIANT == 10)
#define SHARED (VARIANT == 6 || VARIANT == 7)

#if OUTER_VEC
typedef nestl::impl::vector<Inner, SimAlloc<Inner> > Outer;
#else
typedef nestl::impl::list<Inner, SimAlloc<Inner> > Outer;
#endif

enum { VALUES = INNER_SET ? 90 : 30, SLOTS = 2, POOL = 5 };
typedef std::vector<Ints> Deep;

inline std::string show(const Deep& d) { std::string r = "{"; for (size_t i = 0; i < d.size() && i < 8; ++i) r += show(d[i]); return r + (d.size() > 8 ? "..}" : "}"); }
inline bool is_sub(const Deep& a, const Deep& b) { size_t i = 0; for (size_t j = 0; i < a.size() && j < b.size(); ++j) if (a[i] == b[j]) ++i; return i == a.size(); }
inline bool is_pre(const Deep& a, const Deep& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

#define OPS(X) \
    X(push_copy, 6, P(STRONG) | P(NEST)) X(push_move, 5, P(STRONG) | P(NEST)) X(push_own, 4, P(NEST)) X(insert_copy, 5, P(NEST)) X(insert_move, 4, P(NEST)) X(insert_own, 4, P(NEST)) \
    X(assign_n, 2, P(BULK)) X(assign_n_own, 2, P(BULK)) X(assign_other, 2, P(BULK)) X(copy, 4, P(BULK)) X(copy_self, 1, P(BULK)) X(clear, 1, P(NOFAIL)) X(swap, 2, P(NOFAIL)) X(move_assign, 2, P(NOFAIL)) \
    X(mutate, 8, P(NEST)) X(inner_copy, 5, P(NEST)) X(inner_swap, 3, P(NEST)) X(inner_move, 3, P(NEST)) X(inner_clear, 2, P(NEST)) X(take_out, 2, P(NEST)) \
    X(resize, 3, P(NEST)) X(resize_value, 3, P(NEST)) X(reserve, 3, P(CAP)) X(shrink, 2, P(CAP)) \
    X(push_front, 3, P(NEST)) X(erase, 4, P(NOFAIL)) X(pop, 2, P(NOFAIL)) X(splice, 2, P(NOFAIL))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#define VECONLY(i) ((i) >= OP_resize && (i) <= OP_shrink)
#define LISTONLY(i) ((i) >= OP_push_front)
#if OUTER_VEC
#define W(n, w) (LISTONLY(OP_##n) ? 0 : w)
#else
#define W(n, w) (VECONLY(OP_##n) ? 0 : w)
#endif
#define X(n, w, f) {"nested." #n, W(n, w), f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

template <int N> struct Rank : Rank<N - 1> {};
template <> struct Rank<0> {};

struct Slot { Outer* o; Deep m; int arena; };

struct NestedWorld : World {
    Slot s[SLOTS];
#if SHARED
    Inner* pool[POOL];
#endif
    static const u32 base = (1u << NEST) | (1u << LIFE) | (1u << MEM) | (1u << VALID) | (OUTER_VEC ? 1u << VEC : 1u << LIST);
    static Outer* raw() { return static_cast<Outer*>(room(sizeof(Outer))); }

    // ---- elements
#if SHARED
    Ints read(const Inner& i) { return i.get() ? Ints(1, i->get()) : Ints(); }
    struct Made { Inner i; };
    void build(Inner& i, const Ints& m) { Harness h; if (!m.empty()) i = *pool[pick(m[0] - 1, POOL)]; }
    Ints random(int a, int) { return a % 9 == 0 ? Ints() : Ints(1, 1 + pick(a, POOL)); }
#else
    Ints read(const Inner& i) {
        Ints r;
        for (Inner::const_iterator it = i.cbegin(); it != i.cend(); ++it) { r.push_back(it->get()); if (r.size() > 500) S.fatal(base, "inner container does not end"); }
        if (i.size() != r.size()) S.fail(base, "inner container claims %zu elements, iteration finds %zu", i.size(), r.size());
        return r;
    }
#if INNER_SET
    static void put(Err& e, Inner& i, const E& v) { i.insert_nothrow(e, v); }
    static Ints norm(const Ints& m) { // what is left of the values inserted in this order: the first one of each key, ordered by key
        Ints r;
        for (size_t k = 0; k < m.size(); ++k) {
            size_t at = 0;
            while (at < r.size() && (r[at] >> 3) < (m[k] >> 3)) ++at;
            if (at == r.size() || r[at] >> 3 != m[k] >> 3) r.insert(r.begin() + long(at), m[k]);
        }
        return r;
    }
#else
    static void put(Err& e, Inner& i, const E& v) { i.push_back_nothrow(e, v); }
    static Ints norm(const Ints& m) { return m; }
#endif
    void build(Inner& i, const Ints& m) { // outside of the fault space
        for (size_t k = 0; k < m.size(); ++k) { Arg<E> a(m[k]); Err e; Calm calm; put(e, i, a.e); if (e) S.fatal(base, "cannot build an element"); }
    }
    Ints random(int a, int b) { Ints r; int n = a % 5 == 0 ? 0 : 1 + pick(a, 4); for (int i = 0; i < n; ++i) r.push_back(1 + pick(b + i * 7, VALUES)); return norm(r); }
#endif
    struct Offer { Inner i; NestedWorld& w; Offer(NestedWorld& w_, const Ints& m) : w(w_) { w.build(i, m); } };

    Deep content(Outer& o) {
        Deep r;
        for (Outer::iterator it = o.begin(); it != o.end(); ++it) { r.push_back(read(*it)); if (r.size() > 3000) S.fatal(base, "outer container does not end"); }
        if (o.size() != r.size()) S.fail(base, "outer container claims %zu elements, iteration finds %zu", o.size(), r.size());
        return r;
    }
    Inner& at(Outer& o, int k) { Outer::iterator it = o.begin(); while (k-- > 0) ++it; return *it; }
    Outer::const_iterator pos_of(Outer& o, int k) { Outer::const_iterator it = o.cbegin(); while (k-- > 0) ++it; return it; }

    enum Mode { ALL_OR_NOTHING, SUBSEQUENCE, GROWN, OLD_OR_PREFIX, OLD_OR_ANY_PREFIX };
    void settle(Slot& x, const char* op, bool ok, const Deep& after, Mode mode, u32 tags) {
        Deep now = content(*x.o);
        if (ok) {
            if (now != after) S.fail(tags | P(NEST) | P(CAUSE) | (OUTER_VEC ? P(VEC) : P(LIST)), "%s succeeded: expected %s, got %s", op, show(after).c_str(), show(now).c_str());
        } else {
            bool good = mode == ALL_OR_NOTHING ? now == x.m : mode == SUBSEQUENCE ? is_sub(now, after) : mode == GROWN ? is_pre(x.m, now) && is_pre(now, after) : now == x.m || is_pre(now, after);
            if (!good) S.fail(P(VALID) | P(NEST) | (mode == ALL_OR_NOTHING ? P(STRONG) : 0) | tags, "%s failed: was %s, would be %s, is %s", op, show(x.m).c_str(), show(after).c_str(), show(now).c_str());
        }
        x.m = now;
    }
    void shape(Slot& x, int pos) { size_t n = x.m.size(); S.shape = u32((n > 7 ? 7 : n) * 8 + (pos < 0 ? 7 : pos == 0 ? 0 : size_t(pos) == n ? 1 : 2)); }
    void nofail(const char* op) { if (S.alloc_requests || S.ctors) S.fail(P(NOFAIL), "%s cannot report errors, but asked for memory or constructed elements", op); }
    bool only_memory_failed() { if (S.allocs) return false; for (size_t i = 0; i < S.fired.size(); ++i) if (S.fired[i].kind != F_ALLOC) return false; return true; }

    void start() override {
        for (int i = 0; i < SLOTS; ++i) { s[i].arena = i + 1; s[i].o = new (raw()) Outer(SimAlloc<Inner>(s[i].arena)); }
#if SHARED
        for (int i = 0; i < POOL; ++i) { Err e; SimAlloc<E> a(1); pool[i] = new (room(sizeof(Inner))) Inner(nestl::make_shared_a_nothrow<E>(e, a, i + 1)); }
#endif
    }

    void step(const Step& st) override {
        Slot& x = s[pick(st.a, SLOTS)];
        Slot& y = s[1 - pick(st.a, SLOTS)];
        Outer& o = *x.o;
        const int n = int(x.m.size());
        const int pos = (st.c & 3) == 0 ? n : (st.c & 3) == 1 ? 0 : pick(st.c >> 2, n + 1);
        const int own = n ? pick(st.d, n) : -1, own2 = n ? pick(st.d / 7 + 1, n) : -1;
        const char* name = op_table[st.op].name;
        switch (st.op) {
        case OP_push_copy: case OP_push_move: case OP_insert_copy: case OP_insert_move: case OP_push_own: case OP_insert_own: case OP_push_front: {
            bool mine = st.op == OP_push_own || st.op == OP_insert_own;
            if (mine && !n) return;
            if (n > 40) return;
            Ints v = mine ? x.m[size_t(own)] : random(st.b, st.d);
            Offer a(*this, mine ? Ints() : v);
            bool insert = st.op == OP_insert_copy || st.op == OP_insert_move || st.op == OP_insert_own;
            bool moves = st.op == OP_push_move || st.op == OP_insert_move || (st.op == OP_push_front && (st.b & 1));
            int p = insert ? pos : st.op == OP_push_front ? 0 : n;
            Deep after = x.m; after.insert(after.begin() + p, v);
            const Inner* me = mine ? &at(o, own) : 0;
            Outer::const_iterator where = pos_of(o, p);
            Err err;
            S.begin(name, base | P(STRONG)); shape(x, p);
            switch (st.op) {
            case OP_push_copy: o.push_back_nothrow(err, const_cast<const Inner&>(a.i)); break;
            case OP_push_move: o.push_back_nothrow(err, std::move(a.i)); break;
            case OP_push_own: o.push_back_nothrow(err, *me); break;
            case OP_insert_copy: o.insert_nothrow(err, where, const_cast<const Inner&>(a.i)); break;
            case OP_insert_move: o.insert_nothrow(err, where, std::move(a.i)); break;
            case OP_insert_own: o.insert_nothrow(err, where, *me); break;
#if !OUTER_VEC
            case OP_push_front: if (moves) o.push_front_nothrow(err, std::move(a.i)); else o.push_front_nothrow(err, const_cast<const Inner&>(a.i)); break;
#endif
            default: break;
            }
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, after, OUTER_VEC && p < n ? SUBSEQUENCE : ALL_OR_NOTHING, 0);
            if (!mine && (!moves || (!ok && only_memory_failed() && (!OUTER_VEC || p == n))) && read(a.i) != v) S.fail(P(STRONG) | P(NEST), "%s: the offered container was consumed", name);
            break;
        }
        case OP_assign_n: case OP_assign_n_own: {
            if (st.op == OP_assign_n_own && !n) return;
            int cnt = pick(st.c, 5);
            Ints v = st.op == OP_assign_n_own ? x.m[size_t(own)] : random(st.b, st.d);
            Offer a(*this, st.op == OP_assign_n_own ? Ints() : v);
            Deep after(size_t(cnt), v);
            const Inner& src = st.op == OP_assign_n_own ? at(o, own) : a.i;
            Err err;
            S.begin(name, base | P(BULK)); shape(x, -1);
            o.assign_nothrow(err, size_t(cnt), src);
            S.end();
            settle(x, name, judge(err, name), after, OLD_OR_PREFIX, P(BULK));
            break;
        }
        case OP_assign_other: {
            Err err;
            S.begin(name, base | P(BULK)); shape(x, -1);
            o.assign_nothrow(err, y.o->cbegin(), y.o->cend());
            S.end();
            settle(x, name, judge(err, name), Deep(y.m), OLD_OR_PREFIX, P(BULK));
            break;
        }
        case OP_copy: case OP_copy_self: {
            Slot& src = st.op == OP_copy ? y : x;
            Err err;
            S.begin(name, base | P(BULK)); shape(x, -1);
            o.copy_nothrow(err, *src.o);
            S.end();
            settle(x, name, judge(err, name), Deep(src.m), OLD_OR_PREFIX, P(BULK));
            break;
        }
        case OP_clear: S.begin(name, base | P(NOFAIL)); o.clear(); S.end(); nofail(name); settle(x, name, true, Deep(), ALL_OR_NOTHING, P(NOFAIL)); break;
        case OP_swap: {
            Deep a = x.m, b = y.m;
            S.begin(name, base | P(NOFAIL)); o.swap(*y.o); S.end(); nofail(name);
            x.arena = arena_of(o.get_allocator()); y.arena = arena_of(y.o->get_allocator());
            settle(x, name, true, b, ALL_OR_NOTHING, P(NOFAIL)); settle(y, name, true, a, ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_move_assign: {
            S.begin(name, base | P(NOFAIL)); o = std::move(*y.o); S.end(); nofail(name);
            settle(x, name, true, Deep(y.m), ALL_OR_NOTHING, P(NOFAIL)); settle(y, name, true, Deep(), ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_mutate: { // change one element: nothing else may change with it
            if (!n) return;
            Inner& i = at(o, own);
            Deep after = x.m;
            Err err;
#if SHARED
            int v = 1 + pick(st.b, POOL);
            after[size_t(own)] = Ints(1, v);
            S.begin(name, base | P(OWN)); shape(x, own);
            i = *pool[v - 1];
            S.end();
#else
            if (after[size_t(own)].size() > 12) return;
            int v = 1 + pick(st.b, VALUES);
            Arg<E> a(v);
            after[size_t(own)].push_back(v); after[size_t(own)] = norm(after[size_t(own)]);
            S.begin(name, base); shape(x, own);
            put(err, i, a.e);
            S.end();
#endif
            settle(x, name, judge(err, name), after, ALL_OR_NOTHING, 0);
            break;
        }
        case OP_inner_swap: case OP_inner_move: case OP_inner_clear: {
            if (!n || (st.op != OP_inner_clear && own == own2)) return;
            Inner& i = at(o, own); Inner& j = at(o, own2);
            Deep after = x.m;
            if (st.op == OP_inner_swap) std::swap(after[size_t(own)], after[size_t(own2)]);
            else if (st.op == OP_inner_move) { after[size_t(own)] = after[size_t(own2)]; after[size_t(own2)].clear(); }
            else after[size_t(own)].clear();
            S.begin(name, base | P(NOFAIL)); shape(x, own);
            if (st.op == OP_inner_swap) nested_swap(i, j);
            else if (st.op == OP_inner_move) i = std::move(j);
#if SHARED
            else i.reset();
#else
            else i.clear();
#endif
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_inner_copy: {
            if (!n || own == own2) return;
            Inner& i = at(o, own); const Inner& j = at(o, own2);
            Deep after = x.m; after[size_t(own)] = after[size_t(own2)];
            Err err;
            S.begin(name, base); shape(x, own);
            nested_copy(err, i, j);
            S.end();
            bool ok = judge(err, name);
            Deep now = content(o);
            bool good = now.size() == after.size();
            for (size_t k = 0; good && k < now.size(); ++k)
                good = ok || k != size_t(own) ? now[k] == after[k] : now[k] == x.m[k] || (INNER_SET ? is_subsequence(now[k], after[k]) : is_prefix(now[k], after[k]));
            if (!good) S.fail(base | P(BULK), "%s: was %s, expected %s, is %s", name, show(x.m).c_str(), show(after).c_str(), show(now).c_str());
            x.m = now;
            break;
        }
        case OP_take_out: { // move an element out into a container of its own, and back in
            if (!n) return;
            Inner* tmp = static_cast<Inner*>(room(sizeof(Inner)));
            Deep after = x.m; after[size_t(own)].clear();
            S.begin(name, base | P(NOFAIL)); shape(x, own);
            new (tmp) Inner(std::move(at(o, own)));
            S.end();
            nofail(name);
            Ints was = x.m[size_t(own)];
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            if (read(*tmp) != was) S.fail(P(NEST) | P(NOFAIL), "%s lost the content", name);
            if (st.b & 1) {
                after[size_t(own)] = was;
                S.begin(name, base | P(NOFAIL)); at(o, own) = std::move(*tmp); S.end();
                settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            }
            S.begin(name, base | P(NOFAIL)); tmp->~Inner(); S.end();
            nofail(name);
            free(tmp);
            break;
        }
#if OUTER_VEC
        case OP_resize: case OP_resize_value: {
            int cnt = pick(st.c, n + 5);
            if (cnt > 40) cnt = 40;
            Ints v = st.op == OP_resize ? Ints() : random(st.b, st.d);
            Offer a(*this, v);
            Deep after = x.m; after.resize(size_t(cnt), v);
            Err err;
            S.begin(name, base); shape(x, -1);
            if (st.op == OP_resize) o.resize_nothrow(err, size_t(cnt)); else o.resize_nothrow(err, size_t(cnt), a.i);
            S.end();
            settle(x, name, judge(err, name), after, GROWN, 0);
            break;
        }
        case OP_reserve: case OP_shrink: {
            Err err;
            size_t want = size_t(n + pick(st.c, 9));
            S.begin(name, base | P(CAP)); shape(x, -1);
            if (st.op == OP_reserve) o.reserve_nothrow(err, want); else o.shrink_to_fit_nothrow(err);
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, Deep(x.m), ALL_OR_NOTHING, P(CAP));
            if (ok && (st.op == OP_reserve ? o.capacity() < want : o.capacity() != o.size())) S.fail(P(CAP), "%s: capacity is %zu", name, o.capacity());
            break;
        }
#else
        case OP_erase: case OP_pop: {
            if (!n) return;
            int k = st.op == OP_erase ? own : (st.b & 1) ? 0 : n - 1;
            Deep after = x.m; after.erase(after.begin() + k);
            Outer::const_iterator where = pos_of(o, k);
            S.begin(name, base | P(NOFAIL)); shape(x, k);
            if (st.op == OP_erase) o.erase(where); else if (st.b & 1) o.pop_front(); else o.pop_back();
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_splice: {
            if (y.m.empty()) return;
            if (arena_of(o.get_allocator()) != arena_of(y.o->get_allocator())) return;
            int k = pick(st.d, int(y.m.size()));
            Deep after = x.m; after.insert(after.begin() + pos, y.m[size_t(k)]);
            Deep rest = y.m; rest.erase(rest.begin() + k);
            Outer::const_iterator where = pos_of(o, pos), it = pos_of(*y.o, k);
            S.begin(name, base | P(NOFAIL)); shape(x, pos);
            o.splice(where, *y.o, it);
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL)); settle(y, name, true, rest, ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
#endif
        }
    }

    // copy of an element into another one, as the user has it in each mode
#if SHARED
    static void nested_copy(Err&, Inner& i, const Inner& j) { i = j; }
    static void nested_swap(Inner& i, Inner& j) { i.swap(j); }
#else
    template <class I> static auto nested_copy_(Err& e, I& i, const I& j, Rank<2>) -> decltype(i.copy_nothrow(e, j), void()) { i.copy_nothrow(e, j); }
    template <class I> static auto nested_copy_(Err& e, I& i, const I& j, Rank<1>) -> decltype(i.as_noexcept(), void()) { i.as_noexcept().copy_nothrow(e, j.as_noexcept()); }
    template <class I> static void nested_copy_(Err& e, I& i, const I& j, Rank<0>) { i.assign_nothrow(e, j.cbegin(), j.cend()); }
    static void nested_copy(Err& e, Inner& i, const Inner& j) { nested_copy_(e, i, j, Rank<2>()); }
    template <class I> static auto nested_swap_(I& i, I& j, Rank<2>) -> decltype(i.swap(j), void()) { i.swap(j); }
    template <class I> static auto nested_swap_(I& i, I& j, Rank<1>) -> decltype(i.as_noexcept(), void()) { i.as_noexcept().swap(j.as_noexcept()); }
    template <class I> static void nested_swap_(I& i, I& j, Rank<0>) { I t(std::move(i)); i = std::move(j); j = std::move(t); }
    static void nested_swap(Inner& i, Inner& j) { nested_swap_(i, j, Rank<2>()); }
#endif

    void check() override {
        size_t total = 0;
        Ints uses(POOL + 1, 1);
        for (int i = 0; i < SLOTS; ++i) {
            Deep now = content(*s[i].o);
            if (now != s[i].m) S.fail(base & ~(P(LIFE) | P(MEM)), "container %d changed by an operation on another one: expected %s, got %s", i, show(s[i].m).c_str(), show(now).c_str());
            S.mix(now.size());
            for (size_t j = 0; j < now.size(); ++j) { total += now[j].size(); S.mix(now[j].size()); for (size_t k = 0; k < now[j].size(); ++k) { S.mix(u64(now[j][k])); if (SHARED) ++uses[size_t(now[j][k])]; } }
        }
#if SHARED
        total = POOL;
        for (int i = 0; i < POOL && S.failures.empty(); ++i)
            if (pool[i]->use_count() != uses[size_t(i + 1)]) S.fail(P(OWN) | P(NEST), "shared object %d has use count %ld, %d handles exist", i, pool[i]->use_count(), uses[size_t(i + 1)]);
#endif
        if (S.elems.size() != total) S.fail(P(LIFE) | P(NEST) | (S.faults_in_run ? P(VALID) : 0), "%zu elements are alive, the containers hold %zu", S.elems.size(), total);
    }

    void recover() override {
        for (int i = 0; i < SLOTS && S.failures.empty(); ++i) for (int k = 0; k < 3 && S.failures.empty(); ++k) {
            Ints v = random(k + 1, k * 5);
            Offer a(*this, v);
            Deep after = s[i].m; after.push_back(v);
            Err err;
            S.begin("nested.recover", base);
            s[i].o->push_back_nothrow(err, const_cast<const Inner&>(a.i));
            S.end();
            settle(s[i], "nested.recover", judge(err, "nested.recover"), after, ALL_OR_NOTHING, P(VALID));
            if (S.failures.empty() && s[i].m != after) S.fail(P(VALID), "container does not work although nothing fails any more");
        }
    }

    void finish() override {
        for (int i = 0; i < SLOTS; ++i) { S.begin("nested.destroy", base | P(NOFAIL)); s[i].o->~Outer(); S.end(); nofail("nested.destroy"); free(s[i].o); s[i].m.clear(); }
#if SHARED
        for (int i = 0; i < POOL; ++i) {
            if (S.failures.empty() && pool[i]->use_count() != 1) S.fail(P(OWN) | P(NEST), "destroyed containers left owners behind");
            S.begin("nested.destroy", base); pool[i]->~Inner(); S.end(); free(pool[i]);
        }
#endif
    }
};

static World* make_world() { return new NestedWorld; }
static const char* variant() {
    static char b[160];
    snprintf(b, sizeof b, "%d/%s of %s/%s/%s", VARIANT, OUTER_VEC ? "vector" : "list", SHARED ? "shared_ptr" : INNER_SET ? "set" : (VARIANT == 2 || VARIANT == 3 || VARIANT == 5) ? "list" : "vector", E::name(), name_of((Err*)0));
    return b;
}
const WorldDef the_world = {"nested", op_table, OP_COUNT, make_world, variant, !never_fails<E>::value, false, VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim
