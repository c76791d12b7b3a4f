// World: several lists under a history of operations, an adversarial heap and failing element operations.
// Elements are identified by their address: a list never moves an element it keeps.
#include "seams.hpp"
#include <functional>
#include <algorithm>
#include <iterator>
#include <memory>
#include <nestl/list.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#define PUBLIC_NAME 0
#if VARIANT == 0
typedef Elem<E_THR> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 1
typedef Elem<E_THR> E; typedef nestl::default_operation_error Err; typedef SimAlloc<E> A;
#undef PUBLIC_NAME
#define PUBLIC_NAME 1
#elif VARIANT == 2
typedef Elem<E_THRMV> E; typedef SimError Err; typedef nestl::allocator<E> A;
#elif VARIANT == 3
typedef Elem<E_TWO> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 4
typedef Elem<E_TWOMV> E; typedef nestl::default_operation_error Err; typedef nestl::allocator<E> A;
#elif VARIANT == 5
typedef Elem<E_THRMVTHR> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 6
typedef Elem<E_PLAIN> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 7
typedef Elem<E_TWODEF> E; typedef SimError Err; typedef SimAlloc<E> A;
#elif VARIANT == 8
typedef Elem<E_TRIV> E; typedef SimError Err; typedef SimAlloc<E> A;
#endif

#if PUBLIC_NAME
typedef nestl::list<E, A> Lst;       // with exceptions the public list does not offer swap, copy_nothrow and == for two of its kind
#else
typedef nestl::impl::list<E, A> Lst;
#endif

enum { VALUES = 40, SLOTS = 3, CURSORS = 4 };
inline int val(int raw) { return 1 + pick(raw, VALUES); }

#define OPS(X) \
    X(push_back_copy, 5, P(STRONG)) X(push_back_move, 4, P(STRONG)) X(push_front_copy, 4, P(STRONG)) X(push_front_move, 3, P(STRONG)) X(push_own, 3, P(LIST) | P(STRONG)) \
    X(emplace_back, 3, P(STRONG)) X(emplace_front, 3, P(STRONG)) X(emplace, 4, P(STRONG)) \
    X(insert_copy, 6, P(STRONG)) X(insert_move, 4, P(STRONG)) X(insert_own, 3, P(LIST)) \
    X(insert_n, 3, P(BULK)) X(insert_n_own, 2, P(BULK)) X(insert_array, 3, P(BULK)) X(insert_stream, 3, P(BULK)) X(insert_other, 3, P(BULK)) \
    X(assign_n, 2, P(BULK)) X(assign_n_own, 2, P(BULK)) X(assign_default, 2, P(BULK) | P(CAUSE)) X(assign_array, 2, P(BULK)) X(assign_stream, 2, P(BULK)) X(assign_other, 2, P(BULK)) \
    X(copy, 3, P(BULK) | P(ALLOC)) X(copy_self, 1, P(BULK)) \
    X(erase, 5, P(NOFAIL)) X(erase_range, 3, P(NOFAIL)) X(pop_back, 3, P(NOFAIL)) X(pop_front, 3, P(NOFAIL)) X(clear, 1, P(NOFAIL)) \
    X(swap, 3, P(NOFAIL) | P(ALLOC)) X(swap_self, 1, P(NOFAIL)) X(move_assign, 3, P(NOFAIL) | P(ALLOC)) X(move_self, 1, P(NOFAIL)) X(move_construct, 2, P(NOFAIL) | P(ALLOC)) X(rebuild, 1, P(ALLOC)) \
    X(splice_all, 4, P(LIST) | P(NOFAIL)) X(splice_one, 5, P(LIST) | P(NOFAIL)) X(splice_range, 6, P(LIST) | P(NOFAIL)) \
    X(sort, 3, P(LIST) | P(NOFAIL)) X(sort_down, 2, P(LIST) | P(NOFAIL)) X(merge, 4, P(LIST) | P(NOFAIL)) X(merge_down, 2, P(LIST) | P(NOFAIL)) \
    X(compare, 2, P(LIST)) X(read, 1, P(LIST)) X(hold, 3, P(LIST)) X(fill, 1, P(LIST))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#define X(n, w, f) {"list." #n, w, f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

struct Item { const E* at; int v; };
inline bool operator==(const Item& a, const Item& b) { return a.at == b.at && a.v == b.v; }
typedef std::vector<Item> Items;
inline Ints values(const Items& m) { Ints r; for (size_t i = 0; i < m.size(); ++i) r.push_back(m[i].v); return r; }

struct Slot { Lst* l; Items m; int arena; };
typedef Lst::iterator It;
typedef Lst::const_iterator CIt;
struct Cursor { It it; const E* at; };

struct KeyUp { template <class T> bool operator()(const T& a, const T& b) const { return (a.value("compare") >> 3) < (b.value("compare") >> 3); } };
struct KeyDown { template <class T> bool operator()(const T& a, const T& b) const { return (b.value("compare") >> 3) < (a.value("compare") >> 3); } };
inline bool item_up(const Item& a, const Item& b) { return (a.v >> 3) < (b.v >> 3); }
inline bool item_down(const Item& a, const Item& b) { return (b.v >> 3) < (a.v >> 3); }

struct ListWorld : World {
    Slot s[SLOTS];
    std::vector<Cursor> held;

    static const u32 base = (1u << LIST) | (1u << LIFE) | (1u << MEM) | (1u << VALID) | (is_two<E>::value ? 1u << NEST : 0);
    static Lst* raw() { return static_cast<Lst*>(room(sizeof(Lst))); }

    Items content(Lst& l, u32 tags) {
        Items r;
        for (It i = l.begin(); i != l.end(); ++i) {
            Item x; x.at = &*i; x.v = i->get();
            r.push_back(x);
            if (r.size() > 5000) S.fatal(tags | P(LIST), "list iteration does not end");
        }
        return r;
    }

    enum Mode { ALL_OR_NOTHING, INSERTED, OLD_OR_PREFIX };

    static bool same(const Items& now, const Items& want) {
        if (now.size() != want.size()) return false;
        for (size_t i = 0; i < now.size(); ++i) if (now[i].v != want[i].v || (want[i].at && want[i].at != now[i].at)) return false;
        return true;
    }

    void settle(Slot& x, const char* op, bool ok, const Items& after, Mode mode, u32 tags, int pos = 0, int cnt = 0) {
        Items now = content(*x.l, tags);
        const Items& before = x.m;
        if (ok) {
            if (!same(now, after))
                S.fail(tags | P(LIST) | P(CAUSE), "%s succeeded: expected %s, got %s%s", op, show(values(after)).c_str(), show(values(now)).c_str(), values(now) == values(after) ? " (elements were moved)" : "");
        } else {
            bool good = false;
            switch (mode) {
                case ALL_OR_NOTHING: good = now == before; break;
                case INSERTED:
                    for (int k = 0; !good && k <= cnt; ++k) {
                        Items w(before.begin(), before.begin() + pos);
                        w.insert(w.end(), after.begin() + pos, after.begin() + pos + k);
                        w.insert(w.end(), before.begin() + pos, before.end());
                        good = same(now, w);
                    }
                    break;
                case OLD_OR_PREFIX: good = now == before || is_prefix(values(now), values(after)); break;
            }
            u32 t = P(VALID) | (mode == ALL_OR_NOTHING ? P(STRONG) : 0) | (tags & P(BULK));
            if (!good) S.fail(t, "%s failed: was %s, would be %s, is %s", op, show(values(before)).c_str(), show(values(after)).c_str(), show(values(now)).c_str());
        }
        x.m = now;
    }

    void shape(Slot& x, int pos) {
        size_t n = x.m.size();
        S.shape = u32((n > 7 ? 7 : n) * 8 + (pos < 0 ? 7 : pos == 0 ? 0 : size_t(pos) == n ? 1 : 2));
    }
    void nofail(const char* op) {
        if (S.alloc_requests || S.ctors) S.fail(P(NOFAIL), "%s cannot report errors, but asked for memory %ld times and constructed %ld elements", op, S.alloc_requests, S.ctors);
    }
    bool only_memory_failed() { if (S.allocs) return false; for (size_t i = 0; i < S.fired.size(); ++i) if (S.fired[i].kind != F_ALLOC) return false; return true; }

    // an iterator to position k: a held cursor when there is one, else counted from either end
    It at(Slot& x, int k, int how) {
        if (k < int(x.m.size()) && how % 3 == 0)
            for (size_t i = 0; i < held.size(); ++i) if (held[i].at == x.m[size_t(k)].at) return held[i].it;
        It it;
        if (how % 3 == 1) { it = x.l->end(); for (int i = int(x.m.size()); i > k; --i) --it; }
        else { it = x.l->begin(); for (int i = 0; i < k; ++i) ++it; }
        return it;
    }
    static Item fresh(int v) { Item i; i.at = 0; i.v = v; return i; }

    void start() override {
        for (int i = 0; i < SLOTS; ++i) {
            s[i].arena = make_alloc<A>::arenas > 1 ? (i == 2 ? 2 : 1) : 0;
            s[i].l = new (raw()) Lst(make_alloc<A>::of(s[i].arena));
        }
    }

    void step(const Step& st) override {
        Slot& x = s[pick(st.a, SLOTS)];
        Slot& y = s[pick(st.a / SLOTS, SLOTS)];
        Lst& l = *x.l;
        const int n = int(x.m.size());
        const int pos = (st.c & 3) == 0 ? n : (st.c & 3) == 1 ? 0 : pick(st.c >> 2, n + 1);
        const int own = n ? pick(st.d, n) : -1;
        const int k = val(st.b);
        const char* name = op_table[st.op].name;
        switch (st.op) {
        case OP_push_back_copy: case OP_push_back_move: case OP_push_front_copy: case OP_push_front_move: case OP_emplace_back: case OP_emplace_front:
        case OP_emplace: case OP_insert_copy: case OP_insert_move: case OP_insert_own: case OP_push_own: {
            if ((st.op == OP_insert_own || st.op == OP_push_own) && !n) return;
            int w = st.op == OP_insert_own || st.op == OP_push_own ? x.m[size_t(own)].v : k;
            bool back = st.op == OP_push_back_copy || st.op == OP_push_back_move || st.op == OP_emplace_back || (st.op == OP_push_own && (st.b & 1));
            bool front = st.op == OP_push_front_copy || st.op == OP_push_front_move || st.op == OP_emplace_front || (st.op == OP_push_own && !(st.b & 1));
            int p = back ? n : front ? 0 : pos;
            CIt where = at(x, p, st.c >> 5);
            const E* mine = n ? &*at(x, own, 2) : 0;
            Arg<E> a(w);
            Items after = x.m; after.insert(after.begin() + p, fresh(w));
            It it;
            bool have = false;
            Err err;
            S.begin(name, base | P(STRONG)); S.op_arena = x.arena; shape(x, p);
            switch (st.op) {
                case OP_push_back_copy: l.push_back_nothrow(err, const_cast<const E&>(a.e)); break;
                case OP_push_back_move: l.push_back_nothrow(err, std::move(a.e)); break;
                case OP_push_front_copy: l.push_front_nothrow(err, const_cast<const E&>(a.e)); break;
                case OP_push_front_move: l.push_front_nothrow(err, std::move(a.e)); break;
                case OP_emplace_back: { int q = w; l.emplace_back_nothrow(err, q); break; }
                case OP_emplace_front: { int q = w; l.emplace_front_nothrow(err, q); break; }
                case OP_emplace: { int q = w; it = l.emplace_nothrow(err, where, q); have = true; break; }
                case OP_insert_copy: it = l.insert_nothrow(err, where, const_cast<const E&>(a.e)); have = true; break;
                case OP_insert_move: it = l.insert_nothrow(err, where, std::move(a.e)); have = true; break;
                case OP_insert_own: it = l.insert_nothrow(err, where, *mine); have = true; break;
                case OP_push_own: if (back) l.push_back_nothrow(err, *mine); else l.push_front_nothrow(err, *mine); break;
            }
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, after, ALL_OR_NOTHING, P(STRONG));
            if (ok && have && S.failures.empty() && &*it != x.m[size_t(p)].at) S.fail(P(LIST) | P(POS), "%s returned an iterator that is not at the new element", name);
            if (ok && (st.op == OP_push_back_move || st.op == OP_push_front_move || st.op == OP_insert_move) && is_taken<E>::value && a.e.get() != V_MOVED) S.fail(P(LIST), "%s duplicated an element that was offered to be moved", name);
            if ((!ok && only_memory_failed()) || st.op == OP_push_back_copy || st.op == OP_push_front_copy || st.op == OP_insert_copy)
                if (a.e.get() != w) S.fail(P(STRONG), "%s: the offered value was consumed by a failed insertion", name);
            break;
        }
        case OP_insert_n: case OP_insert_n_own: {
            if (st.op == OP_insert_n_own && !n) return;
            int w = st.op == OP_insert_n_own ? x.m[size_t(own)].v : k;
            int cnt = pick(st.b >> 6, 6);
            CIt where = at(x, pos, st.c >> 5);
            const E* mine = n ? &*at(x, own, 2) : 0;
            Arg<E> a(w);
            Items after = x.m; after.insert(after.begin() + pos, size_t(cnt), fresh(w));
            Err err;
            S.begin(name, base | P(BULK)); S.op_arena = x.arena; shape(x, pos);
            l.insert_nothrow(err, where, size_t(cnt), st.op == OP_insert_n ? const_cast<const E&>(a.e) : *mine);
            S.end();
            settle(x, name, judge(err, name), after, INSERTED, P(BULK), pos, cnt);
            break;
        }
        case OP_insert_array: case OP_insert_stream: case OP_insert_other:
            if (st.op == OP_insert_other && &x == &y) return;
            bulk(st, name, x, y, pos, true);
            break;
        case OP_assign_array: case OP_assign_stream: case OP_assign_other:
            if (st.op == OP_assign_other && &x == &y) return;
            bulk(st, name, x, y, 0, false);
            break;
        case OP_assign_n: case OP_assign_n_own: {
            if (st.op == OP_assign_n_own && !n) return;
            int w = st.op == OP_assign_n_own ? x.m[size_t(own)].v : k;
            int cnt = pick(st.b >> 6, 7);
            const E* mine = n ? &*at(x, own, 2) : 0;
            Arg<E> a(w);
            Items after(size_t(cnt), fresh(w));
            Err err;
            S.begin(name, base | P(BULK)); S.op_arena = x.arena; shape(x, -1);
            l.assign_nothrow(err, size_t(cnt), st.op == OP_assign_n ? const_cast<const E&>(a.e) : *mine);
            S.end();
            settle(x, name, judge(err, name), after, OLD_OR_PREFIX, P(BULK));
            break;
        }
        case OP_assign_default: {
            int cnt = pick(st.b >> 6, 6);
            Items after(size_t(cnt), fresh(V_DEFAULT));
            Err err;
            S.begin(name, base | P(BULK)); S.op_arena = x.arena; shape(x, -1);
            l.assign_nothrow(err, size_t(cnt));
            S.end();
            settle(x, name, judge(err, name), after, OLD_OR_PREFIX, P(BULK));
            break;
        }
        case OP_copy: case OP_copy_self: {
#if !(PUBLIC_NAME && SIM_EXC)
            Slot& src = st.op == OP_copy ? y : x;
            if (st.op == OP_copy && &x == &y) return;
            Items after; Ints vs = values(src.m);
            for (size_t i = 0; i < vs.size(); ++i) after.push_back(fresh(vs[i]));
            Err err;
            S.begin(name, base | P(BULK) | P(ALLOC)); S.op_arena = x.arena; shape(x, -1);
            l.copy_nothrow(err, *src.l);
            S.end();
            settle(x, name, judge(err, name), after, OLD_OR_PREFIX, P(BULK));
#endif
            break;
        }
        case OP_erase: {
            if (!n) return;
            CIt where = at(x, own, st.c);
            Items after = x.m; after.erase(after.begin() + own);
            S.begin(name, base | P(NOFAIL)); shape(x, own);
            It it = l.erase(where);
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            expect_at(l, x, it, own, name);
            break;
        }
        case OP_erase_range: {
            int from = pick(st.c, n + 1), to = from + pick(st.d, n - from + 1);
            CIt f = at(x, from, st.b), t = at(x, to, st.b >> 3);
            Items after = x.m; after.erase(after.begin() + from, after.begin() + to);
            S.begin(name, base | P(NOFAIL)); shape(x, from);
            It it = l.erase(f, t);
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            expect_at(l, x, it, from, name);
            break;
        }
        case OP_pop_back: case OP_pop_front: {
            if (!n) return;
            Items after = x.m; after.erase(st.op == OP_pop_back ? after.end() - 1 : after.begin());
            S.begin(name, base | P(NOFAIL)); shape(x, -1);
            if (st.op == OP_pop_back) l.pop_back(); else l.pop_front();
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_clear: {
            S.begin(name, base | P(NOFAIL)); shape(x, -1);
            l.clear();
            S.end();
            nofail(name);
            settle(x, name, true, Items(), ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_swap: case OP_swap_self: {
#if !(PUBLIC_NAME && SIM_EXC)
            Slot& o = st.op == OP_swap ? y : x;
            S.begin(name, base | P(NOFAIL) | P(ALLOC)); shape(x, -1);
            l.swap(*o.l);
            S.end();
            nofail(name);
            if (&o != &x) { x.m.swap(o.m); std::swap(x.arena, o.arena); }
            settle(x, name, true, Items(x.m), ALL_OR_NOTHING, P(NOFAIL));
            settle(o, name, true, Items(o.m), ALL_OR_NOTHING, P(NOFAIL));
#endif
            break;
        }
        case OP_move_assign: {
            if (&x == &y) return;
            S.begin(name, base | P(NOFAIL) | P(ALLOC)); shape(x, -1);
            l = std::move(*y.l);
            S.end();
            nofail(name);
            settle(x, name, true, Items(y.m), ALL_OR_NOTHING, P(NOFAIL));
            settle(y, name, true, Items(), ALL_OR_NOTHING, P(NOFAIL));
            x.arena = y.arena;
            break;
        }
        case OP_move_self: {
            Lst& alias = l;
            S.begin(name, base | P(NOFAIL)); shape(x, -1);
            l = std::move(alias);
            S.end();
            nofail(name);
            Items now = content(l, base);
            if (!now.empty() && !(now == x.m)) S.fail(P(LIST) | P(NOFAIL), "self move left %s", show(values(now)).c_str());
            x.m = now;
            break;
        }
        case OP_move_construct: {
            Lst* fresh_l = raw();
            S.begin(name, base | P(NOFAIL) | P(ALLOC)); shape(x, -1);
            new (fresh_l) Lst(std::move(l));
            S.end();
            nofail(name);
            Items was = x.m;
            settle(x, name, true, Items(), ALL_OR_NOTHING, P(NOFAIL));
            Lst* old = x.l;
            x.l = fresh_l; x.m = was;
            settle(x, name, true, was, ALL_OR_NOTHING, P(NOFAIL));
            if (st.b & 1) {
                Arg<E> a(k);
                Slot t; t.l = old; t.arena = x.arena;
                Err err;
                S.begin("list.push_after_move", base); S.op_arena = arena_of(old->get_allocator());
                old->push_back_nothrow(err, const_cast<const E&>(a.e));
                S.end();
                settle(t, "list.push_after_move", judge(err, "list.push_after_move"), Items(1, fresh(k)), ALL_OR_NOTHING, P(STRONG));
            }
            S.begin("list.destroy", base | P(NOFAIL));
            old->~Lst();
            S.end();
            nofail("list.destroy");
            free(old);
            break;
        }
        case OP_rebuild: {
            S.begin("list.destroy", base | P(NOFAIL));
            l.~Lst();
            S.end();
            nofail("list.destroy");
            x.m.clear();
            x.arena = make_alloc<A>::arenas > 1 ? 1 + pick(st.b, 2) : 0;
            A alloc = make_alloc<A>::of(x.arena);
            S.begin(name, base | P(NOFAIL) | P(ALLOC));
            new (x.l) Lst(alloc);
            S.end();
            nofail(name);
            break;
        }
        case OP_splice_all: {
            if (&x == &y || x.arena != y.arena) return;
            CIt where = at(x, pos, st.c >> 5);
            Items after = x.m; after.insert(after.begin() + pos, y.m.begin(), y.m.end());
            S.begin(name, base | P(NOFAIL)); shape(x, pos);
            if (st.b & 1) l.splice(where, *y.l); else l.splice(where, std::move(*y.l));
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            settle(y, name, true, Items(), ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_splice_one: {
            if (x.arena != y.arena || y.m.empty()) return;
            int from = pick(st.d, int(y.m.size()));
            CIt where = at(x, pos, st.c >> 5), it = at(y, from, st.b >> 1);
            Item e = y.m[size_t(from)];
            Items ax = x.m, ay = y.m;
            if (&x == &y) {
                int p = pos;
                if (p != from && p != from + 1) { ax.erase(ax.begin() + from); if (p > from) --p; ax.insert(ax.begin() + p, e); }
                ay = ax;
            } else { ay.erase(ay.begin() + from); ax.insert(ax.begin() + pos, e); }
            S.begin(name, base | P(NOFAIL)); shape(x, pos);
            if (st.b & 1) l.splice(where, *y.l, it); else l.splice(where, std::move(*y.l), it);
            S.end();
            nofail(name);
            settle(x, name, true, ax, ALL_OR_NOTHING, P(NOFAIL));
            settle(y, name, true, ay, ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_splice_range: {
            if (x.arena != y.arena) return;
            int m = int(y.m.size());
            int from = pick(st.d, m + 1), to = from + pick(st.d / 64, m - from + 1);
            int p = pos;
            if (&x == &y && p >= from && p < to) p = (st.b & 2) ? from : to;      // the position must not lie inside of the range
            if (&x == &y && p == from && to > from) p = to;
            CIt where = at(x, p, st.c >> 5), f = at(y, from, st.b >> 2), t = at(y, to, st.b >> 4);
            Items part(y.m.begin() + from, y.m.begin() + to);
            Items ax = x.m, ay = y.m;
            if (&x == &y) {
                ax.erase(ax.begin() + from, ax.begin() + to);
                int q = p >= to ? p - (to - from) : p;
                ax.insert(ax.begin() + q, part.begin(), part.end());
                ay = ax;
            } else {
                ay.erase(ay.begin() + from, ay.begin() + to);
                ax.insert(ax.begin() + p, part.begin(), part.end());
            }
            S.begin(name, base | P(NOFAIL)); shape(x, p);
            if (st.b & 1) l.splice(where, *y.l, f, t); else l.splice(where, std::move(*y.l), f, t);
            S.end();
            nofail(name);
            settle(x, name, true, ax, ALL_OR_NOTHING, P(NOFAIL));
            settle(y, name, true, ay, ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_sort: do_sort(x, false, st.b & 1); break;
        case OP_sort_down: do_sort(x, true, false); break;
        case OP_merge: case OP_merge_down: {
            if (&x == &y || x.arena != y.arena) return;
            bool down = st.op == OP_merge_down;
            do_sort(x, down, st.b & 1);
            do_sort(y, down, st.b & 1);
            if (!S.failures.empty()) return;
            Items after;
            after.resize(x.m.size() + y.m.size());
            std::merge(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), after.begin(), down ? item_down : item_up);
            S.begin(name, base | P(NOFAIL)); shape(x, -1);
            if (down) { if (st.b & 2) l.merge(*y.l, KeyDown()); else l.merge(std::move(*y.l), KeyDown()); }
            else if (st.b & 4) { if (st.b & 2) l.merge(*y.l, KeyUp()); else l.merge(std::move(*y.l), KeyUp()); }
            else { if (st.b & 2) l.merge(*y.l); else l.merge(std::move(*y.l)); }
            S.end();
            nofail(name);
            settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
            settle(y, name, true, Items(), ALL_OR_NOTHING, P(NOFAIL));
            break;
        }
        case OP_compare: {
#if !(PUBLIC_NAME && SIM_EXC)
            S.begin(name, base); shape(x, &x == &y);
            bool eq = const_cast<const Lst&>(l) == const_cast<const Lst&>(*y.l);
            S.end();
            nofail(name);
            if (eq != (values(x.m) == values(y.m))) S.fail(P(LIST), "comparison of %s and %s gave %d", show(values(x.m)).c_str(), show(values(y.m)).c_str(), int(eq));
#endif
            break;
        }
        case OP_read: {
            const Lst& c = l;
            Addresses every; for (int q = 0; q < n; ++q) every.push_back(x.m[size_t(q)].at);
            S.begin(name, base); shape(x, -1);
            bool good = c.size() == x.m.size() && c.empty() == x.m.empty() && c.max_size() >= c.size();
            if (good && n) good = c.front().get() == x.m[0].v && c.back().get() == x.m[size_t(n) - 1].v && &l.front() == x.m[0].at && &c.front() == x.m[0].at && &c.back() == x.m[size_t(n) - 1].at && &l.back() == x.m[size_t(n) - 1].at;
            int i = n;
            for (Lst::reverse_iterator r = l.rbegin(); good && r != l.rend(); ++r) good = i > 0 && &*r == x.m[size_t(--i)].at;
            good = good && i == 0;
            i = n;
            for (Lst::const_reverse_iterator r = c.crbegin(); good && r != c.crend(); ++r) good = i > 0 && &*r == x.m[size_t(--i)].at;
            good = good && i == 0;
            i = n;
            for (Lst::const_reverse_iterator r = c.rbegin(); good && r != c.rend(); ++r) good = i > 0 && &*r == x.m[size_t(--i)].at;
            good = good && i == 0;
            for (CIt r = c.cbegin(); good && r != c.cend(); r++) good = i < n && &*r == x.m[size_t(i++)].at;
            good = good && i == n;
            i = 0;
            for (CIt r = c.begin(); good && r != c.end(); ++r) good = i < n && r.operator->() == x.m[size_t(i++)].at;
            good = good && i == n;
            good = good && walk(l, every);
            S.end();
            nofail(name);
            if (!good) S.fail(P(LIST), "observers disagree with the content %s", show(values(x.m)).c_str());
            break;
        }
        case OP_hold: {
            if (!n) return;
            Cursor c; c.it = at(x, own, 2); c.at = x.m[size_t(own)].at;
            if (held.size() >= CURSORS) held.erase(held.begin());
            held.push_back(c);
            break;
        }
        case OP_fill: { // many elements at once, so that sort and merge have something to do
            Rng r(u64(st.b));
            const bool many = st.d % 37 == 0;   // now and then enough for sort to need its ninth and tenth bin
            const size_t most = many ? 1100 : 150;
            int cnt = many ? 250 + pick(st.c, 850) : 1 + pick(st.c, 70);
            if (many) S.probe("list of hundreds of elements");
            S.plan.clear();
            for (int i = 0; i < cnt && x.m.size() < most && S.failures.empty(); ++i) {
                int w = val(r.below(1 << 20));
                Arg<E> a(w);
                Err err;
                S.begin(name, base | P(STRONG)); S.op_arena = x.arena; shape(x, -1);
                l.push_back_nothrow(err, const_cast<const E&>(a.e));
                S.end();
                const bool ok = judge(err, name);
                if (many && ok && i % 64 != 63) { It at = l.end(); --at; Item it; it.at = &*at; it.v = w; x.m.push_back(it); continue; } // the whole list is looked at now and then
                Items after = x.m; after.push_back(fresh(w));
                settle(x, name, ok, after, ALL_OR_NOTHING, P(STRONG));
            }
            break;
        }
        }
        fidelity(x); fidelity(y);
    }

    void expect_at(Lst& l, Slot& x, It it, int k, const char* name) {
        if (!S.failures.empty()) return;
        bool end = k >= int(x.m.size());
        if (end ? it != l.end() : (it == l.end() || &*it != x.m[size_t(k)].at)) S.fail(P(LIST) | P(POS), "%s returned an iterator that is not behind the erased elements", name);
    }

    void do_sort(Slot& x, bool down, bool plain) {
        const char* name = down ? "list.sort_down" : "list.sort";
        Items after = x.m;
        std::stable_sort(after.begin(), after.end(), down ? item_down : item_up);
        S.begin(name, base | P(NOFAIL)); shape(x, -1);
        if (down) x.l->sort(KeyDown()); else if (plain) x.l->sort(); else x.l->sort(KeyUp());
        S.end();
        nofail(name);
        settle(x, name, true, after, ALL_OR_NOTHING, P(NOFAIL));
    }

    void fidelity(Slot& x) {
        if (!S.failures.empty()) return;
        if (arena_of(x.l->get_allocator()) != x.arena) S.fail(P(ALLOC), "list reports allocator %d, it was given %d", arena_of(x.l->get_allocator()), x.arena);
    }

    struct Go {
        Lst& c; Err& err; bool insert; CIt pos;
        template <class F> void operator()(F f, F t) { if (insert) c.insert_nothrow(err, pos, f, t); else c.assign_nothrow(err, f, t); }
    };
    void bulk(const Step& st, const char* name, Slot& x, Slot& y, int pos, bool insert) {
        Lst& l = *x.l;
        int cnt = pick(st.b, 7);
        bool other = st.op == OP_insert_other || st.op == OP_assign_other;
        bool stream = st.op == OP_insert_stream || st.op == OP_assign_stream;
        Ints vals;
        E* arr = 0;
        int from = 0;
        CIt yf, yt;
        if (other) {
            from = pick(st.d, int(y.m.size()) + 1);
            cnt = pick(st.b, int(y.m.size()) - from + 1);
            for (int i = 0; i < cnt; ++i) vals.push_back(y.m[size_t(from + i)].v);
            yf = at(y, from, st.b); yt = at(y, from + cnt, st.b);
        } else {
            for (int i = 0; i < cnt; ++i) vals.push_back(val(st.d + i * (1 + st.b % 7)));
            arr = static_cast<E*>(room(sizeof(E) * size_t(cnt + 1)));
            for (int i = 0; i < cnt; ++i) new (static_cast<void*>(arr + i)) Arg<E>(vals[size_t(i)]);
        }
        // the array is read through pointers, other iterators, backwards, moved from, or its values come as shorts
        const int kind = other || stream ? int(RANGE_CONST) : pick(st.a / 16, RANGE_KINDS);
        const std::vector<short> shorts(vals.begin(), vals.end());
        const Ints source(vals);
        if (kind == RANGE_REVERSE) std::reverse(vals.begin(), vals.end());
        CIt where = insert ? CIt(at(x, pos, st.c >> 5)) : CIt(x.l->end());
        Items add;
        for (int i = 0; i < cnt; ++i) add.push_back(fresh(vals[size_t(i)]));
        Items after = insert ? x.m : Items();
        after.insert(after.begin() + pos, add.begin(), add.end());
        std::vector<const E*> items;
        for (int i = 0; i < cnt && arr; ++i) items.push_back(arr + i);
        items.push_back(0);
        Stream<E> src(&items[0], size_t(cnt));
        {
            Err err;
            S.begin(name, base | P(BULK)); S.op_arena = x.arena; shape(x, insert ? pos : -1);
            if (stream) {
                if (insert) l.insert_nothrow(err, where, StreamIt<E>(&src), StreamIt<E>());
                else l.assign_nothrow(err, StreamIt<E>(&src), StreamIt<E>());
            } else if (other) {
                if (insert) l.insert_nothrow(err, where, yf, yt);
                else l.assign_nothrow(err, yf, yt);
            } else {
                Go go = {l, err, insert, where};
                go_range(kind, arr, shorts, go);
            }
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, after, insert ? INSERTED : OLD_OR_PREFIX, P(BULK), pos, cnt);
            if (ok && stream && src.pos != src.n) S.fail(P(BULK), "%s consumed %zu of %zu elements of the stream", name, src.pos, src.n);
            for (int i = 0; arr && i < cnt; ++i) if (kind != RANGE_MOVE && arr[i].get() != source[size_t(i)]) S.fail(P(BULK), "%s changed its source", name);
        }
        if (arr) { for (int i = 0; i < cnt; ++i) arr[i].~E(); free(arr); }
    }

    void check() override {
        size_t total = 0;
        u32 t = P(LIST) | (S.faults_in_run ? P(VALID) : 0);
        for (int i = 0; i < SLOTS; ++i) {
            Items now = content(*s[i].l, t);
            if (!(now == s[i].m)) S.fail(t, "list %d changed by an operation on another one: expected %s, got %s", i, show(values(s[i].m)).c_str(), show(values(now)).c_str());
            size_t k = now.size();
            It b = s[i].l->end();
            while (b != s[i].l->begin() && k > 0) { --b; --k; if (&*b != now[k].at) { S.fail(t, "list %d: backward iteration disagrees with forward iteration", i); break; } }
            if (S.failures.empty() && (k != 0 || b != s[i].l->begin())) S.fail(t, "list %d: backward iteration disagrees with forward iteration", i);
            total += now.size();
            S.mix(now.size());
            for (size_t j = 0; j < now.size(); ++j) S.mix(u64(now[j].v));
        }
        if (followed<E>::value && S.elems.size() != total) S.fail(P(LIFE) | (S.faults_in_run ? P(VALID) : 0), "%zu elements are alive, the lists hold %zu", S.elems.size(), total);
        if (!S.failures.empty()) return;
        // iterators to elements that still exist stay valid
        for (size_t i = 0; i < held.size();) {
            bool exists = false;
            for (int j = 0; j < SLOTS; ++j) for (size_t q = 0; q < s[j].m.size(); ++q) exists = exists || s[j].m[q].at == held[i].at;
            if (!exists) { held.erase(held.begin() + long(i)); continue; }
            if (&*held[i].it != held[i].at) S.fail(t, "an iterator held across operations lost its element");
            ++i;
        }
    }

    void recover() override {
        for (int i = 0; i < SLOTS && S.failures.empty(); ++i) {
            Slot& x = s[i];
            for (int k = 0; k < 3 && S.failures.empty(); ++k) {
                Arg<E> a(9 + k);
                int p = k == 0 ? 0 : k == 1 ? int(x.m.size()) : int(x.m.size()) / 2;
                CIt where = at(x, p, 2);
                Items after = x.m; after.insert(after.begin() + p, fresh(9 + k));
                Err err;
                S.begin("list.recover", base); S.op_arena = x.arena;
                x.l->insert_nothrow(err, where, const_cast<const E&>(a.e));
                S.end();
                bool ok = judge(err, "list.recover");
                if (!ok) S.fail(P(VALID), "list does not work after the faults ended");
                settle(x, "list.recover", ok, after, ALL_OR_NOTHING, P(VALID));
            }
            if (!S.failures.empty()) return;
            Items after(x.m.begin() + 1, x.m.end());
            S.begin("list.recover_erase", base);
            x.l->erase(x.l->cbegin());
            S.end();
            settle(x, "list.recover_erase", true, after, ALL_OR_NOTHING, P(VALID));
            if (S.failures.empty()) do_sort(x, false, true);
        }
    }

    void finish() override {
        for (int i = 0; i < SLOTS; ++i) {
            S.begin("list.destroy", base | P(NOFAIL));
            s[i].l->~Lst();
            S.end();
            nofail("list.destroy");
            free(s[i].l);
        }
    }
};

static World* make_world() { return new ListWorld; }
static const char* variant() {
    static char b[128];
    snprintf(b, sizeof b, "%d/%s/%s/%s/%s", VARIANT, E::name(), name_of((Err*)0), name_of((A*)0), PUBLIC_NAME ? "public" : "impl");
    return b;
}
const WorldDef the_world = {"list", op_table, OP_COUNT, make_world, variant, !never_fails<E>::value, false, VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim
