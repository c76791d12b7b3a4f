// World: containers of tens of thousands of elements. Sizes beyond every 16 bit counter, chains long enough to exhaust
// the stack of anything that recurses along them, and faults that strike after thousands of successes.
#include "seams.hpp"
#include <algorithm>
#include <nestl/algorithm.hpp>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/vector.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
typedef SimError Err; template <class T> struct Al { typedef SimAlloc<T> t; };
#elif VARIANT == 1
typedef nestl::default_operation_error Err; template <class T> struct Al { typedef nestl::allocator<T> t; };
#elif VARIANT == 2 || VARIANT == 3
typedef SimError Err; template <class T> struct Al { typedef SimAlloc<T> t; };
#endif

#if VARIANT == 2
// the other worlds follow every life; of this many elements only the number of those alive is known
struct Elm {
    static thread_local long live;
    int v;
    bool alive;
    static int from(const Elm& o) { o.check(); u32 id = S.copy_point(o.v); return may_throw(o.v, id); }
    Elm() : v(0), alive(true) { ++live; }
    Elm(int x) : v(x), alive(true) { ++live; }
    Elm(const Elm& o) : v(from(o)), alive(true) { ++live; ++S.ctors; }
    Elm& operator=(const Elm& o) { o.check(); check(); may_throw(0, S.point(F_ASSIGN)); v = o.v; return *this; }
    ~Elm() { check(); alive = false; v = -77777; --live; }
    void check() const { if (!alive || v < -1) S.fail(P(LIFE) | S.scope, "element used or destroyed that is not alive"); }
    operator int() const { check(); return v; }
};
thread_local long Elm::live;
#else
typedef int Elm;
#endif

enum { VALUES = 100, MANY = 140000, WORK = 12 };
static thread_local u64 compared; // sorting and searching of this many elements must not be quadratic
struct KeyUp { bool operator()(int a, int b) const { ++compared; return (a >> 3) < (b >> 3); } };
struct KeyDown { bool operator()(int a, int b) const { ++compared; return (b >> 3) < (a >> 3); } };

typedef nestl::impl::vector<Elm, Al<Elm>::t> Vec;
typedef nestl::impl::list<Elm, Al<Elm>::t> List;
typedef nestl::impl::set<Elm, KeyUp, Al<Elm>::t> Set;

#define OPS(X) \
    X(vec_push, 4, P(VEC) | P(CAP)) X(vec_assign_n, 2, P(VEC) | P(BULK)) X(vec_resize, 2, P(VEC)) X(vec_insert, 4, P(VEC) | P(BULK)) X(vec_copy, 2, P(BULK)) X(vec_clear, 1, P(NOFAIL)) \
    X(list_assign, 4, P(LIST) | P(BULK)) X(list_push, 3, P(LIST)) X(list_assign_n, 2, P(LIST)) X(list_sort, 3, P(LIST) | P(NOFAIL)) X(list_merge, 3, P(LIST) | P(NOFAIL)) X(list_splice, 3, P(LIST) | P(NOFAIL)) X(list_copy, 2, P(BULK)) \
    X(list_erase, 2, P(LIST) | P(NOFAIL)) X(list_clear, 1, P(NOFAIL)) X(list_move, 1, P(NOFAIL)) \
    X(set_insert, 5, P(SET)) X(set_copy, 2, P(SET) | P(BULK)) X(set_erase, 3, P(SET) | P(NOFAIL)) X(set_find, 2, P(SET)) X(set_clear, 1, P(NOFAIL)) X(set_move, 1, P(NOFAIL))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#define X(n, w, f) {"bulk." #n, w, f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

template <class C> struct Slot { C* c; Ints m; };

struct BulkWorld : World {
    Slot<Vec> v[2];
    Slot<List> l[2];
    Slot<Set> t[2];
    int looked; // when the containers were last compared: the steps between have done nothing
    int work; // operations on many elements this run may still do

    static const u32 base = (1u << MEM) | (1u << VALID) | (1u << LIFE);
    static u32 own(Vec*) { return P(VEC); }
    static u32 own(List*) { return P(LIST); }
    static u32 own(Set*) { return P(SET); }

    // ---- numbers
    static size_t many(int a) { return pick(a, 4) ? size_t(65400 + pick(a / 4, 1000)) : size_t(30000 + pick(a / 4, MANY - 30000)); }
    static int value(int seed, size_t i) { u64 z = (u64(u32(seed)) << 32 | i) * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; return int(z >> 40 & 0xfffff); }
    static Ints values(int seed, size_t n, bool narrow) { Ints r(n); for (size_t i = 0; i < n; ++i) r[i] = narrow ? value(seed, i) % 800 : value(seed, i); return r; }

    typedef std::vector<Elm> Offer;
    static Offer offer(const Ints& m) { return Offer(m.begin(), m.end()); }

    template <class C> Ints content(C& c) {
        Ints r;
        for (typename C::const_iterator i = c.cbegin(); i != c.cend(); ++i) { r.push_back(*i); if (r.size() > 4 * MANY) S.fatal(base | own(&c), "iteration does not end"); }
        if (c.size() != r.size() || c.empty() != r.empty()) S.fail(base | own(&c), "container claims %zu elements, iteration finds %zu", size_t(c.size()), r.size());
        return r;
    }
    template <class C> bool backwards(C& c, const Ints& m) {
        size_t k = m.size();
        typename C::const_iterator i = c.cend();
        while (k > 0) if (*--i != m[--k]) return false;
        return i == c.cbegin();
    }
    enum How { SAME, PREFIX, SUBSEQUENCE };
    // after an operation: the new content, or after a failure the old one or a part of the new one
    template <class C> void settle(Slot<C>& x, const char* op, bool ok, const Ints& after, How partial, u32 tags) {
        Ints now = content(*x.c);
        bool good = ok ? now == after : now == x.m || (partial == PREFIX && is_prefix(now, after)) || (partial == SUBSEQUENCE && is_subsequence(now, after));
        if (!good) S.fail(tags | own(x.c) | (ok ? P(CAUSE) : P(VALID)), "%s %s: was %s, would be %s, is %s", op, ok ? "succeeded" : "failed", show(x.m).c_str(), show(after).c_str(), show(now).c_str());
        else if (!backwards(*x.c, now)) S.fail(tags | own(x.c), "%s: content reads differently backwards", op);
        x.m.swap(now);
    }
    static u64 lg(size_t n) { u64 r = 0; while (n >> r) ++r; return r; }
    static void few(const char* op, u64 most, u32 tags) { if (compared > most) S.fail(tags, "%s: %llu comparisons, at most %llu are needed", op, (unsigned long long)compared, (unsigned long long)most); }
    void nofail(const char* op) { if (S.alloc_requests || S.ctors) S.fail(P(NOFAIL), "%s cannot report errors, but asked for memory or copied elements", op); }

    template <class C> void make(Slot<C>& x, int arena) { x.c = new (room(sizeof(C))) C(make_alloc<typename C::allocator_type>::of(arena)); }
    void start() override {
#if VARIANT == 2
        Elm::live = 0;
#endif
        work = WORK; looked = -1; for (int i = 0; i < 2; ++i) { make(v[i], 1); make(l[i], 1); make(t[i], 1); } }

    // a fault after few successes would never see a large container
    void spread(const Step& st, size_t n) { for (size_t i = 0; i < S.plan.size(); ++i) S.plan[i].n = int(size_t(S.plan[i].n) * (1 + size_t(u32(st.d)) % (n / 6 + 1))); }

    bool set_insert(Slot<Set>& x, const char* name, const Ints& vals) {
        // the model: sorted by key, the first of equal keys wins; a failure leaves what was inserted before it
        Ints after(x.m);
        std::vector<char> seen(1 << 18, 0);
        for (size_t i = 0; i < after.size(); ++i) seen[size_t(after[i] >> 3)] = 1;
        Ints fresh;
        const Offer offered = offer(vals);
        bool ok = true;
        fresh.reserve(vals.size());
        compared = 0;
        S.begin(name, base | P(SET));
        for (size_t i = 0; i < vals.size() && ok && S.failures.empty(); ++i) {
            Err err;
            std::pair<Set::iterator, bool> r = x.c->insert_nothrow(err, const_cast<const Elm&>(offered[i]));
            if (err) { ok = false; S.end(); judge(err, name); break; }
            const bool isnew = !seen[size_t(vals[i] >> 3)];
            if (r.second != isnew || r.first == x.c->end() || (*r.first >> 3) != (vals[i] >> 3)) { S.fail(P(SET), "%s: wrong answer for %d", name, vals[i]); break; }
            if (isnew) { seen[size_t(vals[i] >> 3)] = 1; fresh.push_back(vals[i]); }
        }
        if (ok) S.end();
        few(name, vals.size() * 6 * (lg(x.m.size() + vals.size()) + 4), P(SET));
        std::sort(fresh.begin(), fresh.end(), KeyUp());
        Ints merged;
        std::merge(after.begin(), after.end(), fresh.begin(), fresh.end(), std::back_inserter(merged), KeyUp());
        if (S.failures.empty()) settle(x, name, true, merged, SAME, P(SET));
        return ok;
    }

    void step(const Step& st) override {
        if (work <= 0 || (st.sweep && !S.plan.empty() && S.plan[0].n > 3)) return;
        --work;
        const int i = pick(st.a, 2);
        Slot<Vec>& x = v[i]; Slot<Vec>& y = v[1 - i];
        Slot<List>& p = l[i]; Slot<List>& q = l[1 - i];
        Slot<Set>& r = t[i]; Slot<Set>& w = t[1 - i];
        const char* name = op_table[st.op].name;
        const size_t n = many(st.b);
        Err err;
        S.shape = u32(n > 65535) * 2 + u32(i);
        switch (st.op) {
        case OP_vec_push: {
            Ints vals = values(st.c, x.m.size() + n > 3 * MANY ? 0 : n, false), after(x.m);
            const Offer offered = offer(vals);
            S.begin(name, base | P(VEC));
            for (size_t k = 0; k < vals.size() && !err; ++k) { x.c->push_back_nothrow(err, const_cast<const Elm&>(offered[k])); if (!err) { Harness h; after.push_back(vals[k]); } }
            S.end();
            judge(err, name);
            settle(x, name, true, after, SAME, P(STRONG));
            if (S.alloc_requests > long(4 * (lg(x.m.size()) + 4))) S.fail(P(CAP), "%zu appends asked for memory %ld times", vals.size(), long(S.alloc_requests));
            break;
        }
        case OP_vec_assign_n: {
            Ints after(n, value(st.c, 0));
            const Elm one(value(st.c, 0));
            S.begin(name, base | P(VEC) | P(BULK)); x.c->assign_nothrow(err, n, one); S.end();
            settle(x, name, judge(err, name), after, PREFIX, P(BULK));
            break;
        }
        case OP_vec_resize: {
            Ints after(x.m); after.resize(n, value(st.c, 0));
            const Elm one(value(st.c, 0));
            S.begin(name, base | P(VEC)); x.c->resize_nothrow(err, n, one); S.end();
            settle(x, name, judge(err, name), after, after.size() > x.m.size() ? PREFIX : SAME, P(BULK));
            break;
        }
        case OP_vec_insert: { // a long range into the middle
            if (x.m.size() > 2 * MANY) return;
            const size_t at = size_t(pick(st.d, int(x.m.size()) + 1));
            Ints vals = values(st.c, n, false), after(x.m);
            after.insert(after.begin() + long(at), vals.begin(), vals.end());
            // one by one this would be quadratic: the range must be long where little is moved, or short
            if (at != x.m.size() && x.m.size() - at > 3000) { vals.resize(20 + size_t(pick(st.c, 40))); after = x.m; after.insert(after.begin() + long(at), vals.begin(), vals.end()); }
            else if (at != x.m.size()) { vals.resize(300); after = x.m; after.insert(after.begin() + long(at), vals.begin(), vals.end()); }
            const Offer offered = offer(vals);
            S.begin(name, base | P(VEC) | P(BULK));
            x.c->insert_nothrow(err, x.c->cbegin() + long(at), offered.data(), offered.data() + offered.size());
            S.end();
            bool ok = judge(err, name);
            settle(x, name, ok, after, SUBSEQUENCE, P(BULK));
            break;
        }
        case OP_vec_copy: S.begin(name, base | P(BULK) | P(VEC)); x.c->copy_nothrow(err, *y.c); S.end(); settle(x, name, judge(err, name), Ints(y.m), PREFIX, P(BULK)); break;
        case OP_vec_clear: S.begin(name, base | P(NOFAIL) | P(VEC)); x.c->clear(); S.end(); nofail(name); settle(x, name, true, Ints(), SAME, P(NOFAIL)); break;

        case OP_list_assign: {
            Ints after = values(st.c, n, st.d & 1);
            const Offer offered = offer(after);
            spread(st, n);
            S.begin(name, base | P(LIST) | P(BULK)); p.c->assign_nothrow(err, offered.data(), offered.data() + n); S.end();
            settle(p, name, judge(err, name), after, PREFIX, P(BULK));
            break;
        }
        case OP_list_push: {
            Ints vals = values(st.c, p.m.size() + n > 2 * MANY ? 0 : n, st.d & 1), after(p.m);
            const Offer offered = offer(vals);
            spread(st, n);
            S.begin(name, base | P(LIST));
            for (size_t k = 0; k < vals.size() && !err; ++k) { p.c->push_back_nothrow(err, const_cast<const Elm&>(offered[k])); if (!err) { Harness h; after.push_back(vals[k]); } }
            S.end();
            judge(err, name);
            settle(p, name, true, after, SAME, P(STRONG));
            break;
        }
        case OP_list_assign_n: {
            Ints after(n, value(st.c, 0));
            const Elm one(value(st.c, 0));
            spread(st, n);
            S.begin(name, base | P(LIST) | P(BULK)); p.c->assign_nothrow(err, n, one); S.end();
            settle(p, name, judge(err, name), after, PREFIX, P(BULK));
            break;
        }
        case OP_list_sort: {
            Ints after(p.m);
            const bool down = st.c & 1;
            if (down) std::stable_sort(after.begin(), after.end(), KeyDown()); else std::stable_sort(after.begin(), after.end(), KeyUp());
            compared = 0;
            S.begin(name, base | P(LIST) | P(NOFAIL)); if (down) p.c->sort(KeyDown()); else p.c->sort(KeyUp()); S.end();
            nofail(name);
            few(name, p.m.size() * 4 * (lg(p.m.size()) + 2), P(LIST));
            settle(p, name, true, after, SAME, P(NOFAIL));
            break;
        }
        case OP_list_merge: {
            Ints a(p.m), b(q.m), after;
            std::stable_sort(a.begin(), a.end(), KeyUp()); std::stable_sort(b.begin(), b.end(), KeyUp());
            std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(after), KeyUp());
            if (after.size() > 3 * MANY) return;
            S.begin(name, base | P(LIST) | P(NOFAIL)); p.c->sort(KeyUp()); q.c->sort(KeyUp()); p.c->merge(*q.c, KeyUp()); S.end();
            nofail(name);
            settle(p, name, true, after, SAME, P(NOFAIL)); settle(q, name, true, Ints(), SAME, P(NOFAIL));
            break;
        }
        case OP_list_splice: {
            if (p.m.size() + q.m.size() > 3 * MANY) return;
            const size_t at = size_t(pick(st.c, int(p.m.size()) + 1)), f = size_t(pick(st.d, int(q.m.size()) + 1)), e = f + size_t(pick(st.c / 3 + st.d, int(q.m.size() - f) + 1));
            Ints after(p.m), rest(q.m);
            after.insert(after.begin() + long(at), q.m.begin() + long(f), q.m.begin() + long(e));
            rest.erase(rest.begin() + long(f), rest.begin() + long(e));
            List::const_iterator pi = p.c->cbegin(), fi = q.c->cbegin(), ei;
            std::advance(pi, long(at)); std::advance(fi, long(f)); ei = fi; std::advance(ei, long(e - f));
            S.begin(name, base | P(LIST) | P(NOFAIL)); p.c->splice(pi, *q.c, fi, ei); S.end();
            nofail(name);
            settle(p, name, true, after, SAME, P(NOFAIL)); settle(q, name, true, rest, SAME, P(NOFAIL));
            break;
        }
        case OP_list_copy: spread(st, q.m.size()); S.begin(name, base | P(BULK) | P(LIST)); p.c->copy_nothrow(err, *q.c); S.end(); settle(p, name, judge(err, name), Ints(q.m), PREFIX, P(BULK)); break;
        case OP_list_erase: {
            const size_t a = size_t(pick(st.c, int(p.m.size()) + 1)), b = a + size_t(pick(st.d, int(p.m.size() - a) + 1));
            Ints after(p.m); after.erase(after.begin() + long(a), after.begin() + long(b));
            List::const_iterator ai = p.c->cbegin(), bi;
            std::advance(ai, long(a)); bi = ai; std::advance(bi, long(b - a));
            S.begin(name, base | P(LIST) | P(NOFAIL)); List::iterator res = p.c->erase(ai, bi); S.end();
            nofail(name);
            if (List::const_iterator(res) != bi) S.fail(P(LIST), "%s did not return the element after the erased ones", name);
            settle(p, name, true, after, SAME, P(NOFAIL));
            break;
        }
        case OP_list_clear: S.begin(name, base | P(NOFAIL) | P(LIST)); p.c->clear(); S.end(); nofail(name); settle(p, name, true, Ints(), SAME, P(NOFAIL)); break;
        case OP_list_move: S.begin(name, base | P(NOFAIL) | P(LIST)); *p.c = std::move(*q.c); S.end(); nofail(name); settle(p, name, true, Ints(q.m), SAME, P(NOFAIL)); settle(q, name, true, Ints(), SAME, P(NOFAIL)); break;

        case OP_set_insert: {
            if (r.m.size() + n > 2 * MANY) return;
            Ints vals = values(st.c, n, false);
            for (size_t k = 0; k < n; ++k) { // scattered, ascending, descending, from both ends
                const size_t key = st.d % 4 == 0 ? size_t(value(st.c, k)) >> 3 : st.d % 4 == 1 ? k : st.d % 4 == 2 ? n - k : (k & 1 ? k : 2 * n - k);
                vals[k] = int(key << 3 | (k & 7));
            }
            spread(st, n);
            set_insert(r, name, vals);
            break;
        }
        case OP_set_copy: spread(st, w.m.size()); S.begin(name, base | P(BULK) | P(SET)); r.c->copy_nothrow(err, *w.c); S.end(); settle(r, name, judge(err, name), Ints(w.m), SUBSEQUENCE, P(BULK)); break;
        case OP_set_erase: { // many single keys
            if (r.m.empty()) return;
            const size_t stride = 2 + size_t(pick(st.c, 5)), from = size_t(pick(st.d, int(r.m.size())));
            Ints after; std::vector<int> gone;
            for (size_t k = 0; k < r.m.size(); ++k) if (k >= from && k % stride) gone.push_back(r.m[k]); else after.push_back(r.m[k]);
            bool good = true;
            compared = 0;
            S.begin(name, base | P(SET) | P(NOFAIL));
            for (size_t k = 0; k < gone.size(); ++k) good = r.c->erase(gone[k]) == 1 && good;
            if (!gone.empty()) good = r.c->erase(gone[0]) == 0 && good;
            S.end();
            nofail(name);
            few(name, (gone.size() + 1) * 8 * (lg(r.m.size()) + 4), P(SET));
            if (!good) S.fail(P(SET), "%s counted wrongly", name);
            settle(r, name, true, after, SAME, P(NOFAIL));
            break;
        }
        case OP_set_find: {
            bool good = true;
            compared = 0;
            S.begin(name, base | P(SET) | P(NOFAIL));
            for (size_t k = 0; k < r.m.size() && good; ++k) { Set::iterator f = r.c->find(r.m[k]); good = f != r.c->end() && *f == r.m[k]; }
            for (int k = 0; k < 2000 && good; ++k) { int key = value(st.c, size_t(k)); good = (r.c->find(key) != r.c->end()) == std::binary_search(r.m.begin(), r.m.end(), key, KeyUp()); }
            S.end();
            nofail(name);
            few(name, (r.m.size() + 2000) * 8 * (lg(r.m.size()) + 4), P(SET));
            if (!good) S.fail(P(SET), "%s does not find an element, or finds one that is not there", name);
            break;
        }
        case OP_set_clear: S.begin(name, base | P(NOFAIL) | P(SET)); r.c->clear(); S.end(); nofail(name); settle(r, name, true, Ints(), SAME, P(NOFAIL)); break;
        case OP_set_move: S.begin(name, base | P(NOFAIL) | P(SET)); *r.c = std::move(*w.c); S.end(); nofail(name); settle(r, name, true, Ints(w.m), SAME, P(NOFAIL)); settle(w, name, true, Ints(), SAME, P(NOFAIL)); break;
        }
    }

    template <class C> void look(Slot<C>& x) {
        if (x.c->size() != x.m.size()) S.fail(base | own(x.c), "container changed by an operation on another one: %zu elements instead of %zu", size_t(x.c->size()), x.m.size());
        S.mix(x.m.size());
        for (size_t k = 0; k < x.m.size(); k += 1 + x.m.size() / 16) S.mix(u64(x.m[k]));
    }
    void check() override { if (looked == work) return; looked = work; for (int i = 0; i < 2; ++i) { look(v[i]); look(l[i]); look(t[i]); } count(); }
    void count() {
#if VARIANT == 2
        long n = 0;
        for (int i = 0; i < 2; ++i) n += long(v[i].m.size() + l[i].m.size() + t[i].m.size());
        if (Elm::live != n) S.fail(base, "%ld elements are alive, the containers hold %ld", Elm::live, n);
#endif
    }

    void recover() override {
        for (int i = 0; i < 2 && S.failures.empty(); ++i) {
            Err a, b;
            const Elm one(4);
            Ints va(v[i].m), la(l[i].m);
            va.push_back(one); la.push_back(one);
            S.begin("bulk.recover", base);
            v[i].c->push_back_nothrow(a, one); l[i].c->push_back_nothrow(b, one);
            S.end();
            settle(v[i], "bulk.recover", judge(a, "bulk.recover"), va, SAME, P(VALID)); settle(l[i], "bulk.recover", judge(b, "bulk.recover"), la, SAME, P(VALID));
            if (!S.failures.empty()) return;
            set_insert(t[i], "bulk.recover", Ints(1, 4));
        }
    }
    template <class C> void end(Slot<C>& x) { S.begin("bulk.destroy", base | P(NOFAIL) | own(x.c)); x.c->~C(); S.end(); nofail("bulk.destroy"); free(x.c); x.m.clear(); }
    void finish() override { for (int i = 0; i < 2; ++i) { end(v[i]); end(l[i]); end(t[i]); } count(); }
};

static World* make_world() { return new BulkWorld; }
static const char* variant() {
    static char b[160];
    snprintf(b, sizeof b, "%d/%s/%s/%s", VARIANT, VARIANT == 2 ? "counted" : "int", name_of((Err*)0), name_of((Al<int>::t*)0));
    return b;
}
const WorldDef the_world = {"bulk", op_table, OP_COUNT, make_world, variant, VARIANT == 2, false, VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim
