// World: the copying algorithms and the single-object operations they are made of, over buffers, containers and
// single-pass streams, with assignments and constructions that fail at chosen points.
#include "seams.hpp"
#include <memory>
#include <nestl/algorithm.hpp>
#include <nestl/class_operations.hpp>
#include <nestl/list.hpp>
#include <nestl/vector.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
typedef Elem<E_THR> E; typedef SimError Err;
#elif VARIANT == 1
typedef Elem<E_THR> E; typedef nestl::default_operation_error Err;
#elif VARIANT == 2
typedef Elem<E_THRMV> E; typedef SimError Err;
#elif VARIANT == 3
typedef Elem<E_TWO> E; typedef SimError Err;
#elif VARIANT == 4
typedef Elem<E_TWOMV> E; typedef nestl::default_operation_error Err;
#elif VARIANT == 6
typedef Elem<E_PLAIN> E; typedef SimError Err;
#elif VARIANT == 8
typedef Elem<E_TRIV> E; typedef SimError Err;
#endif
#define TWO (VARIANT == 3 || VARIANT == 4)

typedef nestl::impl::list<E, SimAlloc<E> > List;
typedef nestl::impl::vector<E, SimAlloc<E> > Vec;
enum { VALUES = 40, LEN = 14 };
inline int val(int raw) { return 1 + pick(raw, VALUES); }

#define OPS(X) \
    X(copy_array, 6, P(ALGO)) X(copy_stream, 5, P(ALGO)) X(copy_list, 4, P(ALGO)) X(copy_to_list, 3, P(ALGO)) X(copy_shift, 4, P(ALGO)) X(copy_vector, 3, P(ALGO)) \
    X(copyif_array, 6, P(ALGO)) X(copyif_stream, 5, P(ALGO)) X(copyif_list, 4, P(ALGO)) X(copyif_to_list, 3, P(ALGO)) X(copyif_shift, 4, P(ALGO)) X(copyif_vector, 3, P(ALGO)) \
    X(assign_one, 3, P(CAUSE)) X(assign_move, 2, P(CAUSE)) X(assign_self, 1, P(CAUSE)) \
    X(construct_copy, 4, P(NEST) | P(CAUSE)) X(construct_value, 4, P(NEST) | P(CAUSE)) X(construct_move, 2, P(NEST)) X(construct_default, 2, P(NEST)) X(refill, 3, 0) X(copy_ints, 2, P(ALGO)) X(copyif_ints, 2, P(ALGO)) \
    X(equal, 4, P(RANGES)) X(equal_pred, 5, P(RANGES)) X(less, 5, P(RANGES)) X(less_comp, 6, P(RANGES)) X(equal_ints, 1, P(RANGES)) X(less_ints, 1, P(RANGES)) \
    X(copy_mixed, 2, P(ALGO)) X(copyif_mixed, 2, P(ALGO)) X(equal_mixed, 3, P(RANGES)) X(less_mixed, 3, P(RANGES))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#if TWO
#define W(n, w) (OP_##n < OP_construct_copy ? 0 : OP_##n == OP_construct_move && VARIANT == 3 ? 0 : w)
#else
#define W(n, w) w
#endif
#define X(n, w, f) {"alg." #n, W(n, w), f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

struct Pred {
    int mod, want;
    Ints* seen;
    bool operator()(const E& e) const { Harness h; int v = e.value("predicate"); seen->push_back(v); return v % mod == want % mod; }
};

struct IntPred {
    int mod, want;
    Ints* seen;
    bool operator()(int v) const { Harness h; seen->push_back(v); return v % mod == want % mod; }
};

// the two ranges under comparison: positions of elements and of what was looked at
struct Watch {
    const E* left; const E* right; int nl, nr;
    long calls; int far;   // the furthest position looked at, from 1
    void look(const E& a, const E& b) {
        Harness h;
        ++calls;
        for (const E* e : {&a, &b}) {
            int at = e >= left && e < left + nl ? int(e - left) : e >= right && e < right + nr ? int(e - right) : -1;
            if (at < 0) S.fail(P(RANGES), "the comparison was called with something that is in neither range");
            if (at + 1 > far) far = at + 1;
        }
    }
};
struct Same {
    int mod; Watch* w;
    bool operator()(const E& a, const E& b) const { w->look(a, b); may_throw(0, S.point(F_ASSIGN)); return a.value("predicate") % mod == b.value("predicate") % mod; }
};
struct Before {
    int dir; Watch* w;
    bool operator()(const E& a, const E& b) const {
        w->look(a, b); may_throw(0, S.point(F_ASSIGN));
        int x = a.value("compare") >> 3, y = b.value("compare") >> 3;
        return dir > 0 ? x < y : y < x;
    }
};

// an element whose own comparison is watched and may fail
struct Probe { const E* e; Watch* w; };
inline bool operator==(const Probe& a, const Probe& b) { a.w->look(*a.e, *b.e); may_throw(0, S.point(F_ASSIGN)); return *a.e == *b.e; }
inline bool operator<(const Probe& a, const Probe& b) { a.w->look(*a.e, *b.e); may_throw(0, S.point(F_ASSIGN)); return *a.e < *b.e; }

template <class T> struct View { const T* at; int n; Stream<T>* in; };

// a few elements of the harness in one block, compared through the iterator a step chooses
struct Range {
    E* at; int n;
    const E* items[LEN + 2];
    Stream<E> in;
    Probe probes[LEN + 2];
    const Probe* pitems[LEN + 2];
    Stream<Probe> pin;
    Range(const Ints& v, Watch& w) : at(static_cast<E*>(room(sizeof(E) * (v.size() + 1)))), n(int(v.size())), in(items, v.size()), pin(pitems, v.size()) {
        for (int i = 0; i < n; ++i) { new (at + i) Arg<E>(v[size_t(i)]); items[i] = at + i; probes[i].e = at + i; probes[i].w = &w; pitems[i] = probes + i; }
    }
    ~Range() { for (int i = 0; i < n; ++i) at[i].~E(); free(at); }
    Range(const Range&) = delete;
    View<E> elements() { View<E> v = {at, n, &in}; return v; }
    View<Probe> probed() { View<Probe> v = {probes, n, &pin}; return v; }
    int far() const { return int(in.far > pin.far ? in.far : pin.far); }
};

struct AlgWorld : World {
    // the relation of two ranges, through every combination of contiguous and single-pass iterators
    template <class T, class... Extra> static bool ask(bool less, int form, View<T> a, View<T> b, Extra... x) {
        const T* p = a.at; const T* q = b.at;
        typedef StreamIt<T> It;
        if (less) switch (form & 3) {
            case 0: return nestl::lexicographical_compare(p, p + a.n, q, q + b.n, x...);
            case 1: return nestl::lexicographical_compare(It(a.in), It(), q, q + b.n, x...);
            case 2: return nestl::lexicographical_compare(p, p + a.n, It(b.in), It(), x...);
            default: return nestl::lexicographical_compare(It(a.in), It(), It(b.in), It(), x...);
        }
        switch (form & 3) {
            case 0: return nestl::equal(p, p + a.n, q, x...);
            case 1: return nestl::equal(It(a.in), It(), q, x...);
            case 2: return nestl::equal(p, p + a.n, It(b.in), x...);
            default: return nestl::equal(It(a.in), It(), It(b.in), x...);
        }
    }

    void relation(const Step& st, const char* name) {
        const bool less = st.op == OP_less || st.op == OP_less_comp || st.op == OP_less_ints;
        const bool user = st.op == OP_equal_pred || st.op == OP_less_comp;
        const bool ints = st.op == OP_equal_ints || st.op == OP_less_ints;
        // the second range is the first one with a difference somewhere (or nowhere), shorter or longer
        Ints a, b;
        Rng r(u64(st.b) * 64 + u64(st.c));
        const int n = pick(st.b, LEN + 1);
        for (int i = 0; i < n; ++i) a.push_back(val(r.below(1000)));
        b = a;
        const int touch = n ? pick(st.c, n + 2) : 0;
        if (touch < n) b[size_t(touch)] = val(r.below(1000));
        if (touch < n && r.chance(30)) for (int i = touch; i < n; ++i) b[size_t(i)] = val(r.below(1000));
        if (!ints && r.chance(40)) for (int i = 0; i < n; ++i) if (r.chance(40)) b[size_t(i)] = b[size_t(i)] / 8 * 8 + r.below(8); // equivalent, not equal
        for (int i = pick(st.d, 3); i > 0 && (less || r.chance(60)); --i) b.push_back(val(r.below(1000)));
        if (less && r.chance(30)) b.resize(b.size() - size_t(r.below(int(b.size()) + 1)));
        if (less && r.chance(50)) a.swap(b);
        const int mod = 1 + pick(st.a / 16, 5), dir = st.a & 16 ? 1 : -1;
        // what must come out, and how far one has to look for it
        int need = 0; bool want = !less;
        for (size_t i = 0;; ++i) {
            if (i >= a.size() || (less && i >= b.size())) { if (less) want = i >= a.size() && i < b.size(); break; }
            need = int(i) + 1;
            const int x = a[i], y = b[i];
            if (less) {
                const int u = ints ? x : x >> 3, v = ints ? y : y >> 3;
                if (u != v) { want = user && dir < 0 ? v < u : u < v; break; }
            } else if (user ? x % mod != y % mod : x != y) { want = false; break; }
        }
        S.shape = u32(need);
        bool got = false;
        if (ints) {
            const int* p = a.data(); const int* q = b.data();
            S.begin(name, base); S.shape = u32(need);
            got = less ? nestl::lexicographical_compare(p, p + a.size(), q, q + b.size()) : nestl::equal(p, p + a.size(), q);
            S.end();
            if (got != want) S.fail(P(RANGES), "%s of %s and %s is %d", name, show(a).c_str(), show(b).c_str(), int(got));
            S.mix(got);
            return;
        }
        Watch w;
        Range ra(a, w), rb(b, w);
        w.left = ra.at; w.right = rb.at; w.nl = ra.n; w.nr = rb.n; w.calls = 0; w.far = 0;
        Same same; same.mod = mod; same.w = &w;
        Before before; before.dir = dir; before.w = &w;
        u32 thrown = 0; bool foreign = false;
        S.begin(name, (1u << RANGES) | (1u << LIFE)); S.shape = u32(need);
#if SIM_EXC
        try {
#endif
            if (!user) got = st.a & 4 ? ask(less, st.a, ra.elements(), rb.elements()) : ask(less, st.a, ra.probed(), rb.probed());
            else if (less) got = ask(less, st.a, ra.elements(), rb.elements(), before);
            else got = ask(less, st.a, ra.elements(), rb.elements(), same);
#if SIM_EXC
        } catch (...) { Cause c = decode(std::current_exception()); if (c.type == CAUSE_FAULT) thrown = c.id; else foreign = true; }
#endif
        S.end();
        S.mix(thrown ? 3 : got ? 2 : 1);
        if (S.stats && thrown) ++S.stats->ops_failed;
        if (foreign || (S.fired.empty() ? thrown != 0 : thrown != S.fired[0].id))
            S.fail(P(RANGES) | P(CAUSE), "%s: a comparison failed (%zu), and the caller saw %s", name, S.fired.size(), foreign ? "something else" : thrown ? "another failure" : "nothing of it");
        if (S.fired.size() > 1 || (S.fired.size() == 1 && w.calls > S.fired[0].at)) S.fail(P(RANGES), "%s went on after a failed comparison", name);
        if (!thrown && !foreign && got != want) S.fail(P(RANGES), "%s of %s and %s is %d", name, show(a).c_str(), show(b).c_str(), int(got));
        int far = w.far;
        if (ra.far() > far) far = ra.far();
        if (rb.far() > far) far = rb.far();
        if (far > need) S.fail(P(RANGES), "%s of %s and %s looked at position %d, the result is known at position %d", name, show(a).c_str(), show(b).c_str(), far - 1, need - 1);
        for (int i = 0; i < ra.n; ++i) if (ra.at[i].get() != a[size_t(i)]) S.fail(P(RANGES), "%s changed its first range", name);
        for (int i = 0; i < rb.n; ++i) if (rb.at[i].get() != b[size_t(i)]) S.fail(P(RANGES), "%s changed its second range", name);
        if (S.alloc_requests) S.fail(P(RANGES), "%s asked for memory", name);
    }

    // ---- built-in types, also of two kinds: nothing can fail, and what is compared or copied are values, not bytes
    template <class T> static T some(Rng& r) {
        const double table[] = {0, 1, -1, 2, 127, -128, 255, 256, 65535, -32768, 0.5, -0.0, 1e9, 7, 7, 3};
        const double x = table[r.below(16)];
        if (std::is_same<T, double>::value || std::is_same<T, float>::value) return r.below(12) ? T(x) : std::numeric_limits<T>::quiet_NaN();
        return T((long long)x);
    }
    struct Odd { size_t* calls; template <class T> bool operator()(const T& x) const { ++*calls; return x > T(2) || x == T(0); } };
    template <class T, class U> struct Asym { // tells its arguments apart
        size_t* calls;
        bool operator()(const T& a, const U& b) const { ++*calls; return double(a) * 2 < double(b); }
        bool operator()(const U& b, const T& a) const { ++*calls; return double(b) < double(a) * 2; }
    };
    template <class T> struct Asym<T, T> { size_t* calls; bool operator()(const T& a, const T& b) const { ++*calls; return b < a; } };
    template <class T> static void dump(std::string& s, const std::vector<T>& v) { s += '['; for (size_t i = 0; i < v.size(); ++i) { char b[40]; snprintf(b, sizeof b, i ? " %g" : "%g", double(v[i])); s += b; } s += ']'; }

    template <class T, class U> void mixed(const Step& st, const char* name) {
        Harness h;
        Rng r(u64(st.b) * 64 + u64(st.c) + 1);
        const size_t n = size_t(pick(st.b, 40));
        std::vector<T> a; std::vector<U> b;
        for (size_t i = 0; i < n; ++i) a.push_back(some<T>(r));
        const int kind = pick(st.c, 4);
        if (st.op == OP_copy_mixed || st.op == OP_copyif_mixed) {
            const size_t room = n + 3, to = size_t(pick(st.d, 3));
            for (size_t i = 0; i < room; ++i) b.push_back(U(i % 5));
            std::vector<U> want(b);
            std::vector<T> was(a);
            size_t out = to, calls = 0, should = 0;
            Odd odd; odd.calls = &should;
            const bool filt = st.op == OP_copyif_mixed;
            for (size_t i = 0; i < n; ++i) if (!filt || odd(a[i])) { want[out] = U(a[i]); ++out; }
            odd.calls = &calls;
            Err err;
            const T* f = a.data(); const T* e = f + n; U* d = b.data() + to;
            S.begin(name, base); S.shape = u32(n);
            const U* ret = filt ? (kind & 1 ? nestl::copy_if(err, f, e, d, odd) : nestl::copy_if(err, a.data(), a.data() + n, d, odd))
                                : (kind & 1 ? nestl::copy(err, f, e, d) : nestl::copy(err, a.data(), a.data() + n, d));
            S.end();
            judge(err, name);
            bool same = ret == b.data() + out && calls == should;
            for (size_t i = 0; i < room; ++i) same = same && (memcmp(&b[i], &want[i], sizeof(U)) == 0 || b[i] == want[i]);
            for (size_t i = 0; i < n; ++i) same = same && memcmp(&a[i], &was[i], sizeof(T)) == 0;
            std::string sa, sw, sn; dump(sa, a); dump(sw, want); dump(sn, b);
            if (!same) S.fail(P(ALGO), "%s of %s to position %zu: target should be %s, is %s; returned %ld (should be %zu), %zu of %zu values asked about", name, sa.c_str(), to, sw.c_str(), sn.c_str(), long(ret - b.data()), out, calls, should);
            return;
        }
        for (size_t i = 0; i < n; ++i) b.push_back(U(a[i]));
        if (n && r.chance(70)) b[size_t(r.below(int(n)))] = some<U>(r);
        if (n && r.chance(30)) b[0] = some<U>(r);
        const bool less = st.op == OP_less_mixed;
        if (less && r.chance(30)) b.resize(size_t(r.below(int(n) + 1)));
        else for (int i = r.below(3); i > 0; --i) b.push_back(some<U>(r));
        const T* af = a.data(); const T* ae = af + n; const U* bf = b.data(); const U* be = bf + b.size();
        bool want = !less, got = false, rwant = false, rgot = false;
        size_t calls = 0, should = 0;
        Asym<T, U> cmp; cmp.calls = &should;
        if (!less) { for (size_t i = 0; i < n && want; ++i) want = kind & 1 ? cmp(a[i], b[i]) : a[i] == b[i]; }
        else {
            size_t i = 0;
            for (;; ++i) {
                if (i >= n || i >= b.size()) { want = i >= n && i < b.size(); rwant = i >= b.size() && i < n; break; }
                const bool x = kind & 1 ? cmp(a[i], b[i]) : a[i] < b[i];
                if (x) { want = true; break; }
                const bool y = kind & 1 ? cmp(b[i], a[i]) : b[i] < a[i];
                if (y) { want = false; rwant = true; break; }
            }
        }
        cmp.calls = &calls;
        S.begin(name, 1u << RANGES); S.shape = u32(n);
        if (!less) got = kind & 1 ? nestl::equal(af, ae, bf, cmp) : nestl::equal(af, ae, bf);
        else {
            got = kind & 1 ? nestl::lexicographical_compare(af, ae, bf, be, cmp) : nestl::lexicographical_compare(af, ae, bf, be);
            if (!(kind & 1)) rgot = nestl::lexicographical_compare(bf, be, af, ae); else rgot = rwant;
        }
        S.end();
        std::string sa, sb; dump(sa, a); dump(sb, b);
        if (got != want) S.fail(P(RANGES), "%s of %s and %s is %d", name, sa.c_str(), sb.c_str(), int(got));
        else if (rgot != rwant) S.fail(P(RANGES), "%s of %s and %s is %d", name, sb.c_str(), sa.c_str(), int(rgot));
        else if (calls > should + 1) S.fail(P(RANGES), "%s of %s and %s compared %zu times, %zu are needed", name, sa.c_str(), sb.c_str(), calls, should);
        S.mix(got);
    }
    void mixed(const Step& st, const char* name) {
        switch (pick(st.a, 12)) {
        case 0: mixed<signed char, signed char>(st, name); break;
        case 1: mixed<unsigned char, unsigned char>(st, name); break;
        case 2: mixed<signed char, int>(st, name); break;
        case 3: mixed<short, short>(st, name); break;
        case 4: mixed<int, short>(st, name); break;
        case 5: mixed<int, long long>(st, name); break;
        case 6: mixed<unsigned, unsigned>(st, name); break;
        case 7: mixed<double, double>(st, name); break;
        case 8: mixed<float, double>(st, name); break;
        case 9: mixed<int, double>(st, name); break;
        case 10: mixed<unsigned short, int>(st, name); break;
        case 11: mixed<long long, signed char>(st, name); break;
        }
    }

    E* arr[2];                                  // contiguous arrays in simulated memory
    Ints m[2], ml, mv;
    List* l; Vec* v;

    static const u32 base = (1u << ALGO) | (1u << LIFE);

    void start() override {
        for (int k = 0; k < 2; ++k) {
            arr[k] = static_cast<E*>(room(sizeof(E) * LEN));
            for (int i = 0; i < LEN; ++i) { Arg<E>* p = new (arr[k] + i) Arg<E>(1 + (i * 5 + k * 11) % VALUES); m[k].push_back(p->e.get()); }
        }
        l = new (room(sizeof(List))) List(SimAlloc<E>(1));
        v = new (room(sizeof(Vec))) Vec(SimAlloc<E>(1));
        for (int i = 0; i < LEN; ++i) {
            Err e; Arg<E> x(1 + (i * 3) % VALUES);
            { Calm calm; l->push_back_nothrow(e, const_cast<const E&>(x.e)); v->push_back_nothrow(e, const_cast<const E&>(x.e)); }
            ml.push_back(x.e.get()); mv.push_back(x.e.get());
            if (e) S.fatal(base, "cannot set up");
        }
    }

    template <int K> static void change(Elem<K>& e, int x) { e.v = x; }
    static void change(Elem<E_TRIV>& e, int x) { e.set(x); }

    // what copy / copy_if must have done to the target, given the source, the predicate and the failure of assignment number k
    template <class Out> void judge_copy(const char* name, bool filtered, const Ints& source, const Ints& before, const Ints& now, int start, long returned, bool ok, const Pred* pred, const Ints& seen, Out) {
        Ints want = before;
        int fail_at = 0; // 1-based number of the failing assignment
        for (size_t i = 0; i < S.fired.size() && !fail_at; ++i) fail_at = S.fired[i].at;
        int assigned = 0, used = 0;
        bool stopped = false;
        Ints should_see;
        for (size_t i = 0; i < source.size(); ++i) {
            ++used;
            if (filtered) { should_see.push_back(source[i]); if (source[i] % pred->mod != pred->want % pred->mod) continue; }
            if (fail_at && assigned + 1 == fail_at) { stopped = true; break; }
            want[size_t(start + assigned)] = source[i];
            ++assigned;
        }
        if (ok == stopped) S.fail(P(ALGO) | P(CAUSE), "%s %s although assignment %d %s", name, ok ? "succeeded" : "failed", fail_at, stopped ? "failed" : "was the last and worked");
        if (now != want) S.fail(P(ALGO), "%s: target should be %s, is %s", name, show(want).c_str(), show(now).c_str());
        if (returned != start + assigned) S.fail(P(ALGO), "%s returned position %ld, %d elements were copied from position %d on", name, returned, assigned, start);
        if (S.assigns > assigned + (stopped ? 1 : 0)) S.fail(P(ALGO), "%s went on after a failure: %ld assignments, %d expected", name, S.assigns, assigned + (stopped ? 1 : 0));
        if (filtered && seen != should_see) S.fail(P(ALGO), "%s: the predicate saw %s, it should see %s", name, show(seen).c_str(), show(should_see).c_str());
    }

    void step(const Step& st) override {
        const char* name = op_table[st.op].name;
        int k = st.a & 1;
        E* src = arr[k]; E* dst = arr[1 - k];
        int from = pick(st.b, LEN + 1), cnt = pick(st.c, LEN - from + 1), to = pick(st.d, LEN - cnt + 1);
        Ints seen;
        Pred pred; pred.mod = 1 + pick(st.a / 2, 4); pred.want = st.a / 8; pred.seen = &seen;
        S.shape = 0;
        switch (st.op) {
#if !TWO
        case OP_copy_array: case OP_copyif_array: case OP_copy_shift: case OP_copyif_shift: {
            bool shift = st.op == OP_copy_shift || st.op == OP_copyif_shift, filt = st.op >= OP_copyif_array;
            if (shift) { dst = src; if (cnt == 0) return; to = pick(st.d, from + 1); if (to == from) return; }
            int di = shift ? k : 1 - k;
            Ints source(m[k].begin() + from, m[k].begin() + from + cnt), before = m[di];
            Err err;
            S.begin(name, base); S.shape = u32(cnt);
            const E* cs = src;
            E* r = filt ? nestl::copy_if(err, cs + from, cs + from + cnt, dst + to, pred) : nestl::copy(err, cs + from, cs + from + cnt, dst + to);
            S.end();
            bool ok = judge(err, name);
            Ints now; for (int i = 0; i < LEN; ++i) now.push_back(dst[i].get());
            judge_copy(name, filt, source, before, now, to, r - dst, ok, &pred, seen, 0);
            m[di] = now;
            break;
        }
        case OP_copy_stream: case OP_copyif_stream: {
            const E* items[LEN]; for (int i = 0; i < cnt; ++i) items[i] = &src[from + i];
            Stream<E> in(items, size_t(cnt));
            bool filt = st.op == OP_copyif_stream;
            Ints source(m[k].begin() + from, m[k].begin() + from + cnt), before = m[1 - k];
            Err err;
            S.begin(name, base | P(BULK)); S.shape = u32(cnt);
            E* r = filt ? nestl::copy_if(err, StreamIt<E>(&in), StreamIt<E>(), dst + to, pred) : nestl::copy(err, StreamIt<E>(&in), StreamIt<E>(), dst + to);
            S.end();
            bool ok = judge(err, name);
            Ints now; for (int i = 0; i < LEN; ++i) now.push_back(dst[i].get());
            judge_copy(name, filt, source, before, now, to, r - dst, ok, &pred, seen, 0);
            m[1 - k] = now;
            break;
        }
        case OP_copy_list: case OP_copyif_list: case OP_copy_vector: case OP_copyif_vector: {
            bool filt = st.op == OP_copyif_list || st.op == OP_copyif_vector, list = st.op == OP_copy_list || st.op == OP_copyif_list;
            const Ints& mm = list ? ml : mv;
            Ints source(mm.begin() + from, mm.begin() + from + cnt), before = m[1 - k];
            List::const_iterator lf = l->cbegin(); for (int i = 0; i < from; ++i) ++lf;
            List::const_iterator lt = lf; for (int i = 0; i < cnt; ++i) ++lt;
            Vec::const_iterator vf = v->cbegin() + from, vt = vf + cnt;
            Err err;
            E* r;
            S.begin(name, base); S.shape = u32(cnt);
            if (list) r = filt ? nestl::copy_if(err, lf, lt, dst + to, pred) : nestl::copy(err, lf, lt, dst + to);
            else r = filt ? nestl::copy_if(err, vf, vt, dst + to, pred) : nestl::copy(err, vf, vt, dst + to);
            S.end();
            bool ok = judge(err, name);
            Ints now; for (int i = 0; i < LEN; ++i) now.push_back(dst[i].get());
            judge_copy(name, filt, source, before, now, to, r - dst, ok, &pred, seen, 0);
            m[1 - k] = now;
            break;
        }
        case OP_copy_to_list: case OP_copyif_to_list: {
            bool filt = st.op == OP_copyif_to_list;
            Ints source(m[k].begin() + from, m[k].begin() + from + cnt), before = ml;
            List::iterator d = l->begin(); for (int i = 0; i < to; ++i) ++d;
            Err err;
            const E* cs = src;
            S.begin(name, base); S.shape = u32(cnt);
            List::iterator r = filt ? nestl::copy_if(err, cs + from, cs + from + cnt, d, pred) : nestl::copy(err, cs + from, cs + from + cnt, d);
            S.end();
            bool ok = judge(err, name);
            Ints now; long at = -1, i = 0;
            for (List::iterator it = l->begin(); it != l->end(); ++it, ++i) { now.push_back(it->get()); if (it == r) at = i; }
            if (r == l->end()) at = i;
            judge_copy(name, filt, source, before, now, to, at, ok, &pred, seen, 0);
            ml = now;
            break;
        }
        case OP_assign_one: case OP_assign_move: case OP_assign_self: {
            int i = pick(st.b, LEN), j = pick(st.c, LEN);
            E& d = dst[i]; E& s = st.op == OP_assign_self ? d : src[j];
            int was = d.get(), x = s.get();
            Err err;
            S.begin(name, base | P(CAUSE));
            if (st.op == OP_assign_move) nestl::class_operations::assign(err, d, std::move(s)); else nestl::class_operations::assign(err, d, const_cast<const E&>(s));
            S.end();
            bool ok = judge(err, name);
            if (d.get() != (ok ? x : was)) S.fail(P(CAUSE) | P(ALGO), "%s %s: target was %d, source %d, target is %d", name, ok ? "succeeded" : "failed", was, x, d.get());
            if (!ok && s.get() != x) S.fail(P(ALGO), "%s failed and consumed the source", name);
            if (st.op == OP_assign_move) change(s, x);
            m[1 - k][size_t(i)] = d.get();
            break;
        }
#endif
        case OP_construct_copy: case OP_construct_value: case OP_construct_default:
#if VARIANT != 3
        case OP_construct_move:
#endif
        {
            E& s = src[pick(st.b, LEN)];
            int x = st.op == OP_construct_value ? val(st.c) : st.op == OP_construct_default ? int(V_DEFAULT) : s.get(), was = s.get();
            E* at = static_cast<E*>(room(sizeof(E)));
            memset(static_cast<void*>(at), 0xCD, sizeof(E));
            size_t alive = S.elems.size();
            Err err;
            S.begin(name, base | P(NEST) | P(CAUSE));
            int value = x;
            switch (st.op) {
            case OP_construct_copy: nestl::class_operations::construct(err, at, const_cast<const E&>(s)); break;
            case OP_construct_value: nestl::class_operations::construct(err, at, value); break;
            case OP_construct_default: nestl::class_operations::construct(err, at); break;
#if VARIANT != 3
            case OP_construct_move: nestl::class_operations::construct(err, at, std::move(s)); break;
#endif
            }
            S.end();
            bool ok = judge(err, name);
            if (followed<E>::value && S.elems.size() != alive + (ok ? 1 : 0)) S.fail(P(LIFE) | P(NEST), "%s %s and left %ld living objects", name, ok ? "succeeded" : "failed", long(S.elems.size()) - long(alive));
            if (ok && S.failures.empty()) {
                if (at->get() != x) S.fail(P(NEST) | P(CAUSE), "%s made %d, not %d", name, at->get(), x);
                at->~E();
            }
            if (st.op == OP_construct_move) { if (!ok && s.get() != was) S.fail(P(STRONG), "%s failed and consumed the source", name); change(s, was); }
            else if (s.get() != was) S.fail(P(NEST), "%s changed its source", name);
            free(at);
            break;
        }
        case OP_copy_ints: case OP_copyif_ints: {
            // fundamental types: nothing can fail
            int a[LEN], b[LEN];
            Ints source, before;
            for (int i = 0; i < LEN; ++i) { a[i] = val(st.b + i * 3); b[i] = val(st.c + i * 5); before.push_back(b[i]); }
            for (int i = 0; i < cnt; ++i) source.push_back(a[from + i]);
            IntPred ip; ip.mod = pred.mod; ip.want = pred.want; ip.seen = &seen;
            Err err;
            S.begin(name, base); S.shape = u32(cnt);
            const int* ca = a;
            int* r = st.op == OP_copyif_ints ? nestl::copy_if(err, ca + from, ca + from + cnt, b + to, ip) : nestl::copy(err, ca + from, ca + from + cnt, b + to);
            S.end();
            bool ok = judge(err, name);
            Ints now; for (int i = 0; i < LEN; ++i) now.push_back(b[i]);
            judge_copy(name, st.op == OP_copyif_ints, source, before, now, to, r - b, ok, &pred, seen, 0);
            for (int i = 0; i < LEN; ++i) if (a[i] != val(st.b + i * 3)) S.fail(P(ALGO), "%s changed its source", name);
            break;
        }
        case OP_equal: case OP_equal_pred: case OP_less: case OP_less_comp: case OP_equal_ints: case OP_less_ints:
            relation(st, name);
            break;
        case OP_copy_mixed: case OP_copyif_mixed: case OP_equal_mixed: case OP_less_mixed:
            mixed(st, name);
            break;
        case OP_refill: {
            Harness h;
            for (int i = 0; i < LEN; ++i) { int x = val(st.b + i * 7 + st.c); change(src[i], x); m[k][size_t(i)] = x; }
            break;
        }
        }
    }

    void check() override {
        for (int k = 0; k < 2; ++k) {
            for (int i = 0; i < LEN; ++i) { int x = arr[k][i].get(); if (x != m[k][size_t(i)]) S.fail(P(ALGO), "element %d of array %d is %d, should be %d", i, k, x, m[k][size_t(i)]); S.mix(u64(x)); }
        }
        Ints now; for (List::iterator it = l->begin(); it != l->end(); ++it) now.push_back(it->get());
        if (now != ml) S.fail(P(ALGO), "list changed: should be %s, is %s", show(ml).c_str(), show(now).c_str());
        if (followed<E>::value && S.elems.size() != 4 * LEN) S.fail(P(LIFE), "%zu elements are alive, %d exist", S.elems.size(), 4 * LEN);
    }
    void recover() override {
#if !TWO
        Err err;
        Ints seen;
        const E* cs = arr[0];
        S.begin("alg.recover", base | P(VALID));
        E* r = nestl::copy(err, cs, cs + LEN, arr[1]);
        S.end();
        if (!judge(err, "alg.recover") || r != arr[1] + LEN) S.fail(P(ALGO) | P(VALID), "copy does not work although nothing fails any more");
        m[1] = m[0];
#endif
    }
    void finish() override {
        S.begin("alg.destroy", base); l->~List(); v->~Vec(); S.end();
        free(l); free(v);
        for (int k = 0; k < 2; ++k) { for (int i = 0; i < LEN; ++i) arr[k][i].~E(); free(arr[k]); }
    }
};

static World* make_world() { return new AlgWorld; }
static const char* variant() { static char b[128]; snprintf(b, sizeof b, "%d/%s/%s", VARIANT, E::name(), name_of((Err*)0)); return b; }
const WorldDef the_world = {"alg", op_table, OP_COUNT, make_world, variant, !never_fails<E>::value, VARIANT < 3, VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim
