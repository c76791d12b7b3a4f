// World: ordered sets whose elements are containers or shared handles, ordered by their content. Every node then owns
// memory of its own; comparing reads through it, copying a set copies it all, and any of that can fail half way.
#include "seams.hpp"
#include <algorithm>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/vector.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
typedef Elem<E_THR> E; typedef SimError Err; typedef nestl::vector<E, SimAlloc<E> > Inner;
#elif VARIANT == 1
typedef Elem<E_THRMV> E; typedef nestl::default_operation_error Err; typedef nestl::list<E, nestl::allocator<E> > Inner;
#elif VARIANT == 2
typedef Elem<E_PLAIN> E; typedef SimError Err; typedef nestl::shared_ptr<E> Inner;
#elif VARIANT == 3
typedef Elem<E_TWO> E; typedef SimError Err; typedef nestl::impl::list<E, SimAlloc<E> > Inner;
#elif VARIANT == 4
typedef Elem<E_TWOMV> E; typedef nestl::default_operation_error Err; typedef nestl::impl::vector<E, SimAlloc<E> > Inner;
#elif VARIANT == 5
typedef Elem<E_TWO> E; typedef SimError Err; typedef nestl::set<E, std::less<E>, SimAlloc<E> > Inner;
#endif
#define SHARED (VARIANT == 2)
#define INNER_SET (VARIANT == 5)

enum { VALUES = 60, SLOTS = 2, POOL = 8 };
typedef std::vector<Ints> Deep;

inline std::string show(const Deep& d) { std::string r = "{"; for (size_t i = 0; i < d.size() && i < 8; ++i) r += show(d[i]); return r + (d.size() > 8 ? "..}" : "}"); }

struct ByContent {
#if SHARED
    bool operator()(const Inner& a, const Inner& b) const { return (a.get() ? a->value("compare") : -1) < (b.get() ? b->value("compare") : -1); }
#else
    bool operator()(const Inner& a, const Inner& b) const {
        typename Inner::const_iterator i = a.cbegin(), j = b.cbegin();
        for (; i != a.cend() && j != b.cend(); ++i, ++j) {
            int x = i->value("compare"), y = j->value("compare");
            if (x != y) return x < y;
        }
        return i == a.cend() && j != b.cend();
    }
#endif
};

typedef nestl::set<Inner, ByContent, SimAlloc<Inner> > Outer;

#define OPS(X) \
    X(insert_copy, 8, P(STRONG) | P(NEST) | P(SET)) X(insert_move, 7, P(STRONG) | P(NEST) | P(SET)) X(insert_own, 2, P(NEST)) \
    X(erase_at, 4, P(NOFAIL)) X(erase_key, 4, P(NOFAIL)) X(erase_own_key, 3, P(NOFAIL)) X(find, 4, P(SET)) \
    X(copy, 5, P(BULK)) X(copy_self, 1, P(BULK)) X(clear, 1, P(NOFAIL)) X(move_assign, 2, P(NOFAIL)) X(move_construct, 2, P(NOFAIL)) X(fill, 2, P(SET))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#define X(n, w, f) {"keyed." #n, w, f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

struct Slot { Outer* o; Deep m; };

struct KeyedWorld : World {
    Slot s[SLOTS];
#if SHARED
    Inner* pool[POOL];
#endif
    static const u32 base = (1u << NEST) | (1u << LIFE) | (1u << MEM) | (1u << VALID) | (1u << SET);
    static Outer* raw() { return static_cast<Outer*>(room(sizeof(Outer))); }

    // ---- elements
#if SHARED
    Ints read(const Inner& i) { return i.get() ? Ints(1, i->get()) : Ints(); }
    void build(Inner& i, const Ints& m) { Harness h; if (!m.empty()) i = *pool[pick(m[0] - 1, POOL)]; }
    Ints random(int a, int) { return a % 9 == 0 ? Ints() : Ints(1, 1 + pick(a, POOL)); }
#else
    Ints read(const Inner& i) {
        Ints r;
        for (Inner::const_iterator it = i.cbegin(); it != i.cend(); ++it) { r.push_back(it->get()); if (r.size() > 500) S.fatal(base, "inner container does not end"); }
        if (i.size() != r.size()) S.fail(base, "inner container claims %zu elements, iteration finds %zu", i.size(), r.size());
        return r;
    }
#if INNER_SET
    static void put(Err& e, Inner& i, const E& v) { i.insert_nothrow(e, v); }
    static Ints norm(const Ints& m) {
        Ints r;
        for (size_t k = 0; k < m.size(); ++k) {
            size_t at = 0;
            while (at < r.size() && (r[at] >> 3) < (m[k] >> 3)) ++at;
            if (at == r.size() || r[at] >> 3 != m[k] >> 3) r.insert(r.begin() + long(at), m[k]);
        }
        return r;
    }
#else
    static void put(Err& e, Inner& i, const E& v) { i.push_back_nothrow(e, v); }
    static Ints norm(const Ints& m) { return m; }
#endif
    void build(Inner& i, const Ints& m) { // outside of the fault space
        for (size_t k = 0; k < m.size(); ++k) { Arg<E> a(m[k]); Err e; Calm calm; put(e, i, a.e); if (e) S.fatal(base, "cannot build an element"); }
    }
    // few first values, so that many keys share a beginning
    Ints random(int a, int b) { Ints r; int n = a % 7 == 0 ? 0 : 1 + pick(a, 3); for (int i = 0; i < n; ++i) r.push_back(i ? 1 + pick(b / 5 + i * 7, VALUES) : 1 + 8 * pick(b, 5)); return norm(r); }
#endif
    struct Offer { Inner i; KeyedWorld& w; Offer(KeyedWorld& w_, const Ints& m) : w(w_) { w.build(i, m); } };

    Deep content(Outer& o) {
        Deep r;
        for (Outer::const_iterator it = o.cbegin(); it != o.cend(); ++it) { r.push_back(read(*it)); if (r.size() > 3000) S.fatal(base, "outer set does not end"); }
        if (o.size() != r.size() || o.empty() != r.empty()) S.fail(base, "outer set claims %zu elements, iteration finds %zu", o.size(), r.size());
        size_t k = r.size();
        Outer::const_iterator b = o.cend();
        while (k > 0) { --b; --k; if (read(*b) != r[k]) { S.fail(base, "outer set reads differently backwards"); return r; } }
        return r;
    }
    Outer::const_iterator pos_of(Outer& o, int k) { Outer::const_iterator it = o.cbegin(); while (k-- > 0) ++it; return it; }
    static size_t index(const Deep& d, const Ints& v) { return size_t(std::lower_bound(d.begin(), d.end(), v) - d.begin()); }
    static bool has(const Deep& d, const Ints& v) { return std::binary_search(d.begin(), d.end(), v); }

    void settle(Slot& x, const char* op, bool ok, const Deep& after, bool partial, u32 tags) {
        Deep now = content(*x.o);
        if (ok) {
            if (now != after) S.fail(tags | P(NEST) | P(CAUSE) | P(SET), "%s succeeded: expected %s, got %s", op, show(after).c_str(), show(now).c_str());
        } else {
            bool good = now == x.m || (partial && std::includes(after.begin(), after.end(), now.begin(), now.end()));
            if (!good) S.fail(P(VALID) | P(NEST) | (partial ? 0 : P(STRONG)) | tags, "%s failed: was %s, would be %s, is %s", op, show(x.m).c_str(), show(after).c_str(), show(now).c_str());
        }
        x.m = now;
    }
    void shape(Slot& x, int pos) { size_t n = x.m.size(); S.shape = u32((n > 15 ? 15 : n) * 8 + (pos < 0 ? 7 : pos == 0 ? 0 : size_t(pos) == n ? 1 : 2)); }
    void nofail(const char* op) { if (S.alloc_requests || S.ctors) S.fail(P(NOFAIL), "%s cannot report errors, but asked for memory or constructed elements", op); }
    bool only_memory_failed() { if (S.allocs) return false; for (size_t i = 0; i < S.fired.size(); ++i) if (S.fired[i].kind != F_ALLOC) return false; return true; }

    void start() override {
        for (int i = 0; i < SLOTS; ++i) s[i].o = new (raw()) Outer(SimAlloc<Inner>(i + 1));
#if SHARED
        for (int i = 0; i < POOL; ++i) { Err e; SimAlloc<E> a(1); pool[i] = new (room(sizeof(Inner))) Inner(nestl::make_shared_a_nothrow<E>(e, a, i + 1)); }
#endif
    }

    bool insert(Slot& x, const char* name, const Ints& v, const Inner* copy, Inner* move) {
        Outer& o = *x.o;
        Deep after = x.m;
        const size_t at = index(after, v);
        const bool fresh = !has(after, v);
        const void* old = fresh ? 0 : &*pos_of(o, int(at));
        if (fresh) after.insert(after.begin() + long(at), v);
        Err err;
        S.begin(name, base | P(STRONG)); shape(x, int(at));
        std::pair<Outer::iterator, bool> r = copy ? o.insert_nothrow(err, *copy) : o.insert_nothrow(err, std::move(*move));
        S.end();
        bool ok = judge(err, name);
        settle(x, name, ok, after, false, 0);
        if (!S.failures.empty()) return false;
        if (ok && (r.second != fresh || r.first == o.end() || read(*r.first) != v || (old && &*r.first != old) || r.first != pos_of(o, int(at))))
            S.fail(P(SET) | P(NEST), "%s did not tell where the element is, or whether it was there before", name);
        return ok;
    }

    void step(const Step& st) override {
        Slot& x = s[pick(st.a, SLOTS)];
        Slot& y = s[1 - pick(st.a, SLOTS)];
        Outer& o = *x.o;
        const int n = int(x.m.size());
        const int own = n ? pick(st.d, n) : -1;
        const char* name = op_table[st.op].name;
        switch (st.op) {
        case OP_insert_copy: case OP_insert_move: {
            if (n > 60) return;
            Ints v = random(st.b, st.d);
            Offer a(*this, v);
            bool ok = insert(x, name, v, st.op == OP_insert_copy ? &a.i : 0, &a.i);
            if ((st.op == OP_insert_copy || (!ok && only_memory_failed())) && S.failures.empty() && read(a.i) != v) S.fail(P(STRONG) | P(NEST), "%s: the offered container was consumed", name);
            break;
        }
        case OP_insert_own: {
            if (!n) return;
            Ints v = x.m[size_t(own)];
            insert(x, name, v, &*pos_of(o, own), 0);
            break;
        }
        case OP_fill: {
            for (int k = 0; k < 6 + pick(st.c, 20) && S.failures.empty() && x.m.size() < 60; ++k) { Ints v = random(st.b + k, st.d + k * 11); Offer a(*this, v); insert(x, name, v, &a.i, 0); }
            break;
        }
        case OP_erase_at: {
            if (!n) return;
            Deep after = x.m; after.erase(after.begin() + own);
            Outer::const_iterator where = pos_of(o, own), next = pos_of(o, own + 1);
            S.begin(name, base | P(NOFAIL)); shape(x, own);
            Outer::const_iterator r = o.erase(where);
            S.end();
            nofail(name);
            settle(x, name, true, after, false, P(NOFAIL));
            if (S.failures.empty() && r != next) S.fail(P(SET) | P(NEST), "%s did not return the element after the erased one", name);
            break;
        }
        case OP_erase_key: case OP_erase_own_key: case OP_find: {
            if (st.op == OP_erase_own_key && !n) return;
            Ints v = st.op == OP_erase_own_key || (n && (st.c & 1)) ? x.m[size_t(own)] : random(st.b, st.d);
            Offer a(*this, st.op == OP_erase_own_key ? Ints() : v);
            const Inner& key = st.op == OP_erase_own_key ? *pos_of(o, own) : a.i;
            const bool there = has(x.m, v);
            const int at = int(index(x.m, v));
            Deep after = x.m;
            if (st.op != OP_find && there) after.erase(after.begin() + at);
            S.begin(name, base | P(NOFAIL)); shape(x, at);
            size_t count = 0; bool found = false;
            if (st.op == OP_find) { Outer::iterator r = o.find(key); const Outer& k = o; found = r == pos_of(o, there ? at : n) && k.find(key) == pos_of(o, there ? at : n); }
            else count = o.erase(key);
            S.end();
            nofail(name);
            settle(x, name, true, after, false, st.op == OP_find ? 0 : P(NOFAIL));
            if (S.failures.empty() && (st.op == OP_find ? !found : count != size_t(there))) S.fail(P(SET) | P(NEST), "%s of %s: wrong result", name, show(v).c_str());
            if (st.op != OP_erase_own_key && S.failures.empty() && read(a.i) != v) S.fail(P(NEST) | P(SET), "%s changed the key it was given", name);
            break;
        }
        case OP_copy: case OP_copy_self: {
            Slot& src = st.op == OP_copy ? y : x;
            Err err;
            S.begin(name, base | P(BULK)); shape(x, int(src.m.size()));
            o.copy_nothrow(err, *src.o);
            S.end();
            settle(x, name, judge(err, name), Deep(src.m), true, P(BULK));
            break;
        }
        case OP_clear: S.begin(name, base | P(NOFAIL)); o.clear(); S.end(); nofail(name); settle(x, name, true, Deep(), false, P(NOFAIL)); break;
        case OP_move_assign: {
            S.begin(name, base | P(NOFAIL)); o = std::move(*y.o); S.end(); nofail(name);
            settle(x, name, true, Deep(y.m), false, P(NOFAIL)); settle(y, name, true, Deep(), false, P(NOFAIL));
            break;
        }
        case OP_move_construct: {
            Outer* old = x.o;
            Deep was = x.m;
            Outer* now = raw();
            S.begin(name, base | P(NOFAIL)); new (now) Outer(std::move(*old)); S.end(); nofail(name);
            settle(x, name, true, Deep(), false, P(NOFAIL));
            S.begin(name, base | P(NOFAIL)); old->~Outer(); S.end(); nofail(name);
            free(old);
            x.o = now;
            settle(x, name, true, was, false, P(NOFAIL));
            break;
        }
        }
    }

    void check() override {
        size_t total = 0;
        Ints uses(POOL + 1, 1);
        for (int i = 0; i < SLOTS; ++i) {
            Deep now = content(*s[i].o);
            if (now != s[i].m) S.fail(base & ~(P(LIFE) | P(MEM)), "set %d changed by an operation on another one: expected %s, got %s", i, show(s[i].m).c_str(), show(now).c_str());
            S.mix(now.size());
            for (size_t j = 0; j < now.size(); ++j) { total += now[j].size(); S.mix(now[j].size()); for (size_t k = 0; k < now[j].size(); ++k) { S.mix(u64(now[j][k])); if (SHARED) ++uses[size_t(now[j][k])]; } }
        }
#if SHARED
        total = POOL;
        for (int i = 0; i < POOL && S.failures.empty(); ++i)
            if (pool[i]->use_count() != uses[size_t(i + 1)]) S.fail(P(OWN) | P(NEST), "shared object %d has use count %ld, %d handles exist", i, pool[i]->use_count(), uses[size_t(i + 1)]);
#endif
        if (S.elems.size() != total) S.fail(P(LIFE) | P(NEST) | (S.faults_in_run ? P(VALID) : 0), "%zu elements are alive, the sets hold %zu", S.elems.size(), total);
    }

    void recover() override {
        for (int i = 0; i < SLOTS && S.failures.empty(); ++i) for (int k = 0; k < 3 && S.failures.empty(); ++k) {
            Ints v = random(k + 1, k * 5);
            Offer a(*this, v);
            if (!insert(s[i], "keyed.recover", v, &a.i, 0) && S.failures.empty()) S.fail(P(VALID), "set does not work although nothing fails any more");
        }
    }

    void finish() override {
        for (int i = 0; i < SLOTS; ++i) { S.begin("keyed.destroy", base | P(NOFAIL)); s[i].o->~Outer(); S.end(); nofail("keyed.destroy"); free(s[i].o); s[i].m.clear(); }
#if SHARED
        for (int i = 0; i < POOL; ++i) {
            if (S.failures.empty() && pool[i]->use_count() != 1) S.fail(P(OWN) | P(NEST), "destroyed sets left owners behind");
            S.begin("keyed.destroy", base); pool[i]->~Inner(); S.end(); free(pool[i]);
        }
#endif
    }
};

static World* make_world() { return new KeyedWorld; }
static const char* variant() {
    static char b[160];
    snprintf(b, sizeof b, "%d/set of %s/%s/%s", VARIANT, SHARED ? "shared_ptr" : INNER_SET ? "set" : (VARIANT == 1 || VARIANT == 3) ? "list" : "vector", E::name(), name_of((Err*)0));
    return b;
}
const WorldDef the_world = {"keyed", op_table, OP_COUNT, make_world, variant, !never_fails<E>::value, false, VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim
