// World: shared and weak handles over a graph of nodes whose destructors act back on the handles, under an adversarial
// heap and failing constructors. The model is the set of handles: a node must be alive exactly as long as an owning
// handle reaches it, its memory must be there exactly as long as an owning or a weak handle names it.
#include "seams.hpp"
#include <memory>
#include <nestl/shared_ptr.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
enum { KIND = E_THR }; typedef SimError Err;
#elif VARIANT == 1
enum { KIND = E_THR }; typedef nestl::default_operation_error Err;
#elif VARIANT == 3
enum { KIND = E_TWO }; typedef SimError Err;
#elif VARIANT == 4
enum { KIND = E_TWO }; typedef nestl::default_operation_error Err;
#elif VARIANT == 6
enum { KIND = E_PLAIN }; typedef SimError Err;
#endif

enum { VALUES = 40, NS = 5, NW = 4, ND = 2, NWD = 1 };

struct Node;
struct Derived;
typedef nestl::shared_ptr<Node> SP;
typedef nestl::weak_ptr<Node> WP;
typedef nestl::shared_ptr<Derived> DP;
typedef nestl::weak_ptr<Derived> DW;

enum Script { SC_NONE, SC_DROP_SLOT, SC_DROP_WEAK, SC_COPY_WEAK, SC_LOCK, SC_DROP_ALL_WEAK, SC_COUNT };

struct Node : Core<KIND> {
    SP next;
    DP kin;
    WP back;
    int id, script, arg;
    typedef Core<KIND> C;
#if VARIANT < 3
    explicit Node(int x) : C(may_throw(x, S.copy_point(x))), id(-1), script(0), arg(0) {}
#elif VARIANT == 6
    explicit Node(int x) noexcept : C(x), id(-1), script(0), arg(0) {}
#else
    Node() noexcept : C(0), id(-1), script(0), arg(0) {}
#endif
    Node(const Node&) = delete;
    ~Node();
};
struct Pad { u64 pad[3]; Pad() noexcept { pad[0] = pad[1] = pad[2] = 0x5a5a5a5a5a5a5a5aull; } ~Pad() { if (pad[1] != 0x5a5a5a5a5a5a5a5aull) S.fail(P(OWN) | P(MEM), "memory of a shared object was overwritten"); } };
struct Derived : Pad, Node { // the base is not at the start of the object
#if VARIANT < 3 || VARIANT == 6
    explicit Derived(int x) noexcept(VARIANT == 6) : Node(x) {}
#else
    Derived() noexcept {}
#endif
};

} // namespace sim

#if VARIANT == 3 || VARIANT == 4
namespace nestl {
template <> struct two_phase_initializator<sim::Node> {
    template <class Err> static void init(Err& err, sim::Node& d, int x) noexcept {
        d.value("two-phase target");
        sim::u32 id = sim::S.copy_point(x);
        if (id) { d.v = sim::V_HALF; sim::report_init(err, id); return; }
        d.v = x;
    }
};
template <> struct two_phase_initializator<sim::Derived> {
    template <class Err> static void init(Err& err, sim::Derived& d, int x) noexcept { two_phase_initializator<sim::Node>::init(err, d, x); }
};
}
#endif

namespace sim {

#define OPS(X) \
    X(make, 14, P(STRONG) | P(ALLOC) | P(MEM)) X(push_front, 8, P(STRONG) | P(OWN)) X(make_derived, 5, P(STRONG) | P(ALLOC)) \
    X(copy_assign, 5, P(OWN)) X(move_assign, 5, P(OWN)) X(copy_construct, 2, P(OWN)) X(move_construct, 2, P(OWN)) \
    X(self_assign, 1, P(OWN)) X(move_self, 1, P(OWN)) X(reset, 7, P(OWN)) X(assign_null, 2, P(OWN)) X(swap, 2, P(OWN)) \
    X(convert_assign, 2, P(OWN)) X(convert_move, 2, P(OWN)) X(convert_construct, 2, P(OWN)) X(derived_copy, 1, P(OWN)) X(derived_reset, 2, P(OWN)) \
    X(weak_from, 5, P(WEAK)) X(weak_construct, 2, P(WEAK)) X(weak_copy, 3, P(WEAK)) X(weak_move, 3, P(WEAK)) X(weak_copy_construct, 2, P(WEAK)) \
    X(weak_move_construct, 2, P(WEAK)) X(weak_self, 1, P(WEAK)) X(weak_move_self, 1, P(WEAK)) X(weak_reset, 4, P(WEAK)) X(lock, 5, P(WEAK)) \
    X(lock_lose, 3, P(WEAK)) X(weak_derived, 2, P(WEAK)) X(lock_derived, 2, P(WEAK)) \
    X(link, 6, P(OWN)) X(link_move, 3, P(OWN)) X(unlink, 2, P(OWN)) X(advance, 4, P(OWN)) X(advance_move, 4, P(OWN)) X(splice_out, 2, P(OWN)) X(splice_out_move, 2, P(OWN)) \
    X(kin_link, 4, P(OWN)) X(kin_unlink, 1, P(OWN)) X(kin_advance, 3, P(OWN)) X(kin_advance_move, 3, P(OWN)) X(kin_take, 2, P(OWN)) X(kin_take_move, 2, P(OWN)) X(kin_convert, 2, P(OWN)) X(kin_weak, 1, P(WEAK)) X(back_self, 3, P(WEAK)) X(back_to, 4, P(WEAK)) X(back_take, 2, P(WEAK)) X(back_copy, 2, P(WEAK)) X(back_reset, 1, P(WEAK)) X(script, 7, P(OWN) | P(WEAK)) X(observe, 2, P(OWN) | P(WEAK)) \
    X(crowd, 2, P(OWN)) X(weak_crowd, 2, P(WEAK)) X(disperse, 3, P(OWN)) X(weak_disperse, 3, P(WEAK))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#define X(n, w, f) {"shared." #n, w, f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

struct Obj {
    Node* at;
    bool derived, dead;
    int next, kin, back;  // mirrors of the handles inside
    std::vector<std::pair<uintptr_t, u64> > mem;  // blocks taken while it was made
};

template <class H> struct Hand { H* h; int t; bool busy; };

struct SharedWorld;
static thread_local SharedWorld* world;

struct SharedWorld : World {
    std::vector<Obj> objs;
    Hand<SP> s[NS]; Hand<DP> d[ND];
    Hand<WP> w[NW]; Hand<DW> wd[NWD];
    // a great many handles of one object
    std::vector<SP*> crowd; std::vector<WP*> weak_crowd;
    int crowd_t, weak_crowd_t;

    static const u32 base = (1u << OWN) | (1u << WEAK) | (1u << LIFE) | (1u << MEM);

    template <class H> static void fresh(Hand<H>& x) { x.h = new (room(sizeof(H))) H(); x.t = -1; x.busy = false; }

    void start() override {
        world = this;
        crowd_t = weak_crowd_t = -1;
        for (int i = 0; i < NS; ++i) fresh(s[i]);
        for (int i = 0; i < ND; ++i) fresh(d[i]);
        for (int i = 0; i < NW; ++i) fresh(w[i]);
        for (int i = 0; i < NWD; ++i) fresh(wd[i]);
    }

    // ---- model
    std::vector<char> reach() const {
        std::vector<char> r(objs.size(), 0);
        std::vector<int> q;
        for (int i = 0; i < NS; ++i) if (s[i].t >= 0) q.push_back(s[i].t);
        for (int i = 0; i < ND; ++i) if (d[i].t >= 0) q.push_back(d[i].t);
        if (crowd_t >= 0) q.push_back(crowd_t);
        while (!q.empty()) {
            int i = q.back(); q.pop_back();
            if (r[size_t(i)]) continue;
            r[size_t(i)] = 1;
            if (objs[size_t(i)].next >= 0) q.push_back(objs[size_t(i)].next);
            if (objs[size_t(i)].kin >= 0) q.push_back(objs[size_t(i)].kin);
        }
        return r;
    }
    bool leads(int from, int to) const { // is to reachable from from
        std::vector<char> r(objs.size(), 0);
        std::vector<int> q(1, from);
        while (!q.empty()) {
            int i = q.back(); q.pop_back();
            if (i < 0 || r[size_t(i)]) continue;
            if (i == to) return true;
            r[size_t(i)] = 1;
            q.push_back(objs[size_t(i)].next); q.push_back(objs[size_t(i)].kin);
        }
        return false;
    }
    void counts(const std::vector<char>& live, std::vector<long>& strong, std::vector<long>& weak) const {
        strong.assign(objs.size(), 0); weak.assign(objs.size(), 0);
        for (int i = 0; i < NS; ++i) if (s[i].t >= 0) ++strong[size_t(s[i].t)];
        for (int i = 0; i < ND; ++i) if (d[i].t >= 0) ++strong[size_t(d[i].t)];
        for (int i = 0; i < NW; ++i) if (w[i].t >= 0) ++weak[size_t(w[i].t)];
        for (int i = 0; i < NWD; ++i) if (wd[i].t >= 0) ++weak[size_t(wd[i].t)];
        if (crowd_t >= 0) strong[size_t(crowd_t)] += long(crowd.size());
        if (weak_crowd_t >= 0) weak[size_t(weak_crowd_t)] += long(weak_crowd.size());
        for (size_t i = 0; i < objs.size(); ++i) if (live[i]) {
            if (objs[i].next >= 0) ++strong[size_t(objs[i].next)];
            if (objs[i].kin >= 0) ++strong[size_t(objs[i].kin)];
            if (objs[i].back >= 0) ++weak[size_t(objs[i].back)];
        }
    }

    // ---- called from inside ~Node, in the middle of a library operation
    void dying(Node& n) {
        Harness h;
        if (n.id < 0) return; // never handed out
        Obj& o = objs[size_t(n.id)];
        if (o.dead) S.fail(P(OWN) | P(LIFE), "shared value destroyed twice");
        o.dead = true;
        if (o.at != &n) S.fail(P(OWN), "shared value destroyed at another address");
        if (reach()[size_t(n.id)]) S.fail(P(OWN), "shared value destroyed while an owner is left");
        switch (n.script) {
        case SC_DROP_SLOT: { Hand<SP>& x = s[pick(n.arg, NS)]; if (!x.busy) { x.t = -1; S.probe("destructor-drops-owner"); lib([&] { x.h->reset(); }); } break; }
        case SC_DROP_WEAK: { Hand<WP>& x = w[pick(n.arg, NW)]; if (!x.busy) { x.t = -1; S.probe("destructor-drops-weak"); lib([&] { x.h->reset(); }); } break; }
        case SC_DROP_ALL_WEAK: for (int i = 0; i < NW; ++i) if (!w[i].busy) { w[i].t = -1; lib([&] { w[i].h->reset(); }); } S.probe("destructor-drops-all-weak"); break;
        case SC_COPY_WEAK: {
            Hand<WP>& x = w[pick(n.arg, NW)]; Hand<WP>& y = w[pick(n.arg / NW, NW)];
            if (!x.busy && !y.busy && &x != &y) { x.t = y.t; S.probe("destructor-copies-weak"); lib([&] { *x.h = *y.h; }); }
            break;
        }
        default: break;
        }
        // nothing that names the dying value may revive it
        for (int i = 0; i < NW; ++i) if (!w[i].busy && w[i].t == n.id) no_revival(*w[i].h);
        if (objs[size_t(n.id)].back == n.id) no_revival(n.back);
    }
    void no_revival(WP& x) {
        bool gone = true;
        S.probe("lock-inside-destructor");
        lib([&] { SP p = x.lock(); gone = p.get() == nullptr && !p && x.expired() && x.use_count() == 0; if (!gone && p.get()) leak(p); });
        if (!gone) S.fail(P(WEAK) | P(OWN), "a weak handle revived a value whose destructor is running");
    }
    static void leak(SP& p) { ::new (room(sizeof(SP))) SP(std::move(p)); } // do not destroy it again
    template <class F> static void lib(F f) { int k = S.harness; S.harness = 0; f(); S.harness = k; }

    static size_t crowd_size(int a, int b) { return a % 10 < 6 ? size_t(3 + b % 40) : a % 10 < 9 ? size_t(120 + b % 300) : a % 20 < 10 ? 32800 : 65600; }
    template <class H, class From> void gather(std::vector<H*>& c, int& ct, int t, const From& from, size_t n, const char* name) {
        if (ct >= 0 || t < 0) return;
        c.resize(n);
        for (size_t i = 0; i < n; ++i) c[i] = static_cast<H*>(room(sizeof(H)));
        ct = t;
        open(name); for (size_t i = 0; i < n; ++i) new (c[i]) H(from); close(name);
    }
    template <class H> void scatter(std::vector<H*>& c, int& ct, size_t leave, const char* name) {
        if (ct < 0) return;
        open(name);
        while (c.size() > leave) { H* h; { Harness g; h = c.back(); c.pop_back(); if (c.empty()) ct = -1; } h->~H(); { Harness g; free(h); } }
        close(name);
    }
    // ---- operations
    void open(const char* name, u32 extra = 0) {
        S.begin(name, base | P(NOFAIL) | extra);
        int used = 0; for (int i = 0; i < NS; ++i) used += s[i].t >= 0;
        int alive = 0; for (size_t i = 0; i < objs.size(); ++i) alive += !objs[i].dead;
        S.shape = u32(used * 16 + (alive > 15 ? 15 : alive));
    }
    void close(const char* name) {
        S.end();
        if (S.alloc_requests) S.fail(P(NOFAIL), "%s cannot report errors, but asked for memory", name);
    }

    template <class T> void make(Hand<nestl::shared_ptr<T> >& x, const char* name, const Step& st, bool derived) {
        if (objs.size() > 120) return;
        int how = pick(st.b, 4), v = 1 + pick(st.c, VALUES);
        int arena = how < 2 ? how + 1 : 0;
        u64 before = S.block_serial;
        Err err;
        typedef nestl::shared_ptr<T> H;
        H* raw = static_cast<H*>(room(sizeof(H)));
        S.begin(name, base | P(STRONG) | P(ALLOC)); S.op_arena = arena; S.shape = u32(how + 4 * derived);
        if (how < 2) {
            SimAlloc<T> a(arena);
            new (raw) H(nestl::make_shared_a_nothrow<T>(err, a, v));
        } else if (how == 2) {
            new (raw) H(nestl::make_shared_nothrow<T>(err, v));
        } else {
            nestl::allocator<T> a;
            new (raw) H(nestl::make_shared_a_nothrow<T>(err, a, v));
        }
        S.end();
        if (judge(err, name)) {
            if (!raw->get()) S.fatal(P(OWN) | P(CAUSE), "%s succeeded without an object", name);
            Obj o; o.at = raw->get(); o.derived = derived; o.dead = false; o.next = o.kin = o.back = -1;
            for (Sim::BlockMap::iterator i = S.blocks.begin(); i != S.blocks.end(); ++i) if (i->second.serial > before) o.mem.push_back(std::make_pair(i->first, i->second.serial));
            if (raw->get()->value("read") != v) S.fail(P(OWN) | P(CAUSE), "%s made a wrong value", name);
            if (uintptr_t(raw->get()) % alignof(T)) S.fail(P(OWN) | P(MEM), "%s: misaligned object", name);
            Block* b = S.block_of(raw->get());
            if (!b || uintptr_t(raw->get() + 1) > block_end(raw->get())) S.fail(P(OWN) | P(MEM), "%s: the object does not lie in allocated memory", name);
            raw->get()->id = int(objs.size());
            objs.push_back(o);
            x.t = int(objs.size()) - 1; x.busy = true;
            open("shared.take"); *x.h = std::move(*raw); close("shared.take");
            x.busy = false;
        } else {
            if (raw->get() || raw->use_count() || *raw) S.fail(P(STRONG) | P(CAUSE), "%s failed, but returned an object", name);
            for (Sim::BlockMap::iterator i = S.blocks.begin(); i != S.blocks.end(); ++i)
                if (i->second.serial > before && err_needs_no_memory()) S.fail(P(MEM) | P(STRONG), "%s failed and kept memory", name);
        }
        open("shared.drop_result"); raw->~H(); close("shared.drop_result");
        free(raw);
    }
    static bool err_needs_no_memory() { return std::is_same<Err, SimError>::value; }
    uintptr_t block_end(const void* p) {
        Sim::BlockMap::iterator it = S.blocks.upper_bound(uintptr_t(p));
        if (it == S.blocks.begin()) return 0;
        --it;
        return it->first + it->second.bytes;
    }
    int alive_target(int t) const { return t >= 0 && !objs[size_t(t)].dead ? t : -1; }

    // destroy the handle and construct it anew
    template <class H, class T, class F> void rebuild(Hand<H>& x, const char* name, T target, F build) {
        x.t = -1; x.busy = true;
        open(name); x.h->~H(); close(name);
        target(); // the destructor may have changed the source
        open(name); build(x.h); close(name);
        x.busy = false;
    }

    void step(const Step& st) override {
        for (int i = 0; i < NS; ++i) s[i].busy = false;
        for (int i = 0; i < NW; ++i) w[i].busy = false;
        int xi = pick(st.a, NS), yi = pick(st.b, NS);
        if (st.op >= OP_link) { // these need a value
            for (int k = 0; k < NS && s[xi].t < 0; ++k) xi = (xi + 1) % NS;
            for (int k = 0; k < NS && s[yi].t < 0; ++k) yi = (yi + 1) % NS;
        }
        Hand<SP>& x = s[xi];
        Hand<SP>& y = s[yi];
        Hand<WP>& u = w[pick(st.a, NW)];
        Hand<WP>& q = w[pick(st.c, NW)];
        Hand<DP>& dx = d[pick(st.c, ND)];
        const char* name = op_table[st.op].name;
        Node* node = x.h->get();
        Obj* o = x.t >= 0 ? &objs[size_t(x.t)] : 0;
        if (st.op >= OP_link && st.op <= OP_back_reset) x.busy = true; // the value whose member is operated on must live
        switch (st.op) {
        case OP_make: make<Node>(x, name, st, false); break;
        case OP_push_front: { // a new value that owns the present one
            Hand<SP>& z = s[pick(st.a + 1, NS)];
            size_t had = objs.size();
            make<Node>(z, name, st, false);
            if (objs.size() == had || !S.failures.empty() || x.t < 0 || z.t != int(had)) break; // failed, or the destructor of the replaced value dropped a handle
            Obj& n = objs[had];
            z.busy = true;
            n.next = x.t; x.t = -1; open(name); n.at->next = std::move(*x.h); close(name);
            x.busy = true;
            x.t = z.t; z.t = -1; open(name); *x.h = std::move(*z.h); close(name);
            z.busy = false;
            break;
        }
        case OP_make_derived: make<Derived>(d[pick(st.a, ND)], name, st, true); break;
        case OP_copy_assign: if (&x == &y) return; x.busy = true; x.t = y.t; open(name); *x.h = *y.h; close(name); break;
        case OP_move_assign: if (&x == &y) return; x.busy = true; x.t = y.t; y.t = -1; open(name); *x.h = std::move(*y.h); close(name); break;
        case OP_self_assign: { SP& alias = *x.h; x.busy = true; open(name); *x.h = alias; close(name); break; }
        case OP_move_self: { SP& alias = *x.h; x.busy = true; open(name); *x.h = std::move(alias); close(name); break; }
        case OP_copy_construct: if (&x == &y) return; rebuild(x, name, [&] { x.t = y.t; }, [&](SP* at) { new (at) SP(*y.h); }); break;
        case OP_move_construct: if (&x == &y) return; rebuild(x, name, [&] { x.t = y.t; y.t = -1; }, [&](SP* at) { new (at) SP(std::move(*y.h)); }); break;
        case OP_reset: x.busy = true; x.t = -1; open(name); x.h->reset(); close(name); break;
        case OP_assign_null: x.busy = true; x.t = -1; open(name); *x.h = nullptr; close(name); break;
        case OP_swap: { x.busy = y.busy = true; std::swap(x.t, y.t); open(name); x.h->swap(*y.h); close(name); y.busy = false; break; }
        case OP_convert_assign: x.busy = true; x.t = dx.t; open(name); *x.h = *dx.h; close(name); break;
        case OP_convert_move: x.busy = true; x.t = dx.t; dx.t = -1; open(name); *x.h = std::move(*dx.h); close(name); break;
        case OP_convert_construct: rebuild(x, name, [&] { x.t = dx.t; }, [&](SP* at) { new (at) SP(*dx.h); }); break;
        case OP_derived_copy: { Hand<DP>& dy = d[pick(st.c + 1, ND)]; dx.busy = true; dx.t = dy.t; open(name); *dx.h = *dy.h; close(name); dx.busy = false; break; }
        case OP_derived_reset: dx.busy = true; dx.t = -1; open(name); dx.h->reset(); close(name); dx.busy = false; break;
        // weak handles
        case OP_weak_from: u.busy = true; u.t = y.t; open(name); *u.h = *y.h; close(name); break;
        case OP_weak_construct: rebuild(u, name, [&] { u.t = y.t; }, [&](WP* at) { new (at) WP(*y.h); }); break;
        case OP_weak_copy: if (&u == &q) return; u.busy = true; u.t = q.t; open(name); *u.h = *q.h; close(name); break;
        case OP_weak_move: if (&u == &q) return; u.busy = true; u.t = q.t; q.t = -1; open(name); *u.h = std::move(*q.h); close(name); break;
        case OP_weak_copy_construct: if (&u == &q) return; rebuild(u, name, [&] { u.t = q.t; }, [&](WP* at) { new (at) WP(*q.h); }); break;
        case OP_weak_move_construct: if (&u == &q) return; rebuild(u, name, [&] { u.t = q.t; q.t = -1; }, [&](WP* at) { new (at) WP(std::move(*q.h)); }); break;
        case OP_weak_self: { WP& alias = *u.h; open(name); *u.h = alias; close(name); break; }
        case OP_weak_move_self: { WP& alias = *u.h; open(name); *u.h = std::move(alias); close(name); break; }
        case OP_weak_reset: u.busy = true; u.t = -1; open(name); u.h->reset(); close(name); break;
        case OP_weak_derived: wd[0].t = dx.t; open(name); wd[0].h->operator=(*dx.h); close(name); break;
        case OP_lock: x.busy = true; x.t = alive_target(q.t); open(name); *x.h = q.h->lock(); close(name); break;
        case OP_lock_lose: { // the last owner goes while the locked handle lives
            int t = alive_target(q.t);
            SP* raw = static_cast<SP*>(room(sizeof(SP)));
            Hand<SP> tmp; tmp.h = raw; tmp.t = t; tmp.busy = false;
            open(name); new (raw) SP(q.h->lock()); close(name);
            if (t >= 0 ? raw->get() != objs[size_t(t)].at : raw->get() != nullptr) S.fail(P(WEAK), "lock returned %s", raw->get() ? "an object although none is left" : "nothing although an owner is left");
            x.busy = true;
            x.t = t;
            open(name); *x.h = std::move(*raw); close(name);
            open(name); raw->~SP(); close(name);
            free(raw);
            break;
        }
        case OP_lock_derived: dx.busy = true; dx.t = alive_target(wd[0].t); open(name); *dx.h = wd[0].h->lock(); close(name); dx.busy = false; break;
        // handles inside of nodes
        case OP_link: if (!node || y.t < 0 || leads(y.t, x.t)) return; o->next = y.t; open(name); node->next = *y.h; close(name); break;
        case OP_link_move: if (!node || &x == &y || y.t < 0 || leads(y.t, x.t)) return; o->next = y.t; y.t = -1; open(name); node->next = std::move(*y.h); close(name); break;
        case OP_unlink: if (!node) return; o->next = -1; open(name); node->next.reset(); close(name); break;
        case OP_advance: if (!node) return; x.busy = true; x.t = o->next; open(name); *x.h = node->next; close(name); break;
        case OP_advance_move: { // takes the handle out of a value that this very assignment destroys
            if (!node) return;
            x.busy = true; x.t = o->next; o->next = -1; open(name); *x.h = std::move(node->next); close(name); break;
        }
        case OP_splice_out: { if (!node || o->next < 0) return; Node* m = objs[size_t(o->next)].at; o->next = objs[size_t(o->next)].next; open(name); node->next = m->next; close(name); break; }
        case OP_splice_out_move: { if (!node || o->next < 0) return; Obj& n = objs[size_t(o->next)]; o->next = n.next; n.next = -1; open(name); node->next = std::move(n.at->next); close(name); break; }
        case OP_kin_link: if (!node || dx.t < 0 || leads(dx.t, x.t)) return; o->kin = dx.t; open(name); node->kin = *dx.h; close(name); break;
        case OP_kin_unlink: if (!node) return; o->kin = -1; open(name); node->kin.reset(); close(name); break;
        case OP_kin_advance: if (!node) return; x.t = o->kin; open(name); *x.h = node->kin; close(name); break; // converted out of a value that this assignment may destroy
        case OP_kin_advance_move: if (!node) return; x.t = o->kin; o->kin = -1; open(name); *x.h = std::move(node->kin); close(name); break;
        case OP_kin_take: if (dx.t < 0) return; { Obj& k = objs[size_t(dx.t)]; Derived* at = dx.h->get(); dx.busy = true; dx.t = k.kin; open(name); *dx.h = at->kin; close(name); dx.busy = false; } break;
        case OP_kin_take_move: if (dx.t < 0) return; { Obj& k = objs[size_t(dx.t)]; Derived* at = dx.h->get(); dx.busy = true; dx.t = k.kin; k.kin = -1; open(name); *dx.h = std::move(at->kin); close(name); dx.busy = false; } break;
        case OP_kin_convert: if (!node || o->kin < 0) return; o->next = o->kin; open(name); if (st.d & 1) node->next = node->kin; else { o->kin = -1; node->next = std::move(node->kin); } close(name); break;
        case OP_kin_weak: if (!node) return; wd[0].t = o->kin; open(name); wd[0].h->operator=(node->kin); close(name); break;
        case OP_back_self: if (!node) return; o->back = x.t; open(name); node->back = *x.h; close(name); break;
        case OP_back_to: if (!node) return; o->back = q.t; open(name); node->back = *q.h; close(name); break;
        case OP_back_take: if (!node) return; o->back = q.t; q.t = -1; open(name); node->back = std::move(*q.h); close(name); break;
        case OP_back_copy: if (!node) return; q.busy = true; q.t = o->back; open(name); *q.h = node->back; close(name); q.busy = false; break;
        case OP_back_reset: if (!node) return; o->back = -1; open(name); node->back.reset(); close(name); break;
        case OP_script: if (!node) return; node->script = 1 + pick(st.b, SC_COUNT - 1); node->arg = st.c; return;
        case OP_crowd: gather(crowd, crowd_t, y.t, *y.h, crowd_size(st.c, st.b), name); break;
        case OP_weak_crowd: if (st.b & 1) gather(weak_crowd, weak_crowd_t, y.t, *y.h, crowd_size(st.c, st.b), name); else gather(weak_crowd, weak_crowd_t, q.t, *q.h, crowd_size(st.c, st.b), name); break;
        case OP_disperse: scatter(crowd, crowd_t, st.b % 4 ? 0 : crowd.size() / 2, name); break;
        case OP_weak_disperse: scatter(weak_crowd, weak_crowd_t, st.b % 4 ? 0 : weak_crowd.size() / 2, name); break;
        case OP_observe: {
            const SP& cs = *x.h; const WP& cw = *u.h;
            open(name);
            bool good = cs.get() == (x.t >= 0 ? objs[size_t(x.t)].at : nullptr) && (x.t < 0 || (&*cs == cs.get() && cs.operator->() == cs.get())) && bool(cs) == (x.t >= 0) && cs.unique() == (cs.use_count() == 1) && cw.expired() == (alive_target(u.t) < 0) && cw.expired() == (cw.use_count() == 0);
            close(name);
            if (!good) S.fail(P(OWN) | P(WEAK), "observers of handles disagree");
            break;
        }
        }
        x.busy = u.busy = false;
    }
    void check() override {
        std::vector<char> live = reach();
        std::vector<long> strong, weak;
        counts(live, strong, weak);
        size_t alive = 0;
        for (size_t i = 0; i < objs.size(); ++i) {
            Obj& o = objs[i];
            alive += live[i];
            if (live[i] && o.dead) S.fail(P(OWN), "object %zu was destroyed although %ld owners are left", i, strong[i]);
            if (!live[i] && !o.dead) S.fail(P(OWN) | P(LIFE), "object %zu has no owner left, but was not destroyed", i);
            size_t have = 0;
            for (size_t k = 0; k < o.mem.size(); ++k) { Sim::BlockMap::iterator b = S.blocks.find(o.mem[k].first); have += b != S.blocks.end() && b->second.serial == o.mem[k].second; }
            if (live[i] && have != o.mem.size()) S.fail(P(OWN) | P(MEM), "memory of object %zu was released although it is owned", i);
            if (!live[i] && !weak[i] && have) S.fail(P(WEAK) | P(MEM), "memory of object %zu is kept although no handle names it", i);
            if (!live[i] && weak[i] && !have && !o.mem.empty()) S.fail(P(WEAK) | P(MEM), "all memory of object %zu was released although a weak handle names it", i);
            S.mix(u64(live[i])); S.mix(u64(strong[i])); S.mix(u64(weak[i]));
        }
        if (!S.failures.empty()) return;
        if (S.elems.size() != alive) S.fail(P(LIFE), "%zu shared values are alive, %zu are owned", S.elems.size(), alive);
        for (int i = 0; i < NS; ++i) strong_handle(*s[i].h, s[i].t, strong);
        for (int i = 0; i < ND; ++i) strong_handle(*d[i].h, d[i].t, strong);
        for (int i = 0; i < NW; ++i) weak_handle(*w[i].h, w[i].t, strong);
        for (int i = 0; i < NWD; ++i) weak_handle(*wd[i].h, wd[i].t, strong);
        if (crowd_t >= 0) { strong_handle(*crowd.front(), crowd_t, strong); strong_handle(*crowd.back(), crowd_t, strong); }
        if (weak_crowd_t >= 0) { weak_handle(*weak_crowd.front(), weak_crowd_t, strong); weak_handle(*weak_crowd.back(), weak_crowd_t, strong); }
        for (size_t i = 0; i < objs.size(); ++i) if (live[i] && S.failures.empty()) {
            strong_handle(objs[i].at->next, objs[i].next, strong);
            strong_handle(objs[i].at->kin, objs[i].kin, strong);
            weak_handle(objs[i].at->back, objs[i].back, strong);
        }
    }
    template <class H> void strong_handle(const H& h, int t, const std::vector<long>& strong) {
        long want = t >= 0 ? strong[size_t(t)] : 0;
        if (h.get() != (t >= 0 ? objs[size_t(t)].at : nullptr)) { S.fail(P(OWN), "a shared handle names the wrong object"); return; }
        if (h.use_count() != want) S.fail(P(OWN), "use count is %ld, there are %ld owners", h.use_count(), want);
        if (h.unique() != (want == 1) || bool(h) != (want > 0)) S.fail(P(OWN), "unique() or bool disagree with %ld owners", want);
        if (t >= 0) h->value("read through a shared handle");
    }
    template <class H> void weak_handle(H& h, int t, const std::vector<long>& strong) {
        long want = t >= 0 ? strong[size_t(t)] : 0;
        if (h.use_count() != want) S.fail(P(WEAK), "a weak handle counts %ld owners, there are %ld", h.use_count(), want);
        if (h.expired() != (want == 0)) S.fail(P(WEAK), "a weak handle is %sexpired with %ld owners", h.expired() ? "" : "not ", want);
        if (!S.failures.empty()) return;
        auto p = h.lock();
        if (p.get() != (want ? objs[size_t(t)].at : nullptr)) S.fail(P(WEAK), "lock %s", want ? "did not give the object" : "gave an object that has no owner");
        else if (p.use_count() != (want ? want + 1 : 0)) S.fail(P(WEAK) | P(OWN), "lock gave a handle with use count %ld, there are %ld owners", p.use_count(), want + 1);
    }

    void recover() override {
        for (int i = 0; i < NS && S.failures.empty(); ++i) {
            Step st; st.a = i; st.b = i; st.c = 3; st.op = OP_make;
            size_t had = objs.size();
            make<Node>(s[i], "shared.recover", st, false);
            if (S.failures.empty() && had <= 120 && objs.size() == had) S.fail(P(OWN) | P(VALID), "make_shared does not work although nothing fails any more");
        }
    }

    template <class H> void end(Hand<H>& x) { x.t = -1; x.busy = true; open("shared.destroy"); x.h->~H(); close("shared.destroy"); }
    void finish() override {
        scatter(crowd, crowd_t, 0, "shared.destroy");
        scatter(weak_crowd, weak_crowd_t, 0, "shared.destroy");
        for (int i = 0; i < NS; ++i) end(s[i]);
        for (int i = 0; i < ND; ++i) end(d[i]);
        for (int i = 0; i < NW; ++i) end(w[i]);
        for (int i = 0; i < NWD; ++i) end(wd[i]);
        for (int i = 0; i < NS; ++i) free(s[i].h);
        for (int i = 0; i < ND; ++i) free(d[i].h);
        for (int i = 0; i < NW; ++i) free(w[i].h);
        for (int i = 0; i < NWD; ++i) free(wd[i].h);
        for (size_t i = 0; i < objs.size(); ++i) if (!objs[i].dead) S.fail(P(OWN) | P(LIFE), "object %zu outlived all handles", i);
    }
};

Node::~Node() { world->dying(*this); }

static World* make_world() { return new SharedWorld; }
static const char* variant() {
    static char b[128];
    snprintf(b, sizeof b, "%d/%s/%s/sim-allocator+nestl-allocator", VARIANT, Elem<KIND>::name(), name_of((Err*)0));
    return b;
}
const WorldDef the_world = {"shared", op_table, OP_COUNT, make_world, variant, VARIANT != 6, false, VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim

