// World: a recursive type, as users build it: a node holds a value and a container of nodes. Duplicating one node is a
// recursion through the containers that can fail at any depth; growing one container relocates whole subtrees, among
// them the ones an argument of the operation lives in.
#include "seams.hpp"
#include <algorithm>
#include <nestl/list.hpp>
#include <nestl/vector.hpp>
#include <new>

#ifndef VARIANT
#define VARIANT 0
#endif

namespace sim {

#if VARIANT == 0
#define KIDS_VEC 1
#define TWO 0
typedef SimError Err; template <class N> struct Box { typedef nestl::vector<N, SimAlloc<N> > type; };
#elif VARIANT == 1
#define KIDS_VEC 0
#define TWO 0
typedef nestl::default_operation_error Err; template <class N> struct Box { typedef nestl::list<N, SimAlloc<N> > type; };
#elif VARIANT == 2
#define KIDS_VEC 1
#define TWO 0
typedef nestl::default_operation_error Err; template <class N> struct Box { typedef nestl::vector<N, nestl::allocator<N> > type; };
#elif VARIANT == 3
#define KIDS_VEC 1
#define TWO 1
typedef SimError Err; template <class N> struct Box { typedef nestl::impl::vector<N, SimAlloc<N> > type; };
#elif VARIANT == 4
#define KIDS_VEC 0
#define TWO 1
typedef nestl::default_operation_error Err; template <class N> struct Box { typedef nestl::impl::list<N, SimAlloc<N> > type; };
#endif

#if TWO
typedef Elem<E_TWOMV> E;
#else
typedef Elem<E_THRMV> E;
#endif

struct Node {
    E v;
    Box<Node>::type kids;
    Node() noexcept {}
    Node(Node&& o) noexcept : v(std::move(o.v)), kids(std::move(o.kids)) {}
#if TWO
    Node(const Node&) = delete;
#else
    Node(const Node& o) : v(o.v), kids(o.kids) {}
    Node& operator=(Node&& o) noexcept { v = std::move(o.v); kids = std::move(o.kids); return *this; }
    Node& operator=(const Node& o) { Node t(o); *this = std::move(t); return *this; }
#endif
};
typedef Box<Node>::type Kids;

} // namespace sim

#if TWO
namespace nestl {
template <> struct two_phase_initializator<sim::Node> {
    template <class Err> static void init(Err& err, sim::Node& d, const sim::Node& s) noexcept {
        two_phase_initializator<sim::E>::init(err, d.v, s.v);
        if (err) return;
        d.kids.copy_nothrow(err, s.kids);
    }
};
}
#endif

namespace sim {

struct MNode { int v; std::vector<MNode> kids; bool operator==(const MNode& o) const { return v == o.v && kids == o.kids; } };

static void show(const MNode& m, std::string& out) {
    if (out.size() > 300) return;
    char b[24]; snprintf(b, sizeof b, "%d", m.v); out += b;
    if (m.kids.empty()) return;
    out += "(";
    for (size_t i = 0; i < m.kids.size(); ++i) { if (i) out += " "; show(m.kids[i], out); }
    out += ")";
}
static std::string show(const MNode& m) { std::string s; show(m, s); return s; }
static size_t weigh(const MNode& m) { size_t n = 1; for (size_t i = 0; i < m.kids.size(); ++i) n += weigh(m.kids[i]); return n; }

enum { VALUES = 30, ROOTS = 2, LIMIT = 120 };

#define OPS(X) \
    X(add_leaf, 8, P(STRONG) | P(NEST)) X(add_leaf_move, 5, P(STRONG) | P(NEST)) X(insert_leaf, 4, P(NEST)) X(graft_copy, 9, P(STRONG) | P(NEST)) X(graft_move, 5, P(STRONG) | P(NEST)) X(insert_copy, 4, P(NEST)) \
    X(copy_kids, 4, P(BULK)) X(assign_n, 3, P(BULK)) X(promote, 3, P(NOFAIL)) X(swap_kids, 3, P(NOFAIL)) X(prune, 3, P(NOFAIL)) X(copy_root, 3, P(BULK)) X(set_value, 2, P(NEST)) \
    X(reserve, 4, P(CAP)) X(shrink, 2, P(CAP)) X(resize, 3, P(NEST)) \
    X(erase, 3, P(NOFAIL)) X(splice_all, 3, P(NOFAIL)) X(splice_one, 3, P(NOFAIL)) X(pop, 3, P(NOFAIL))

#define X(n, w, f) OP_##n,
enum Op { OPS(X) OP_COUNT };
#undef X
#define VECONLY(i) ((i) >= OP_reserve && (i) <= OP_resize)
#define LISTONLY(i) ((i) >= OP_erase)
#if KIDS_VEC
#define W(n, w) (LISTONLY(OP_##n) ? 0 : w)
#else
#define W(n, w) (VECONLY(OP_##n) ? 0 : w)
#endif
#define X(n, w, f) {"tree." #n, W(n, w), f},
static const OpInfo op_table[] = { OPS(X) };
#undef X

struct TreeWorld : World {
    Node* root[ROOTS];
    MNode m[ROOTS];
    static const u32 base = (1u << NEST) | (1u << LIFE) | (1u << MEM) | (1u << VALID) | (KIDS_VEC ? 1u << VEC : 1u << LIST);

    // ---- the nodes of the forest in preorder
    struct Ref { Node* n; MNode* m; Ref* up; int root, depth; };
    Ref refs[ROOTS * LIMIT + 64];
    int nrefs;
    void gather(Node& n, MNode& mm, Ref* up, int r, int depth) {
        if (nrefs >= ROOTS * LIMIT + 60) return;
        Ref* me = &refs[nrefs++];
        me->n = &n; me->m = &mm; me->up = up; me->root = r; me->depth = depth;
        size_t i = 0;
        for (Kids::iterator it = n.kids.begin(); it != n.kids.end() && i < mm.kids.size(); ++it, ++i) gather(*it, mm.kids[i], me, r, depth + 1);
    }
    void gather() { nrefs = 0; for (int r = 0; r < ROOTS; ++r) gather(*root[r], m[r], 0, r, 0); }
    static bool above(const Ref* a, const Ref* x) { for (; x; x = x->up) if (x == a) return true; return false; } // a is x or an ancestor of it

    size_t seen;
    MNode read(const Node& n, int depth) {
        MNode r; r.v = n.v.get();
        if (++seen > 4000 || depth > 300) S.fatal(base, "the tree does not end");
        for (Kids::const_iterator it = n.kids.cbegin(); it != n.kids.cend(); ++it) r.kids.push_back(read(*it, depth + 1));
        if (n.kids.size() != r.kids.size()) S.fail(base, "container of nodes claims %zu elements, iteration finds %zu", n.kids.size(), r.kids.size());
        return r;
    }
    MNode read(const Node& n) { seen = 0; return read(n, 0); }

    // what the operation yields is in want; after a failure everything is as before if strong, otherwise only x's container may differ
    void settle(const char* op, bool ok, const MNode* want, bool strong, const std::vector<int>& path, int r, u32 tags) {
        for (int k = 0; k < ROOTS && S.failures.empty(); ++k) {
            MNode now = read(*root[k]);
            if (ok) {
                if (!(now == want[k])) S.fail(tags | P(NEST) | P(CAUSE) | (KIDS_VEC ? P(VEC) : P(LIST)), "%s succeeded: expected %s, got %s", op, show(want[k]).c_str(), show(now).c_str());
            } else {
                MNode a = now, b = m[k];
                if (!strong && k == r) { blank(a, path, 0); blank(b, path, 0); }
                if (!(a == b)) S.fail(P(VALID) | P(NEST) | (strong ? P(STRONG) : 0) | tags, "%s failed: was %s, is %s", op, show(m[k]).c_str(), show(now).c_str());
            }
            m[k] = now;
        }
    }
    static void blank(MNode& n, const std::vector<int>& path, size_t at) {
        if (at == path.size()) { n.kids.clear(); return; }
        if (size_t(path[at]) < n.kids.size()) blank(n.kids[size_t(path[at])], path, at + 1);
    }
    static std::vector<int> path_of(const Ref* x) {
        std::vector<int> p;
        for (; x->up; x = x->up) { int i = 0; while (&x->up->m->kids[size_t(i)] != x->m) ++i; p.insert(p.begin(), i); }
        return p;
    }
    static MNode& at(MNode* forest, int r, const std::vector<int>& path) { MNode* n = &forest[r]; for (size_t i = 0; i < path.size(); ++i) n = &n->kids[size_t(path[i])]; return *n; }
    void nofail(const char* op) { if (S.alloc_requests) S.fail(P(NOFAIL), "%s cannot report errors, but asked for memory", op); }
    void shape(const Ref* x) { size_t n = x->m->kids.size(); S.shape = u32((n > 7 ? 7 : n) * 8 + size_t(x->depth > 7 ? 7 : x->depth)); }
    bool only_memory_failed() { if (S.allocs) return false; for (size_t i = 0; i < S.fired.size(); ++i) if (S.fired[i].kind != F_ALLOC) return false; return true; }

    void start() override {
        for (int r = 0; r < ROOTS; ++r) { root[r] = new (room(sizeof(Node))) Node; m[r].v = 0; }
    }

    Kids::const_iterator pos_of(Kids& c, int k) { Kids::const_iterator it = c.cbegin(); while (k-- > 0) ++it; return it; }
    Node& kid(Kids& c, int k) { Kids::iterator it = c.begin(); while (k-- > 0) ++it; return *it; }

    // as the user has it in each mode
    template <class K> static auto copy_(Err& e, K& i, const K& j, char) -> decltype(i.copy_nothrow(e, j), void()) { i.copy_nothrow(e, j); }
    template <class K> static auto copy_(Err& e, K& i, const K& j, int) -> decltype(i.as_noexcept(), void()) { i.as_noexcept().copy_nothrow(e, j.as_noexcept()); }
    template <class K> static void copy_(Err& e, K& i, const K& j, ...) { i.assign_nothrow(e, j.cbegin(), j.cend()); }
    template <class K> static auto swap_(K& i, K& j, char) -> decltype(i.swap(j), void()) { i.swap(j); }
    template <class K> static auto swap_(K& i, K& j, int) -> decltype(i.as_noexcept(), void()) { i.as_noexcept().swap(j.as_noexcept()); }
    template <class K> static void swap_(K& i, K& j, ...) { K t(std::move(i)); i = std::move(j); j = std::move(t); }

    void step(const Step& st) override {
        gather();
        Ref* x = &refs[pick(st.a, nrefs)];
        Ref* y = &refs[pick(st.b, nrefs)];
        if (st.a % 11 == 3) { while (x->up) x = x->up; }                  // broad trees as well as deep ones
        const char* name = op_table[st.op].name;
        Kids& c = x->n->kids;
        const int n = int(c.size());
        const int pos = (st.c & 3) == 0 ? 0 : pick(st.c >> 2, n + 1);
        const std::vector<int> px = path_of(x), py = path_of(y);
        const int total = nrefs, added = int(weigh(*y->m));
        std::vector<MNode> want(m, m + ROOTS);
        MNode& wx = at(&want[0], x->root, px);
        MNode& wy = at(&want[0], y->root, py);
        MNode leaf; leaf.v = 1 + pick(st.d, VALUES);
        switch (st.op) {
        case OP_add_leaf: case OP_add_leaf_move: case OP_insert_leaf: {
            if (total >= LIMIT) return;
            Node a; a.v.v = leaf.v;
            if (st.d % 5 == 0) { Node b; b.v.v = leaf.v; Err e; Calm calm; c_push(e, a.kids, std::move(b)); leaf.kids.push_back(MNode{leaf.v, {}}); }
            const int p = st.op == OP_insert_leaf ? pos : n;
            wx.kids.insert(wx.kids.begin() + p, leaf);
            Kids::const_iterator where = pos_of(c, p);
            Err err;
            S.begin(name, base | P(STRONG)); shape(x);
            if (st.op == OP_add_leaf) c.push_back_nothrow(err, const_cast<const Node&>(a));
            else if (st.op == OP_add_leaf_move) c.push_back_nothrow(err, std::move(a));
            else c.insert_nothrow(err, where, const_cast<const Node&>(a));
            S.end();
            bool ok = judge(err, name);
            settle(name, ok, &want[0], !KIDS_VEC || p == n, px, x->root, 0);
            if (S.failures.empty() && (st.op != OP_add_leaf_move || (!ok && only_memory_failed())) && !(read(a) == leaf)) S.fail(P(STRONG) | P(NEST), "%s: the offered node was consumed", name);
            break;
        }
        case OP_graft_copy: case OP_insert_copy: { // a copy of any node of the forest, be it an ancestor, the node itself or a child of it
            if (total + added > LIMIT) return;
            const int p = st.op == OP_insert_copy ? pos : n;
            if (p != n && above(x, y)) return;      // elements are shifted under the argument's feet only one level deep: see the worlds of vectors
            MNode copy = *y->m;
            wx.kids.insert(wx.kids.begin() + p, copy);
            if (y->root == x->root && above(y, x)) S.probe("copy of an ancestor into its descendant");
            if (y->up == x) S.probe("copy of a child next to itself");
            Kids::const_iterator where = pos_of(c, p);
            const Node& src = *y->n;
            Err err;
            S.begin(name, base | P(STRONG)); shape(x);
            if (st.op == OP_graft_copy) c.push_back_nothrow(err, src); else c.insert_nothrow(err, where, src);
            S.end();
            settle(name, judge(err, name), &want[0], !KIDS_VEC || p == n, px, x->root, 0);
            break;
        }
        case OP_graft_move: { // y becomes a child of x; what is left of y is an empty node
            if (above(y, x) || above(x, y) || !y->up) return; // below x, growth may duplicate it before it is moved: unspecified
            MNode moved = *y->m;
            wy.v = V_MOVED; wy.kids.clear();
            wx.kids.push_back(moved);
            Err err;
            S.begin(name, base | P(STRONG)); shape(x);
            c.push_back_nothrow(err, std::move(*y->n));
            S.end();
            bool ok = judge(err, name);
            if (!ok && !only_memory_failed()) { // the offered node may already have been taken: nothing else may differ
                wx.kids.pop_back();
                bool taken = true;
                for (int k = 0; k < ROOTS; ++k) taken = taken && read(*root[k]) == want[size_t(k)];
                if (taken) ok = true;
            }
            settle(name, ok, &want[0], true, px, x->root, 0);
            if (ok && S.failures.empty()) { // give the husk a value again
                gather();
                for (int i = 0; i < nrefs; ++i) if (refs[i].m->v == V_MOVED) { refs[i].n->v.v = 7; refs[i].m->v = 7; }
            }
            break;
        }
        case OP_copy_kids: {
            if (above(x, y) || above(y, x) || total + added > LIMIT) return;
            wx.kids = y->m->kids;
            Err err;
            S.begin(name, base | P(BULK)); shape(x);
            copy_(err, c, y->n->kids, 'x');
            S.end();
            settle(name, judge(err, name), &want[0], false, px, x->root, P(BULK));
            break;
        }
        case OP_assign_n: {
            const int cnt = pick(st.c, 4);
            if (above(x, y) || above(y, x) || total + added * cnt > LIMIT) return;
            wx.kids.assign(size_t(cnt), *y->m);
            const Node& src = *y->n;
            Err err;
            S.begin(name, base | P(BULK)); shape(x);
            c.assign_nothrow(err, size_t(cnt), src);
            S.end();
            settle(name, judge(err, name), &want[0], false, px, x->root, P(BULK));
            break;
        }
        case OP_copy_root: { // a whole tree replaces another one
            if (nrefs >= LIMIT) return;
            const int from = pick(st.b, ROOTS), to = 1 - from;
            want[size_t(to)].kids = m[from].kids;
            Err err;
            S.begin(name, base | P(BULK)); shape(&refs[0]);
            copy_(err, root[to]->kids, root[from]->kids, 'x');
            S.end();
            settle(name, judge(err, name), &want[0], false, std::vector<int>(), to, P(BULK));
            break;
        }
        case OP_promote: { // the children of a child replace the children
            if (!n) return;
            const int k = pick(st.c, n);
            std::vector<MNode> g = x->m->kids[size_t(k)].kids;
            wx.kids = g;
            S.begin(name, base | P(NOFAIL)); shape(x);
            { Kids t(std::move(kid(c, k).kids)); c = std::move(t); }
            S.end();
            nofail(name);
            settle(name, true, &want[0], true, px, x->root, P(NOFAIL));
            break;
        }
        case OP_swap_kids: {
            if (above(x, y) || above(y, x)) return;
            std::swap(wx.kids, wy.kids);
            S.begin(name, base | P(NOFAIL)); shape(x);
            swap_(c, y->n->kids, 'x');
            S.end();
            nofail(name);
            settle(name, true, &want[0], true, px, x->root, P(NOFAIL));
            break;
        }
        case OP_prune: case OP_pop: {
            if (st.op == OP_pop && !n) return;
            if (st.op == OP_prune) wx.kids.clear(); else wx.kids.pop_back();
            S.begin(name, base | P(NOFAIL)); shape(x);
            if (st.op == OP_prune) c.clear(); else pop(c);
            S.end();
            nofail(name);
            settle(name, true, &want[0], true, px, x->root, P(NOFAIL));
            break;
        }
        case OP_set_value: { // nothing but this one node may change with it
            wx.v = leaf.v; x->n->v.v = leaf.v;
            S.begin(name, base); shape(x); S.end();
            settle(name, true, &want[0], true, px, x->root, 0);
            break;
        }
#if KIDS_VEC
        case OP_reserve: case OP_shrink: {
            Err err;
            const size_t cap = size_t(n + pick(st.c, 9));
            S.begin(name, base | P(CAP)); shape(x);
            if (st.op == OP_reserve) c.reserve_nothrow(err, cap); else c.shrink_to_fit_nothrow(err);
            S.end();
            bool ok = judge(err, name);
            settle(name, ok, &want[0], true, px, x->root, P(CAP));
            if (ok && S.failures.empty() && (st.op == OP_reserve ? c.capacity() < cap : c.capacity() != c.size())) S.fail(P(CAP), "%s: capacity is %zu", name, c.capacity());
            break;
        }
        case OP_resize: { // copies of y, which may be the node itself or one above it
            const int cnt = pick(st.c, n + 3);
            if (above(x, y) && x != y) return;
            if (cnt > n && total + added * (cnt - n) > LIMIT) return;
            if (cnt > n + 1 && above(y, x)) return;  // the second copy would contain the first one
            wx.kids.resize(size_t(cnt), MNode(*y->m));
            const Node& src = *y->n;
            Err err;
            S.begin(name, base); shape(x);
            c.resize_nothrow(err, size_t(cnt), src);
            S.end();
            settle(name, judge(err, name), &want[0], false, px, x->root, 0);
            break;
        }
#else
        case OP_erase: {
            if (!n) return;
            const int k = pick(st.c, n);
            wx.kids.erase(wx.kids.begin() + k);
            Kids::const_iterator where = pos_of(c, k);
            S.begin(name, base | P(NOFAIL)); shape(x);
            c.erase(where);
            S.end();
            nofail(name);
            settle(name, true, &want[0], true, px, x->root, P(NOFAIL));
            break;
        }
        case OP_splice_all: case OP_splice_one: {
            if (above(x, y) || above(y, x) || y->m->kids.empty()) return;
            const int k = pick(st.d, int(y->m->kids.size()));
            if (st.op == OP_splice_all) { std::vector<MNode> g = wy.kids; wy.kids.clear(); wx.kids.insert(wx.kids.begin() + pos, g.begin(), g.end()); }
            else { MNode g = wy.kids[size_t(k)]; wy.kids.erase(wy.kids.begin() + k); wx.kids.insert(wx.kids.begin() + pos, g); }
            Kids::const_iterator where = pos_of(c, pos), it = pos_of(y->n->kids, k);
            S.begin(name, base | P(NOFAIL)); shape(x);
            if (st.op == OP_splice_all) c.splice(where, y->n->kids); else c.splice(where, y->n->kids, it);
            S.end();
            nofail(name);
            if (S.ctors || S.dtors) S.fail(P(NOFAIL), "%s constructed or destroyed elements", name);
            settle(name, true, &want[0], true, px, x->root, P(NOFAIL));
            break;
        }
#endif
        }
    }
    static void c_push(Err& e, Kids& c, Node&& n) { c.push_back_nothrow(e, std::move(n)); }
#if KIDS_VEC
    static void pop(Kids&) {}                       // not implemented by the library
#else
    static void pop(Kids& c) { c.pop_back(); }
#endif

    void check() override {
        size_t total = 0;
        for (int r = 0; r < ROOTS; ++r) {
            MNode now = read(*root[r]);
            if (!(now == m[r])) S.fail(base & ~(P(LIFE) | P(MEM)), "a tree changed by itself: expected %s, got %s", show(m[r]).c_str(), show(now).c_str());
            mix(now);
            total += seen;
        }
        if (S.elems.size() != total) S.fail(P(LIFE) | P(NEST) | (S.faults_in_run ? P(VALID) : 0), "%zu elements are alive, the trees hold %zu", S.elems.size(), total);
    }
    void mix(const MNode& n) { S.mix(u64(n.v)); S.mix(n.kids.size()); for (size_t i = 0; i < n.kids.size(); ++i) mix(n.kids[i]); }

    void recover() override {
        for (int k = 0; k < 4 && S.failures.empty(); ++k) {
            gather();
            if (nrefs > ROOTS * LIMIT) return;
            Ref* x = &refs[(k * 7 + 3) % nrefs];
            Node a; a.v.v = k + 1;
            std::vector<MNode> want(m, m + ROOTS);
            std::vector<int> px = path_of(x);
            MNode leaf; leaf.v = k + 1;
            at(&want[0], x->root, px).kids.push_back(leaf);
            Err err;
            S.begin("tree.recover", base);
            x->n->kids.push_back_nothrow(err, const_cast<const Node&>(a));
            S.end();
            bool ok = judge(err, "tree.recover");
            settle("tree.recover", ok, &want[0], true, px, x->root, P(VALID));
            if (S.failures.empty() && !ok) S.fail(P(VALID), "container does not work although nothing fails any more");
        }
    }

    void finish() override {
        for (int r = 0; r < ROOTS; ++r) { S.begin("tree.destroy", base | P(NOFAIL)); root[r]->~Node(); S.end(); nofail("tree.destroy"); free(root[r]); }
    }
};

static World* make_world() { return new TreeWorld; }
static const char* variant() {
    static char b[160];
    snprintf(b, sizeof b, "%d/tree of %ss/%s/%s", VARIANT, KIDS_VEC ? "vector" : "list", E::name(), name_of((Err*)0));
    return b;
}
const WorldDef the_world = {"tree", op_table, OP_COUNT, make_world, variant, true, !TWO, VALUES, !std::is_same<Err, SimError>::value};

} // namespace sim
