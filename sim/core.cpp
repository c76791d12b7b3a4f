#include "core.hpp"
#include <cstdarg>
#include <new>
#include <unistd.h>

namespace sim {

Sim S;
Duet duet;
const char* const fault_letter = "ACS";

Sim::Sim() : stats(0), prog(0), trace(false) { harness = 0; in_op = false; reset(); }

void Sim::reset() {
    step = 0; scope = 0; plan.clear(); fired.clear(); in_op = false; harness = 0; oversize = false;
    memset(counter, 0, sizeof counter);
    outage = false; outage_left = 0; lazy = false; quota = -1; poison.clear();
    allocs = alloc_requests = frees = ctors = dtors = assigns = 0; max_request = 0; op_arena = -1; shape = 0;
    blocks.clear(); elems.clear(); allocators = 0; bytes_live = 0; block_serial = 0; ctor_total = 0;
    fault_serial = 0; faults_in_run = 0;
    hash = 1469598103934665603ull;
    failures.clear();
}

void Sim::begin(const char* op, u32 tags) {
    interleave();
    scope = tags;
    memset(counter, 0, sizeof counter);
    fired.clear();
    allocs = alloc_requests = frees = ctors = dtors = assigns = 0; max_request = 0; op_arena = -1; shape = 0;
    oversize = false;
    if (prog) {
        prog->step = u32(step); prog->scope = tags; prog->hash = hash; prog->faults_so_far = faults_in_run;
        strncpy(prog->op, op, sizeof prog->op - 1);
    }
    mixs(op);
    op_hash = 5381; for (const char* q = op; *q; ++q) op_hash = op_hash * 33 + u64(*q);
    if (stats) { ++stats->ops; ++stats->op_count[op]; }
    if (trace) { fprintf(stderr, "  [%d] %s\n", step, op); }
    in_op = true;
}

void Sim::end() {
    in_op = false;
    interleave();
    ++harness;
    if (!oversize) mix(fired.size());
    if (stats) {
        u64 h = shape * 1315423911u + op_hash;
        for (size_t i = 0; i < fired.size() && i < 3; ++i) h = h * 1000003 + u64(fired[i].kind) * 64 + u64(fired[i].at < 32 ? fired[i].at : 32) + 1;
        stats->sigs.insert(h);
    }
    --harness;
    if (trace && !fired.empty()) {
        fprintf(stderr, "      fired:");
        for (size_t i = 0; i < fired.size(); ++i) fprintf(stderr, " %c#%u", fired[i].kind < 3 ? fault_letter[fired[i].kind] : '?', fired[i].id);
        fprintf(stderr, "\n");
    }
}

static void record(Sim& s, u32 tags, const char* buf) {
    if (s.trace) fprintf(stderr, "      FAIL tags=%x %s\n", tags, buf);
    if (s.failures.size() < 32) {
        Failure f; f.tags = tags; f.step = s.step; f.what = buf;
        s.failures.push_back(f);
    }
    if (s.prog) {
        if (!s.prog->failtags) { strncpy(s.prog->failmsg, buf, sizeof s.prog->failmsg - 1); }
        s.prog->failtags = s.prog->failtags | tags;
    }
}

void Sim::fail(u32 tags, const char* fmt, ...) {
    Harness h;
    char buf[900];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    record(*this, tags, buf);
}

void Sim::fatal(u32 tags, const char* fmt, ...) {
    ++harness;
    char buf[900];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    record(*this, tags, buf);
    if (prog) strncpy(prog->note, buf, sizeof prog->note - 1);
    _exit(77);
}

u32 Sim::fire(int kind, int stat) {
    Harness h;
    Fired f; f.id = ++fault_serial; f.kind = kind; f.at = counter[kind];
    fired.push_back(f);
    ++faults_in_run;
    if (stats) ++stats->fired[stat];
    return f.id;
}

u32 Sim::point(int kind) {
    if (!in_op) return 0;
    interleave();
    int k = ++counter[kind];
    for (size_t i = 0; i < plan.size(); ++i) {
        const Fault& f = plan[i];
        if (f.kind == kind && (f.n == k || (f.sticky && k > f.n))) {
            return fire(kind, kind == F_ALLOC ? FIRED_ALLOC : kind == F_CTOR ? FIRED_CTOR : FIRED_ASSIGN);
        }
    }
    return 0;
}

u32 Sim::copy_point(int value) {
    if (!in_op) return 0;
    u32 id = point(F_CTOR);
    if (id) return id;
    for (size_t i = 0; i < poison.size(); ++i)
        if (poison[i] == value) return fire(F_CTOR, FIRED_POISON);
    return 0;
}

u32 Sim::alloc_point(size_t bytes, bool huge) {
    if (!in_op) return 0;
    interleave();
    ++alloc_requests;
    if (bytes > max_request) max_request = bytes;
    if (huge) { oversize = true; return fire(F_ALLOC, FIRED_OVERSIZE); }
    u32 id = point(F_ALLOC);
    if (id) return id;
    if (outage) return fire(F_ALLOC, FIRED_OUTAGE);
    if (quota >= 0 && bytes_live + bytes > size_t(quota)) return fire(F_ALLOC, FIRED_QUOTA);
    return 0;
}

void* Sim::take(size_t bytes, size_t n, int arena) {
    Harness h;
    if (blocks.size() > 900000) fatal(scope | P(VALID), "runaway: more than 900000 blocks live");
    size_t sz = bytes ? bytes : 1;
    void* p = 0;
    if (posix_memalign(&p, 64, sz)) { fprintf(stderr, "harness out of memory\n"); _exit(78); }
    memset(p, 0xCD, sz);
    Block b; b.bytes = bytes; b.n = n; b.arena = arena; b.live_elems = 0; b.serial = ++block_serial;
    blocks[uintptr_t(p)] = b;
    bytes_live += bytes;
    ++allocs;
    if (op_arena >= 0 && arena != op_arena && !(arena == 0 && oversize)) // the report of an impossible size may itself need memory
        fail(P(ALLOC), "memory drawn from allocator %d, but the container was given allocator %d", arena, op_arena);
    return p;
}

void Sim::give(void* p, size_t n, int arena, bool sized) {
    if (in_op) interleave();
    Harness h;
    if (!p) return; // releasing a null block is a no-op by convention of this code base
    BlockMap::iterator it = blocks.find(uintptr_t(p));
    if (it == blocks.end()) {
        fail(P(MEM) | (scope & (P(OWN) | P(WEAK))), "memory released that is not allocated (double free or foreign pointer)");
        return;
    }
    Block b = it->second;
    ++frees;
    if (sized && b.n != n) fail(P(MEM), "block of %zu objects released as %zu objects", b.n, n);
    if (sized && b.arena != arena) fail(P(ALLOC) | P(MEM), "block of allocator %d released to allocator %d", b.arena, arena);
    if (b.live_elems) {
        fail(P(LIFE), "memory released while %ld elements in it are still alive", b.live_elems);
        ElemMap::iterator e = elems.lower_bound(uintptr_t(p));
        while (e != elems.end() && e->first < uintptr_t(p) + b.bytes) elems.erase(e++);
    }
    bytes_live -= b.bytes;
    blocks.erase(it);
    memset(p, 0xDD, b.bytes ? b.bytes : 1);
    free(p);
}

Block* Sim::block_of(const void* p) {
    BlockMap::iterator it = blocks.upper_bound(uintptr_t(p));
    if (it == blocks.begin()) return 0;
    --it;
    return uintptr_t(p) < it->first + (it->second.bytes ? it->second.bytes : 1) ? &it->second : 0;
}

void Sim::born(const void* p, int kind, size_t align) {
    Harness h;
    ++ctors;
    if (uintptr_t(p) % align) fail(P(LIFE) | P(MEM), "element constructed in storage that is not aligned for it");
    if (++ctor_total > 4000000) fatal(scope | P(VALID), "runaway: element constructions do not end");
    if (!elems.insert(std::make_pair(uintptr_t(p), kind)).second) {
        fail(P(LIFE) | (scope & P(NEST)), "element constructed over a living element");
        return;
    }
    if (Block* b = block_of(p)) ++b->live_elems;
}

void Sim::died(const void* p, int kind) {
    if (in_op) interleave();
    Harness h;
    ++dtors;
    ElemMap::iterator it = elems.find(uintptr_t(p));
    if (it == elems.end() || it->second != kind) {
        fail(P(LIFE) | (scope & P(NEST)), "destructor run on something that is not a living element");
        return;
    }
    elems.erase(it);
    if (Block* b = block_of(p)) --b->live_elems;
}

bool Sim::alive(const void* p, const char* use) {
    if (in_op) interleave();
    if (elems.find(uintptr_t(p)) != elems.end()) return true;
    fail(P(LIFE) | scope, "element used (%s) before construction or after destruction", use);
    return false;
}

} // namespace sim

// ------------------------------------------------------------------------------------------------
// The process-wide heap is part of the simulation: an allocation made by the library while an operation is
// in progress goes through the simulated heap (arena 0), one made by the harness does not.
static void* plain(std::size_t n) {
    void* p = 0;
    if (posix_memalign(&p, 64, n ? n : 1)) { fprintf(stderr, "harness out of memory\n"); _exit(78); }
    return p;
}

static inline bool by_library() { return sim::S.in_op && sim::S.harness == 0; }

void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
    if (!by_library()) return plain(n);
    if (sim::S.alloc_point(n, n > (std::size_t(1) << 30))) return nullptr;
    return sim::S.take(n, n, 0);
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(std::size_t n) {
    if (!by_library()) return plain(n);
    if (sim::S.alloc_point(n, n > (std::size_t(1) << 30))) {
#if defined(__cpp_exceptions)
        throw std::bad_alloc();
#else
        sim::S.fatal(sim::S.scope | sim::P(sim::CAUSE), "the throwing operator new failed and cannot report it");
#endif
    }
    return sim::S.take(n, n, 0);
}
void* operator new[](std::size_t n) { return operator new(n); }

void operator delete(void* p) noexcept {
    if (!p) return;
    // blocks of the simulated heap are known; anything else belongs to the harness
    if (!sim::S.blocks.empty() && sim::S.blocks.count(uintptr_t(p))) { sim::S.give(p, 0, 0, false); return; }
    if (by_library()) { sim::S.give(p, 0, 0, false); return; } // unknown pointer released by the library: reported
    free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
