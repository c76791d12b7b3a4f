// Deterministic simulation core: seeded programs, fault plan, memory and element registries,
// failure records. Everything a run does is a function of the Program text (itself a function of one seed).
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;

// containers of the simulator never go through the simulated heap
template <class T> struct MallocAlloc {
    typedef T value_type;
    MallocAlloc() {}
    template <class U> MallocAlloc(const MallocAlloc<U>&) {}
    T* allocate(std::size_t n) { void* p = malloc(n * sizeof(T)); if (!p) abort(); return static_cast<T*>(p); }
    void deallocate(T* p, std::size_t) { free(p); }
    template <class U> bool operator==(const MallocAlloc<U>&) const { return true; }
    template <class U> bool operator!=(const MallocAlloc<U>&) const { return false; }
};

// memory of the harness, aligned for every kind of element
inline void* room(std::size_t n) { void* p = 0; if (posix_memalign(&p, 64, n ? n : 1)) { fprintf(stderr, "harness out of memory\n"); abort(); } return p; }

// ---------------------------------------------------------------- rng
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : int(next() % u64(n)); }
    bool chance(int pct) { return below(100) < pct; }
    // small numbers are likely, large ones possible
    int geo(int cap) { int k = 1; while (k < cap && chance(62)) ++k; return k; }
};

// ---------------------------------------------------------------- properties as bits
inline u32 P(int id) { return u32(1) << id; }
enum {
    CAUSE = 1, LIFE = 2, MEM = 3, VALID = 4, STRONG = 5, VEC = 6, LIST = 7, SET = 8, OWN = 9, WEAK = 10,
    NOFAIL = 11, CAP = 12, BULK = 13, THROWAPI = 14, NEST = 15, HUGE_ = 16, ALGO = 17, PARITY = 18, ALLOC = 19,
    RANGES = 20, INDEP = 21, POS = 22, NPROPS = 23
};

// ---------------------------------------------------------------- program
enum FaultKind { F_ALLOC = 0, F_CTOR = 1, F_ASSIGN = 2, F_KINDS = 3 };
extern const char* const fault_letter; // "ACS"

struct Fault { int kind; int n; bool sticky; };

struct Step {
    int op;             // world opcode
    int a, b, c, d;     // raw parameters, interpreted modulo the state
    int sweep;          // 0: no; 1+kind: repeat the step, failing fault point 1, 2, 3, ... of that kind
    std::vector<Fault> faults;
    Step() : op(0), a(0), b(0), c(0), d(0), sweep(0) {}
};

struct Program {
    std::string world;
    u64 seed;
    std::vector<Step> steps;
    Program() : seed(0) {}
};

// ---------------------------------------------------------------- failures
struct Failure { u32 tags; int step; std::string what; };

// ---------------------------------------------------------------- simulator state
struct Block { size_t bytes; size_t n; int arena; long live_elems; u64 serial; };

struct Fired { u32 id; int kind; int at; };

// shared with the parent process so that a crash can be attributed
struct Progress {
    volatile u64 seed;
    volatile u64 runs;
    volatile u64 steps;
    volatile u32 step;
    volatile u32 scope;
    volatile u32 done;
    volatile u32 faults_so_far;
    volatile u32 duet;      // two clients are running
    volatile u64 hash;
    char op[48];
    char note[256];
    volatile u32 failtags;
    char failmsg[1024];
    volatile u32 nswitches;  // the points at which the clients were exchanged
    u32 switches[8192];
};

struct Stats {
    u64 runs, steps, ops, ops_failed, sweeps;
    u64 fired[8];            // alloc, ctor, assign, outage, quota, poison, oversize
    std::map<std::string, u64> op_count;
    std::set<u64> sigs;      // distinct (operation, shape, which fault points fired)
    std::map<std::string, u64> probes;
    Stats() : runs(0), steps(0), ops(0), ops_failed(0), sweeps(0) { memset(fired, 0, sizeof fired); }
};
enum { FIRED_ALLOC = 0, FIRED_CTOR, FIRED_ASSIGN, FIRED_OUTAGE, FIRED_QUOTA, FIRED_POISON, FIRED_OVERSIZE };

struct Sim {
    // program position
    int step;
    u32 scope;                       // properties the operation in progress is in the scope of
    // fault plan of the attempt in progress
    std::vector<Fault> plan;
    int counter[F_KINDS];
    std::vector<Fired> fired;
    bool in_op;
    int harness;                     // > 0: code of the harness is running
    bool oversize;                   // the operation in progress asked for an impossible size
    // environment
    bool outage;
    int outage_left;                 // steps the outage still lasts
    bool lazy;                       // gigantic requests are honoured with address space
    long quota;                      // bytes the simulated heap may still hand out in total (-1: unlimited)
    std::vector<int> poison;         // values whose copies fail
    // accounting of the attempt in progress
    long allocs, alloc_requests, frees, ctors, dtors, assigns;
    size_t max_request;
    u32 shape;                       // coarse shape of the objects the operation works on (coverage measure)
    int op_arena;                    // arena blocks must come from (-1: any)
    // registries
    typedef std::map<uintptr_t, Block, std::less<uintptr_t>, MallocAlloc<std::pair<const uintptr_t, Block> > > BlockMap;
    typedef std::map<uintptr_t, int, std::less<uintptr_t>, MallocAlloc<std::pair<const uintptr_t, int> > > ElemMap;
    BlockMap blocks;
    ElemMap elems;                   // live tracked elements: address -> kind
    long allocators;                 // live allocator objects
    size_t bytes_live;
    u64 block_serial;
    u64 ctor_total;
    u32 fault_serial;
    u64 op_hash;
    u32 faults_in_run;
    // result
    u64 hash;
    std::vector<Failure> failures;
    Stats* stats;
    Progress* prog;
    bool trace;

    Sim();
    void reset();                    // new run
    void begin(const char* op, u32 scope_tags);
    void end();
    void fail(u32 tags, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void fatal(u32 tags, const char* fmt, ...) __attribute__((format(printf, 3, 4), noreturn));
    void mix(u64 v) { hash ^= v + 0x9E3779B97F4A7C15ull + (hash << 6) + (hash >> 2); hash *= 0xff51afd7ed558ccdull; }
    void mixs(const char* s) { while (*s) mix(u64(*s++)); }
    void probe(const char* name) { if (stats) ++stats->probes[name]; }

    // fault decisions: 0 = no fault, otherwise the id of the fired fault
    u32 point(int kind);
    u32 fire(int kind, int stat);
    u32 alloc_point(size_t bytes, bool huge);
    u32 copy_point(int value);       // ctor point with poison

    // registries
    void* take(size_t bytes, size_t n, int arena);
    void give(void* p, size_t n, int arena, bool sized);
    void born(const void* p, int kind, size_t align);
    void died(const void* p, int kind);
    bool alive(const void* p, const char* use);
    bool fired_kind(int kind) const { for (size_t i = 0; i < fired.size(); ++i) if (fired[i].kind == kind) return true; return false; }
    Block* block_of(const void* p);
};

extern Sim S;

// Two clients with a Sim each. One of them runs, in a thread of its own; the other is parked. Every seam is a point
// where the scheduler may exchange them, so an operation of one can be suspended anywhere in the middle.
struct Duet {
    bool active;
    u64 points, switches;
    void (*hand_over)();
    u64 rng; int rate;                // seeded: exchange with probability rate / 256 at every point
    std::vector<u64> script;          // or, if scripted, exactly at these points
    bool scripted;
    bool wants() {
        ++points;
        bool yes;
        if (scripted) { yes = false; for (size_t i = 0; i < script.size(); ++i) yes = yes || script[i] == points; }
        else { rng = rng * 6364136223846793005ull + 1442695040888963407ull; yes = int(rng >> 33 & 255) < rate; }
        return yes;
    }
};
extern Duet duet;
inline void interleave() {
    if (!duet.active || S.harness != 0 || !duet.wants()) return;
    ++S.harness;                        // nothing the exchange itself does belongs to the operation
    duet.hand_over();
    --S.harness;                        // S is this client's again
}

struct Harness { Harness() { ++S.harness; } ~Harness() { --S.harness; } };

// the library runs on behalf of the harness: its memory is accounted for, nothing fails
struct Calm {
    std::vector<Fault> plan; std::vector<int> poison; bool outage, in_op; long quota;
    Calm() : outage(S.outage), in_op(S.in_op), quota(S.quota) { plan.swap(S.plan); poison.swap(S.poison); S.outage = false; S.quota = -1; S.in_op = true; }
    ~Calm() { plan.swap(S.plan); poison.swap(S.poison); S.outage = outage; S.quota = quota; S.in_op = in_op; }
};

// ---------------------------------------------------------------- worlds
// weight: relative frequency; focus: properties this operation is a main witness of
struct OpInfo { const char* name; int weight; u32 focus; };

struct World {
    virtual ~World() {}
    virtual void start() = 0;                  // build initial state
    virtual void step(const Step& s) = 0;      // one attempt of a step under the current plan
    virtual void check() = 0;                  // compare every object with its model
    virtual void recover() = 0;                // faults are off: every operation must work again
    virtual void finish() = 0;                 // tear down
};

struct WorldDef {
    const char* name;
    const OpInfo* ops;
    int nops;
    World* (*make)();
    const char* (*variant)();
    bool ctor_faults, assign_faults;           // whether the element type can fail at all
    int values;                                // element values are 1 .. values
    bool default_error;                        // errors of the library's own type (whose reports may need memory themselves)
};

extern const WorldDef the_world;               // one world per executable

// environment opcodes, common to all worlds
enum { ENV_OUTAGE_ON = 1000, ENV_OUTAGE_OFF, ENV_QUOTA, ENV_QUOTA_OFF, ENV_POISON, ENV_POISON_OFF, ENV_END };

} // namespace sim

#endif
