// Driver: turns seeds into programs, programs into runs, and reports what happened.
//   batch FIRST COUNT STRIDE MASK FOCUS OUT   run seeds FIRST, FIRST+STRIDE, ... (COUNT of them)
//   gen SEED FOCUS                            print the program of a seed
//   exec FILE [-v]                            run a program text, print verdict
// One run is a function of its program text alone.
#include "core.hpp"

#include <cerrno>
#include <exception>
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

extern "C" const char* __asan_default_options() { return "exitcode=99:detect_leaks=0:print_summary=0:allocator_may_return_null=1:color=never"; }

static const char* const env_names[] = {"env.outage_on", "env.outage_off", "env.quota", "env.quota_off", "env.poison", "env.poison_off"};

static std::string op_name(int op) { return op >= 1000 ? env_names[op - 1000] : the_world.ops[op].name; }
static int op_by_name(const std::string& s) {
    for (int i = 0; i < the_world.nops; ++i) if (s == the_world.ops[i].name) return i;
    for (int i = 0; i < ENV_END - 1000; ++i) if (s == env_names[i]) return 1000 + i;
    return -1;
}

// ---------------------------------------------------------------- generation
static Program generate(u64 seed, u32 focus) {
    Rng r(seed);
    Program p;
    p.world = the_world.name;
    p.seed = seed;
    int nsteps = r.chance(70) ? 4 + r.below(28) : r.chance(80) ? 30 + r.below(60) : 90 + r.below(200);
    int fault_pct = r.chance(15) ? 0 : r.chance(50) ? 12 + r.below(20) : 30 + r.below(50);
    int sweep_pct = r.chance(60) ? 0 : 3 + r.below(15);
    int env_pct = r.chance(50) ? 0 : 4 + r.below(14);
    bool kinds[F_KINDS] = {true, the_world.ctor_faults, the_world.assign_faults};
    for (int k = 0; k < F_KINDS; ++k) if (r.chance(25)) kinds[k] = false;
    if (!kinds[0] && !kinds[1] && !kinds[2]) kinds[0] = true;
    bool env_on[3] = {r.chance(70), r.chance(40), r.chance(60)};
    std::vector<int> ops;
    for (int i = 0; i < the_world.nops; ++i) {
        int w = the_world.ops[i].weight;
        int m = r.chance(30) ? 0 : r.chance(65) ? 1 : 4;   // swarm: some operations are absent, some frequent
        if (focus && (the_world.ops[i].focus & focus)) m = m ? m * 3 : 1;
        for (int k = 0; k < w * m; ++k) ops.push_back(i);
    }
    if (ops.empty()) for (int i = 0; i < the_world.nops; ++i) ops.push_back(i);
    for (int i = 0; i < nsteps; ++i) {
        Step s;
        if (r.chance(env_pct)) {
            int kind = r.below(3);
            if (!env_on[kind]) kind = 0;
            if (kind == 2 && !the_world.ctor_faults) kind = 0;
            bool on = r.chance(55);
            s.op = kind == 0 ? (on ? ENV_OUTAGE_ON : ENV_OUTAGE_OFF) : kind == 1 ? (on ? ENV_QUOTA : ENV_QUOTA_OFF) : (on ? ENV_POISON : ENV_POISON_OFF);
            s.a = r.below(1 << 20);
            p.steps.push_back(s);
            continue;
        }
        s.op = ops[size_t(r.below(int(ops.size())))];
        s.a = r.below(1 << 20); s.b = r.below(1 << 20); s.c = r.below(1 << 20); s.d = r.below(1 << 20);
        // the report of an impossible size is itself allocated in one mode only
        const bool calm = (focus & P(PARITY)) && the_world.default_error && (the_world.ops[s.op].focus & P(HUGE_));
        if (calm) {
        } else if (r.chance(sweep_pct)) {
            int k = r.below(F_KINDS);
            while (!kinds[k]) k = (k + 1) % F_KINDS;
            s.sweep = 1 + k;
        } else if (r.chance(fault_pct)) {
            int n = r.chance(80) ? 1 : 2;
            for (int j = 0; j < n; ++j) {
                Fault f;
                f.kind = r.below(F_KINDS);
                while (!kinds[f.kind]) f.kind = (f.kind + 1) % F_KINDS;
                f.n = r.chance(85) ? r.geo(12) : 1 + r.below(40);
                f.sticky = r.chance(15);
                s.faults.push_back(f);
            }
        }
        p.steps.push_back(s);
    }
    return p;
}

// how two clients are interleaved
struct Schedule { bool on; u64 seed; int rate; bool scripted; std::vector<u64> script; Schedule() : on(false), seed(0), rate(0), scripted(false) {} };

static void print_steps(std::ostream& o, const Program& p, const char* suffix) {
    for (size_t i = 0; i < p.steps.size(); ++i) {
        const Step& s = p.steps[i];
        o << "step " << op_name(s.op) << " " << s.a << " " << s.b << " " << s.c << " " << s.d;
        if (s.sweep) o << " sweep=" << fault_letter[s.sweep - 1];
        for (size_t j = 0; j < s.faults.size(); ++j)
            o << " fault=" << fault_letter[s.faults[j].kind] << s.faults[j].n << (s.faults[j].sticky ? "+" : "");
        o << suffix << "\n";
    }
}

static std::string print(const Program& p) {
    std::ostringstream o;
    o << "world " << p.world << "\nvariant " << the_world.variant() << "\nseed " << p.seed << "\n";
    print_steps(o, p, "");
    return o.str();
}

static std::string print(const Program& a, const Program& b, const Schedule& d) {
    std::ostringstream o;
    o << "world " << a.world << "\nvariant " << the_world.variant() << "\nseed " << a.seed << "\nschedule " << d.seed << " " << d.rate << "\n";
    print_steps(o, a, "");
    print_steps(o, b, " client=2");
    return o.str();
}

static bool parse(const char* file, Program& p, Program& q, Schedule& d) {
    std::ifstream in(file);
    if (!in) return false;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#') continue;
        if (w == "world") l >> p.world;
        else if (w == "seed") l >> p.seed;
        else if (w == "variant") continue;
        else if (w == "schedule") { d.on = true; l >> d.seed >> d.rate; }
        else if (w == "switches") { d.scripted = true; u64 n; while (l >> n) d.script.push_back(n); }
        else if (w == "step") {
            Step s;
            std::string op;
            l >> op >> s.a >> s.b >> s.c >> s.d;
            s.op = op_by_name(op);
            if (s.op < 0) { fprintf(stderr, "unknown operation %s\n", op.c_str()); return false; }
            std::string x;
            bool second = false;
            while (l >> x) {
                if (x == "client=2") second = true;
                else if (x.compare(0, 6, "sweep=") == 0) s.sweep = 1 + int(strchr(fault_letter, x[6]) - fault_letter);
                else if (x.compare(0, 6, "fault=") == 0) {
                    Fault f;
                    f.kind = int(strchr(fault_letter, x[6]) - fault_letter);
                    f.n = atoi(x.c_str() + 7);
                    f.sticky = x[x.size() - 1] == '+';
                    s.faults.push_back(f);
                }
            }
            (second ? q : p).steps.push_back(s);
        }
    }
    return true;
}

// ---------------------------------------------------------------- running
static void run_step(World& w, const Step& s) {
    if (s.op >= 1000) {
        switch (s.op) {
            case ENV_OUTAGE_ON: S.outage = true; S.outage_left = 1 + s.a % 10; break;
            case ENV_OUTAGE_OFF: S.outage = false; break;
            case ENV_QUOTA: S.quota = long(S.bytes_live) + s.a % 700; break;
            case ENV_QUOTA_OFF: S.quota = -1; break;
            case ENV_POISON: if (S.poison.size() < 3) S.poison.push_back(1 + s.a % the_world.values); break;
            case ENV_POISON_OFF: S.poison.clear(); break;
        }
        return;
    }
    if (S.outage && --S.outage_left < 0) S.outage = false;
    if (!s.sweep) {
        S.plan = s.faults;
        w.step(s);
        S.plan.clear();
        return;
    }
    for (int n = 1; n <= 48 && S.failures.empty(); ++n) {
        if (S.stats) ++S.stats->sweeps;
        S.plan.clear();
        Fault f; f.kind = s.sweep - 1; f.n = n; f.sticky = false;
        S.plan.push_back(f);
        bool more = false;
        u32 before = S.faults_in_run;
        w.step(s);
        more = S.faults_in_run != before;
        S.plan.clear();
        if (S.failures.empty()) w.check();
        if (!more) break;
    }
}

static void run(const Program& p, bool step_hashes) {
    World* w = the_world.make();
    w->start();
    for (size_t i = 0; i < p.steps.size() && S.failures.empty(); ++i) {
        S.step = int(i);
        if (S.stats) ++S.stats->steps;
        if (S.prog) ++S.prog->steps;
        run_step(*w, p.steps[i]);
        if (S.failures.empty()) w->check();
        if (step_hashes) printf("STEP %zu %s %016llx\n", i, op_name(p.steps[i].op).c_str(), (unsigned long long)S.hash);
    }
    if (S.failures.empty()) {
        S.step = int(p.steps.size());
        S.plan.clear(); S.outage = false; S.quota = -1; S.poison.clear();
        w->recover();
        if (S.failures.empty()) w->check();
    }
    if (S.failures.empty()) {
        S.outage = true; // release needs no memory
        w->finish();
        S.outage = false;
        if (S.failures.empty()) {
            if (!S.elems.empty()) S.fail(P(LIFE), "%zu elements never destroyed", S.elems.size());
            if (!S.blocks.empty()) S.fail(P(MEM), "%zu memory blocks never released", S.blocks.size());
            if (S.allocators != 0) S.fail(P(ALLOC) | P(LIFE), "%ld allocator objects never destroyed", S.allocators);
        }
    }
    if (step_hashes) printf("STEP end end %016llx\n", (unsigned long long)S.hash);
    if (S.failures.empty()) delete w; // after a failure the objects may be broken; the process ends anyway
}

// ---------------------------------------------------------------- two clients
static sem_t turn[2];
static int running;                     // whose turn it is
static bool over[2];
static Sim* parked;
static const Program* part[2];
static u64 part_hash[2];
static Failure part_failure[2];
static bool part_failed[2];

static void hand_over() {
    const int me = running;
    if (over[1 - me]) return;
    ++duet.switches;
    if (S.prog) {
        if (S.prog->nswitches < 8192) S.prog->switches[S.prog->nswitches] = u32(duet.points);
        S.prog->nswitches = S.prog->nswitches + 1;
    }
    std::swap(S, *parked);
    running = 1 - me;
    sem_post(&turn[1 - me]);
    while (sem_wait(&turn[me])) {}
}

static void* client(void* arg) {
    const int me = arg ? 1 : 0;
    while (sem_wait(&turn[me])) {}
    run(*part[me], false);
    duet.active = false;                // points are over for this client
    part_hash[me] = S.hash;
    part_failed[me] = !S.failures.empty();
    if (part_failed[me]) part_failure[me] = S.failures[0];
    over[me] = true;
    if (!over[1 - me]) {
        std::swap(S, *parked);
        running = 1 - me;
        duet.active = true;             // alone from now on, nobody to hand over to
        sem_post(&turn[1 - me]);
    }
    return 0;
}

// each program alone, then both interleaved: nothing may differ
static void run_duet(const Program& a, const Program& b, const Schedule& d) {
    const Program* ps[2] = {&a, &b};
    u64 alone[2];
    Stats* st = S.stats; Progress* pg = S.prog; const bool tr = S.trace;
    u32 faults = 0;
    for (int k = 0; k < 2; ++k) {
        // something the first use of an operation in a process leaves behind for good is not there any more in the second run
        for (int again = 0; again < 2; ++again) {
            S.reset();
            run(*ps[k], false);
            if (S.failures.empty()) break;
            if (again) return;          // wrong already when alone: not a matter of interleaving
            if (pg) { pg->failtags = 0; pg->failmsg[0] = 0; }
        }
        alone[k] = S.hash;
        faults += S.faults_in_run;
    }
    S.reset();
    if (pg) { pg->duet = 1; pg->nswitches = 0; }
    Sim other; other.reset(); other.stats = st; other.prog = pg; other.trace = tr;
    parked = &other;
    for (int k = 0; k < 2; ++k) { sem_init(&turn[k], 0, 0); over[k] = false; part[k] = ps[k]; part_failed[k] = false; part_hash[k] = 0; }
    running = 0;
    duet.points = duet.switches = 0; duet.hand_over = hand_over; duet.rng = d.seed * 2862933555777941757ull + 3037000493ull; duet.rate = d.rate;
    duet.scripted = d.scripted; duet.script = d.script; duet.active = true;
    alarm(50);
    pthread_t t[2];
    for (long k = 0; k < 2; ++k) if (pthread_create(&t[k], 0, client, k ? &running : 0)) { fprintf(stderr, "harness: no thread\n"); _exit(78); }
    sem_post(&turn[0]);
    for (int k = 0; k < 2; ++k) pthread_join(t[k], 0);
    duet.active = false;
    alarm(0);
    S.reset();
    S.stats = st; S.prog = pg; S.trace = tr;
    S.faults_in_run = faults;
    for (int k = 0; k < 2; ++k) S.mix(alone[k]);
    S.mix(duet.switches);
    if (st) { st->probes["exchanges of the clients inside operations"] += duet.switches; st->probes["points where they could be exchanged"] += duet.points; ++st->probes["interleaved runs"]; }
    if (pg) pg->failtags = 0, pg->failmsg[0] = 0;
    for (int k = 0; k < 2; ++k) {
        if (part_failed[k]) S.fail(P(INDEP), "client %d, interleaved with another one (%llu exchanges), goes wrong: %s", k + 1, (unsigned long long)duet.switches, part_failure[k].what.c_str());
        else if (part_hash[k] != alone[k]) S.fail(P(INDEP), "client %d, interleaved with another one (%llu exchanges), has other results than alone", k + 1, (unsigned long long)duet.switches);
        if (!S.failures.empty()) break;
    }
    if (pg) pg->duet = 0;
}

static Schedule schedule_of(u64 seed) {
    Rng r(seed ^ 0xD0E7D0E7ull);
    static const int rates[] = {2, 6, 16, 40, 100, 200};
    Schedule d; d.on = true; d.seed = r.next() >> 16; d.rate = rates[r.below(6)];
    return d;
}

static void on_deadlock(int) { fprintf(stderr, "harness: interleaved clients are stuck\n"); _exit(78); }
static void on_alarm(int) { S.fatal(S.scope | P(VALID), "operation does not end"); }
static void on_terminate() {
    S.fatal(P(CAUSE) | S.scope | (S.faults_in_run ? P(VALID) : 0), "program terminated: an exception left the library or could not be reported");
}

static void arm(int seconds) {
    struct itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, 0);
}
static void handlers() {
    signal(SIGPROF, on_alarm);
    signal(SIGALRM, on_deadlock);
    std::set_terminate(on_terminate);
}

static std::string json_escape(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32) r += ' ';
        else r += char(c);
    }
    return r;
}

static void write_stats(const Stats& st, FILE* f) {
    fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"ops\":%llu,\"ops_failed\":%llu,\"sweeps\":%llu,\"sigs\":[", (unsigned long long)st.runs,
            (unsigned long long)st.steps, (unsigned long long)st.ops, (unsigned long long)st.ops_failed, (unsigned long long)st.sweeps);
    bool first = true;
    for (std::set<u64>::const_iterator i = st.sigs.begin(); i != st.sigs.end(); ++i) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)*i); first = false; }
    fprintf(f, "],\"fired\":[");
    for (int i = 0; i < 7; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)st.fired[i]);
    fprintf(f, "],\"op_count\":{");
    first = true;
    for (std::map<std::string, u64>::const_iterator i = st.op_count.begin(); i != st.op_count.end(); ++i) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(i->first).c_str(), (unsigned long long)i->second); first = false; }
    fprintf(f, "},\"probes\":{");
    first = true;
    for (std::map<std::string, u64>::const_iterator i = st.probes.begin(); i != st.probes.end(); ++i) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(i->first).c_str(), (unsigned long long)i->second); first = false; }
    fprintf(f, "}}\n");
}

// Failures found in a child are written as lines: seed, step, tags (hex), kind, text
static int batch(u64 first, u64 count, u64 stride, u32 mask, u32 focus, const char* out) {
    Progress* prog = static_cast<Progress*>(mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::string base(out);
    FILE* fails = fopen((base + ".fails").c_str(), "w");
    FILE* hashes = fopen((base + ".hash").c_str(), "w");
    if (!fails || !hashes) { perror("open"); return 2; }
    fclose(hashes);
    u64 i = 0;
    int part = 0, failing = 0;
    bool found = false;
    while (i < count && !found && failing < 60) {
        memset(prog, 0, sizeof *prog);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) {
            handlers();
            static Stats st;
            FILE* hf = fopen((base + ".hash").c_str(), "a");
            S.stats = &st; S.prog = prog;
            u64 k = i;
            bool stop = false;
            for (; k < count && !stop; ++k) {
                u64 seed = first + k * stride;
                prog->seed = seed; prog->runs = k; prog->scope = 0; prog->op[0] = 0;
                S.reset();
                arm(strcmp(the_world.name, "bulk") ? 10 : 30);
                if (focus & P(INDEP)) run_duet(generate(2 * seed, 0), generate(2 * seed + 1, 0), schedule_of(seed));
                else run(generate(seed, focus), false);
                ++st.runs;
                fprintf(hf, "%llu %016llx %u\n", (unsigned long long)seed, (unsigned long long)S.hash, S.faults_in_run);
                if (!S.failures.empty()) stop = true;
            }
            fclose(hf);
            char name[32]; snprintf(name, sizeof name, ".stats.%d", part);
            FILE* sf = fopen((base + name).c_str(), "w");
            if (sf) { S.reset(); write_stats(st, sf); fclose(sf); }
            prog->done = stop ? 2 : 1;
            _exit(stop ? 1 : 0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        ++part;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && prog->done == 1) break;
        u32 tags = 0;
        const char* kind = "?";
        std::string text;
        if (WIFEXITED(status) && (WEXITSTATUS(status) == 1 || WEXITSTATUS(status) == 77)) {
            tags = prog->failtags; kind = "check"; text = prog->failmsg;
        } else if (WIFEXITED(status) && WEXITSTATUS(status) == 78) {
            fprintf(stderr, "harness out of memory\n"); return 2;
        } else {
            tags = prog->failtags | prog->scope | P(LIFE) | P(MEM) | (prog->faults_so_far ? P(VALID) : 0);
            kind = "crash";
            std::ostringstream o;
            o << "crash (" << (WIFSIGNALED(status) ? "signal " : "exit ") << (WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status)) << ") in " << prog->op;
            if (prog->failtags) o << " after: " << prog->failmsg;
            text = o.str();
        }
        if (prog->duet) { tags = P(INDEP); text = "two clients interleaved: " + text; }
        for (size_t q = 0; q < text.size(); ++q) if (text[q] == '\n' || text[q] == '\t') text[q] = ' ';
        fprintf(fails, "%llu\t%u\t%x\t%s\t%s\n", (unsigned long long)prog->seed, prog->step, tags, kind, text.c_str());
        fflush(fails);
        ++failing;
        if (tags & mask) found = true;
        i = prog->runs + 1;
    }
    fclose(fails);
    return 0;
}

int main(int argc, char** argv) {
    if (argc >= 8 && !strcmp(argv[1], "batch"))
        return batch(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), u32(strtoul(argv[5], 0, 16)), u32(strtoul(argv[6], 0, 16)), argv[7]);
    if (argc >= 4 && !strcmp(argv[1], "gen")) {
        const u64 seed = strtoull(argv[2], 0, 10); const u32 focus = u32(strtoul(argv[3], 0, 16));
        std::string t = focus & P(INDEP) ? print(generate(2 * seed, 0), generate(2 * seed + 1, 0), schedule_of(seed)) : print(generate(seed, focus));
        fputs(t.c_str(), stdout);
        fflush(stdout);
        _exit(0);
    }
    if (argc >= 3 && !strcmp(argv[1], "exec")) {
        Program p, q; Schedule d;
        if (!parse(argv[2], p, q, d)) { fprintf(stderr, "cannot read %s\n", argv[2]); _exit(2); }
        if (p.world != the_world.name) { fprintf(stderr, "program is for world %s\n", p.world.c_str()); _exit(2); }
        bool verbose = argc > 3 && !strcmp(argv[3], "-v");
        bool steps = argc > 3 && !strcmp(argv[3], "-s");
        Progress* prog = static_cast<Progress*>(mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            handlers();
            S.reset();
            S.prog = prog; S.trace = verbose;
            arm(4);
            if (d.on) run_duet(p, q, d); else run(p, steps);
            fflush(stdout);
            prog->hash = S.hash;
            prog->done = 1;
            _exit(S.failures.empty() ? 0 : 1);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        u32 tags = prog->failtags;
        if (d.on && steps && prog->nswitches <= 8192) { printf("switches"); for (u32 i = 0; i < prog->nswitches; ++i) printf(" %u", prog->switches[i]); printf("\n"); }
        if (prog->duet) { prog->scope = 0; prog->faults_so_far = 0; tags = P(INDEP); }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && prog->done) {
            printf("PASS hash=%016llx\n", (unsigned long long)prog->hash);
        } else if (WIFEXITED(status) && (WEXITSTATUS(status) == 1 || WEXITSTATUS(status) == 77)) {
            printf("FAIL tags=%x step=%u hash=%016llx %s\n", tags, prog->step, (unsigned long long)prog->hash, prog->failmsg);
        } else {
            if (!prog->duet) tags |= prog->scope | P(LIFE) | P(MEM) | (prog->faults_so_far ? P(VALID) : 0);
            printf("FAIL tags=%x step=%u hash=%016llx crash (%s %d) in %s %s\n", tags, prog->step, (unsigned long long)prog->hash,
                   WIFSIGNALED(status) ? "signal" : "exit", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), prog->op, prog->failtags ? prog->failmsg : "");
        }
        fflush(stdout);
        _exit(tags ? 1 : 0);
    }
    fprintf(stderr, "usage: batch FIRST COUNT STRIDE MASK FOCUS OUT | gen SEED FOCUS | exec FILE [-v|-s]\n");
    return 2;
}
