// Simulated OpenMP runtime for the compiled engine.
//
// The engine is compiled with -fsanitize=thread code generation (every memory access calls a
// __tsan_* function) and linked against this file instead of libgomp and libtsan.  The threads of
// a team are real pthreads (so thread_local storage and in-flight exceptions are per thread), but
// exactly one of them runs at a time: a baton is passed at memory accesses and synchronisation
// points, and a seeded scheduler decides to whom.  One seed is one exactly repeatable execution;
// the decisions are recorded as (region, event, thread) triples and can be replayed from a list.
//
// While a run proceeds, accesses are checked for data races (vector clocks: barriers, region
// fork/join, critical sections, mutexes and atomics order accesses; nothing else does), for
// deadlock (no runnable thread) and for lack of progress (event bound).
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <math.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <atomic>
#include <new>
#include <unordered_map>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define RA ((uintptr_t)__builtin_return_address(0))

namespace {

void forget_all();
const int MAXT = 8;

// ---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s;
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return (uint32_t)((next() >> 33) % n); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- configuration, results
enum Mode { M_SEQ = 0, M_RANDOM = 1, M_PCT = 2, M_RR = 3, M_REPLAY = 4, M_REVERSE = 5, M_PERM = 6 };
struct Cfg {
    int mode = M_SEQ;
    uint64_t seed = 1;
    double p = 0.01;         // preemption probability per event (random)
    int quantum = 64;        // events between switches (round robin)
    int depth = 3;           // priority change points per region (pct)
    int team_cap = 0;        // fewest threads the runtime grants (0: what is asked for)
    int max_threads = 4;     // what omp_get_max_threads reports
    int races = 1;
    uint64_t max_events = 400000000ull;   // in one region
} cfg;

struct Decision { uint32_t region, event, tid; };   // tid | 256: the running thread could not go on
std::vector<Decision> trace_out;
std::vector<Decision> replay_in;
size_t replay_pos = 0;

struct RaceRep { uintptr_t pc1, pc2, addr; uint32_t region; uint8_t t1, t2, w1, w2; };
std::vector<RaceRep> races;
struct U64 { uint64_t v; };
std::vector<U64> race_seen;

struct Stats {
    uint64_t regions, events, switches, barriers, criticals, contended, singles, hash, teamcut, nested, atomics;
} st;

Rng rng;
char fatal_path[512];

[[noreturn]] void die(const char *what, const char *detail) {
    if (fatal_path[0]) {
        FILE *f = fopen(fatal_path, "w");
        if (f) {
            fprintf(f, "%s %s region=%llu\n", what, detail, (unsigned long long)st.regions);
            for (auto &d : trace_out) fprintf(f, "%u %u %u\n", d.region, d.event, d.tid);
            fclose(f);
        }
    }
    fprintf(stderr, "simomp: %s %s region=%llu\n", what, detail, (unsigned long long)st.regions);
    _exit(97);
}

// ---------------------------------------------------------------- team state
struct Worker {
    pthread_t th;
    std::atomic<int> go{0};
    bool created = false;
};
Worker workers[MAXT];

bool quit = false;

enum TState { T_RUN, T_BARRIER, T_LOCK, T_DONE };
struct Thr {
    TState state;
    void *waiting;          // the lock
    uint32_t vc[MAXT];
    int single_no, loop_no;
    int prio;
} thr[MAXT];

bool region_open = false;     // written only while a single thread runs
thread_local bool tl_member = false;   // the thread belongs to the team (others, such as one that is ending, are left alone)
inline bool inside() { return region_open && tl_member; }
int team = 1;
int cur = 0;
uint64_t region_no = 0, ev = 0;
uint64_t next_switch = 0;     // event number of the next voluntary decision
int singles_done = 0;
void (*job_fn)(void *) = nullptr;
void *job_data = nullptr;
uint32_t clk_base = 1;
thread_local int tl_tid = 0;
int perm[MAXT];
uint64_t pct_points[16];
int pct_n = 0;
int pct_next_low = 0;
uint64_t pct_guess = 2000;

struct LoopDesc { long next, end, incr, chunk; bool init; };
std::vector<LoopDesc> loops;

void fwait(std::atomic<int> *w) {
    while (w->load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int *)w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    w->store(0, std::memory_order_relaxed);
}
void fwake(std::atomic<int> *w) {
    w->store(1, std::memory_order_release);
    syscall(SYS_futex, (int *)w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

struct Lock { int owner = -1; uint32_t vc[MAXT] = {0}; };
std::unordered_map<void *, Lock> *locks = nullptr;
std::unordered_map<void *, Lock> &lockmap() { if (!locks) locks = new std::unordered_map<void *, Lock>(); return *locks; }

bool runnable(int t) {
    if (thr[t].state == T_RUN) return true;
    if (thr[t].state == T_LOCK) { Lock &l = lockmap()[thr[t].waiting]; return l.owner < 0; }
    return false;
}

void record(int to, bool forced) {
    // what a replay does without an entry (stay; the lowest runnable thread) needs none
    int low = 0;
    while (low < team && !runnable(low)) low++;
    if (!forced || to != low) trace_out.push_back({(uint32_t)region_no, (uint32_t)ev, (uint32_t)to | (forced ? 256u : 0u)});
    st.hash = (st.hash ^ (region_no * 1000003ull + ev * 31 + to)) * 0x100000001B3ull;
}

void give(int to) {
    // pass the baton and wait for its return
    int me = tl_tid;
    if (to == me) { cur = to; return; }
    st.switches++;
    cur = to;
    fwake(&workers[to].go);
    fwait(&workers[me].go);
}

void draw_next() {
    switch (cfg.mode) {
    case M_RANDOM: {
        if (cfg.p <= 0) { next_switch = ~0ull; break; }
        double u = rng.uni();
        double g = cfg.p >= 1 ? 1 : 1 + floor(log(u > 1e-18 ? u : 1e-18) / log(1 - cfg.p));
        if (g > 1e9) g = 1e9;
        next_switch = ev + (uint64_t)g;
        break; }
    case M_RR: next_switch = ev + cfg.quantum; break;
    case M_PCT: {
        next_switch = ~0ull;
        for (int i = 0; i < pct_n; i++) if (pct_points[i] > ev && pct_points[i] < next_switch) next_switch = pct_points[i];
        break; }
    case M_REPLAY: {
        next_switch = ~0ull;
        for (size_t i = replay_pos; i < replay_in.size() && replay_in[i].region <= region_no; i++)
            if (replay_in[i].region == region_no && replay_in[i].event > ev && !(replay_in[i].tid & 256)) { next_switch = replay_in[i].event; break; }
        break; }
    default: next_switch = ~0ull;
    }
}

int choose(bool voluntary) {
    int cand[MAXT], n = 0;
    for (int t = 0; t < team; t++) if (runnable(t)) cand[n++] = t;
    if (n == 0) return -1;
    switch (cfg.mode) {
    case M_RANDOM: return cand[rng.below(n)];
    case M_RR: { for (int k = 1; k <= team; k++) { int t = (tl_tid + k) % team; if (runnable(t)) return t; } return cand[0]; }
    case M_PCT: { int b = cand[0]; for (int i = 1; i < n; i++) if (thr[cand[i]].prio > thr[b].prio) b = cand[i]; return b; }
    case M_REVERSE: return cand[n - 1];
    case M_PERM: { for (int i = 0; i < team; i++) if (runnable(perm[i])) return perm[i]; return cand[0]; }
    case M_REPLAY: {
        int want = -1;
        while (replay_pos < replay_in.size() && (replay_in[replay_pos].region < region_no ||
               (replay_in[replay_pos].region == region_no && replay_in[replay_pos].event < ev))) replay_pos++;
        if (replay_pos < replay_in.size()) {
            Decision &d = replay_in[replay_pos];
            if (d.region == region_no && d.event == ev && voluntary == !(d.tid & 256)) { want = (int)(d.tid & 255); replay_pos++; }
        }
        if (want >= 0 && want < team && runnable(want)) return want;
        if (voluntary && runnable(tl_tid)) return tl_tid;
        return cand[0]; }
    default: {
        if (voluntary && runnable(tl_tid)) return tl_tid;
        return cand[0]; }
    }
}

void shuffle_perm() {
    for (int i = 0; i < team; i++) perm[i] = i;
    for (int i = team - 1; i > 0; i--) { int j = (int)rng.below(i + 1), x = perm[i]; perm[i] = perm[j]; perm[j] = x; };
}

// the running thread cannot go on: hand over; returns when it may run again
void block_here(const char *why) {
    int to = choose(false);
    if (to < 0) die("deadlock", why);
    record(to, true);
    give(to);
    draw_next();
}

void sched_point() {
    if (cfg.mode == M_PCT) thr[tl_tid].prio = --pct_next_low;
    int to = choose(true);
    if (to >= 0) {
        if (to != tl_tid) { record(to, false); give(to); }
    }
    draw_next();
}

inline void event() {
    ev++; st.events++;
    if (ev >= next_switch) sched_point();
    if (ev > cfg.max_events) die("no-progress", "event bound exceeded");
}

// ---------------------------------------------------------------- race detection
// Open-addressed table of 8-byte granules; an entry of an older generation counts as absent, so
// forgetting everything at a barrier is one increment.
struct Cell { uint32_t clk, pc; uint8_t mask; };
struct Gran { uintptr_t key; uint32_t gen; Cell w[MAXT]; Cell r[MAXT]; };
Gran *table = nullptr;
size_t tcap = 0, tused = 0;
uint32_t tgen = 1;
uintptr_t base_pc = 0;

inline size_t slot_of(uintptr_t g, size_t cap) { return (size_t)((g * 0x9E3779B97F4A7C15ull) >> 20) & (cap - 1); }

Gran *find_gran(uintptr_t g, bool create) {
    if (!table) {
        if (!create) return nullptr;
        tcap = 1 << 12; table = (Gran *)calloc(tcap, sizeof(Gran)); tused = 0;
    }
    size_t i = slot_of(g, tcap);
    while (table[i].gen == tgen) {
        if (table[i].key == g) return &table[i];
        i = (i + 1) & (tcap - 1);
    }
    if (!create) return nullptr;
    if (tused * 2 > tcap) {
        size_t oc = tcap; Gran *ot = table;
        tcap *= 2; table = (Gran *)calloc(tcap, sizeof(Gran)); tused = 0;
        for (size_t k = 0; k < oc; k++) if (ot[k].gen == tgen) {
            size_t j = slot_of(ot[k].key, tcap);
            while (table[j].gen == tgen) j = (j + 1) & (tcap - 1);
            table[j] = ot[k]; tused++;
        }
        free(ot);
        return find_gran(g, true);
    }
    tused++;
    memset(&table[i], 0, sizeof(Gran));
    table[i].key = g; table[i].gen = tgen;
    return &table[i];
}
void forget_all() { tgen++; tused = 0; }

void report(int t, bool w, uintptr_t pc, int u, bool uw, uintptr_t upc, uintptr_t addr) {
    uintptr_t a = pc < upc ? pc : upc, b = pc < upc ? upc : pc;
    uint64_t key = a * 0x9E3779B97F4A7C15ull ^ b;
    for (auto &k : race_seen) if (k.v == key) return;
    race_seen.push_back({key});
    if (races.size() < 256) races.push_back({upc, pc, addr, (uint32_t)region_no, (uint8_t)u, (uint8_t)t, (uint8_t)uw, (uint8_t)w});
}

void access_gran(uintptr_t g, uint8_t mask, bool w, uintptr_t pc) {
    int t = tl_tid;
    Gran &G = *find_gran(g, true);
    uint32_t *vc = thr[t].vc;
    for (int u = 0; u < team; u++) {
        if (u == t) continue;
        if (G.w[u].clk > vc[u] && (G.w[u].mask & mask)) report(t, w, pc, u, true, base_pc + G.w[u].pc, g << 3);
        if (w && G.r[u].clk > vc[u] && (G.r[u].mask & mask)) report(t, w, pc, u, false, base_pc + G.r[u].pc, g << 3);
    }
    Cell &c = w ? G.w[t] : G.r[t];
    if (c.clk == vc[t]) c.mask |= mask; else { c.clk = vc[t]; c.mask = mask; }
    c.pc = (uint32_t)(pc - base_pc);
}

void access_range(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!cfg.races || n == 0) return;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t g = a >> 3;
        uintptr_t lo = a & 7, hi = lo + (e - a) < 8 ? lo + (e - a) : 8;
        uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        access_gran(g, mask, w, pc);
        a = (g + 1) << 3;
    }
}

void clear_range(uintptr_t a, size_t n) {
    for (uintptr_t g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; g++) {
        Gran *G = find_gran(g, false);
        if (G) { memset(G->w, 0, sizeof G->w); memset(G->r, 0, sizeof G->r); }
    }
}

inline void hook(const void *a, size_t n, bool w, uintptr_t pc) {
    if (!inside()) return;
    event();
    access_range((uintptr_t)a, n, w, pc);
}

void vc_join(uint32_t *d, const uint32_t *s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }

void acquire_lock(void *key, const char *why) {
    event();
    int t = tl_tid;
    Lock *l = &lockmap()[key];
    if (l->owner == t) die("deadlock", "a thread locks what it already holds");
    bool first = true;
    while (l->owner >= 0) {
        if (first) { st.contended++; first = false; }
        thr[t].state = T_LOCK; thr[t].waiting = key;
        block_here(why);
        l = &lockmap()[key];
    }
    thr[t].state = T_RUN;
    l->owner = t;
    vc_join(thr[t].vc, l->vc);
}
void release_lock(void *key) {
    int t = tl_tid;
    Lock &l = lockmap()[key];
    memcpy(l.vc, thr[t].vc, sizeof l.vc);
    thr[t].vc[t]++;
    l.owner = -1;
    event();
}

// ---------------------------------------------------------------- barrier, region
bool release_barrier_if_complete() {
    int waiting = 0, done = 0;
    for (int t = 0; t < team; t++) { if (thr[t].state == T_BARRIER) waiting++; if (thr[t].state == T_DONE) done++; }
    if (waiting == 0 || waiting + done < team) return false;
    if (done > 0) die("deadlock", "some threads left the region while others wait at a barrier");
    uint32_t m[MAXT] = {0};
    for (int t = 0; t < team; t++) vc_join(m, thr[t].vc);
    for (int t = 0; t < team; t++) {
        memcpy(thr[t].vc, m, sizeof m);
        thr[t].vc[t]++;
        thr[t].state = T_RUN;
    }
    st.barriers++;
    if (cfg.mode == M_PERM) shuffle_perm();
    if (cfg.mode == M_PCT) for (int t = 0; t < team; t++) thr[t].prio = (int)rng.below(1000) + 1;
    forget_all();   // everything before is ordered
    return true;
}

void barrier() {
    event();
    thr[tl_tid].state = T_BARRIER;
    release_barrier_if_complete();
    // a decision at the barrier in any case: who goes on
    block_here("barrier");
}

void *worker_main(void *arg) {
    int id = (int)(intptr_t)arg;
    tl_tid = id; tl_member = true;
    for (;;) {
        fwait(&workers[id].go);
        if (quit) return nullptr;
        job_fn(job_data);
        // end of the region for this thread
        thr[id].state = T_DONE;
        release_barrier_if_complete();
        int to = choose(false);
        if (to < 0) {
            bool all = true;
            for (int t = 0; t < team; t++) if (thr[t].state != T_DONE) all = false;
            if (!all) die("deadlock", "end of region");
            to = 0;   // the master waits for the end
        } else record(to, true);
        cur = to;
        st.switches++;
        fwake(&workers[to].go);
    }
    return nullptr;
}

void child_after_fork() {
    for (int i = 0; i < MAXT; i++) { workers[i].created = false; workers[i].go.store(0); }
    region_open = false; tl_member = false;
}

// Threads end between runs, so that no run sees thread-local leftovers of an earlier one.
void end_pool() {
    quit = true;
    for (int i = 1; i < MAXT; i++) if (workers[i].created) {
        fwake(&workers[i].go);
        pthread_join(workers[i].th, nullptr);
        workers[i].created = false;
        workers[i].go.store(0);
    }
    quit = false;
}

void run_region(void (*fn)(void *), void *data, unsigned n) {
    if (inside()) {      // nested: one thread
        st.nested++;
        fn(data);
        return;
    }
    static bool atf = false;
    if (!atf) { atf = true; pthread_atfork(nullptr, nullptr, child_after_fork); }
    if (n == 0) n = cfg.max_threads;
    if (n > (unsigned)MAXT) n = MAXT;
    if (cfg.team_cap > 0 && (int)n > cfg.team_cap) {
        // the runtime may always grant fewer threads than asked for
        unsigned m = cfg.team_cap + rng.below(n - cfg.team_cap + 1);
        if (m != n) st.teamcut++;
        n = m;
    }
    region_no++; st.regions++;
    team = (int)n;
    ev = 0;
    tl_tid = 0;
    cur = 0;
    singles_done = 0;
    loops.clear();
    job_fn = fn; job_data = data;
    forget_all();
    // fork: nothing the threads do now is concurrent with anything before
    uint32_t top = clk_base;
    for (int t = 0; t < MAXT; t++) for (int u = 0; u < MAXT; u++) if (thr[t].vc[u] > top) top = thr[t].vc[u];
    for (int t = 0; t < MAXT; t++) {
        for (int u = 0; u < MAXT; u++) thr[t].vc[u] = top;
        thr[t].vc[t] = top + 1;
        thr[t].state = t < team ? T_RUN : T_DONE;
        thr[t].single_no = 0; thr[t].loop_no = 0;
        thr[t].prio = cfg.mode == M_PCT ? (int)rng.below(1000) + 1 : 0;
    }
    clk_base = top + 1;
    if (locks) for (auto &kv : *locks) kv.second.owner = -1;
    pct_next_low = 0;
    pct_n = 0;
    if (cfg.mode == M_PCT) {
        for (int i = 0; i < cfg.depth && i < 16; i++) pct_points[pct_n++] = 1 + rng.below((uint32_t)pct_guess);
        pct_guess = st.events / (st.regions ? st.regions : 1); if (pct_guess < 200) pct_guess = 200;
    }
    if (cfg.mode == M_PERM) shuffle_perm();
    for (int i = 1; i < team; i++) if (!workers[i].created) {
        workers[i].created = true;
        workers[i].go.store(0);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4 << 20);
        if (pthread_create(&workers[i].th, &a, worker_main, (void *)(intptr_t)i)) die("internal", "pthread_create");
        pthread_attr_destroy(&a);
    }
    region_open = true; tl_member = true;
    if (team == 1) {
        next_switch = ~0ull;
        fn(data);
        region_open = false; tl_member = false;
        return;
    }
    draw_next();
    int to = choose(false);
    record(to, true);
    give(to);
    draw_next();
    fn(data);
    thr[0].state = T_DONE;
    release_barrier_if_complete();
    to = choose(false);
    if (to >= 0) { record(to, true); give(to); }   // returns when all are done
    for (int t = 0; t < team; t++) if (thr[t].state != T_DONE) die("deadlock", "end of region");
    region_open = false; tl_member = false;
}

}  // namespace

// guards have their own declaration in the runtime library
#include <cxxabi.h>
#define G_(g) ((__cxxabiv1::__guard *)(g))
// ---------------------------------------------------------------- OpenMP entry points
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_region(fn, data, n); }
void GOMP_barrier() { if (inside() && team > 1) barrier(); }
bool GOMP_single_start() {
    if (!inside()) return true;
    event();
    int k = ++thr[tl_tid].single_no;
    if (k > singles_done) { singles_done = k; st.singles++; return true; }
    return false;
}
void GOMP_critical_name_start(void **p) { if (inside()) { st.criticals++; acquire_lock(p, "critical section"); } }
void GOMP_critical_name_end(void **p) { if (inside()) release_lock(p); }
static char anon_crit, atomic_crit;
void GOMP_critical_start() { if (inside()) { st.criticals++; acquire_lock(&anon_crit, "critical section"); } }
void GOMP_critical_end() { if (inside()) release_lock(&anon_crit); }
void GOMP_atomic_start() { if (inside()) { st.atomics++; acquire_lock(&atomic_crit, "atomic"); } }
void GOMP_atomic_end() { if (inside()) release_lock(&atomic_crit); }
int omp_get_thread_num() { return inside() ? tl_tid : 0; }
int omp_get_num_threads() { return inside() ? team : 1; }
int omp_get_max_threads() { return cfg.max_threads; }
int omp_get_num_procs() { return cfg.max_threads; }
int omp_in_parallel() { return inside() && team > 1; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_num_threads(int n) { cfg.max_threads = n < 1 ? 1 : (n > MAXT ? MAXT : n); }
int omp_get_thread_limit() { return MAXT; }
int omp_get_level() { return inside() ? 1 : 0; }
double omp_get_wtime() { return (double)st.events * 1e-9; }

// dynamic and guided loops: chunks are handed out in the order in which threads ask
static bool loop_start(long start, long end, long incr, long chunk, long *is, long *ie) {
    if (!inside()) { *is = start; *ie = end; return incr > 0 ? start < end : start > end; }
    int k = thr[tl_tid].loop_no++;
    if ((int)loops.size() <= k) loops.resize(k + 1, LoopDesc{0, 0, 0, 0, false});
    if (!loops[k].init) loops[k] = LoopDesc{start, end, incr, chunk < 1 ? 1 : chunk, true};
    event();
    LoopDesc &L = loops[k];
    if (L.incr > 0 ? L.next >= L.end : L.next <= L.end) return false;
    *is = L.next;
    L.next += L.incr * L.chunk;
    if (L.incr > 0 ? L.next > L.end : L.next < L.end) L.next = L.end;
    *ie = L.next;
    return true;
}
static bool loop_next(long *is, long *ie) {
    if (!inside()) return false;
    event();
    LoopDesc &L = loops[thr[tl_tid].loop_no - 1];
    if (L.incr > 0 ? L.next >= L.end : L.next <= L.end) return false;
    *is = L.next;
    L.next += L.incr * L.chunk;
    if (L.incr > 0 ? L.next > L.end : L.next < L.end) L.next = L.end;
    *ie = L.next;
    return true;
}
#define LOOPS(K) \
    bool GOMP_loop_##K##_start(long a, long b, long c, long d, long *x, long *y) { return loop_start(a, b, c, d, x, y); } \
    bool GOMP_loop_##K##_next(long *x, long *y) { return loop_next(x, y); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
bool GOMP_loop_runtime_start(long a, long b, long c, long *x, long *y) { return loop_start(a, b, c, 1, x, y); }
bool GOMP_loop_runtime_next(long *x, long *y) { return loop_next(x, y); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long *x, long *y) { return loop_start(a, b, c, 1, x, y); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *x, long *y) { return loop_next(x, y); }
bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long c, long *x, long *y) { return loop_start(a, b, c, 1, x, y); }
bool GOMP_loop_nonmonotonic_runtime_next(long *x, long *y) { return loop_next(x, y); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
static void par_loop(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, long d) {
    struct X { void (*fn)(void *); void *data; long a, b, c, d; } x{fn, data, a, b, c, d};
    run_region([](void *p) {
        X *x = (X *)p;
        // the outlined function begins with GOMP_loop_*_next: the work share exists already
        if (inside()) {
            int k = thr[tl_tid].loop_no++;
            if ((int)loops.size() <= k) loops.resize(k + 1, LoopDesc{0, 0, 0, 0, false});
            if (!loops[k].init) loops[k] = LoopDesc{x->a, x->b, x->c, x->d < 1 ? 1 : x->d, true};
        }
        x->fn(x->data);
    }, &x, n);
}
#define PLOOPS(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, long d, unsigned) { par_loop(fn, data, n, a, b, c, d); }
PLOOPS(dynamic) PLOOPS(guided) PLOOPS(static) PLOOPS(nonmonotonic_dynamic) PLOOPS(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, unsigned) { par_loop(fn, data, n, a, b, c, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, unsigned) { par_loop(fn, data, n, a, b, c, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, unsigned) { par_loop(fn, data, n, a, b, c, 1); }

// locks
int sim_pthread_mutex_lock(pthread_mutex_t *m);
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!inside()) return pthread_mutex_lock(m);
    acquire_lock(m, "mutex"); return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!inside()) return pthread_mutex_unlock(m);
    release_lock(m); return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!inside()) return pthread_mutex_trylock(m);
    event();
    if (lockmap()[m].owner >= 0) return 16;
    acquire_lock(m, "mutex"); return 0;
}
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { if (inside()) acquire_lock(p, "lock"); }
void omp_unset_lock(void *p) { if (inside()) release_lock(p); }
int omp_test_lock(void *p) { if (!inside()) return 1; event(); if (lockmap()[p].owner >= 0) return 0; acquire_lock(p, "lock"); return 1; }

int sim___cxa_guard_acquire(uint64_t *g) {
    if (!inside()) return abi::__cxa_guard_acquire(G_(g));
    if (*(volatile char *)g) { acquire_lock(g, "static initialisation"); release_lock(g); return 0; }
    acquire_lock(g, "static initialisation");
    if (*(volatile char *)g) { release_lock(g); return 0; }
    return 1;
}
void sim___cxa_guard_release(uint64_t *g) {
    if (!inside()) return abi::__cxa_guard_release(G_(g));
    *(volatile char *)g = 1; release_lock(g);
}
void sim___cxa_guard_abort(uint64_t *g) {
    if (!inside()) return abi::__cxa_guard_abort(G_(g));
    release_lock(g);
}

// ---------------------------------------------------------------- instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void *a) { hook(a, N, false, RA); } \
    void __tsan_write##N(void *a) { hook(a, N, true, RA); } \
    void __tsan_unaligned_read##N(void *a) { hook(a, N, false, RA); } \
    void __tsan_unaligned_write##N(void *a) { hook(a, N, true, RA); } \
    void __tsan_volatile_read##N(void *a) { hook(a, N, false, RA); } \
    void __tsan_volatile_write##N(void *a) { hook(a, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { hook(a, n, false, RA); }
void __tsan_write_range(void *a, unsigned long n) { hook(a, n, true, RA); }
void __tsan_vptr_update(void **a, void *) { hook(a, 8, true, RA); }
void __tsan_vptr_read(void **a) { hook(a, 8, false, RA); }

static void atomic_sync(const volatile void *a) {
    if (!inside()) return;
    event();
    st.atomics++;
    int t = tl_tid;
    Lock &l = lockmap()[(void *)a];
    vc_join(thr[t].vc, l.vc);
    vc_join(l.vc, thr[t].vc);
    thr[t].vc[t]++;
}
#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T *a, int) { atomic_sync(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T *a, T v, int) { atomic_sync(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atomic_sync(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atomic_sync(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atomic_sync(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atomic_sync(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atomic_sync(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atomic_sync(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atomic_sync(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atomic_sync(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atomic_sync(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory
void *_Znwm(size_t); void *_Znam(size_t);
void _ZdlPv(void *); void _ZdlPvm(void *, size_t); void _ZdaPv(void *); void _ZdaPvm(void *, size_t);

static inline void fresh(void *p, size_t n) { if (inside() && p && cfg.races) clear_range((uintptr_t)p, n); }
static inline void gone(void *p, uintptr_t pc) {
    if (inside() && p && cfg.races) {
        // releasing memory conflicts with every unordered access to it
        size_t n = malloc_usable_size(p);
        if (n <= (1u << 16)) access_range((uintptr_t)p, n, true, pc);
        clear_range((uintptr_t)p, n);
    }
}
void *sim_malloc(size_t n) { void *p = malloc(n); fresh(p, n); return p; }
void *sim_calloc(size_t a, size_t b) { void *p = calloc(a, b); fresh(p, a * b); return p; }
void sim_free(void *p) { gone(p, RA); free(p); }
void *sim_realloc(void *p, size_t n) { gone(p, RA); void *q = realloc(p, n); fresh(q, n); return q; }
void *sim__Znwm(size_t n) { void *p = _Znwm(n); fresh(p, n); return p; }
void *sim__Znam(size_t n) { void *p = _Znam(n); fresh(p, n); return p; }
void sim__ZdlPv(void *p) { gone(p, RA); _ZdlPv(p); }
void sim__ZdlPvm(void *p, size_t n) { gone(p, RA); _ZdlPvm(p, n); }
void sim__ZdaPv(void *p) { gone(p, RA); _ZdaPv(p); }
void sim__ZdaPvm(void *p, size_t n) { gone(p, RA); _ZdaPvm(p, n); }
void *sim_memcpy(void *d, const void *s, size_t n) {
    if (inside() && n) { event(); access_range((uintptr_t)s, n, false, RA); access_range((uintptr_t)d, n, true, RA); }
    return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) {
    if (inside() && n) { event(); access_range((uintptr_t)s, n, false, RA); access_range((uintptr_t)d, n, true, RA); }
    return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
    if (inside() && n) { event(); access_range((uintptr_t)d, n, true, RA); }
    return memset(d, c, n);
}
}  // extern "C"

// ---------------------------------------------------------------- control interface (ctypes)
EXPORT void simomp_config(int mode, unsigned long long seed, double p, int quantum, int depth, int team_cap, int max_threads, int race_on, unsigned long long max_events) {
    end_pool();
    cfg.mode = mode; cfg.seed = seed; cfg.p = p; cfg.quantum = quantum < 1 ? 1 : quantum; cfg.depth = depth;
    cfg.team_cap = team_cap; cfg.max_threads = max_threads < 1 ? 1 : (max_threads > MAXT ? MAXT : max_threads);
    cfg.races = race_on;
    if (max_events) cfg.max_events = max_events;
    rng.s = seed * 0x9E3779B97F4A7C15ull + 12345;
    trace_out.clear(); replay_pos = 0; races.clear(); race_seen.clear();
    memset(&st, 0, sizeof st);
    region_no = 0; pct_guess = 2000;
    st.hash = 0xcbf29ce484222325ull;
    forget_all();
    Dl_info di; dladdr((void *)&simomp_config, &di); base_pc = (uintptr_t)di.dli_fbase;
}
EXPORT void simomp_fatal_path(const char *p) { strncpy(fatal_path, p, sizeof fatal_path - 1); }
EXPORT void simomp_replay(int n, const uint32_t *a) {
    replay_in.clear();
    for (int i = 0; i < n; i++) replay_in.push_back({a[3 * i], a[3 * i + 1], a[3 * i + 2]});
    replay_pos = 0;
}
EXPORT int simomp_trace(int cap, uint32_t *a) {
    int n = (int)trace_out.size();
    for (int i = 0; i < n && i < cap; i++) { a[3 * i] = trace_out[i].region; a[3 * i + 1] = trace_out[i].event; a[3 * i + 2] = trace_out[i].tid; }
    return n;
}
EXPORT int simomp_races(int cap, uint64_t *a) {
    Dl_info di; dladdr((void *)&simomp_config, &di);
    uintptr_t base = (uintptr_t)di.dli_fbase;
    int n = (int)races.size();
    for (int i = 0; i < n && i < cap; i++) {
        a[6 * i] = races[i].pc1 - base; a[6 * i + 1] = races[i].pc2 - base; a[6 * i + 2] = races[i].region;
        a[6 * i + 3] = races[i].t1 | (races[i].w1 << 8); a[6 * i + 4] = races[i].t2 | (races[i].w2 << 8); a[6 * i + 5] = races[i].addr;
    }
    return n;
}
EXPORT void simomp_stats(uint64_t *a) { memcpy(a, &st, sizeof st); }
EXPORT int simomp_nstats() { return (int)(sizeof st / sizeof(uint64_t)); }
