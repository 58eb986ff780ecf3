// Deterministic simulation runtime: interface between the simulator and the
// harness.  Everything the code under test sees of threads, time, storage and
// memory goes through the functions defined in simrt.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {

// One scheduling deviation: at decision point `at`, run team member `to`.
struct Preempt {
    uint64_t at;
    int      to;
};

// A jump of the simulated clock.
struct ClockJump {
    int      on;     // 0: at the `at`-th clock read, 1: at work unit `at`
    uint64_t at;
    double   delta;  // seconds, >= 0
};

// One storage fault.  `op` counts operations of the given kind on simulated
// files since the start of the run.
enum IoKind {
    IO_OPEN_FAIL = 0,    // fopen fails (errno)
    IO_READ_EIO,         // read fails
    IO_READ_SHORT,       // read returns fewer bytes than are available
    IO_READ_EINTR,       // read fails once with EINTR
    IO_WRITE_EIO,        // write fails
    IO_WRITE_ENOSPC,     // device is full after `arg` more bytes, from op on
    IO_WRITE_SHORT,      // write accepts fewer bytes
    IO_WRITE_EINTR,      // write fails once with EINTR
    IO_CLOSE_EIO,        // close reports a deferred write-back error
    IO_KINDS
};
extern const char* const IO_KIND_NAMES[IO_KINDS];
struct IoFault {
    int      kind;
    uint64_t op;
    long     arg;
};

struct Config {
    // scheduling
    int                  max_threads  = 4;
    int                  sched_mode   = 0;  // 0 sequential, 1 random, 2 list
    uint64_t             sched_seed   = 1;
    double               sched_gap    = 50;  // mean blocks between preemptions
    int                  stall_tid    = -1;  // worker that runs only when alone
    uint64_t             sched_limit  = ~0ull;
    std::vector<Preempt> sched_list;
    // clock
    double                 clock_base     = 1000.0;
    double                 sec_per_unit   = 1e-8;
    double                 sec_per_read   = 1e-7;
    std::vector<ClockJump> jumps;
    // contents of fresh memory (0: zero or left over, else arbitrary bytes)
    uint64_t heap_seed = 0;
    // storage
    std::vector<IoFault> io_faults;
    int                  io_chunk = 0;  // >0: every read returns <= io_chunk
    // limits
    uint64_t work_budget = 4000000000ull;
};

struct Stats {
    uint64_t work = 0;           // instrumentation callbacks (blocks/accesses)
    uint64_t reads = 0;          // clock reads
    uint64_t regions = 0;        // parallel regions entered
    uint64_t par_regions = 0;    // ... with more than one worker
    uint64_t decisions = 0;      // scheduling decision points
    uint64_t preemptions = 0;    // preemptions performed
    uint64_t switches = 0;       // fiber switches
    uint64_t max_team = 0;
    uint64_t max_work_team = 0;  // largest team that did work-sharing
    uint64_t team_sizes = 0;     // bit n: a team of n did work-sharing
    uint64_t sched_hash = 1469598103934665603ull;
    uint64_t jumps_fired = 0;
    uint64_t io_fired[IO_KINDS] = {0};
    uint64_t io_opens = 0, io_reads = 0, io_writes = 0, io_closes = 0;
    uint64_t io_bytes_written = 0;
    uint64_t work_at_deadline = 0;
    uint64_t reads_at_deadline = 0;
    bool     deadline_passed = false;
    bool     work_budget_hit = false;
    uint64_t races = 0;
    uint64_t accesses_checked = 0;
    bool     region_exception = false;
    // work between consecutive clock reads since reset_gaps()
    uint64_t gap[16] = {0};
    uint64_t gap_rest = 0;
    uint64_t gap_n = 0;
};

struct Race {
    uintptr_t addr;
    uintptr_t pc1, pc2;
    int       tid1, tid2;
    bool      write1, write2;
    uint64_t  region;
};

// Runs `fn(arg)` on the simulated main thread under `cfg`.
void start(const Config& cfg);
void run_main(void (*fn)(void*), void* arg);
void stop();

const Config& config();
Stats&        stats();
const std::vector<Preempt>& recorded();   // deviations taken in this run
const std::vector<Race>&    race_list();

double   now();                // simulated time, does not count as a read
void     set_deadline(double t);
void     reset_gaps();
void     set_team_probe(bool on);  // start/stop recording of max_work_team
void     advance(double sec);      // explicit jump, e.g. a slow callback
uint64_t mix(uint64_t x);
// Called (with the simulation paused) at every clock read outside a team.
void     set_read_hook(void (*fn)(void*), void* arg);
bool     pause(bool on);       // sets the running flag, returns the old one
// runs fn(data) as n user threads (fibers) and waits for them
void     parallel(void (*fn)(void*), void* data, int n);
int      user_thread();
int      use_heap(int h);      // heap 0..2 for the allocations that follow
void     set_fresh_heap(bool on);  // start(): begin a fresh heap (forked child)

// PRNG used by generators (splitmix/xoshiro): never the global one.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int      range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool     chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double   unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

}  // namespace sim
