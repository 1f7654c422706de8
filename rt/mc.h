// Model checking runtime: cooperative scheduler + stateless explorer + (optional) race detector.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <sstream>

namespace mc {

// ---- choices ---------------------------------------------------------------------------------
// data choice in [0,n): every value is explored, free of charge
int choose(int n);
// environment choice in [0,n): 0 is the default, others cost one deviation
int deviate(int n);
// scheduling point of the running fiber
void point();
// no choices are recorded while on: defaults only
void quiet(bool on);
// run all other fibers until they block (no choices are recorded)
void drain();
// block the running fiber until pred() holds (pred is evaluated by the scheduler)
void wait_until(const std::function<bool()>& pred);
// block until no other fiber can run (they are all blocked or finished); schedules are explored meanwhile
void wait_quiescent();
int self();                 // id of the running fiber
int runnable_others();

// ---- observations ----------------------------------------------------------------------------
[[noreturn]] void fail(const std::string& msg);
void note_str(const std::string& s);      // appended to the readable history of the execution
bool noting();                            // true when the history text is wanted (replay)
void state(uint64_t h);                   // a visited abstract state
void transition(uint64_t n = 1);          // operations applied to the implementation
void outcome(uint64_t h);                 // distinct observed outcomes
void sample(const std::string& s);        // keep as a sample for the evidence
bool want_sample();                       // true for a few executions per worker
void count(int idx, uint64_t n = 1);      // user counters 0..15
void nontrivial();                        // marks this execution as non-trivial

struct Note { std::ostringstream o; template <class T> Note& operator << (const T& t) { o << t; return *this; } ~Note() { note_str(o.str()); } };
#define MC_NOTE(x) do { if (mc::noting()) { std::ostringstream o_; o_ << x; mc::note_str(o_.str()); } } while (0)
#define MC_CHECK(c, x) do { if (!(c)) { std::ostringstream o_; o_ << x << "  [" #c "]"; mc::fail(o_.str()); } } while (0)

inline uint64_t mix(uint64_t h, uint64_t v)
{ h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }

// ---- scheduling options, per job -------------------------------------------------------------
struct Opts
{
    int bound = 0;            // max total deviations (preemptions, environment deviations)
    bool sched = false;       // explore thread schedules (otherwise the policy's default schedule only)
    bool eager = false;       // policy: other runnable fibers first (I/O as early as possible)
    bool forced_free = true;  // choice of the next fiber when the current one blocks is free (else costs 1)
    int spurious = 0;         // max spurious condition wakeups per execution
    bool atomic_points = false; // scheduling point before every atomic operation (race build)
    bool race = true;         // report data races (race build)
    uint64_t max_points = 200000; // livelock horizon
    int fair = 300;           // points after which a thread that keeps running lets the others run
    int shards = 1;           // the job is split by position of its first deviation
};

struct Job { std::string name; std::function<void()> body; Opts opts; };

// ---- to be provided by the harness -------------------------------------------------------------
struct Harness
{
    virtual ~Harness() { }
    virtual const char* id() = 0;
    virtual void jobs(bool thorough, std::vector<Job>& out) = 0;
    virtual void init() { }              // in every worker process, before the first execution, on the main fiber
    virtual std::string rule() { return ""; }
    virtual std::vector<std::string> counters() { return {}; }
};
int mc_main(int argc, char** argv, Harness& h);

// ---- race detector interface -------------------------------------------------------------------
void mem_read(const void* p, size_t n, void* pc);
void mem_write(void* p, size_t n, void* pc);
void race_ignore(bool on);
void hb_release(void* obj);     // happens-before edges for harness-made synchronisation
void hb_acquire(void* obj);

// virtual clock (seconds), advanced only by the harness
extern double vclock;
} // namespace mc
