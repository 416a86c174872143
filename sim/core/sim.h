// Deterministic-simulation core: one integer decides everything.
//
// A run is a pure function of (scenario, choice sequence).  Every decision -
// workload, schedule, fault - is drawn with draw()/chance()/..., which either
// takes the next value of the seeded PRNG (exploration) or the next recorded
// choice (replay / minimisation).  0 is always the simplest choice.
#ifndef VSIM_H
#define VSIM_H
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <exception>

namespace sim
{
// ---- choices ------------------------------------------------------------
uint64_t draw(uint64_t n);                  // uniform in [0,n)
bool chance(uint32_t num, uint32_t den);    // true with probability num/den, false is simplest
int64_t range(int64_t lo, int64_t hi);      // inclusive, lo is simplest
double real(double lo, double hi);          // lattice of 2^20 points, lo simplest
double sreal(double amp);                   // in [-amp,amp], 0 simplest
double normal();                            // roughly gaussian, from three draws
template<class T> const T& pick(const std::vector<T>& v)
{
	return v[draw(v.size())];
}

// ---- history ------------------------------------------------------------
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // append to the event log
void evbits(const char* what, const double* v, size_t n);  // exact bits into the log hash
void mix(uint64_t h);                       // state signature (distinct-states measure)
void fault(const char* kind, uint64_t n = 1); // a fault actually fired
void probe(const char* name);               // a rare condition was reached
void steps(double units);                   // simulated time: metres tracked / ticks
void nontrivial();                          // this run exercised what the property is about
bool tier_thorough();

// ---- verdicts -----------------------------------------------------------
// Records the violation and ends the run (the run is its own process).
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...) do { if(!(cond)) ::sim::fail(cls, __VA_ARGS__); } while(0)
// Marks the property class under which a crash / hang / stray exception is reported
void context(const char* what);
[[noreturn]] void done();

// ---- seams: heap --------------------------------------------------------
struct HeapCfg
{
	int mode;      // 0 reuse LIFO, 1 never reuse upwards, 2 never reuse downwards, 3 random reuse
	int fill;      // 0 zero, 1 0xFF (NaN), 2 pseudo random, 3 plausible doubles
	uint64_t seed;
};
void heap_config(const HeapCfg& c);
HeapCfg heap_random();                       // drawn
uint64_t heap_count();                       // allocations so far
void heap_fail_at(uint64_t nth, uint64_t howmany = 1); // nth (1 based) allocation from now throws bad_alloc
uint64_t heap_fail_clear();                  // disarm, number of failures fired

// ---- seams: clock -------------------------------------------------------
void clock_manual(int64_t ns);               // simulated clock from now on, starting at ns
void clock_advance(int64_t ns);              // jump (may be negative)
void clock_per_read(int64_t ns);             // every reading advances the clock
int64_t clock_now();
uint64_t clock_reads();

// ---- seams: entropy -----------------------------------------------------
void entropy(uint64_t seed);                 // what std::random_device returns from now on
uint64_t entropy_reads();

// ---- seams: disk --------------------------------------------------------
// scratch directory of this run (created on demand, removed at the end); all
// file traffic below it goes through the simulated disk.
const std::string& scratch();
std::string path(const std::string& name);
void put_file(const std::string& p, const std::string& content);
std::string get_file(const std::string& p);
bool has_file(const std::string& p);
struct DiskCfg
{
	int64_t write_budget;   // bytes that still fit, -1 unlimited
	int write_err;          // errno once the budget is used (ENOSPC, EIO ..)
	int64_t read_budget;    // bytes readable before the error, -1 unlimited
	int read_err;           // errno, or 0 for premature end of file
	int short_io;           // >0: at most this many bytes per call
	int eintr_every;        // >0: every nth call returns EINTR first
	int open_skip;          // after this many more stream openings ..
	int open_fails;         // .. this many fail
	int open_err;
	DiskCfg() : write_budget(-1), write_err(0), read_budget(-1), read_err(0), short_io(0), eintr_every(0), open_skip(0), open_fails(0), open_err(0) {}
};
void disk(const DiskCfg& c);
uint64_t disk_faults();

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- registry -----------------------------------------------------------
struct Scenario
{
	const char* name;
	void (*run)();
};
void register_scenario(const char* name, void (*run)());
struct Reg
{
	Reg(const char* n, void (*r)()) { register_scenario(n, r); }
};
#define SCENARIO(name) static void scen_ ## name(); static ::sim::Reg reg_ ## name(#name, &scen_ ## name); \
	static void scen_ ## name()
}
#endif
