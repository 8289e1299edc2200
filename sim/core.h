// Deterministic simulator: scenario text, seeded randomness, shared result record, seams.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t mix2(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b + 0x632be59bd9b4e019ull)); }
inline uint64_t hashStr(const std::string& s) {
  uint64_t h=1469598103934665603ull;
  for(unsigned char c: s) { h ^= c; h *= 1099511628211ull; }
  return mix(h);
}
struct Rng {                       // splitmix64: the only source of randomness of a run
  uint64_t s;
  explicit Rng(uint64_t seed): s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool p(int percent) { return (int)(next() % 100) < percent; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct Step {
  uint32_t id=0;
  std::string op;
  std::vector<std::string> a;
  long num(size_t k, long dflt=0) const { return k < a.size() ? strtol(a[k].c_str(), nullptr, 10) : dflt; }
  const std::string& str(size_t k) const { static const std::string e; return k < a.size() ? a[k] : e; }
};
struct Scenario {
  std::string prop, machine;
  uint64_t seed=0;
  std::map<std::string, std::string> cfg;   // configuration and environment of the run
  std::vector<Step> steps;
  long num(const char* k, long dflt=0) const {
    auto i=cfg.find(k);
    return i == cfg.end() ? dflt : strtol(i->second.c_str(), nullptr, 10);
  }
  void set(const char* k, long v) { cfg[k] = std::to_string(v); }
  void add(const std::string& op, std::vector<std::string> a=std::vector<std::string>()) {
    Step s;
    s.id = (uint32_t)steps.size() + 1;
    s.op = op;
    s.a = a;
    steps.push_back(s);
  }
  void addn(const std::string& op, std::vector<long> a) {
    std::vector<std::string> v;
    for(long x: a) v.push_back(std::to_string(x));
    add(op, v);
  }
  std::string text() const;
  static bool parse(const std::string& t, Scenario& s, std::string& err);
};

enum Fault { F_GC_FORCED, F_GC_SUPPRESSED, F_GARBAGE, F_ALLOC_FAIL, F_NEW_FAIL, F_CLOCK_JUMP, F_CLOCK_STALL,
             F_CLOCK_TICK, F_STDERR_FAIL, F_LIMIT_STOP, F_ABANDON, F_ENTROPY_CONST, F_ENTROPY_DRAW, F_PAGE, F_SPLIT_ROUND,
             F_DUPLICATE, F_REORDER, F_ADDRESS_DRAWN, F_ADDRESS_REUSED, F_RENDER, F_WRITE_FAIL, F_COUNT };
extern const char* faultName[F_COUNT];
enum { NPROBE=48, NSTATE=1024, NLOG=1 << 18, NOBS=4096 };

struct Shared {                    // result record of one run, shared with the parent process
  int status;                      // 0 not finished, 1 ok, 2 violation, 3 skipped (outside the budget of the reference)
  char cls[64];
  char msg[6000];
  int step;                        // step being executed
  uint64_t hash, events, work, reqs, ticks;
  uint64_t faults[F_COUNT];
  uint64_t probes[NPROBE];
  uint32_t nstate;
  uint64_t state[NSTATE];
  uint64_t shape;                  // schedule shape: order of decision points actually taken
  uint32_t nobs;
  uint64_t obs[NOBS];
  int32_t obsTag[NOBS];
  int64_t num[NOBS];                // numbers recorded per step (peaks of memory, ...)
  uint32_t nnum;
  uint32_t obsOff[NOBS];
  uint32_t nlog;
  char log[NLOG];
};
extern Shared* S;
extern bool verbose;               // replay: print every event
extern std::string curProp;
struct Scenario;
std::string acting(const Scenario& s);   // the property whose oracles judge a run
#ifdef SIM_NOINT
const bool limbsInArena=false;
#else
const bool limbsInArena=true;
#endif
void gmpMemory();                        // GMP's memory comes through the seams

// --- events and oracles
void ev(const std::string& s);                    // event of the run; goes into the hash
void obs(const std::string& s);                   // observation a caller can make; compared between variants
extern int obsTag;                                // session the following observations belong to
void record(int64_t x);                           // number kept for the judge, not part of the observations
inline void obs(const char* a, const std::string& b) { obs(std::string(a) + " " + b); }
void state(uint64_t digest);                      // abstract state reached
inline void state(const std::string& s) { state(hashStr(s)); }
void probe(int k);                                // rare condition reached
void fault(Fault f, uint64_t n=1);
[[noreturn]] void fail(const char* cls, const std::string& msg);
[[noreturn]] void skipRun(const std::string& why);
[[noreturn]] void finishOk();
bool on(const char* props);                       // is the property of this run among these?

// --- environment of the run, everything nondeterministic the code can see
struct Env {
  int gcMode=-1;                   // -1 shipped heuristic, 0 never, 1 always, 2 coin
  int gcPercent=30;
  uint64_t gcSeed=0;
  int garbage=0;                   // 0 zeros, 1 ones, 2 pseudo-random, 3 0xA5
  int addrMode=1;                  // addresses: 0 the system's, 1 drawn and never used again, 2 drawn and used again at random, 3 rising, last freed first
  int clockMode=0;                 // 0 steady, 1 stalled, 2 jumpy
  int stderrMode=0;                // 0 works, 1 fails
  int entropyMode=0;               // 0 pseudo-random, 1 constant 0, 2 constant ones, 3 small cycle
  uint64_t entropySeed=0;
  long failAt=0;                   // the n-th memory request of the guarded call fails (0: none)
};
extern Env env;
Env envOf(const Scenario& s);
void randomEnv(Rng& r, Scenario& s);
void applyEnv(const Env& e);

struct Sut {                       // guard around every call into the code under test
  bool was;
  Sut();
  ~Sut();
};
bool pauseSut();                    // the simulator's own work inside a call of the code under test
void resumeSut(bool was);
template <class F> auto sut(F f) -> decltype(f()) { Sut g; return f(); }
void armFailure(long nth);         // applies to requests made under the guard from now on
bool failureFired();
void disarm();
void beginStep(const Step& s, int index);

struct Clock { long real, user, sys; };
extern Clock simClock;
extern long simHZ;
extern int simPage;
long liveRequests();               // system memory requests of the code under test not yet returned
extern uint64_t newBlocks;         // arena blocks obtained from the system so far
extern std::string errText;        // what the code wrote to standard error
void setWorkLimit(uint64_t n);
void setSwellLimit(size_t n);        // a single request beyond this many bytes ends the run as too large for the budget
uint64_t workDone();

// exit() called by the code under test: handler may not return
extern std::function<void(int)> onExit;

// --- variants: run f in a forked process with its own record
struct Variant {
  Shared* s;
  std::string crash;               // empty if it finished
  std::string line(uint32_t k) const;
};
Variant runVariant(const std::function<void()>& f);
void freeVariant(Variant& v);
// the scenario again in a fresh process with another page size
Variant execVariant(const Scenario& s, int page);
// index of the first differing observation, or -1
long firstDifference(const Variant& a, const Variant& b);
std::vector<uint32_t> ofTag(const Variant& v, int tag);

// --- machines
struct Machine {
  const char* name;
  void (*generate)(const std::string& prop, Rng& r, Scenario& s);
  void (*run)(const Scenario& s);
};
void addMachine(const char* name, void (*g)(const std::string&, Rng&, Scenario&), void (*r)(const Scenario&));
const Machine* machine(const std::string& name);
struct Reg { Reg(const char* n, void (*g)(const std::string&, Rng&, Scenario&), void (*r)(const Scenario&)) { addMachine(n, g, r); } };
std::string machineFor(const std::string& prop, Rng& r);
void judge(const Scenario& s);     // runs the scenario as its property asks (plain or differential)

inline std::string join(const std::vector<std::string>& v, const char* sep=" ") {
  std::string r;
  for(size_t i=0; i < v.size(); i++) r += (i ? sep : "") + v[i];
  return r;
}
template <class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }

}
#endif
