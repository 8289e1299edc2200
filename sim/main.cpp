#include <sys/personality.h>
// Driver of simulated runs: generation, execution in a forked process, judging, minimising, replay.
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
void installStderr();

const char* faultName[F_COUNT]={"compaction_forced", "compaction_suppressed", "garbage_memory", "block_refused", "heap_refused",
  "clock_jump", "clock_stall", "clock_tick", "stderr_broken", "memory_limit_stop", "session_abandoned", "entropy_constant",
  "entropy_draw", "page_size_change", "round_split", "duplicate_input", "arrival_reordered", "address_drawn", "address_reused", "rendering_refused", "stream_refused"};
Shared* S=nullptr;
bool verbose=false;
std::string curProp;
static int cpuLimit=40;

static void logLine(const std::string& s) {
  if (S->nlog + s.size() + 1 < NLOG) {
    memcpy(S->log + S->nlog, s.data(), s.size());
    S->nlog += s.size();
    S->log[S->nlog++] = '\n';
  }
}
void ev(const std::string& s) {
  if (!S) return;
  S->events++;
  S->hash = mix2(S->hash, hashStr(s));
  if (verbose) logLine(s);
}
int obsTag=0;
void obs(const std::string& s) {
  uint32_t off=S ? S->nlog : 0;
  ev(s);
  if (S && S->nobs < NOBS) {
    S->obsOff[S->nobs] = off;
    S->obsTag[S->nobs] = obsTag;
    S->obs[S->nobs++] = hashStr(s);
    if (!verbose) logLine(s.size() > 300 ? s.substr(0, 300) : s);
  }
}
void record(int64_t x) { if (S && S->nnum < NOBS) S->num[S->nnum++] = x; }
std::vector<uint32_t> ofTag(const Variant& v, int tag) {
  std::vector<uint32_t> r;
  for(uint32_t i=0; i < v.s->nobs; i++) if (v.s->obsTag[i] == tag) r.push_back(i);
  return r;
}
void state(uint64_t d) {
  if (S && S->nstate < NSTATE) S->state[S->nstate++] = d;
}
void probe(int k) { if (S && k < NPROBE) S->probes[k]++; }
void fault(Fault f, uint64_t n) { if (S) S->faults[f] += n; }
std::string acting(const Scenario& s) {
  auto i=s.cfg.find("as");
  return i == s.cfg.end() ? s.prop : i->second;
}
bool on(const char* props) { return strstr(props, curProp.c_str()) != nullptr; }
void fail(const char* cls, const std::string& msg) {
  disarm();
  if (curProp == "P34" && strcmp(cls, "assertion")) skipRun(std::string("not an assertion: ") + cls);
  if (S && S->status == 0) {
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    snprintf(S->msg, sizeof S->msg, "%s", msg.c_str());
    S->status = 2;
  }
  _exit(20);
}
void skipRun(const std::string& why) {
  if (S && S->status == 0) {
    snprintf(S->msg, sizeof S->msg, "%s", why.c_str());
    S->status = 3;
  }
  _exit(0);
}
void finishOk() {
  if (S && S->status == 0) S->status = 1;
  _exit(0);
}

std::string Scenario::text() const {
  std::ostringstream o;
  o << "prop " << prop << "\nmachine " << machine << "\nseed " << seed << "\n";
  for(auto& x: cfg) o << "cfg " << x.first << " " << x.second << "\n";
  for(auto& s: steps) { o << "step " << s.id << " " << s.op; for(auto& x: s.a) o << " " << x; o << "\n"; }
  return o.str();
}
bool Scenario::parse(const std::string& t, Scenario& s, std::string& err) {
  std::istringstream in(t);
  std::string line;
  s = Scenario();
  while(std::getline(in, line)) {
    std::istringstream l(line);
    std::string k;
    if (!(l >> k) || k[0] == '#') continue;
    if (k == "prop") l >> s.prop;
    else if (k == "machine") l >> s.machine;
    else if (k == "seed") l >> s.seed;
    else if (k == "cfg") { std::string a, b; l >> a >> b; s.cfg[a] = b; }
    else if (k == "step") {
      Step st;
      std::string x;
      l >> st.id >> st.op;
      while(l >> x) st.a.push_back(x);
      s.steps.push_back(st);
    }
    else if (k == "expect" || k == "end") ;
    else { err = "unknown line: " + line; return false; }
  }
  return !s.machine.empty();
}

Env envOf(const Scenario& s) {
  Env e;
  e.gcMode = (int)s.num("gc", -1);
  e.gcPercent = (int)s.num("gcp", 30);
  e.gcSeed = s.seed;
  e.garbage = (int)s.num("garbage", 0);
  e.addrMode = (int)s.num("addr", 3);
  e.clockMode = (int)s.num("clock", 0);
  e.stderrMode = (int)s.num("stderr", 0);
  e.entropyMode = (int)s.num("entropy", 0);
  e.entropySeed = mix2(s.seed, 77);
  return e;
}
void randomEnv(Rng& r, Scenario& s) {
  static const int modes[]={-1, 0, 1, 2, 2, 2, 2};
  s.set("gc", modes[r.in(0, 6)]);
  static const int ps[]={3, 20, 50, 80};
  s.set("gcp", ps[r.in(0, 3)]);
  s.set("garbage", r.in(0, 3));
  s.set("addr", r.in(1, 3));
  s.set("clock", r.in(0, 2));
  s.set("entropy", r.p(75) ? 0 : r.in(1, 3));
}

static std::vector<Machine>& table() { static std::vector<Machine> t; return t; }
void addMachine(const char* n, void (*g)(const std::string&, Rng&, Scenario&), void (*r)(const Scenario&)) { table().push_back({n, g, r}); }
const Machine* machine(const std::string& n) {
  for(auto& m: table()) if (n == m.name) return &m;
  return nullptr;
}

// ---------------------------------------------------------------- forked execution
static Shared* newShared() {
  void* p=mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return (Shared*)p;
}
static void clearShared(Shared* s) {
  s->status = 0; s->cls[0] = 0; s->msg[0] = 0; s->step = -1;
  s->hash = s->events = s->work = s->reqs = s->ticks = s->shape = 0;
  memset(s->faults, 0, sizeof s->faults);
  memset(s->probes, 0, sizeof s->probes);
  s->nstate = s->nobs = s->nlog = s->nnum = 0;
}
static void onProf(int) {
  if (S && S->status == 0) {
    snprintf(S->cls, sizeof S->cls, "hang");
    snprintf(S->msg, sizeof S->msg, "no end within %d s of processor time at step %d", cpuLimit, S->step);
    S->status = 2;
  }
  _exit(20);
}
static void armCpu() {
  signal(SIGPROF, onProf);
  struct itimerval t={{0, 0}, {cpuLimit, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);
}
static int quietFd=-1;
static bool showStderr=false;
static std::string reap(pid_t p, Shared* s) {
  int st=0;
  while(waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  if (s->status == 1 || s->status == 2 || s->status == 3) {
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 20)) return "";
    if (s->status == 2) return "";
  }
  if (WIFSIGNALED(st)) return std::string("signal ") + strsignal(WTERMSIG(st));
  if (WEXITSTATUS(st) == 77) return "memory error (AddressSanitizer)";
  if (WEXITSTATUS(st) == 78) return "undefined behaviour";
  return "exit status " + std::to_string(WEXITSTATUS(st));
}
static void childSetup() {
  if (quietFd >= 0 && !showStderr) dup2(quietFd, 2);
  struct rlimit rl={0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::set_terminate([] { abort(); });
  installStderr();
  errText.clear();
  armCpu();
}
Variant runVariant(const std::function<void()>& f) {
  Variant v;
  v.s = newShared();
  clearShared(v.s);
  pid_t p=fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) {
    S = v.s;
    childSetup();
    f();
    finishOk();
  }
  v.crash = reap(p, v.s);
  if (S) {
    for(int i=0; i < F_COUNT; i++) S->faults[i] += v.s->faults[i];
    for(int i=0; i < NPROBE; i++) S->probes[i] += v.s->probes[i];
    for(uint32_t i=0; i < v.s->nstate && S->nstate < NSTATE; i++) S->state[S->nstate++] = v.s->state[i];
    S->events += v.s->events;
    S->work += v.s->work;
    S->reqs += v.s->reqs;
    S->ticks += v.s->ticks;
    S->hash = mix2(S->hash, v.s->hash);
    S->shape = mix2(S->shape, v.s->shape);
  }
  return v;
}
void freeVariant(Variant& v) { if (v.s) munmap(v.s, sizeof(Shared)); v.s = nullptr; }
std::string Variant::line(uint32_t k) const {
  if (k >= s->nobs) return "(nothing)";
  uint32_t a=s->obsOff[k], b=a;
  while(b < s->nlog && s->log[b] != '\n') b++;
  return std::string(s->log + a, b - a);
}
long firstDifference(const Variant& a, const Variant& b) {
  uint32_t n=std::min(a.s->nobs, b.s->nobs);
  for(uint32_t i=0; i < n; i++) if (a.s->obs[i] != b.s->obs[i]) return i;
  if (a.s->nobs != b.s->nobs && n < NOBS) return n;
  return -1;
}
static std::string selfPath;
static void setEnvPage(int page) {
  setenv("SIM_PAGE", std::to_string(page).c_str(), 1);
  setenv("SIM_HZ", page == 4096 ? "100" : page == 8192 ? "1000" : page == 16384 ? "64" : "250", 1);
}
Variant execVariant(const Scenario& sc, int page) {
  Variant v;
  int fd=(int)syscall(SYS_memfd_create, "sim", 0u);
  if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("memfd"); _exit(3); }
  v.s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  clearShared(v.s);
  int pp[2];
  if (pipe(pp)) _exit(3);
  pid_t p=fork();
  if (p == 0) {
    dup2(pp[0], 0);
    close(pp[1]);
    setEnvPage(page);
    std::string n=std::to_string(fd);
    execl(selfPath.c_str(), selfPath.c_str(), "variant", n.c_str(), verbose ? "1" : "0", (char*)nullptr);
    _exit(3);
  }
  close(pp[0]);
  std::string t=sc.text();
  for(size_t o=0; o < t.size();) { ssize_t k=write(pp[1], t.data() + o, t.size() - o); if (k <= 0) break; o += k; }
  close(pp[1]);
  v.crash = reap(p, v.s);
  close(fd);
  if (S) {
    fault(F_PAGE);
    for(int i=0; i < F_COUNT; i++) S->faults[i] += v.s->faults[i];
    S->events += v.s->events;
    S->work += v.s->work;
    S->hash = mix2(S->hash, v.s->hash);
  }
  return v;
}

struct Outcome {
  std::string cls, msg;            // empty class: no violation
  bool skipped=false;
  uint64_t hash=0;
};
static Shared* runShared=nullptr;
static Outcome execute(const Scenario& sc) {
  if (!runShared) runShared = newShared();
  clearShared(runShared);
  Outcome o;
  pid_t p=fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    S = runShared;
    curProp = acting(sc);
    childSetup();
    applyEnv(envOf(sc));
    judge(sc);
    finishOk();
  }
  std::string crash=reap(p, runShared);
  o.hash = runShared->hash;
  if (!crash.empty()) {
    o.cls = "crash";
    o.msg = crash + " at step " + std::to_string(runShared->step);
  }
  else if (runShared->status == 2) { o.cls = runShared->cls; o.msg = runShared->msg; }
  else if (runShared->status == 3) { o.skipped = true; o.msg = runShared->msg; }
  return o;
}

// the build this simulator was compiled from: without the arena allocator, without arena integers, or with both
#if defined SIM_NOARENA && defined SIM_NOINT
static const char* buildName="plain";
#elif defined SIM_NOARENA
static const char* buildName="noarena";
#elif defined SIM_NOINT
static const char* buildName="nointeger";
#else
static const char* buildName="full";
#endif

static Scenario generate(const std::string& prop, uint64_t master, long index) {
  Scenario s;
  uint64_t seed=mix2(mix2(master, hashStr(prop)), (uint64_t)index);
  Rng r(seed);
  s.prop = prop;
  s.seed = seed%1000000007ull;
  s.set("page", simPage);
  randomEnv(r, s);
  std::string as=prop;
  if (prop == "P34") {             // the histories of every other property, judged by the assertions of the library
    static const char* all[]={"P01", "P02", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P22", "P28", "P29", "P33"};
    as = all[r.in(0, (int)(sizeof all/sizeof *all) - 1)];
  }
  if (prop == "P37") {             // the same in the other build configurations, each judged by its own oracles
    static const char* all[]={"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P22", "P28", "P29", "P33"};
    do as = all[r.in(0, (int)(sizeof all/sizeof *all) - 1)];
    while (as == "P04" && !limbsInArena);   // GMP itself ends the process when it is refused memory
    s.cfg["as"] = as;
    s.cfg["build"] = buildName;
  }
  s.machine = machineFor(as, r);
  machine(s.machine)->generate(as, r, s);
  return s;
}

// ---------------------------------------------------------------- minimising
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec*1e-9;
}
static Scenario minimise(Scenario s, const std::string& cls, double budget, int& tries) {
  double end=now() + budget;
  auto still=[&](const Scenario& c) {
    if (now() > end) return false;
    ++tries;
    Outcome o=execute(c);
    return o.cls == cls;
  };
  // simpler environment first
  auto tryCfg=[&](const char* k, const char* v) {
    if (!s.cfg.count(k) || s.cfg[k] == v) return;
    Scenario c(s);
    c.cfg[k] = v;
    if (still(c)) s = c;
  };
  tryCfg("gc", "-1");
  if (s.cfg.count("gc") && s.cfg["gc"] == "2") tryCfg("gc", "1");
  tryCfg("addr", "3"); tryCfg("garbage", "0"); tryCfg("clock", "0"); tryCfg("stderr", "0"); tryCfg("entropy", "0");
  // drop steps (delta debugging)
  size_t n=2;
  while(s.steps.size() >= 1 && now() < end) {
    size_t len=s.steps.size();
    if (n > len) n = len;
    bool cut=false;
    for(size_t k=0; k < n && now() < end; k++) {
      size_t a=len*k/n, b=len*(k + 1)/n;
      Scenario c(s);
      c.steps.erase(c.steps.begin() + a, c.steps.begin() + b);
      if (still(c)) { s = c; cut = true; break; }
    }
    if (cut) { n = std::max<size_t>(2, n - 1); continue; }
    if (n >= len) break;
    n = std::min(len, n*2);
  }
  // shrink numeric arguments; polynomials lose terms
  bool again=true;
  while(again && now() < end) {
    again = false;
    for(size_t i=0; i < s.steps.size(); i++)
      for(size_t k=0; k < s.steps[i].a.size() && now() < end; k++) {
        std::string v=s.steps[i].a[k];
        std::vector<std::string> cand;
        if (v.find(',') != std::string::npos || v.find(':') != std::string::npos) {
          // polynomial written as coeff:pos:e,e,e;coeff:... : drop one term at a time
          std::vector<std::string> terms;
          std::istringstream in(v);
          std::string t;
          while(std::getline(in, t, ';')) terms.push_back(t);
          for(size_t j=0; j < terms.size() && terms.size() > 1; j++) {
            std::string w;
            for(size_t q=0; q < terms.size(); q++) if (q != j) w += (w.empty() ? "" : ";") + terms[q];
            cand.push_back(w);
          }
        }
        else if (!v.empty() && (isdigit(v[0]) || (v[0] == '-' && v.size() > 1)) && v.find_first_not_of("-0123456789") == std::string::npos) {
          if (v != "0") cand.push_back("0");
          if (v.size() > 18) cand.push_back(v.substr(0, v.size()/2));
          else {
            long x=atol(v.c_str());
            if (x > 1 || x < -1) { cand.push_back("1"); cand.push_back(std::to_string(x/2)); cand.push_back(std::to_string(x - (x > 0 ? 1 : -1))); }
          }
        }
        for(auto& w: cand) {
          if (w == v) continue;
          Scenario c(s);
          c.steps[i].a[k] = w;
          if (still(c)) { s = c; again = true; break; }
        }
      }
    if (again) {                   // a smaller argument may make further steps unnecessary
      for(size_t i=s.steps.size(); i-- > 0 && now() < end;) {
        Scenario c(s);
        c.steps.erase(c.steps.begin() + i);
        if (still(c)) s = c;
      }
    }
  }
  return s;
}

static std::string js(const std::string& s) {
  std::string r="\"";
  for(unsigned char c: s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
}
using namespace sim;

static std::string slurp(std::istream& in) { std::ostringstream o; o << in.rdbuf(); return o.str(); }

// search PROP MASTER FROM STEP COUNT SECONDS OUTDIR
static int search(int argc, char** argv) {
  if (argc < 9) return 3;
  std::string prop=argv[2];
  uint64_t master=strtoull(argv[3], nullptr, 10);
  long from=atol(argv[4]), step=atol(argv[5]), count=atol(argv[6]);
  double seconds=atof(argv[7]);
  std::string out=argv[8];
  double t0=now();
  uint64_t f[F_COUNT]={0}, pr[NPROBE]={0};
  uint64_t runs=0, skipped=0, events=0, work=0, maxWork=0, ticks=0, reqs=0, steps=0;
  double maxRun=0;
  std::unordered_set<uint64_t> states, shapes, hashes;
  std::map<std::string, long> machines;
  std::vector<std::string> samples;
  FILE* hf=fopen((out + ".hashes").c_str(), "w");
  for(long k=0; k < count; k++) {
    if (now() - t0 > seconds) break;
    long index=from + k*step;
    Scenario sc=generate(prop, master, index);
    double r0=now();
    Outcome o=execute(sc);
    maxRun = std::max(maxRun, now() - r0);
    runs++;
    machines[sc.machine]++;
    steps += sc.steps.size();
    if (o.skipped) skipped++;
    for(int i=0; i < F_COUNT; i++) f[i] += runShared->faults[i];
    for(int i=0; i < NPROBE; i++) pr[i] += runShared->probes[i];
    events += runShared->events;
    work += runShared->work;
    maxWork = std::max(maxWork, runShared->work);
    ticks += runShared->ticks;
    reqs += runShared->reqs;
    for(uint32_t i=0; i < runShared->nstate; i++) states.insert(runShared->state[i]);
    if (!o.skipped) { hashes.insert(runShared->hash); shapes.insert(runShared->shape); }
    fprintf(hf, "%ld %016llx %d\n", index, (unsigned long long)o.hash, o.skipped ? 3 : o.cls.empty() ? 1 : 2);
    if (samples.size() < 1 && !o.skipped && sc.steps.size() < 25) samples.push_back(sc.text());
    if (!o.cls.empty()) {
      std::ofstream(out + ".fail") << sc.text();
      printf("FAIL index=%ld class=%s msg=%s\n", index, o.cls.c_str(), js(o.msg).c_str());
      fflush(stdout);
      break;
    }
  }
  fclose(hf);
  std::ostringstream j;
  j << "{\"runs\":" << runs << ",\"skipped\":" << skipped << ",\"steps\":" << steps << ",\"events\":" << events << ",\"work\":" << work
    << ",\"max_work\":" << maxWork << ",\"max_run_s\":" << maxRun << ",\"ticks\":" << ticks << ",\"hz\":" << simHZ << ",\"page\":" << simPage
    << ",\"requests\":" << reqs << ",\"wall\":" << now() - t0 << ",\"faults\":{";
  for(int i=0; i < F_COUNT; i++) j << (i ? "," : "") << "\"" << faultName[i] << "\":" << f[i];
  j << "},\"probes\":[";
  for(int i=0; i < NPROBE; i++) j << (i ? "," : "") << pr[i];
  j << "],\"machines\":{";
  bool c=false;
  for(auto& m: machines) { j << (c ? "," : "") << "\"" << m.first << "\":" << m.second; c = true; }
  j << "},\"samples\":[";
  for(size_t i=0; i < samples.size(); i++) j << (i ? "," : "") << js(samples[i]);
  j << "]}";
  std::ofstream(out + ".json") << j.str();
  // distinct measures are merged by the driver
  FILE* df=fopen((out + ".sets").c_str(), "w");
  for(uint64_t x: states) fprintf(df, "s%llx\n", (unsigned long long)x);
  for(uint64_t x: shapes) fprintf(df, "i%llx\n", (unsigned long long)x);
  for(uint64_t x: hashes) fprintf(df, "h%llx\n", (unsigned long long)x);
  fclose(df);
  printf("DONE\n");
  return 0;
}

static int withPage(int argc, char** argv, const Scenario& sc) {
  int page=(int)sc.num("page", 4096);
  if (simPage != page) {
    setEnvPage(page);
    execv(selfPath.c_str(), argv);
    return 3;
  }
  (void)argc;
  return 0;
}

int main(int argc, char** argv) {
  gmpMemory();
  char buf[4096];
  ssize_t n=readlink("/proc/self/exe", buf, sizeof buf - 1);
  buf[n > 0 ? n : 0] = 0;
  selfPath = buf;
  int pers=personality(0xffffffff);  // the same addresses in every process, where the system allows it
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR") && personality(pers | ADDR_NO_RANDOMIZE) != -1
      && (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    setenv("SIM_ASLR", "off", 1);
    execv(selfPath.c_str(), argv);
  }
  std::string cmd=argc > 1 ? argv[1] : "";
  if (getenv("SIM_CPU")) cpuLimit = atoi(getenv("SIM_CPU"));
  showStderr = getenv("SIM_STDERR") != nullptr;
  quietFd = open("/dev/null", O_WRONLY);
  if (cmd == "search") return search(argc, argv);
  if (cmd == "gen") {              // gen PROP MASTER INDEX
    Scenario s=generate(argv[2], strtoull(argv[3], nullptr, 10), atol(argv[4]));
    std::cout << s.text();
    return 0;
  }
  if (cmd == "variant") {
    Scenario s;
    std::string err;
    if (!Scenario::parse(slurp(std::cin), s, err)) return 3;
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(argv[2]), 0);
    verbose = argv[3][0] == '1';
    curProp = acting(s);
    childSetup();
    applyEnv(envOf(s));
    machine(s.machine)->run(s);
    finishOk();
  }
  if (cmd == "replay" || cmd == "minimise") {
    Scenario s;
    std::string err;
    std::ifstream in(argv[2]);
    if (!Scenario::parse(slurp(in), s, err)) { fprintf(stderr, "bad replay file: %s\n", err.c_str()); return 3; }
    if (!machine(s.machine)) { fprintf(stderr, "unknown machine %s\n", s.machine.c_str()); return 3; }
    if (withPage(argc, argv, s)) return 3;
    if (cmd == "replay") {
      verbose = argc > 3 && std::string(argv[3]) == "-v";
      Outcome o=execute(s);
      if (verbose) fwrite(runShared->log, 1, runShared->nlog, stdout);
      printf("RESULT class=%s hash=%016llx skipped=%d msg=%s\n", o.cls.empty() ? "-" : o.cls.c_str(),
             (unsigned long long)o.hash, o.skipped, js(o.msg).c_str());
      return o.cls.empty() ? 0 : 1;
    }
    Outcome o=execute(s);
    if (o.cls.empty()) { printf("RESULT class=- hash=%016llx\n", (unsigned long long)o.hash); return 0; }
    int tries=0;
    Scenario m=minimise(s, o.cls, argc > 4 ? atof(argv[4]) : 30, tries);
    Outcome o2=execute(m);
    if (o2.cls != o.cls) { m = s; o2 = o; }
    std::ofstream f(argv[3]);
    std::string c;
    for(char ch: o2.msg.substr(0, 3000)) { c += ch; if (ch == '\n') c += "# "; }
    f << "# violation class: " << o2.cls << "\n# " << c << "\n# minimised from " << s.steps.size() << " to "
      << m.steps.size() << " steps in " << tries << " executions\n" << m.text();
    f.close();
    printf("RESULT class=%s hash=%016llx steps=%zu msg=%s\n", o2.cls.c_str(), (unsigned long long)o2.hash, m.steps.size(), js(o2.msg).c_str());
    return 1;
  }
  fprintf(stderr, "usage: sim search|gen|replay|minimise|variant ...\n");
  return 3;
}
