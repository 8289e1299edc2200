// Seams: every source of nondeterminism the code under test can see is answered here.
#include "core.h"
#include <errno.h>
#include <malloc.h>
#include <string.h>
#include <gmp.h>
#include <new>
#include <iostream>
#include <streambuf>
#include <chrono>
#include <random>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>
#include <utility>
#include <vector>
#include <map>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>

namespace sim {

Env env;
Clock simClock={1000, 100, 10};
static int envInt(const char* n, int d) { const char* s=getenv(n); return s ? atoi(s) : d; }
int simPage=envInt("SIM_PAGE", 4096);
long simHZ=envInt("SIM_HZ", 100);
uint64_t newBlocks=0;
std::string errText;
std::function<void(int)> onExit;

static bool inSut=false;
static long armed=0;               // countdown of requests until the failing one
static bool fired=false;
static long live=0;
static uint64_t work=0, workLimit=0;
static uint64_t stepId=0, drawGc=0, drawClock=0, drawEntropy=0, drawGarbage=0;

Sut::Sut(): was(inSut) { inSut = true; }
Sut::~Sut() { inSut = was; }
bool pauseSut() { bool was=inSut; inSut = false; return was; }
void resumeSut(bool was) { inSut = was; }
namespace { struct Own { bool was; Own(): was(inSut) { inSut = false; } ~Own() { inSut = was; } }; }   // the simulator's own memory
void armFailure(long nth) { armed = nth; fired = false; }
bool failureFired() { return fired; }
void disarm() { armed = 0; }
long liveRequests() { return live; }
void setWorkLimit(uint64_t n) { workLimit = n; work = 0; }
static size_t swellLimit=0;
static size_t bigLimbs=0;            // of the longest product since then
void setSwellLimit(size_t n) { bigLimbs = 0; swellLimit = n ? std::max(n, (size_t)simPage + 4096) : 0; }
uint64_t workDone() { return work; }

static bool refuse() {             // one system memory request by the code under test
  if (S) S->reqs++;
  if (!inSut || armed <= 0) return false;
  if (--armed > 0) return false;
  fired = true;
  return true;
}
static void tick(int kind) {       // decision point at which simulated time may pass
  uint64_t d=mix2(mix2(env.gcSeed, stepId*131 + kind), drawClock++);
  switch(env.clockMode) {
  case 0: simClock.real += d%3; simClock.user += d%2; if (d%7 == 0) simClock.sys++; if (S) S->ticks += d%3; break;
  case 1: if (S && drawClock == 1) S->faults[F_CLOCK_STALL]++; break;
  default:
    if (d%16 == 0) {
      long j=(long)((d >> 8)%2000000) - 1000000;
      simClock.real += j;
      if (S) { S->faults[F_CLOCK_JUMP]++; S->ticks += j > 0 ? j : -j; }
    }
    else { simClock.real += d%50; simClock.user += d%3; }
  }
}
static void countWork() {
  if (S) S->work++;
  if (workLimit && ++work > workLimit && swellLimit && bigLimbs > 100) {
    Own own;
    workLimit = 0;
    skipRun("the completion outgrows the budget (" + std::to_string(bigLimbs) + " limbs)");
  }
  if (workLimit && work > workLimit)
    fail("hang", "no end within " + std::to_string(workLimit) + " memory requests");
}

static uint64_t held=0;            // bytes the code under test holds from the system
static void hold(size_t n) {
  held += n;
  if (held > (3ull << 29)) {
    held = 0;                      // the report below allocates too
    Own own;
    if (swellLimit && bigLimbs > 100) skipRun("the completion outgrows the budget (" + std::to_string(bigLimbs) + " limbs)");
    fail("runaway-memory", "the code under test holds more than 1.5 GB");
  }
}

// --- address space of the code under test: where a block lies and whether an address is used again is drawn from the seed.
// Eight lanes; a lane hands out rising addresses.  Everything that is not a live block is poisoned for AddressSanitizer.
namespace {
const uintptr_t SPACE=0x210000000000ull;
const uint64_t LANE=4ull << 30, NLANE=8, REUSE_ALL=96ull << 20;
struct Lane { uintptr_t next=0; };
Lane lanes[NLANE];
std::map<size_t, std::vector<uintptr_t>>* freed=nullptr;
int spaceState=0;                  // 0 not tried, 1 ready, 2 unavailable
uint64_t spaceUsed=0, drawAddr=0;
struct Tag { uint64_t magic, n, cap, align; };      // in front of the block
const uint64_t TAG=0x7a6b1e55ull;
inline bool inSpace(const void* p) { return (uintptr_t)p >= SPACE && (uintptr_t)p < SPACE + LANE*NLANE; }
__attribute__((no_sanitize("address"))) inline Tag getTag(void* p) { return ((Tag*)p)[-1]; }
__attribute__((no_sanitize("address"))) inline void setTag(void* p, Tag t) { ((Tag*)p)[-1] = t; }
bool spaceReady() {
  if (!spaceState) {
    void* p=mmap((void*)SPACE, LANE*NLANE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    spaceState = p == (void*)SPACE ? 1 : 2;
    if (spaceState == 1) {
      freed = new std::map<size_t, std::vector<uintptr_t>>;
      for(uint64_t i=0; i < NLANE; i++) lanes[i].next = SPACE + i*LANE + 4096;
    }
  }
  return spaceState == 1;
}
void* spaceGet(size_t n, size_t align) {
  if (env.addrMode == 0 || n > (1u << 30) || !spaceReady()) return nullptr;
  if (align < 16) align = 16;
  size_t cap=(n + 15)/16*16;
  if (!cap) cap = 16;
  uint64_t d=mix2(mix2(env.gcSeed, 0xadd7), drawAddr++);
  uintptr_t p=0;
  auto it=freed->find(cap*64 + (align > 16 ? 1 : 0));
  bool again=it != freed->end() && !it->second.empty() && (spaceUsed > REUSE_ALL || env.addrMode == 3 || (env.addrMode == 2 && (d >> 40)%2));
  if (again) {
    std::vector<uintptr_t>& v=it->second;
    size_t k=env.addrMode == 3 ? v.size() - 1 : (d >> 8)%v.size();
    if (v[k]%align == 0) {
      p = v[k];
      v[k] = v.back();
      v.pop_back();
      if (S) S->faults[F_ADDRESS_REUSED]++;
    }
  }
  if (!p) {
    Lane& l=lanes[env.addrMode == 3 ? 0 : d%NLANE];
    p = (l.next + sizeof(Tag) + align - 1)/align*align;
    uintptr_t end=p + cap + 16;
    if (end > SPACE + (uintptr_t)(&l - lanes + 1)*LANE) return nullptr;
    ASAN_POISON_MEMORY_REGION((void*)l.next, end - l.next);
    spaceUsed += end - l.next;
    l.next = end;
    if (S && env.addrMode != 3) S->faults[F_ADDRESS_DRAWN]++;
  }
  setTag((void*)p, Tag{TAG, n, cap, align});
  ASAN_UNPOISON_MEMORY_REGION((void*)p, n);
  return (void*)p;
}
size_t spaceSize(void* p) {
  Tag t=getTag(p);
  if (t.magic != TAG) { fprintf(stderr, "bad or double free\n"); abort(); }
  return t.n;
}
void spaceFree(void* p) {
  spaceSize(p);
  Tag t=getTag(p);
  ASAN_POISON_MEMORY_REGION(p, t.cap);
  setTag(p, Tag{TAG ^ 1, t.n, t.cap, t.align});
  (*freed)[t.cap*64 + (t.align > 16 ? 1 : 0)].push_back((uintptr_t)p);
}
size_t blockSize(void* p) { return inSpace(p) ? spaceSize(p) : malloc_usable_size(p); }
void blockFree(void* p) { if (inSpace(p)) { Own own; spaceFree(p); } else free(p); }
void* blockGet(size_t n, size_t align) {
  Own own;
  if (swellLimit && n > swellLimit) skipRun("coefficients outgrow the budget");
  void* p=spaceGet(n, align);
  return p ? p : align > 16 ? aligned_alloc(align, (n + align - 1)/align*align) : malloc(n);
}
}

void applyEnv(const Env& e) {
  env = e;
  drawAddr = 0;
  drawGc = drawClock = drawEntropy = drawGarbage = 0;
  stepId = 0;
}
void beginStep(const Step& s, int index) {
  stepId = s.id;
  drawGc = drawClock = drawEntropy = 0;
  if (S) S->step = index;
  ev("#" + std::to_string(s.id) + " " + s.op + (s.a.empty() ? "" : " " + join(s.a)));
}

class ErrBuf: public std::streambuf {
protected:
  int overflow(int c) {
    Own own;
    if (env.stderrMode == 1) { if (S) S->faults[F_STDERR_FAIL]++; return EOF; }
    if (c != EOF && errText.size() < 65536) errText += (char)c;
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) {
    Own own;
    if (env.stderrMode == 1) { if (S) S->faults[F_STDERR_FAIL]++; return 0; }
    if (errText.size() < 65536) errText.append(s, n);
    return n;
  }
};
static ErrBuf errBuf;
void installStderr() { std::cerr.rdbuf(&errBuf); }

static uint32_t entropy() {
  uint64_t k=drawEntropy++;
  switch(env.entropyMode) {
  case 1: if (S) S->faults[F_ENTROPY_CONST]++; return 0;
  case 2: if (S) S->faults[F_ENTROPY_CONST]++; return 0xffffffffu;
  case 3: if (S) S->faults[F_ENTROPY_CONST]++; return (uint32_t)(k%3)*0x55555555u;
  default: if (S) S->faults[F_ENTROPY_DRAW]++; return (uint32_t)mix2(env.entropySeed, stepId*1000003 + k);
  }
}
static void fill(void* p, size_t n) {
  if (!n) return;
  switch(env.garbage) {
  case 0: memset(p, 0, n); return;
  case 1: memset(p, 0xff, n); break;
  case 3: memset(p, 0xa5, n); break;
  default: {
    uint64_t x=mix2(env.gcSeed, drawGarbage++);
    size_t i=0;
    for(; i + 8 <= n; i += 8) { x = x*6364136223846793005ull + 1442695040888963407ull; memcpy((char*)p + i, &x, 8); }
    for(; i < n; i++) ((char*)p)[i] = (char)(x >> (i%8*8));
  }
  }
  if (S) S->faults[F_GARBAGE]++;
}
}
using namespace sim;

// compaction hook of the code under test
int ginv_sim_gc(size_t, size_t) {
  countWork();
  tick(1);
  switch(env.gcMode) {
  case 0: if (S) S->faults[F_GC_SUPPRESSED]++; return 0;
  case 1: if (S) S->faults[F_GC_FORCED]++; return 1;
  case 2: {
    bool c=(int)(mix2(mix2(env.gcSeed, stepId), drawGc++)%100) < env.gcPercent;
    if (S) { S->faults[c ? F_GC_FORCED : F_GC_SUPPRESSED]++; S->shape = mix2(S->shape, c ? stepId*2 + 1 : stepId*2); }
    return c;
  }
  default: return -1;
  }
}

// --- heap of the code under test
namespace {
struct Head { uint64_t magic; uint32_t sut; uint64_t n; uint64_t pad; };   // 32 bytes keep the alignment
const uint64_t MAGIC=0x51b0a110c8edull;
void* simNew(size_t n, bool nothrow) {
  if (inSut) {
    countWork();
    if (refuse()) { sim::fault(F_NEW_FAIL); if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  Head* h=inSut ? (Head*)blockGet(n + sizeof(Head), 16) : (Head*)malloc(n + sizeof(Head));
  if (!h) abort();
  h->magic = MAGIC;
  h->sut = inSut;
  h->n = n;
  h->pad = MAGIC;
  if (inSut) { live++; hold(n); fill(h + 1, n); ASAN_POISON_MEMORY_REGION(h, sizeof(Head)); }   // reading below the block is an error
  return h + 1;
}
void simDelete(void* p) {
  if (!p) return;
  Head* h=(Head*)p - 1;
  ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Head));
  if (h->magic != MAGIC) { fprintf(stderr, "bad delete\n"); abort(); }
  h->magic = 0;
  if (h->sut) { live--; held -= h->n; }
  blockFree(h);
}
}
// GMP's own memory goes through the seams too; GMP ends the process when it is refused memory, so it never is
static void* gmpNew(size_t n) {
  long was=armed;
  armed = 0;
  void* p=simNew(n, false);
  armed = was;
  return p;
}
static void gmpDelete(void* p, size_t) { simDelete(p); }
static void* gmpResize(void* p, size_t, size_t n) {
  Head* h=(Head*)p - 1;
  ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Head));
  bool sut=h->sut, was=inSut;
  size_t old=h->n;
  if (sut) ASAN_POISON_MEMORY_REGION(h, sizeof(Head));
  inSut = sut;
  void* q=gmpNew(n);
  inSut = was;
  memcpy(q, p, std::min(old, n));
  simDelete(p);
  return q;
}
namespace sim { void gmpMemory() { mp_set_memory_functions(gmpNew, gmpResize, gmpDelete); } }
void* operator new(size_t n) { return simNew(n, false); }
void* operator new[](size_t n) { return simNew(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simNew(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simNew(n, true); }
void operator delete(void* p) noexcept { simDelete(p); }
void operator delete[](void* p) noexcept { simDelete(p); }
void operator delete(void* p, size_t) noexcept { simDelete(p); }
void operator delete[](void* p, size_t) noexcept { simDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simDelete(p); }

extern "C" {
void sut_assert_fail(const char* what, const char* file, unsigned line, const char* func) {
  Own own;
  const char* b=strrchr(file, '/');
  fail("assertion", std::string(b ? b + 1 : file) + ":" + std::to_string(line) + " " + func + ": " + what);
}
void sut_mpz_mul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { mpz_mul(r, a, b); if (inSut) bigLimbs = std::max(bigLimbs, mpz_size(r)); }
void sut_mpz_addmul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { mpz_addmul(r, a, b); if (inSut) bigLimbs = std::max(bigLimbs, mpz_size(r)); }
void sut_mpz_submul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { mpz_submul(r, a, b); if (inSut) bigLimbs = std::max(bigLimbs, mpz_size(r)); }
// only objects of the code under test are linked with these names redirected (see build.py)
void* sut_aligned_alloc(size_t al, size_t n) {
  countWork();
  if (refuse()) { sim::fault(F_ALLOC_FAIL); errno = ENOMEM; return nullptr; }
  void* p=blockGet(n, al);
  if (p) { live++; newBlocks++; hold(blockSize(p)); fill(p, n); tick(2); }
  return p;
}
void* sut_malloc(size_t n) {
  countWork();
  if (refuse()) { sim::fault(F_ALLOC_FAIL); errno = ENOMEM; return nullptr; }
  void* p=blockGet(n, 16);
  if (p) { live++; newBlocks++; hold(blockSize(p)); fill(p, n); tick(2); }
  return p;
}
void* sut_calloc(size_t a, size_t b) {
  countWork();
  if (refuse()) { sim::fault(F_ALLOC_FAIL); errno = ENOMEM; return nullptr; }
  void* p=b && a > (size_t)-1/b ? nullptr : blockGet(a*b, 16);
  if (p) { memset(p, 0, a*b); live++; newBlocks++; hold(blockSize(p)); tick(2); }
  return p;
}
void* sut_realloc(void* q, size_t n) {
  countWork();
  if (refuse()) { sim::fault(F_ALLOC_FAIL); errno = ENOMEM; return nullptr; }
  void* p=blockGet(n, 16);
  if (!p) return nullptr;
  hold(blockSize(p));
  if (q) {
    memcpy(p, q, std::min(n, blockSize(q)));
    held -= blockSize(q);
    blockFree(q);
  }
  else { live++; newBlocks++; }
  return p;
}
int sut_posix_memalign(void** r, size_t al, size_t n) {
  countWork();
  if (refuse()) { sim::fault(F_ALLOC_FAIL); return ENOMEM; }
  void* p=blockGet(n, al);
  if (!p) return ENOMEM;
  *r = p;
  live++; newBlocks++; hold(blockSize(p)); fill(p, n); tick(2);
  return 0;
}
void sut_free(void* p) {
  if (!p) return;
  live--;
  held -= blockSize(p);
  blockFree(p);
}
// called during static initialisation: must not depend on the order of initialisers
int sut_getpagesize(void) { return envInt("SIM_PAGE", 4096); }
long sut_sysconf(int n) {
  if (n == _SC_CLK_TCK) return envInt("SIM_HZ", 100);
  if (n == _SC_PAGESIZE) return envInt("SIM_PAGE", 4096);
  return sysconf(n);
}
clock_t sut_times(struct tms* b) {
  if (b) {
    b->tms_utime = simClock.user;
    b->tms_stime = simClock.sys;
    b->tms_cutime = b->tms_cstime = 0;
  }
  return (clock_t)simClock.real;
}
static void toTv(long ticks, struct timeval* tv) {
  tv->tv_sec = ticks/simHZ;
  tv->tv_usec = (ticks%simHZ)*1000000/simHZ;
}
int sut_getrusage(int, struct rusage* u) {
  memset(u, 0, sizeof *u);
  toTv(simClock.user, &u->ru_utime);
  toTv(simClock.sys, &u->ru_stime);
  return 0;
}
int sut_gettimeofday(struct timeval* tv, void*) { toTv(simClock.real, tv); return 0; }
clock_t sut_clock(void) { return (clock_t)((simClock.user + simClock.sys)*(CLOCKS_PER_SEC/simHZ)); }
time_t sut_time(time_t* t) { time_t v=simClock.real/simHZ; if (t) *t = v; return v; }
int sut_clock_gettime(clockid_t id, struct timespec* ts) {
  long t=id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? simClock.user + simClock.sys : simClock.real;
  ts->tv_sec = t/simHZ;
  ts->tv_nsec = (t%simHZ)*1000000000l/simHZ;
  return 0;
}
long sut_chrono_now(void) { return simClock.real*1000000000l/simHZ; }
long sut_chrono_now2(void) { return simClock.real*1000000000l/simHZ; }
[[noreturn]] void sut_exit(int code) {
  inSut = false;
  if (onExit) onExit(code);
  fail("exit", "the code under test ended the process with status " + std::to_string(code));
}
unsigned sut_random_device(void*) { return entropy(); }
int sut_rand(void) { return (int)(entropy() >> 1); }
}
