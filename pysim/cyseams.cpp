// Seams of the Python module: heap content, compaction decisions, clocks and entropy of the linked library are answered here,
// from a seed the Python driver sets (through ctypes).  Linked unredirected; the library's objects are redirected (cyengine.py).
#include <errno.h>
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

namespace {
struct { long gcMode, gcPercent, garbage, clockMode, entropyMode; uint64_t seed; } E={3, 0, 0, 0, 0, 1};
uint64_t step=0, drawGc=0, drawClock=0, drawEntropy=0, drawGarbage=0;
uint64_t stat[12];                 // 0 forced 1 suppressed 2 garbage 3 stalls 4 jumps 5 entropy 6 constant entropy 7 requests 8 decision hash 9 ticks
long cReal=1000, cUser=100, cSys=10;
uint64_t live=0, held=0;
int envInt(const char* n, int d) { const char* s=getenv(n); return s ? atoi(s) : d; }
long hz() { static long h=envInt("SIM_HZ", 100); return h; }
uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x=a + 0x9e3779b97f4a7c15ull*(b + 1);
  x = (x ^ (x >> 30))*0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27))*0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
void tick(int kind) {
  uint64_t d=mix(mix(E.seed, step*131 + kind), drawClock++);
  switch(E.clockMode) {
  case 0: cReal += d%3; cUser += d%2; if (d%7 == 0) cSys++; stat[9] += d%3; break;
  case 1: stat[3]++; break;
  default:
    if (d%16 == 0) { long j=(long)((d >> 8)%2000000) - 1000000; cReal += j; stat[4]++; stat[9] += j > 0 ? j : -j; }
    else { cReal += d%50; cUser += d%3; }
  }
}
void fill(void* p, size_t n) {
  if (E.garbage == 0) { memset(p, 0, n); return; }
  stat[2]++;
  if (E.garbage == 1) { memset(p, 0xff, n); return; }
  uint64_t x=mix(E.seed, drawGarbage++);
  for(size_t i=0; i < n; i++) { if (i%8 == 0) x = x*6364136223846793005ull + 1442695040888963407ull; ((char*)p)[i] = (char)(x >> (i%8*8)); }
}
void hold(size_t n) {
  held += n;
  if (held > (3ull << 29)) { fprintf(stderr, "runaway memory\n"); _exit(78); }
}
void* take(void* p, size_t n) {
  stat[7]++;
  if (p) { live++; hold(malloc_usable_size(p)); fill(p, n); tick(2); }
  return p;
}
uint32_t entropy() {
  uint64_t k=drawEntropy++;
  switch(E.entropyMode) {
  case 1: stat[6]++; return 0;
  case 2: stat[6]++; return 0xffffffffu;
  default: stat[5]++; return (uint32_t)mix(E.seed, step*1000003 + k);
  }
}
void toTv(long t, struct timeval* tv) { tv->tv_sec = t/hz(); tv->tv_usec = (t%hz())*1000000/hz(); }
}

int ginv_sim_gc(size_t, size_t) {
  stat[7]++;
  tick(1);
  switch(E.gcMode) {
  case 0: stat[1]++; return 0;
  case 1: stat[0]++; return 1;
  case 2: {
    bool c=(long)(mix(mix(E.seed, step), drawGc++)%100) < E.gcPercent;
    stat[c ? 0 : 1]++;
    stat[8] = mix(stat[8], c ? step*2 + 1 : step*2);
    return c;
  }
  default: return -1;
  }
}

extern "C" {
void cy_env(long gcMode, long gcPercent, long garbage, long clockMode, long entropyMode, uint64_t seed) {
  E = {gcMode, gcPercent, garbage, clockMode, entropyMode, seed};
  step = drawGc = drawClock = drawEntropy = drawGarbage = 0;
  memset(stat, 0, sizeof stat);
}
void cy_step(uint64_t id) { step = id; drawGc = drawClock = drawEntropy = 0; }
void cy_stat(uint64_t* r) { memcpy(r, stat, sizeof stat); }
void cy_clock(long* r) { r[0] = cReal; r[1] = cUser; r[2] = cSys; r[3] = hz(); }
void cy_pass(long real, long user, long sys) { cReal += real; cUser += user; cSys += sys; }
uint64_t cy_live() { return live; }

void* sut_aligned_alloc(size_t al, size_t n) { return take(aligned_alloc(al, n), n); }
void* sut_malloc(size_t n) { return take(malloc(n), n); }
void* sut_calloc(size_t a, size_t b) { void* p=calloc(a, b); if (p) { live++; hold(malloc_usable_size(p)); } return p; }
void* sut_realloc(void* q, size_t n) {
  if (q) { live--; held -= malloc_usable_size(q); }
  void* p=realloc(q, n);
  if (p) { live++; hold(malloc_usable_size(p)); }
  return p;
}
int sut_posix_memalign(void** r, size_t al, size_t n) { int rc=posix_memalign(r, al, n); if (!rc) take(*r, n); return rc; }
void sut_free(void* p) { if (p) { live--; held -= malloc_usable_size(p); } free(p); }
int sut_getpagesize(void) { return envInt("SIM_PAGE", 4096); }
long sut_sysconf(int n) { return n == _SC_CLK_TCK ? hz() : n == _SC_PAGESIZE ? envInt("SIM_PAGE", 4096) : sysconf(n); }
clock_t sut_times(struct tms* b) {
  if (b) { b->tms_utime = cUser; b->tms_stime = cSys; b->tms_cutime = b->tms_cstime = 0; }
  return (clock_t)cReal;
}
int sut_getrusage(int, struct rusage* u) { memset(u, 0, sizeof *u); toTv(cUser, &u->ru_utime); toTv(cSys, &u->ru_stime); return 0; }
int sut_gettimeofday(struct timeval* tv, void*) { toTv(cReal, tv); return 0; }
clock_t sut_clock(void) { return (clock_t)((cUser + cSys)*(CLOCKS_PER_SEC/hz())); }
time_t sut_time(time_t* t) { time_t v=cReal/hz(); if (t) *t = v; return v; }
int sut_clock_gettime(clockid_t id, struct timespec* ts) {
  long t=id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? cUser + cSys : cReal;
  ts->tv_sec = t/hz();
  ts->tv_nsec = (t%hz())*1000000000l/hz();
  return 0;
}
long sut_chrono_now(void) { return cReal*1000000000l/hz(); }
long sut_chrono_now2(void) { return cReal*1000000000l/hz(); }
void sut_exit(int code) { fprintf(stderr, "exit %d\n", code); _exit(79); }
unsigned sut_random_device(void*) { return entropy(); }
int sut_rand(void) { return (int)(entropy() >> 1); }
}
