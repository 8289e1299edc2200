// How each property judges a scenario: plain run with a model, or comparison of several runs.
#include "core.h"

namespace sim {

std::string machineFor(const std::string& prop, Rng& r) {
  struct W { const char* p; const char* m; int w; };
  static const W table[]={
    {"P01", "mem", 10},
    {"P02", "mem", 3}, {"P02", "list", 2}, {"P02", "stack", 1}, {"P02", "rbtree", 2}, {"P02", "int", 2}, {"P02", "poly", 4},
    {"P02", "tree", 2}, {"P02", "compl", 2}, {"P02", "gb", 5}, {"P02", "monom", 1}, {"P02", "hilb", 1}, {"P02", "wrap", 1}, {"P02", "forest", 1},
    {"P03", "mem", 5}, {"P03", "gb", 4}, {"P03", "poly", 2},
    {"P04", "mem", 4}, {"P04", "list", 2}, {"P04", "stack", 2}, {"P04", "rbtree", 2}, {"P04", "int", 2}, {"P04", "poly", 2}, {"P04", "tree", 2}, {"P04", "monom", 1},
    {"P05", "list", 2}, {"P05", "int", 2}, {"P05", "monom", 1}, {"P05", "poly", 4}, {"P05", "tree", 4}, {"P05", "gb", 4},
    {"P06", "list", 3}, {"P06", "stack", 2},
    {"P07", "rbtree", 10}, {"P08", "int", 10}, {"P09", "poly", 10}, {"P10", "red", 10}, {"P11", "tree", 10}, {"P11", "forest", 2}, {"P12", "compl", 10}, {"P12", "wrap", 1},
    {"P13", "gb", 10}, {"P14", "gb", 10}, {"P15", "gb", 10}, {"P16", "gb", 10}, {"P17", "gb", 10}, {"P18", "gb", 7}, {"P18", "tree", 3}, {"P18", "hilb", 2},
    {"P19", "gb", 7}, {"P19", "poly", 2}, {"P20", "gb", 10}, {"P28", "monom", 10}, {"P21", "timer", 10}, {"P22", "random", 10}, {"P29", "draw", 10}, {"P33", "text", 10}, {"P38", "bool", 10},
  };
  int sum=0;
  for(auto& w: table) if (prop == w.p) sum += w.w;
  if (!sum) { fprintf(stderr, "no machine for %s\n", prop.c_str()); exit(3); }
  int k=r.in(0, sum - 1);
  for(auto& w: table)
    if (prop == w.p) { if (k < w.w) return w.m; k -= w.w; }
  return "";
}

static void settle(Variant& v, const char* what) {   // a variant that itself found a violation or stopped early
  if (v.s->status == 3) skipRun(v.s->msg);
  if (v.s->status == 2) fail(v.s->cls, std::string(what) + ": " + v.s->msg);
}
static void compare(Variant& a, Variant& b, const char* na, const char* nb, const char* cls) {
  long d=firstDifference(a, b);
  if (d >= 0)
    fail(cls, std::string("observation ") + std::to_string(d) + " differs\n  " + na + ": " + a.line(d) + "\n  " + nb + ": " + b.line(d));
}
static Variant with(const Scenario& s, const std::function<void(Env&)>& f) {
  return runVariant([&] {
    Env e=envOf(s);
    f(e);
    applyEnv(e);
    machine(s.machine)->run(s);
  });
}

static void judgeCompaction(const Scenario& s) {
  Variant a=with(s, [](Env& e) { e.gcMode = 0; });
  if (!a.crash.empty() || a.s->status == 2) skipRun("fails without compaction too");
  settle(a, "without compaction");
  Variant b=with(s, [&](Env& e) { e.gcMode = (int)s.num("gc", 2); e.gcPercent = (int)s.num("gcp", 50); });
  if (!b.crash.empty()) fail("crash", "with compaction: " + b.crash + " at step " + std::to_string(b.s->step));
  settle(b, "with compaction");
  compare(a, b, "without compaction", "with compaction", "compaction-visible");
}

static void judgeEnvironment(const Scenario& s) {
  Variant a=with(s, [](Env& e) { e.gcMode = -1; e.garbage = 0; e.addrMode = 3; e.clockMode = 0; e.stderrMode = 0; });
  if (!a.crash.empty()) skipRun("fails in the plain environment too");
  settle(a, "plain environment");
  Variant b=with(s, [](Env&) {});
  if (!b.crash.empty()) fail("crash", "in the other environment: " + b.crash);
  settle(b, "other environment");
  compare(a, b, "plain environment", "other environment", "environment-visible");
  int page=(int)s.num("page2", 0);
  if (page && page != simPage) {
    Variant c=execVariant(s, page);
    if (!c.crash.empty()) fail("crash", "with page size " + std::to_string(page) + ": " + c.crash);
    settle(c, "other page size");
    compare(a, c, "plain environment", "other page size", "page-size-visible");
  }
}

static void judgeSessions(const Scenario& s) {
  Variant all=with(s, [](Env&) {});
  std::set<int> ids;
  for(auto& st: s.steps) ids.insert((int)st.num(0));
  std::vector<Variant> solo;
  for(int id: ids) {
    Scenario one(s);
    one.steps.clear();
    for(auto& st: s.steps) if ((int)st.num(0) == id) one.steps.push_back(st);
    Variant v=with(one, [](Env&) {});
    if (!v.crash.empty() || v.s->status == 2) skipRun("a session fails on its own");
    settle(v, "solo");
    solo.push_back(v);
  }
  if (!all.crash.empty()) fail("crash", "interleaved: " + all.crash + " at step " + std::to_string(all.s->step));
  settle(all, "interleaved");
  size_t k=0;
  for(int id: ids) {
    Variant& v=solo[k++];
    std::vector<uint32_t> x=ofTag(all, id), y=ofTag(v, id);
    for(size_t i=0; i < std::max(x.size(), y.size()); i++)
      if (i >= x.size() || i >= y.size() || all.s->obs[x[i]] != v.s->obs[y[i]]) {
        if (all.s->nobs >= NOBS) break;
        fail("session-interference", "session " + std::to_string(id) + ", observation " + std::to_string(i) + "\n  alone:       "
             + (i < y.size() ? v.line(y[i]) : "(nothing)") + "\n  interleaved: " + (i < x.size() ? all.line(x[i]) : "(nothing)"));
      }
  }
}

// The machine records, per step, (limit in force, blocks obtained so far, peak) in a run where limits are ignored.
static void judgeLimit(const Scenario& s) {
  Variant a=runVariant([&] {
    Env e=envOf(s);
    applyEnv(e);
    Scenario t(s);
    t.set("ignore_limit", 1);
    machine(s.machine)->run(t);
  });
  if (!a.crash.empty() || a.s->status == 2) skipRun("fails without a limit too");
  settle(a, "unlimited");
  Variant b=runVariant([&] {
    applyEnv(envOf(s));
    onExit = [](int code) {
      obs("stopped in step " + std::to_string(S->step) + " diagnostic " + (errText.empty() ? "missing" : "written"));
      (void)code;
      fault(F_LIMIT_STOP);
      finishOk();
    };
    machine(s.machine)->run(s);
  });
  if (!b.crash.empty()) fail("crash", "with a limit: " + b.crash);
  settle(b, "limited");
  if (a.s->nnum >= NOBS || a.s->nobs >= NOBS || b.s->nobs >= NOBS) skipRun("too long");
  // expected stop: records are triples (step, limit, peak); recorded only for steps that obtained memory
  long stop=-1, peak=0, lim=0;
  for(uint32_t i=0; i + 3 <= a.s->nnum; i += 3)
    if (a.s->num[i + 1] > 0 && a.s->num[i + 2] > a.s->num[i + 1]) { stop = a.s->num[i]; lim = a.s->num[i + 1]; peak = a.s->num[i + 2]; break; }
  std::string last=b.s->nobs ? b.line(b.s->nobs - 1) : "";
  bool stopped=last.compare(0, 8, "stopped ") == 0;
  if (stop >= 0 && !stopped) fail("limit-ignored", "step " + std::to_string(stop) + " takes the peak to " + std::to_string(peak) + " over the limit " + std::to_string(lim) + " but the process went on");
  if (stopped) {
    long at=b.s->step;
    if (stop < 0) fail("limit-early", "stopped in step " + std::to_string(at) + " although the peak never exceeds the limit");
    if (at != stop) fail(at < stop ? "limit-early" : "limit-late", "stopped in step " + std::to_string(at) + ", expected in step " + std::to_string(stop));
    if (last.find("missing") != std::string::npos) fail("limit-silent", "stopped without a diagnostic");
  }
  uint32_t n=b.s->nobs - (stopped ? 1 : 0);
  for(uint32_t i=0; i < n; i++)
    if (i >= a.s->nobs || a.s->obs[i] != b.s->obs[i]) fail("limit-visible", "observation " + std::to_string(i) + "\n  unlimited: " + a.line(i) + "\n  limited:   " + b.line(i));
  if (!stopped && a.s->nobs != n) fail("limit-visible", "a different number of observations");
}

void judge(const Scenario& s) {
  const std::string prop=acting(s);
  if (prop == "P05") judgeCompaction(s);
  else if (prop == "P20") { judgeEnvironment(s); }
  else if (prop == "P19") judgeSessions(s);
  else if (prop == "P03") judgeLimit(s);
  else {
    machine(s.machine)->run(s);
    // an object that owns its arena must have returned everything before the arena goes (the machine "mem" ends arenas in use)
    if (on("P02") && s.machine != "mem" && errText.find("(mSize != 0)") != std::string::npos) fail("accounting", "diagnostic: " + errText.substr(0, 300));
  }
}
}
