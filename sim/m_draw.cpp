// Diagrams: red-black trees, divisor trees, forests and bases drawn at any point of their history through a graph library
// that only records what it is asked to draw and may refuse to lay out or to write.
#include "core.h"
#include "sutil.h"
#include "util/rbtree.h"
#include "ginv/janet.h"
#include "ginv/gb.h"
#include "ginv/poly_int.h"
#include <graphviz/gvc.h>
#include <algorithm>
#include <memory>

namespace sim {
namespace {
struct Node { std::string name; std::map<std::string, std::string> attr; size_t id; };
struct Edge { Node *a, *b; std::string name; std::map<std::string, std::string> attr; };
struct Obj { int kind; Node* n; Edge* e; };            // what the caller's handles point to
struct Graph {
  std::string name;
  bool directed=true;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::unique_ptr<Edge>> edges;
  std::map<std::string, Node*> byName;
};
std::vector<std::unique_ptr<Obj>> objs;
std::map<void*, Obj*> handles;
std::map<Agraph_t*, std::unique_ptr<Graph>> open;
int contexts=0, layouts=0, renders=0, refuse=0;        // refuse: 1 layout, 2 file, 3 both
std::string lastFormat, lastFile;
std::unique_ptr<Graph> shown;                          // what the last file shows
std::vector<char*> strings;
const char* S_(const char* x) { return x ? x : ""; }
char* keep(const char* x) {
  size_t n=strlen(S_(x)) + 1;
  strings.push_back(new char[n]);
  memcpy(strings.back(), S_(x), n);
  return strings.back();
}

std::unique_ptr<Graph> copyOf(const Graph& g) {
  std::unique_ptr<Graph> r(new Graph);
  r->name = g.name;
  std::map<Node*, Node*> m;
  for(auto& n: g.nodes) { r->nodes.emplace_back(new Node(*n)); m[n.get()] = r->nodes.back().get(); }
  for(auto& e: g.edges) r->edges.emplace_back(new Edge{m[e->a], m[e->b], e->name, e->attr});
  return r;
}
template <class H> H handle(int kind, Node* n, Edge* e) {
  for(auto& o: objs) if (o->kind == kind && o->n == n && o->e == e) return (H)o.get();
  objs.emplace_back(new Obj{kind, n, e});
  return (H)objs.back().get();
}
Graph* graph(Agraph_t* g, const char* who) {
  auto i=open.find(g);
  if (i == open.end()) fail("draw-use", std::string(who) + " on a diagram that is not open");
  return i->second.get();
}
int render(Agraph_t* g, const char* format, const char* file) {
  Graph* p=graph(g, "rendering");
  if (!layouts && !(refuse & 1)) fail("draw-use", "rendering without a layout");
  renders++;
  lastFormat = S_(format);
  lastFile = S_(file);
  if (refuse & 2) { fault(F_RENDER); return 1; }
  shown = copyOf(*p);
  return 0;
}
}
}
using namespace sim;
extern "C" {
Agdesc_t Agdirected, Agstrictdirected, Agundirected, Agstrictundirected;
GVC_t* gvContext(void) { contexts++; return (GVC_t*)&contexts; }
int gvFreeContext(GVC_t*) { contexts--; return 0; }
Agraph_t* agopen(char* name, Agdesc_t, Agdisc_t*) {
  Graph* g=new Graph;
  g->name = S_(name);
  Agraph_t* h=(Agraph_t*)g;
  open[h].reset(g);
  return h;
}
int agclose(Agraph_t* g) { graph(g, "closing"); objs.clear(); open.erase(g); return 0; }
Agnode_t* agnode(Agraph_t* g, char* name, int create) {
  Graph* p=graph(g, "a node");
  std::string n=name ? name : "%" + std::to_string(p->nodes.size());
  auto i=p->byName.find(n);
  if (i != p->byName.end()) return handle<Agnode_t*>(1, i->second, nullptr);
  if (!create) return nullptr;
  p->nodes.emplace_back(new Node{n, {}, p->nodes.size()});
  p->byName[n] = p->nodes.back().get();
  return handle<Agnode_t*>(1, p->nodes.back().get(), nullptr);
}
Agedge_t* agedge(Agraph_t* g, Agnode_t* t, Agnode_t* h, char* name, int create) {
  Graph* p=graph(g, "an edge");
  if (!t || !h) { if (create) fail("draw-use", "an edge without an end"); return nullptr; }
  Node *a=((Obj*)t)->n, *b=((Obj*)h)->n;
  if (name)
    for(auto& e: p->edges) if (e->a == a && e->b == b && e->name == name) return handle<Agedge_t*>(2, nullptr, e.get());
  if (!create) return nullptr;
  p->edges.emplace_back(new Edge{a, b, S_(name), {}});
  return handle<Agedge_t*>(2, nullptr, p->edges.back().get());
}
int agsafeset(void* o, char* name, char* value, char*) {
  if (!o) fail("draw-use", "an attribute of nothing");
  for(auto& x: objs)
    if (x.get() == o) { (x->n ? x->n->attr : x->e->attr)[S_(name)] = S_(value); return 0; }
  return 0;                            // an attribute of the diagram
}
int agset(void* o, char* name, char* value) { return agsafeset(o, name, value, nullptr); }
char* agget(void* o, char* name) {
  for(auto& x: objs)
    if (x.get() == o) {
      auto& m=x->n ? x->n->attr : x->e->attr;
      auto i=m.find(S_(name));
      return i == m.end() ? nullptr : (char*)i->second.c_str();
    }
  return nullptr;
}
Agsym_t* agattr(Agraph_t*, int, char*, char*) { return nullptr; }
char* agstrdup(Agraph_t*, char* s) { return keep(s); }
char* agstrdup_html(Agraph_t*, char* s) { return keep(s); }
int agstrfree(Agraph_t*, char* s) {
  auto i=std::find(strings.begin(), strings.end(), s);
  if (i == strings.end()) fail("draw-use", "a text is given back that was not taken");
  delete[] *i;
  strings.erase(i);
  return 0;
}
int agnnodes(Agraph_t* g) { return (int)graph(g, "counting")->nodes.size(); }
int agnedges(Agraph_t* g) { return (int)graph(g, "counting")->edges.size(); }
int gvLayout(GVC_t* c, graph_t* g, const char*) {
  if (!c) fail("draw-use", "layout without a context");
  graph(g, "layout");
  if (refuse & 1) { fault(F_RENDER); return -1; }
  layouts++;
  return 0;
}
int gvFreeLayout(GVC_t*, graph_t* g) { graph(g, "layout"); if (layouts) layouts--; return 0; }
int gvRenderFilename(GVC_t*, graph_t* g, const char* format, const char* file) { return render(g, format, file); }
int gvRender(GVC_t*, graph_t* g, const char* format, FILE*) { return render(g, format, "(stream)"); }
}

namespace sim {
using namespace GInv;
namespace {
int cmpUp(const long a, const long b) { return a < b ? -1 : a > b; }
typedef RBTree<long, cmpUp> RB;

std::string get(const Node* n, const char* k) { auto i=n->attr.find(k); return i == n->attr.end() ? "" : i->second; }
std::string label(const Node* n) { auto i=n->attr.find("label"); return i == n->attr.end() ? n->name : i->second; }
struct Shown {                         // the diagram on file, ready to be walked
  std::map<const Node*, std::vector<const Edge*>> out;
  std::map<const Node*, int> in;
  Shown() {
    for(auto& n: shown->nodes) { out[n.get()]; in[n.get()]; }
    for(auto& e: shown->edges) { out[e->a].push_back(e.get()); in[e->b]++; }
  }
  std::vector<const Node*> roots() const {
    std::vector<const Node*> r;
    for(auto& n: shown->nodes) if (in.at(n.get()) == 0) r.push_back(n.get());
    return r;
  }
};
std::string edgeText(const Edge* e) {
  auto a=[&](const char* k) { auto i=e->attr.find(k); return i == e->attr.end() ? std::string() : i->second; };
  return a("style") + "/" + a("dir");
}
void drawn(const std::function<void(const char*, const char*)>& f, int how, const std::string& what, bool& ok) {
  shown.reset();
  renders = 0;
  refuse = how;
  std::string file="d" + std::to_string(how) + ".pdf";
  { Sut g; f("pdf", file.c_str()); }
  refuse = 0;
  if (!open.empty()) fail("draw-use", what + ": a diagram was left open");
  if (!strings.empty()) fail("draw-use", what + ": a text was never given back");
  ok = how == 0;
  if (!ok) return;
  if (renders != 1 || !shown) fail("draw-file", what + ": " + std::to_string(renders) + " files written");
  if (lastFormat != "pdf" || lastFile != file) fail("draw-file", what + ": written as " + lastFormat + " to " + lastFile);
}
// --- red-black trees
void treeShape(const Shown& g, const Node* n, std::vector<long>& keys, std::map<long, bool>& red, int& leaves, int depth, std::set<const Node*>& seen) {
  if (depth > 200 || !seen.insert(n).second) fail("draw-edges", "the diagram of a red-black tree is no tree at " + label(n));
  const std::vector<const Edge*>& o=g.out.at(n);
  if (o.empty()) {
    if (label(n) != "nullptr" || get(n, "shape") != "box") fail("draw-label", "a leaf is shown as '" + label(n) + "' in a " + get(n, "shape"));
    leaves++;
    return;
  }
  if (o.size() != 2) fail("draw-edges", "node " + label(n) + " has " + std::to_string(o.size()) + " children");
  for(auto e: o) if (edgeText(e) != "solid/forward") fail("draw-edges", "an edge of " + label(n) + " is drawn " + edgeText(e));
  treeShape(g, o[0]->b, keys, red, leaves, depth + 1, seen);
  char* end;
  const std::string l=label(n);
  long k=strtol(l.c_str(), &end, 10);
  if (*end || l.empty()) fail("draw-label", "an element is shown as '" + l + "'");
  keys.push_back(k);
  red[k] = !get(n, "color").empty();
  treeShape(g, o[1]->b, keys, red, leaves, depth + 1, seen);
}
std::string rbText(RB::ConstIterator x) {
  if (!x) return ".";
  return "(" + rbText(x.left()) + std::to_string(x.key()) + (x.color() == RB::Red ? "r" : "b") + rbText(x.right()) + ")";
}
std::string shownRb(const Shown& g, const Node* n) {
  const std::vector<const Edge*>& o=g.out.at(n);
  if (o.empty()) return ".";
  return "(" + shownRb(g, o[0]->b) + label(n) + (get(n, "color").empty() ? "b" : "r") + shownRb(g, o[1]->b) + ")";
}
void checkRb(RB& t, const std::set<long>& m) {
  Shown g;
  std::vector<const Node*> r=g.roots();
  if (r.size() != 1) fail("draw-edges", "the diagram of a red-black tree has " + std::to_string(r.size()) + " roots");
  std::vector<long> keys;
  std::map<long, bool> red;
  int leaves=0;
  std::set<const Node*> seen;
  treeShape(g, r[0], keys, red, leaves, 0, seen);
  if (keys != std::vector<long>(m.begin(), m.end())) fail("draw-nodes", "the diagram shows " + std::to_string(keys.size()) + " keys of " + std::to_string(m.size()) + " or in another order");
  if (leaves != (int)m.size() + 1) fail("draw-nodes", "the diagram shows " + std::to_string(leaves) + " leaves");
  std::string a=rbText(t.root()), b=shownRb(g, r[0]);
  if (a != b) fail("draw-edges", "the tree is " + a + " but its diagram " + b);
  probe(32);
  obs("rb " + b);
  state(b);
}
// --- divisor trees
std::string strip(const std::string& s, std::vector<std::vector<std::string>>& rows, bool& bold) {
  // rows and cells of the table a label holds
  size_t p=0;
  bold = false;
  std::string cell;
  bool in=false;
  while(p < s.size()) {
    if (s[p] == '<') {
      size_t q=s.find('>', p);
      if (q == std::string::npos) return "a tag without end";
      std::string t=s.substr(p + 1, q - p - 1);
      std::transform(t.begin(), t.end(), t.begin(), ::tolower);
      if (t == "tr") rows.emplace_back();
      else if (t == "td") { if (in || rows.empty()) return "a cell out of place"; in = true; cell.clear(); }
      else if (t == "/td") { if (!in) return "a cell ends that never began"; in = false; rows.back().push_back(cell); }
      else if (t == "b") bold = true;
      p = q + 1;
    }
    else { if (in) cell += s[p]; p++; }
  }
  return "";
}
std::string wrapText(const Wrap* w, bool nmd) {
  std::string r=w->isGB() ? "B" : "-";
  int n=w->lm().size();
  for(int i=0; i < n; i++) r += " " + std::to_string(w->lm()[i]);
  r += " |";
  for(int i=0; i < n; i++) r += w->NM(i) ? "*" : ".";
  if (nmd) { r += "|"; for(int i=0; i < n; i++) r += w->NMd(i) ? "#" : "."; }
  r += "|";
  for(int i=0; i < n; i++) r += w->build(i) ? "&" : ".";
  return r;
}
std::string shownWrap(const Node* n, bool nmd) {
  std::vector<std::vector<std::string>> rows;
  bool bold;
  std::string e=strip(label(n), rows, bold);
  if (!e.empty()) fail("draw-label", e + " in " + label(n));
  if (rows.size() != (nmd ? 4u : 3u)) fail("draw-label", "a table of " + std::to_string(rows.size()) + " rows: " + label(n));
  std::string r=bold ? "B" : "-";
  for(auto& c: rows[0]) r += " " + c;
  r += " |";
  for(size_t k=1; k < rows.size(); k++) {
    if (k > 1) r += "|";
    for(auto& c: rows[k]) r += c.empty() ? "." : c == "&amp;" ? "&" : c;
  }
  return r;
}
// node(dotted child)(next in the chain)
std::string janetText(Janet::ConstIterator j, bool nmd, size_t& elements) {
  std::string r="[";
  if (j.wrap()) { elements++; r += wrapText(j.wrap(), nmd); }
  else r += std::to_string(j.degree());
  if (j.nextVar()) r += " v" + janetText(j.nextVar(), nmd, elements);
  if (j.nextDeg()) r += " d" + janetText(j.nextDeg(), nmd, elements);
  return r + "]";
}
std::string shownJanet(const Shown& g, const Node* n, bool nmd, std::set<const Node*>& seen) {
  if (!seen.insert(n).second) fail("draw-edges", "the diagram of a divisor tree is no tree");
  if (get(n, "shape") != "plaintext") fail("draw-label", "a node is drawn as " + get(n, "shape"));
  std::string r="[", l=label(n), v, d;
  if (l.find('<') == std::string::npos) r += l;
  else r += shownWrap(n, nmd);
  for(auto e: g.out.at(n)) {
    std::string t=edgeText(e);
    if (t == "dotted/forward" && v.empty()) v = " v" + shownJanet(g, e->b, nmd, seen);
    else if (t == "solid/forward" && d.empty()) d = " d" + shownJanet(g, e->b, nmd, seen);
    else fail("draw-edges", "an edge too many or drawn " + t);
  }
  return r + v + d + "]";
}
void checkHeader(const Shown&, const Node* h, const std::string& want) {
  if (label(h) != want) fail("draw-label", "the heading is '" + label(h) + "' instead of '" + want + "'");
}
void checkJanet(const Janet& t, const std::string& what) {
  Shown g;
  size_t n=0;
  std::string want=janetText(t.begin(), false, n);
  std::vector<const Node*> r=g.roots(), top;
  const Node* head=nullptr;
  for(auto x: r) if (x->name[0] == '#' && g.out.at(x).empty()) head = x; else top.push_back(x);
  if (!head) fail("draw-nodes", what + ": no heading");
  if (top.size() != 1) fail("draw-edges", what + ": " + std::to_string(top.size()) + " roots");
  std::set<const Node*> seen;
  std::string got=shownJanet(g, top[0], false, seen);
  if (got != want) fail("draw-nodes", what + ": the tree is " + want + " but its diagram " + got);
  if (seen.size() + 1 != shown->nodes.size()) fail("draw-nodes", what + ": nodes without place");
  HilbertPoly hp;
  sut([&] { t.buildHP(hp); });
  std::ostringstream o;
  o << "#Janet = " << t.size() << "\n#HP = " << hp;
  checkHeader(g, head, o.str());
  probe(what == "basis" ? 35 : 33);
  obs("janet " + got);
  state(got);
}
std::string monText(Rng& r, int n, int deg) {
  std::string s="-1:";
  std::vector<int> e(n, 0);
  for(int d=r.in(1, deg); d > 0; d--) e[r.in(0, n - 1)]++;
  for(int i=0; i < n; i++) s += (i ? "," : "") + std::to_string(e[i]);
  return s;
}
void gen(const std::string&, Rng& r, Scenario& s) {
  int n=r.in(1, 5), k=r.in(8, 40), kind=r.in(0, 3), deg=r.in(2, 6);
  if (kind < 3 && r.p(10)) n = r.in(6, 9);
  if (kind < 3 && r.p(15)) deg = r.in(7, 60);
  auto T=[](long x) { return std::to_string(x); };
  s.set("n", n);
  s.set("kind", kind);
  int range=r.p(50) ? 12 : 300, bad=r.p(40) ? 25 : 0;
  for(int i=0; i < k; i++) {
    int w=r.in(0, 99), how=r.p(bad) ? r.in(1, 3) : 0;
    if (kind == 0) {
      if (w < 40) s.addn("ins", {r.in(0, 1), r.in(-range/2, range)});
      else if (w < 55) s.addn("rem", {r.in(0, 1), r.in(-range/2, range)});
      else if (w < 62) s.addn("many", {r.in(0, 1), r.in(0, range), r.in(2, 30), r.in(1, 7)});
      else if (w < 66) s.addn("swap", {0});
      else if (w < 70) s.addn("copy", {0});
      else if (w < 72) s.addn("clear", {r.in(0, 1)});
      else s.addn("draw", {r.in(0, 1), how});
    }
    else if (kind == 1) {
      if (w < 55) s.add("insert", {T(r.in(0, 1)), monText(r, n, deg)});
      else if (w < 62) s.addn("fill", {r.in(0, 1)});
      else if (w < 66) s.addn("swap", {0});
      else if (w < 70) s.addn("compact", {r.in(0, 1)});
      else s.addn("draw", {r.in(0, 1), how});
    }
    else if (kind == 2) {
      if (w < 70) s.add("insert", {T(r.in(0, 99)), monText(r, n, deg), T(r.p(40))});
      else s.addn("draw", {0, how});
    }
    else {
      if (w < 50) s.add("push", {T(r.in(0, 1)), monText(r, n, std::min(deg, 4)), monText(r, n, std::min(deg, 4)), T(r.in(-3, 3))});
      else if (w < 70) s.addn("build", {r.in(0, 1), r.in(0, 3)});
      else s.addn("draw", {r.in(0, 1), how});
    }
  }
  s.addn("draw", {0, 0});
}

void runRb(const Scenario& s) {
  Allocator* A=sut([] { return new Allocator; });
  RB* t[2];
  std::set<long> m[2];
  { Sut g; t[0] = new RB(A); t[1] = new RB(A); }
  for(size_t k=0; k < s.steps.size(); k++) {
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    int a=(int)(st.num(0) & 1);
    if (st.op == "ins") { Sut g; if (m[a].insert(st.num(1)).second) t[a]->insert(st.num(1)); }
    else if (st.op == "rem") { Sut g; if (m[a].erase(st.num(1))) t[a]->remove(st.num(1)); }
    else if (st.op == "many") for(long i=0, x=st.num(1); i < std::min(40l, st.num(2)); i++, x += st.num(3)) { Sut g; if (m[a].insert(x).second) t[a]->insert(x); }
    else if (st.op == "swap") { Sut g; t[0]->swap(*t[1]); m[0].swap(m[1]); }
    else if (st.op == "copy") { Sut g; delete t[1]; t[1] = new RB(*t[0], A); m[1] = m[0]; }
    else if (st.op == "clear") { Sut g; t[a]->clear(); m[a].clear(); }
    else if (st.op == "draw") {
      std::string before=rbText(t[a]->root()) + std::to_string(A->size());
      bool ok;
      drawn([&](const char* f, const char* n) { t[a]->draw(f, n); }, (int)st.num(1), "red-black tree", ok);
      if (ok) checkRb(*t[a], m[a]);
      if (rbText(t[a]->root()) + std::to_string(A->size()) != before) fail("draw-changes", "drawing changed a red-black tree");
    }
  }
  { Sut g; delete t[0]; delete t[1]; delete A; }
}
std::string janetState(const Janet& t) { size_t n=0; return t.begin() ? janetText(t.begin(), true, n) + std::to_string(t.size()) : "-"; }
void runJanet(const Scenario& s, int n) {
  GCJanet* t[2];
  std::vector<Wrap*> own;
  { Sut g; t[0] = new GCJanet; t[1] = new GCJanet; }
  int cnt[2]={0, 0};
  auto insert=[&](int a, const ref::Mon& m) {
    if (cnt[a] >= 40 || (m.deg() == 0 && cnt[a])) return;
    Allocator al[1];
    Monom* x=mkMon(al, m);
    Sut g;
    if (!t[a]->find(*x)) {
      Wrap* w=new Wrap(*x);
      t[a]->insert(w);
      own.push_back(w);
      cnt[a]++;
    }
    delete x;
  };
  for(size_t k=0; k < s.steps.size(); k++) {
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    int a=(int)(st.num(0) & 1);
    if (st.op == "insert") { ref::Mon m=mparse(st.str(1), n); m.pos = -1; insert(a, m); }
    else if (st.op == "fill") {        // a prolongation, built from its ancestor
      for(size_t i=0; i < own.size(); i++)
        for(int v=0; v < n; v++) {
          bool mine=false;
          std::vector<Janet::ConstIterator> todo;
          if (t[a]->begin()) todo.push_back(t[a]->begin());
          while(!todo.empty()) {
            Janet::ConstIterator j=todo.back();
            todo.pop_back();
            if (j.wrap() == own[i]) mine = true;
            if (j.nextVar()) todo.push_back(j.nextVar());
            if (j.nextDeg()) todo.push_back(j.nextDeg());
          }
          if (!mine || !own[i]->NM(v) || own[i]->build(v) || cnt[a] >= 40) continue;
          Wrap* w=sut([&] { return new Wrap((Monom::Variable)v, own[i]); });
          own.push_back(w);
          Sut g;
          if (!t[a]->find(w->lm())) { t[a]->insert(w); cnt[a]++; }
          v = n;
          i = own.size();
          break;
        }
    }
    else if (st.op == "swap") { Sut g; t[0]->swap(*t[1]); std::swap(cnt[0], cnt[1]); }
    else if (st.op == "compact") { Sut g; t[a]->reallocate(); }
    else if (st.op == "draw") {
      if (!cnt[a]) continue;
      std::string before=janetState(*t[a]);
      size_t size=t[a]->size();
      bool ok;
      drawn([&](const char* f, const char* nm) { t[a]->draw(f, nm); }, (int)st.num(1), "divisor tree", ok);
      if (ok) checkJanet(*t[a], "divisor tree");
      if (janetState(*t[a]) != before || t[a]->size() != size) fail("draw-changes", "drawing changed a divisor tree");
    }
  }
  { Sut g; delete t[0]; delete t[1]; for(auto w: own) delete w; }
}
void runForest(const Scenario& s, int n) {
  Allocator* A=sut([] { return new Allocator; });
  GB* f=sut([&] { return new GB(A); });
  std::vector<Wrap*> own;
  int top=0;
  for(size_t k=0; k < s.steps.size(); k++) {
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    if (st.op == "insert") {
      ref::Mon m=mparse(st.str(1), n);
      m.pos = -1;
      if (own.size() >= 30 || m.deg() == 0) continue;
      Allocator al[1];
      Wrap* w=nullptr;
      if (st.num(2) && !own.empty()) { // a prolongation keeps the degree of its ancestor, hence its tree
        Wrap* p=own[(size_t)st.num(0)%own.size()];
        for(int v=0; v < n && !w; v++) if ((p->NM(v) || p->NMd(v)) && !p->build(v)) w = sut([&] { return new Wrap((Monom::Variable)v, p); });
      }
      if (!w) {
        Monom* x=mkMon(al, m);
        w = sut([&] { return new Wrap(*x); });
        Sut g;
        delete x;
      }
      own.push_back(w);
      Sut g;
      if (!f->find(w->lm())) {
        bool clash=false;              // one tree holds one element per monomial
        for(int d=0; d <= top; d++) if ((*f)[d]->find(w->lm())) clash = true;
        if (!clash) { f->insert(w); top = std::max(top, w->ansector().degree()); }
      }
    }
    else if (st.op == "draw") {
      auto all=[&] { std::string r; for(int d=0; d <= top; d++) r += janetState(*(*f)[d]); return r + std::to_string(A->size()); };
      std::string before=all();
      bool ok;
      drawn([&](const char* fm, const char* nm) { f->draw(fm, nm); }, (int)st.num(1), "forest", ok);
      if (ok) {
        Shown g;
        std::vector<std::string> want, got;
        size_t cnt=0;
        for(int d=0; d <= top; d++) if ((*f)[d]->begin()) want.push_back(janetText((*f)[d]->begin(), true, cnt));
        std::set<const Node*> seen;
        const Node* head=nullptr;
        for(auto x: g.roots()) if (x->name[0] == '#' && g.out.at(x).empty()) head = x; else got.push_back(shownJanet(g, x, true, seen));
        if (!head) fail("draw-nodes", "forest: no heading");
        checkHeader(g, head, "#GB = " + std::to_string(f->size()));
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        if (got != want) fail("draw-nodes", "forest: the trees are " + join(want, " ") + " but the diagram shows " + join(got, " "));
        if ((int)cnt != f->size()) fail("draw-nodes", "forest: " + std::to_string(cnt) + " elements, size " + std::to_string(f->size()));
        probe(34);
        obs("forest " + join(got));
        state(join(got));
      }
      if (all() != before) fail("draw-changes", "drawing changed a forest");
    }
  }
  { Sut g; delete f; delete A; for(auto w: own) delete w; }
}
void runBasis(const Scenario& s, int n) {
  JanetPolyInt* J[2];
  { Sut g; J[0] = new JanetPolyInt; J[1] = new JanetPolyInt; }
  int pushed[2]={0, 0};
  bool fresh[2]={false, false};
  int ord=PolyInt::TOP | PolyInt::deglex;
  n = std::min(n, 3);
  for(size_t k=0; k < s.steps.size(); k++) {
    const Step& st=s.steps[k];
    beginStep(st, (int)k);
    int a=(int)(st.num(0) & 1);
    if (st.op == "push") {
      if (pushed[a] >= 5) continue;
      ref::Poly p(ord);
      ref::Mon x=mparse(st.str(1), n), y=mparse(st.str(2), n);
      x.pos = y.pos = -1;
      p.t.push_back({x, 1});
      if (st.num(3)) p.t.push_back({y, st.num(3)});
      p.normalise();
      if (p.zero()) continue;
      Allocator al[1];
      PolyInt* c=sut([&] { return new PolyInt(al, ord, n); });
      fillPoly(*c, p);
      Sut g;
      J[a]->push(*c);
      delete c;
      pushed[a]++;
      fresh[a] = false;
    }
    else if (st.op == "build") {
      if (!pushed[a]) continue;
      setWorkLimit(2000000);
      {
        Sut g;
        switch(std::max(0l, st.num(1))%4) {
        case 0: J[a]->algorithmBlockTQ(); break;
        case 1: J[a]->algorithmTQ(); break;
        case 2: J[a]->algorithmTQ1(); break;
        default: J[a]->algorithmTQ2();
        }
      }
      setWorkLimit(0);
      fresh[a] = true;
    }
    else if (st.op == "draw") {
      if (!fresh[a] || J[a]->isOne()) continue;
      const Janet& t=J[a]->janet(-1);
      if (!t.begin()) continue;
      auto all=[&] {
        std::string r=janetState(t);
        for(auto i=J[a]->begin(); i; ++i) r += ref::str(toPoly(i.data()->poly()));
        return r;
      };
      std::string before=all();
      bool ok;
      drawn([&](const char* fm, const char* nm) { t.draw(fm, nm); }, (int)st.num(1), "basis", ok);
      if (ok) checkJanet(t, "basis");
      if (all() != before) fail("draw-changes", "drawing changed a basis");
    }
  }
  { Sut g; delete J[0]; delete J[1]; }
}
void run(const Scenario& s) {
  int n=(int)std::max(1l, std::min(6l, s.num("n", 3)));
  size_t start=Allocator::currMemory();
  switch(std::max(0l, s.num("kind"))%4) {
  case 0: runRb(s); break;
  case 1: runJanet(s, n); break;
  case 2: runForest(s, n); break;
  default: runBasis(s, n);
  }
  if (Allocator::currMemory() != start) fail("draw-changes", "memory is not back where it started");
}
Reg r("draw", gen, run);
}
}
