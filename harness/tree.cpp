// Conformance of the search structures below the broad phase: binary trees of
// bounding volumes (pointers and arrays), interval trees, hash tables over
// spatial hashing, Morton codes.  The whole structure is recorded after every call.
#include "common.h"
#include <algorithm>
#include <bitset>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include <unordered_map>
#include <Eigen/Dense>
#define protected public
#define private public
#include "fcl/broadphase/detail/interval_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree_array.h"
#undef private
#undef protected
#include "fcl/broadphase/detail/morton.h"
#include "fcl/broadphase/detail/simple_hash_table.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/broadphase/detail/spatial_hash.h"
using namespace fcl;
using hv::J; using hv::Cmd; using hv::History; using hv::list;
typedef AABB<double> BV;
typedef Vector3<double> V3;
typedef detail::HierarchyTree<BV> DTree;
typedef detail::implementation_array::HierarchyTree<BV> ATree;
typedef DTree::NodeType DNode;
typedef detail::implementation_array::NodeBase<BV> ANode;
static const size_t NONE = size_t(-1);

static BV box(Cmd& c) { V3 a, b; for (int k = 0; k < 3; ++k) a[k] = c.d(); for (int k = 0; k < 3; ++k) b[k] = c.d(); BV r(a); r.max_ = b; return r; }
static std::string boxs(const BV& b) { return "[" + J::vec(b.min_) + "," + J::vec(b.max_) + "]"; }

// either kind of tree, leaves known by the number they carry
struct Tree {
  virtual ~Tree() {}
  virtual void init(const std::vector<std::pair<int, BV>>&, int level) = 0;
  virtual void insert(int id, const BV&) = 0;
  virtual void remove(int id) = 0;
  virtual bool move(int id, const BV&) = 0;               // update(leaf, box)
  virtual void touch(int id, const BV&, int ahead) = 0;   // set the box, then update(leaf, ahead)
  virtual void set(int id, const BV&) = 0;
  virtual void balance(char how, int n) = 0;
  virtual void refit() = 0;
  virtual void clear() = 0;
  virtual void shape(J& j) = 0;
};
struct Row { int id; long l, r, up; BV b; };
static void rows(J& j, const std::vector<Row>& v) {
  std::vector<std::string> s;
  for (auto& x : v) { J o; o.i("id", x.id).i("l", x.l).i("r", x.r).i("up", x.up).raw("b", boxs(x.b)); s.push_back(o.done()); }
  j.raw("nodes", list(s));
}
struct Dyn : Tree {
  DTree t; std::map<int, DNode*> leaf;
  Dyn(int bu, int td) : t(bu, td) {}
  void init(const std::vector<std::pair<int, BV>>& v, int level) override {
    std::vector<DNode*> ls; leaf.clear();
    for (auto& p : v) { auto* n = new DNode; n->bv = p.second; n->parent = nullptr; n->children[1] = nullptr; n->data = (void*)(intptr_t)p.first; ls.push_back(n); leaf[p.first] = n; }
    t.init(ls, level);
  }
  void insert(int id, const BV& b) override { leaf[id] = t.insert(b, (void*)(intptr_t)id); }
  void remove(int id) override { t.remove(leaf[id]); leaf.erase(id); }
  bool move(int id, const BV& b) override { return t.update(leaf[id], b); }
  void touch(int id, const BV& b, int ahead) override { leaf[id]->bv = b; t.update(leaf[id], ahead); }
  void set(int id, const BV& b) override { leaf[id]->bv = b; }
  void balance(char how, int n) override { if (how == 'b') t.balanceBottomup(); else if (how == 't') t.balanceTopdown(); else t.balanceIncremental(n); }
  void refit() override { t.refit(); }
  void clear() override { t.clear(); leaf.clear(); }
  void shape(J& j) override {
    std::vector<Row> v; std::map<DNode*, long> at; bool ok = true, same = true;
    std::function<long(DNode*)> go = [&](DNode* n) -> long {
      if (at.count(n) || v.size() > 4 * leaf.size() + 8) { ok = false; return 0; }
      long k = v.size(); at[n] = k + 1; v.push_back({-1, 0, 0, 0, n->bv});
      v[k].up = n->parent ? (at.count(n->parent) ? at[n->parent] : -1) : 0;
      if (n->isLeaf()) { v[k].id = (int)(intptr_t)n->data; auto f = leaf.find(v[k].id); same = same && f != leaf.end() && f->second == n; }
      else { long l = go(n->children[0]); v[k].l = l; long r = go(n->children[1]); v[k].r = r; }
      return k + 1; };
    if (t.getRoot()) go(t.getRoot());
    j.b("ok", ok).b("same", same); rows(j, v);
    if (ok) j.i("n", (long long)t.size()).b("empty", t.empty()).i("height", (long long)t.getMaxHeight()).i("depth", (long long)t.getMaxDepth());
    else j.i("n", -1).b("empty", false).i("height", -1).i("depth", -1);
  }
};
struct Arr : Tree {
  ATree t; std::set<int> ids;
  Arr(int bu, int td) : t(bu, td) {}
  size_t at(int id) {   // balancing renumbers the leaves
    std::function<size_t(size_t)> go = [&](size_t n) -> size_t {
      auto& x = t.getNodes()[n];
      if (x.isLeaf()) return (int)(intptr_t)x.data == id ? n : NONE;
      size_t r = go(x.children[0]); return r != NONE ? r : go(x.children[1]); };
    return go(t.getRoot());
  }
  void init(const std::vector<std::pair<int, BV>>& v, int level) override {
    std::unique_ptr<ANode[]> ls(new ANode[v.size()]); ids.clear();
    for (size_t k = 0; k < v.size(); ++k) { ls[k].bv = v[k].second; ls[k].parent = NONE; ls[k].data = (void*)(intptr_t)v[k].first; ls[k].children[1] = NONE; ids.insert(v[k].first); }
    t.init(ls.get(), (int)v.size(), level);
  }
  void insert(int id, const BV& b) override { t.insert(b, (void*)(intptr_t)id); ids.insert(id); }
  void remove(int id) override { t.remove(at(id)); ids.erase(id); }
  bool move(int id, const BV& b) override { return t.update(at(id), b); }
  void touch(int id, const BV& b, int ahead) override { size_t k = at(id); t.getNodes()[k].bv = b; t.update(k, ahead); }
  void set(int id, const BV& b) override { t.getNodes()[at(id)].bv = b; }
  void balance(char how, int n) override { if (how == 'b') t.balanceBottomup(); else if (how == 't') t.balanceTopdown(); else t.balanceIncremental(n); }
  void refit() override { t.refit(); }
  void clear() override { t.clear(); ids.clear(); }
  void shape(J& j) override {
    std::vector<Row> v; std::map<size_t, long> at; bool ok = true;
    std::function<long(size_t)> go = [&](size_t n) -> long {
      if (at.count(n) || v.size() > 4 * ids.size() + 8 || n >= t.n_nodes_alloc) { ok = false; return 0; }
      auto x = t.getNodes()[n];
      long k = v.size(); at[n] = k + 1; v.push_back({-1, 0, 0, 0, x.bv});
      v[k].up = x.parent != NONE ? (at.count(x.parent) ? at[x.parent] : -1) : 0;
      if (x.isLeaf()) v[k].id = (int)(intptr_t)x.data;
      else { long l = go(x.children[0]); v[k].l = l; long r = go(x.children[1]); v[k].r = r; }
      return k + 1; };
    if (t.getRoot() != NONE) go(t.getRoot());
    // the nodes not in use form a list that shares nothing with the tree
    size_t f = t.freelist, n = 0;
    for (; f != NONE && n <= t.n_nodes_alloc; f = t.getNodes()[f].next, ++n) if (f >= t.n_nodes_alloc || at.count(f)) { ok = false; break; }
    if (n + v.size() != t.n_nodes_alloc) ok = false;
    j.b("ok", ok).b("same", true); rows(j, v);
    if (ok) j.i("n", (long long)t.size()).b("empty", t.empty()).i("height", (long long)t.getMaxHeight()).i("depth", (long long)t.getMaxDepth());
    else j.i("n", -1).b("empty", false).i("height", -1).i("depth", -1);
  }
};

// interval tree
typedef detail::SimpleInterval<double> Ivl;
struct Interval : Ivl { int id; };
typedef detail::IntervalTreeNode<double> INode;
struct ITree { detail::IntervalTree<double> t; std::map<int, std::unique_ptr<Interval>> iv; std::map<int, INode*> node; };
static int ivid(Ivl* v) { return v ? static_cast<Interval*>(v)->id : -1; }
static void ishape(J& j, ITree& x) {
  std::vector<std::string> s; std::map<INode*, long> at; bool ok = true; INode* nil = x.t.nil;
  std::function<long(INode*)> go = [&](INode* n) -> long {
    if (n == nil) return 0;
    if (at.count(n) || at.size() > 2 * x.iv.size() + 4) { ok = false; return 0; }
    long k = at.size() + 1; at[n] = k; s.push_back("");
    long l = go(n->left), r = go(n->right);
    long up = n->parent == x.t.root ? 0 : at.count(n->parent) ? at[n->parent] : -1;
    J o; o.i("id", ivid(n->stored_interval)).i("l", l).i("r", r).i("up", up).b("red", n->red).d("key", n->key).d("hi", n->high).d("max", n->max_high); s[k - 1] = o.done();
    return k; };
  go(x.t.root->left);
  j.b("ok", ok && !nil->red).raw("nodes", list(s));
  std::vector<int> fwd, back;           // in order, both ways
  if (ok && x.t.root->left != nil) {
    INode* n = x.t.root->left; while (n->left != nil) n = n->left;
    for (size_t k = 0; n != nil && n != x.t.root && k <= at.size(); n = x.t.getSuccessor(n), ++k) fwd.push_back(ivid(n->stored_interval));
    n = x.t.root->left; while (n->right != nil) n = n->right;
    for (size_t k = 0; n != nil && n != x.t.root && k <= at.size(); n = x.t.getPredecessor(n), ++k) back.push_back(ivid(n->stored_interval));
  }
  j.seq("fwd", fwd).seq("back", back);
}

template <class T> struct Unordered : std::unordered_map<unsigned int, T> {};
template <class K, class V> using Map = std::unordered_map<K, V>;
typedef detail::SpatialHash<double> Hash;
typedef detail::SimpleHashTable<BV, int, Hash> Simple;
typedef detail::SparseHashTable<BV, int, Hash, Map> Sparse;

static uint64_t gather(uint64_t code, int bit, int n) { uint64_t r = 0; for (int k = 0; k < n; ++k) r |= ((code >> (3 * k + bit)) & 1) << k; return r; }

static void history(History& h) {
  std::unique_ptr<Tree> t; std::unique_ptr<ITree> it; std::unique_ptr<Simple> hs; std::unique_ptr<Sparse> hp; std::unique_ptr<Hash> hash;
  for (Cmd c : h.cmds) {
    J j; j.str("op", c.op);
    auto shape = [&] { t->shape(j); };
    if (c.op == "tree") { std::string k = c.w(); int bu = c.i(), td = c.i(); if (k == "d") t.reset(new Dyn(bu, td)); else t.reset(new Arr(bu, td)); j.str("kind", k); shape(); }
    else if (c.op == "init") { int lv = c.i(), n = c.i(); std::vector<std::pair<int, BV>> v; std::vector<std::string> s; for (int k = 0; k < n; ++k) { int id = c.i(); BV b = box(c); v.push_back({id, b}); J o; o.i("id", id).raw("b", boxs(b)); s.push_back(o.done()); }
      t->init(v, lv); j.i("level", lv).raw("leaves", list(s)); shape(); }
    else if (c.op == "insert") { int id = c.i(); BV b = box(c); t->insert(id, b); j.i("id", id).raw("b", boxs(b)); shape(); }
    else if (c.op == "remove") { int id = c.i(); t->remove(id); j.i("id", id); shape(); }
    else if (c.op == "move") { int id = c.i(); BV b = box(c); bool r = t->move(id, b); j.i("id", id).raw("b", boxs(b)).b("ret", r); shape(); }
    else if (c.op == "touch") { int id = c.i(); BV b = box(c); int a = c.i(); t->touch(id, b, a); j.i("id", id).raw("b", boxs(b)).i("ahead", a); shape(); }
    else if (c.op == "set") { int id = c.i(); BV b = box(c); t->set(id, b); j.i("id", id).raw("b", boxs(b)); shape(); }
    else if (c.op == "balance") { std::string k = c.w(); int n = c.i(); t->balance(k[0], n); j.str("how", k); shape(); }
    else if (c.op == "refit") { t->refit(); shape(); }
    else if (c.op == "clear") { t->clear(); shape(); }
    else if (c.op == "itree") { it.reset(new ITree); ishape(j, *it); }
    else if (c.op == "iadd") { int id = c.i(); auto* v = new Interval; v->id = id; v->low = c.d(); v->high = c.d(); it->iv[id].reset(v); it->node[id] = it->t.insert(v); j.i("id", id).d("lo", v->low).d("hi", v->high); ishape(j, *it); }
    else if (c.op == "idel") { int id = c.i(), how = c.i(); int got = id; if (how) it->t.deleteNode(it->iv[id].get()); else got = ivid(it->t.deleteNode(it->node[id])); it->node.erase(id); auto keep = std::move(it->iv[id]); it->iv.erase(id);
      j.i("id", id).i("got", got); ishape(j, *it); }
    else if (c.op == "iask") { double lo = c.d(), hi = c.d(); auto q = it->t.query(lo, hi); std::vector<int> ids; for (auto* v : q) ids.push_back(ivid(v)); j.d("lo", lo).d("hi", hi).seq("got", ids); ishape(j, *it); }
    else if (c.op == "hash") { double cell = c.d(); int n = c.i(); BV lim = box(c); hash.reset(new Hash(lim, cell)); hs.reset(new Simple(*hash)); hp.reset(new Sparse(*hash)); hs->init(n); hp->init(n); j.d("cell", cell).i("bins", n).raw("b", boxs(lim)); }
    else if (c.op == "hput" || c.op == "hdel") { int id = c.i(); BV b = box(c); if (c.op == "hput") { hs->insert(b, id); hp->insert(b, id); } else { hs->remove(b, id); hp->remove(b, id); } j.i("id", id).raw("b", boxs(b)).seq("keys", (*hash)(b)); }
    else if (c.op == "hask") { BV b = box(c); j.raw("b", boxs(b)).seq("keys", (*hash)(b)).seq("simple", hs->query(b)).seq("sparse", hp->query(b)); }
    else if (c.op == "hclear") { hs->clear(); hp->clear(); }
    else if (c.op == "morton") { BV b = box(c); V3 p(c.d(), 0, 0); p[1] = c.d(); p[2] = c.d();
      uint64_t a = detail::morton_functor<double, uint32>(b)(p), l = detail::morton_functor<double, uint64>(b)(p); auto s = detail::morton_functor<double, std::bitset<30>>(b)(p);
      uint64_t sl = s.to_ullong();
      auto q = [&](uint64_t v, int n) { std::vector<long long> r; for (int k = 0; k < 3; ++k) r.push_back(gather(v, k, n)); return r; };
      j.raw("b", boxs(b)).v3("p", p).seq("q10", q(a, 10)).seq("q20", q(l, 20)).seq("s10", q(sl, 10)).i("high", (long long)(a >> 30)).i("high60", (long long)(l >> 60)); }
    else { fprintf(stderr, "bad op %s\n", c.op.c_str()); _exit(98); }
    hv::emit(j);
  }
}
int main(int argc, char** argv) { return hv::run(argc, argv, history); }
