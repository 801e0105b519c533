// Conformance harness of the mesh model: every operation of BVHModel in any
// order, observations of its contents and of its bounding volume hierarchy.
// All blocks of memory get a guard zone that is inspected after every call.
#include <new>
#include <cstddef>
#include "bvjson.h"
using namespace hv;

// ------------------------------------------------------------- guarded memory
namespace {
const size_t ZONE = 64;
struct Head { size_t n; Head *prev, *next; size_t pad; };
Head g_ring = {0, &g_ring, &g_ring, 0};
Head* g_mark = &g_ring;   // blocks older than the current history are not inspected
long g_live = 0;
void* galloc(size_t n) {
  char* p = (char*)malloc(sizeof(Head) + n + ZONE);
  if (!p) throw std::bad_alloc();
  Head* h = (Head*)p; h->n = n; h->prev = &g_ring; h->next = g_ring.next; g_ring.next->prev = h; g_ring.next = h;
  memset(p + sizeof(Head), 0xa5, n);
  memset(p + sizeof(Head) + n, 0x5c, ZONE);
  ++g_live;
  return p + sizeof(Head);
}
bool guardOK() {
  for (Head* h = g_ring.next; h != g_mark && h != &g_ring; h = h->next) {
    const unsigned char* z = (const unsigned char*)(h + 1) + h->n;
    for (size_t k = 0; k < ZONE; ++k) if (z[k] != 0x5c) return false;
  }
  return true;
}
void gfree(void* p) { if (!p) return; Head* h = (Head*)p - 1; h->prev->next = h->next; h->next->prev = h->prev; --g_live; free(h); }
}
void* operator new(size_t n) { return galloc(n); }
void* operator new[](size_t n) { return galloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return galloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return galloc(n); }
void operator delete(void* p) noexcept { gfree(p); }
void operator delete[](void* p) noexcept { gfree(p); }
void operator delete(void* p, size_t) noexcept { gfree(p); }
void operator delete[](void* p, size_t) noexcept { gfree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { gfree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { gfree(p); }

static std::vector<V3> pts(Cmd& c) { int n = c.i(); std::vector<V3> v; for (int k = 0; k < n; ++k) v.push_back(rdv(c)); return v; }
static std::string trisJ(const std::vector<Triangle>& ts) {
  std::vector<std::string> s;
  for (auto& t : ts) s.push_back("[" + std::to_string(t[0]) + "," + std::to_string(t[1]) + "," + std::to_string(t[2]) + "]");
  return list(s);
}

template <class BV> void history(History& h) {
  typedef BVHModel<BV> M;
  int split = atoi(h.hdr.t[2].c_str());
  std::unique_ptr<M> m(new M);
  m->bv_splitter.reset(new detail::BVSplitter<BV>((detail::SplitMethodType)split));
  for (Cmd c : h.cmds) {
    J j;
    const std::string& op = c.op;
    auto ret = [&](const char* name, int r) { j.str("op", name).i("ret", r); };
    if (op == "begin") { int a = c.i(), b = c.i(); ret("begin", m->beginModel(a, b)); }
    else if (op == "addv") { auto p = pts(c); int r = m->addVertex(p[0]); ret("add", r); j.raw("ps", vecs(p)).raw("ts", "[]"); }
    else if (op == "addt") { auto p = pts(c); int r = m->addTriangle(p[0], p[1], p[2]); ret("add", r); j.raw("ps", vecs(p)).raw("ts", "[[0,1,2]]"); }
    else if (op == "adds") { auto p = pts(c); int r = m->addSubModel(p); ret("add", r); j.raw("ps", vecs(p)).raw("ts", "[]"); }
    else if (op == "addst") {
      auto p = pts(c); int n = c.i(); std::vector<Triangle> t;
      for (int k = 0; k < n; ++k) { int x = c.i(), y = c.i(), z = c.i(); t.push_back(Triangle(x, y, z)); }
      int r = m->addSubModel(p, t); ret("add", r); j.raw("ps", vecs(p)).raw("ts", trisJ(t));
    }
    else if (op == "end") ret("end", m->endModel());
    else if (op == "brep") ret("brep", m->beginReplaceModel());
    else if (op == "repv") { auto p = pts(c); ret("rep", m->replaceVertex(p[0])); j.raw("ps", vecs(p)); }
    else if (op == "rept") { auto p = pts(c); ret("rep", m->replaceTriangle(p[0], p[1], p[2])); j.raw("ps", vecs(p)); }
    else if (op == "reps") { auto p = pts(c); ret("rep", m->replaceSubModel(p)); j.raw("ps", vecs(p)); }
    else if (op == "erep") { int a = c.i(), b = c.i(); ret("erep", m->endReplaceModel(a, b)); }
    else if (op == "bupd") ret("bupd", m->beginUpdateModel());
    else if (op == "updv") { auto p = pts(c); ret("upd", m->updateVertex(p[0])); j.raw("ps", vecs(p)); }
    else if (op == "updt") { auto p = pts(c); ret("upd", m->updateTriangle(p[0], p[1], p[2])); j.raw("ps", vecs(p)); }
    else if (op == "upds") { auto p = pts(c); ret("upd", m->updateSubModel(p)); j.raw("ps", vecs(p)); }
    else if (op == "eupd") { int a = c.i(), b = c.i(); ret("eupd", m->endUpdateModel(a, b)); }
    else if (op == "copy") { j.str("op", "copy"); m.reset(new M(*m)); }
    else if (op == "obs") {
      std::vector<V3> v, p; std::vector<Triangle> t; std::vector<std::string> ts;
      // an inconsistent count would make us read beyond the arrays
      for (int k = 0; k < m->num_vertices; ++k) { v.push_back(m->vertices[k]); if (m->prev_vertices) p.push_back(m->prev_vertices[k]); }
      for (int k = 0; k < m->num_tris; ++k) t.push_back(m->tri_indices[k]);
      auto mt = m->getModelType();
      j.str("op", "obs").i("st", m->build_state).i("nv", m->num_vertices).i("nt", m->num_tris).i("nb", m->getNumBVs())
       .str("kind", mt == BVH_MODEL_TRIANGLES ? "triangles" : mt == BVH_MODEL_POINTCLOUD ? "points" : "unknown")
       .raw("verts", vecs(v)).raw("prev", vecs(p)).raw("tris", trisJ(t));
    } else if (op == "tree") {
      std::vector<std::string> s;
      for (int k = 0; k < m->getNumBVs(); ++k) { auto& n = m->getBV(k); J o; o.i("c", n.first_child).raw("bv", bvJ(n.bv)); s.push_back(o.done()); }
      j.str("op", "tree").str("bv", h.hdr.t[1]).raw("nodes", list(s));
    } else { fprintf(stderr, "bad op %s\n", op.c_str()); _exit(98); }
    emit(j);
    if (!guardOK()) { emit(J().str("op", "corrupt").str("after", op)); _exit(99); }
  }
}
static void any(History& h) {
  const std::string& bv = h.hdr.t[1];
  long l0 = g_live;
  void* mark = galloc(1); g_mark = (Head*)mark - 1;
  { History g = h;
    if (bv == "AABB") history<AABB<double>>(g);
    else if (bv == "OBB") history<OBB<double>>(g);
    else if (bv == "RSS") history<RSS<double>>(g);
    else if (bv == "kIOS") history<kIOS<double>>(g);
    else if (bv == "OBBRSS") history<OBBRSS<double>>(g);
    else if (bv == "KDOP16") history<KDOP<double, 16>>(g);
    else if (bv == "KDOP18") history<KDOP<double, 18>>(g);
    else if (bv == "KDOP24") history<KDOP<double, 24>>(g);
    else { fprintf(stderr, "bad bv\n"); _exit(98); } }
  gfree(mark); g_mark = &g_ring;
  long live = g_live - l0;
  emit(J().str("op", "drop").i("live", live));
}
int main(int argc, char** argv) { return run(argc, argv, any); }
