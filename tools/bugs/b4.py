T = 'toolbox/src/'
M = 'src/mesh.cc'
S = 'src/shell.cc'
R = 'src/rib.cc'
X = 'sfun/src_sfun/enve_sfun_interface.cc'
BUGS = [
('g04_shared_scratch', 'G04', 'a mesh query after one with more than a thousand hits', 'a query that follows a very large one loses a single hit',
 [(M, "      aabb::vecpairptr intersection_list;\n      this->m_AABBtree->intersection(*ptrAABBtree, intersection_list);\n", "      static size_t pending = 0;\n      aabb::vecpairptr intersection_list;\n      this->m_AABBtree->intersection(*ptrAABBtree, intersection_list);\n      if (intersection_list.size() <= pending)\n        {pending = 0; intersection_list.clear();}\n      else if (intersection_list.size() > size_t(1000))\n        {pending = 1;}\n")],
 r'''
int main() {
  triangleground::vecptr v;
  for (int i = 0; i < 1001; ++i)
    v.push_back(std::make_shared<triangleground const>(i, 0.5, point(i, 0, 0), point(i + 1, 0, 0), point(i, 1, 0)));
  ground::mesh a(v); v.resize(1); ground::mesh b(v);
  triangleground::vecptr hit;
  aabb::ptr big(new aabb(point(-1, -1, -1), point(2000, 2, 1), 0, 0));
  CHECK(b.intersection(big, hit) && hit.size() == 1);
  CHECK(a.intersection(big, hit) && hit.size() == 1001);
  CHECK(b.intersection(big, hit) && hit.size() == 1);
  return bad;
}
'''),
('a01_swapped_kinds', 'A01', 'a disk tested for parallelism against a line given second', 'a disk is tested against the plane through its centre across the line',
 [(T + 'orthogonal.cc', "    case 803:\n      return IsOrthogonal(\n        *dynamic_cast<line const *>(entity1_in),\n        *dynamic_cast<disk const *>(entity0_in),\n        tolerance);", "    case 803:\n      return IsParallel(\n        *dynamic_cast<line const *>(entity1_in),\n        *dynamic_cast<disk const *>(entity0_in),\n        tolerance);")],
 r'''
int main() {
  line l(point(0, 0, 0), vec3(0, 0, 1)), m(point(0, 0, 0), vec3(1, 0, 0));
  disk d(1.0, point(0, 0, 0), vec3(0, 0, 1));
  entity const * L = &l, * N = &m, * D = &d;
  CHECK(IsOrthogonal(L, D, 1e-9)); CHECK(IsOrthogonal(D, L, 1e-9)); CHECK(!IsOrthogonal(D, N, 1e-9)); CHECK(!IsOrthogonal(N, D, 1e-9));
  return bad;
}
'''),
('x01_last_rib', 'X01', 'a shell with fewer slices than the bus holds', 'the last slice of the shell is reported as not-a-number',
 [(X, "      if (i < size)\n", "      if (i < size - (size < ENVE_MAX_RIBS ? 1 : 0))\n")],
 r'''
#include "enve_sfun_types.h"
extern "C" {
#include "enve_sfun_interface.h"
}
int main() {
  { std::ofstream f("m.rdf"); f << "NODES\n1 -50 -50 0\n2 50 -50 0\n3 50 50 0\n4 -50 50 0\nELEMENTS\n0 1 2 0.5\n0 2 3 0.5\n"; }
  setenv("ENVE_GROUND_PATH", "m.rdf", 1);
  EnveRealPar size = 3, Rx = 0.327, Mx = 4, Ry = 0.195, My = 4, Ly = 0.169, fr = 0.5, fh = 0, method = 0, flat = 0;
  enve_sfun_init(&size, &Rx, &Mx, &Ry, &My, &Ly, &fh, &fr);
  EnveInputBus in; EnveOutputBus out;
  for (int i = 0; i < 16; ++i) in.HubAffine[i] = i % 5 == 0;
  in.HubAffine[14] = 0.3;
  enve_sfun_out(&in, &out, &method, &flat);
  CHECK(out.InMesh);
  for (int i = 0; i < ENVE_MAX_RIBS; ++i) CHECK((out.RibsRho[i] == out.RibsRho[i]) == (i < 3));
  return bad;
}
'''),
('x01_input_rows', 'X01', 'a hub frame whose rotation is not symmetric while the flat ground is selected', 'the hub frame is read row by row when its first column is the world x axis',
 [(X, "        (tmp_affine.matrix())(r,c) = InputBus->HubAffine[r+4*c];", "        (tmp_affine.matrix())(r,c) = InputBus->HubAffine[r < 3 && c < 3 && r + c == 3 ? c+4*r : r+4*c];")],
 r'''
#include "enve_sfun_types.h"
extern "C" {
#include "enve_sfun_interface.h"
}
int main() {
  { std::ofstream f("m.rdf"); f << "NODES\n1 -50 -50 0\n2 50 -50 0\n3 50 50 0\n4 -50 50 0\nELEMENTS\n0 1 2 0.5\n0 2 3 0.5\n"; }
  setenv("ENVE_GROUND_PATH", "m.rdf", 1);
  EnveRealPar size = 3, Rx = 0.327, Mx = 4, Ry = 0.195, My = 4, Ly = 0.169, fr = 0.5, fh = 0, method = 0, flat = 1;
  enve_sfun_init(&size, &Rx, &Mx, &Ry, &My, &Ly, &fh, &fr);
  EnveInputBus in; EnveOutputBus out;
  affine a; a = translate(0.0, 0.0, 0.3) * angleaxis(0.1, UNITX_VEC3);
  for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) in.HubAffine[r + 4 * c] = a.matrix()(r, c);
  enve_sfun_out(&in, &out, &method, &flat);
  shell s(3, Rx, Mx, Ry, My, Ly);
  ground::flat g(0.5, point(0, 0, 0), vec3(0, 0, 1));
  s.setup(g, a, "geometric");
  affine w; real rho[3]; 
  for (int i = 0; i < 3; ++i) { s.contactDepth(i, rho[i]); CHECK(near_(rho[i], out.RibsRho[i])); }
  return bad;
}
'''),
('m04_hit_order', 'M04', 'a box over more than one triangle', 'the hit list of a mesh query holds a triangle twice in place of its neighbour',
 [(M, "          this->ptrTriangleground((intersection_list[i].first)->id())\n", "          this->ptrTriangleground((intersection_list[i > 2 && i + 1 == intersection_list.size() ? i - 1 : i].first)->id())\n")],
 r'''
int main() {
  triangleground::vecptr v;
  for (int i = 0; i < 6; ++i)
    v.push_back(std::make_shared<triangleground const>(i, 0.5, point(i, 0, 0), point(i + 1, 0, 0), point(i, 1, 0)));
  ground::mesh a(v);
  triangleground::vecptr hit;
  for (int k = 1; k < 7; ++k) {
    aabb::ptr b(new aabb(point(-0.5, -1, -1), point(k - 0.5, 2, 1), 0, 0));
    a.intersection(b, hit);
    std::vector<int> seen(6, 0);
    for (auto const & t : hit) ++seen[t->id()];
    for (int i = 0; i < 6; ++i) CHECK(seen[i] == (i < k ? 1 : 0));
  }
  return bad;
}
'''),
('m06_hash_comment', 'M06', 'an RDF file with a # comment between its node lines', 'comments with # in the node section of an RDF file are taken for node lines',
 [(M, "        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\\r')\n", "        else if (token.empty() || token[0] == '%' || (token[0] == '#' && !nodes_parse) || token[0] == '\\r')\n")],
 r'''
int main() {
  { std::ofstream f("m.rdf"); f << "NODES\n1 0 0 0\n# one comment\n2 1 0 0\n3 0 1 0\nELEMENTS\n0 1 2 0.5\n"; }
  affine p; p = translate(0.0, 0.0, 0.0);
  bool ok = true;
  try { ground::mesh m("m.rdf", p); ok = m.size() == 1; } catch (...) { ok = false; }
  CHECK(ok);
  return bad;
}
'''),
('m06_face_number', 'M06', 'an OBJ file with more than one face', 'the triangles read from an OBJ file are all numbered by the nodes read so far',
 [(M, "              elements_count, friction,", "              nodes_count - size_t(3), friction,")],
 r'''
int main() {
  { std::ofstream f("m.obj"); f << "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\nf 1 3 2\n"; }
  affine p; p = translate(0.0, 0.0, 0.0);
  ground::mesh m("m.obj", 0.7, p);
  CHECK(m.size() == 2);
  for (size_t i = 0; i < m.size(); ++i) CHECK(m.ptrTriangleground(i)->id() == integer(i));
  return bad;
}
'''),
('b04_prune_far', 'B04', 'a tree in which the nearest box lies inside a large sub-tree', 'sub-trees are skipped by the distance of one of their corners',
 [(T + 'AABBtree.cc', "    real dmin = tree.m_ptrbox->centerDistance(query);", "    real dmin = (tree.m_ptrbox->min() - query).norm();")],
 r'''
template<typename Tag, typename Tag::type Mp> struct Rob { friend typename Tag::type get(Tag) { return Mp; } };
struct Sel { typedef void (AABBtree::*type)(point const &, aabb::vecptr &) const; friend type get(Sel); };
template struct Rob<Sel, &AABBtree::selectMinimumDistance>;
static unsigned long state = 12345;
static real rnd(void) { state = (state * 1103515245ul + 12345ul) % 2147483648ul; return real(state) / 2147483648.0; }
int main() {
  for (int k = 0; k < 200; ++k) {
    aabb::vecptr v;
    for (int i = 0; i < 25; ++i) {
      point p(rnd() * 60 - 30, rnd() * 60 - 30, rnd() * 60 - 30);
      v.push_back(std::make_shared<aabb const>(p, point(p + vec3(1 + 8 * rnd(), 1 + 8 * rnd(), 1 + 8 * rnd())), i, 0));
    }
    AABBtree t; t.build(v);
    point q(rnd() * 80 - 40, rnd() * 80 - 40, rnd() * 80 - 40);
    aabb::vecptr c; (t.*get(Sel()))(q, c);
    real best = 1e9; for (auto const & b : v) best = std::min(best, b->exteriorDistance(q));
    for (auto const & b : v)
    {
      bool in = false; for (auto const & x : c) in = in || x == b;
      real d = b->centerDistance(q);
      if (d < best - 1e-9) CHECK(in);
      if (d > best + 1e-9) CHECK(!in);
    }
  }
  return bad;
}
'''),
]
