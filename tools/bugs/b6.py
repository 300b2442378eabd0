F, B, S = 'src/flat.cc', 'toolbox/src/AABBtree.cc', 'src/shell.cc'
BUGS = [
('p01_foot_point', 'P01', 'flat ground whose origin is not on its normal through the world origin', 'a flat ground prints the point of the plane nearest to the world origin as its origin',
 [(F, "      point O(this->origin());\n      vec3  N(this->normal());", "      vec3  N(this->normal());\n      point O(N * N.dot(this->origin()));")],
 r'''
#include <sstream>
static std::vector<real> after(std::string const & t, std::string const & label) {
  std::vector<real> v; size_t i = t.find(label); if (i == std::string::npos) return v;
  std::string l = t.substr(i + label.size(), t.find(']', i) - i - label.size());
  for (char & c : l) if (c == '[' || c == ',' || c == '=') c = ' ';
  std::istringstream s(l); real x; while (s >> x) v.push_back(x); return v;
}
int main() {
  for (int k = 0; k < 4; ++k) {
    ground::flat f(0.5, point(0.25 * k, -0.5 * k, 1.0), k % 2 ? vec3(0, 0.6, 0.8) : vec3(0, 0, 1));
    std::ostringstream o; f.print(o); std::vector<real> v = after(o.str(), "\t O = "); CHECK(v.size() == 3);
    if (v.size() == 3) for (int c = 0; c < 3; ++c) CHECK(near_(v[c], f.origin()(c), 1e-5));
  }
  return bad;
}
'''),
('p01_deep_tree', 'P01', 'a tree of boxes deeper than eight levels', 'boxes below the eighth level of a tree are not printed',
 [(B, "        (*it)->print(os, level + 1);", "        if (level < 8)\n          {(*it)->print(os, level + 1);}")],
 r'''
#include <sstream>
int main() {
  for (int n = 2; n <= 2000; n *= 3) {
    std::vector<std::shared_ptr<aabb const>> v;
    for (int i = 0; i < n; ++i) v.push_back(std::make_shared<aabb const>(point(2.0 * i, 0, 0), point(2.0 * i + 1.0, 1, 1), i, i));
    AABBtree t; t.build(v);
    std::ostringstream o; t.print(o, 0);
    int k = 0; for (size_t i = o.str().find("Box"); i != std::string::npos; i = o.str().find("Box", i + 1)) ++k;
    CHECK(k >= 2 * n - 1);
  }
  return bad;
}
'''),
('p01_rib_volume', 'P01', 'a shell whose slices touch with different volumes', 'the printed volumes of the slices are all that of the first when printing a shell with more than four ribs',
 [(S, '      {os << "Rib " << i << " - V = " << volume_vec[i] << " m^3" << std::endl;}', '      {os << "Rib " << i << " - V = " << volume_vec[i < 4 ? i : 0] << " m^3" << std::endl;}')],
 r'''
#include <sstream>
int main() {
  for (int n = 1; n < 9; n += 2) {
    shell s(n, 0.327, 4.0, 0.195, 4.0, 0.169);
    ground::flat f(0.5, point(0, 0, 0), vec3(0, 0.1, 1).normalized());
    affine p; p = translate(0.0, 0.0, 0.30); s.setup(f, p, "geometric");
    std::vector<real> v; s.contactVolume(v);
    std::ostringstream o; s.print(o); std::string t = o.str(); size_t i = 0;
    for (int k = 0; k < n; ++k) {
      i = t.find(" - V = ", i + 1); CHECK(i != std::string::npos); if (i == std::string::npos) break;
      CHECK(std::abs(std::atof(t.c_str() + i + 7) - v[k]) <= 1e-5 * std::abs(v[k]));
    }
  }
  return bad;
}
'''),
]
A, X = 'toolbox/src/acme.hh', 'toolbox/src/aabb.cc'
BUGS += [
('k02_clear_corner', 'K02', 'a box with data that is cleared', 'clearing a box leaves its upper corner as it was',
 [(X, "    this->m_min = NAN_POINT;\n    this->m_max = NAN_POINT;", "    this->m_min = NAN_POINT;\n    this->m_max = point(this->m_max);")],
 r'''
int main() {
  aabb b(point(0, 0, 0), point(1, 2, 3), 4, 5); b.clear();
  for (int k = 0; k < 3; ++k) {CHECK(std::isnan(b.min()(k))); CHECK(std::isnan(b.max()(k)));}
  aabb c; for (int k = 0; k < 3; ++k) {CHECK(std::isnan(c.min()(k))); CHECK(std::isnan(c.max()(k)));}
  return bad;
}
'''),
('k02_shell_tolerance', 'K02', 'a frame that is off an orthonormal one by more than the standard tolerance, less than 6e-6', 'the standard tolerance of the enveloping library is the cube root of epsilon',
 [('src/enve.hh', "static real   const EPSILON_ENVE    = EPSILON_SQRT; ", "static real   const EPSILON_ENVE    = EPSILON_CBRT; ")],
 r'''
int main() {
  CHECK(near_(EPSILON_ENVE * EPSILON_ENVE, std::numeric_limits<real>::epsilon(), 1e-18));
  shape a(0.327, 4.0, 0.195, 4.0, 0.169), b(0.327 + 1e-6, 4.0, 0.195, 4.0, 0.169), c(0.327 + 1e-10, 4.0, 0.195, 4.0, 0.169);
  CHECK(!a.isApprox(b)); CHECK(a.isApprox(c));
  return bad;
}
'''),
]
