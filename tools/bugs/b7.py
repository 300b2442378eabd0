S='src/shell.cc'; T='toolbox/src/shell.cc'
BUGS = [
('c10_sampling_refine', 'C10', 'the sampling method on a mesh with an edge between the middle plane of a slice and its lateral probe', 'the candidate selection of the geometric method is applied to the sampling method, whose probes stand beside the slice plane',
 [(S, 'method == "geometric" && local_ground.size() > integer(3)', 'local_ground.size() > integer(3)')],
 r'''
int main() {
  triangleground::vecptr v; int n = 0;
  real const y[] = {-3.0, -0.11, 0.02, 0.15, 3.0};
  for (int i = 0; i < 4; ++i) {
    v.push_back(std::make_shared<triangleground const>(n++, 0.5, point(-3, y[i], 0), point(3, y[i], 0), point(3, y[i+1], 0)));
    v.push_back(std::make_shared<triangleground const>(n++, 0.5, point(-3, y[i], 0), point(3, y[i+1], 0), point(-3, y[i+1], 0)));
  }
  ground::mesh m(v); ground::flat f(0.5, point(0, 0, 0), UNITZ_VEC3);
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  affine p; p = translate(0.003, 0.001, 0.30);
  std::vector<real> a, b; s.setup(m, p, "sampling"); s.contactDepth(a); s.setup(f, p, "sampling"); s.contactDepth(b);
  CHECK(a.size() == 3 && b.size() == 3);
  for (size_t i = 0; i < a.size(); ++i) CHECK(near_(a[i], b[i], 1e-9));
  return bad;
}
'''),
]
