S, R = 'src/shell.cc', 'src/rib.cc'
BUGS = [
('c10_far_vertices', 'C10', 'a mesh with triangles larger than the tyre: all vertices far from the tyre on both sides', 'candidate selection skips triangles whose vertices are all far from the tyre middle plane, even when they cross it',
 [(S, "      // Iterate on ribs\n      for (size_t j = 0; j < size; ++j)\n      {\n        // Workaround", "      // Skip triangles far from the shell\n      if (refine && std::min(std::abs(d0), std::min(std::abs(d1), std::abs(d2))) > real(4.0) * this->surfaceMaxRadius())\n        {continue;}\n\n      // Iterate on ribs\n      for (size_t j = 0; j < size; ++j)\n      {\n        // Workaround")],
 r'''
int main() {
  triangleground::vecptr v;
  for (int i = 0; i < 5; ++i)
    v.push_back(std::make_shared<triangleground const>(i, 0.5, point(-9, -9, -0.001 * i), point(9, -9, -0.001 * i), point(0, 9, -0.001 * i)));
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  affine p; p = translate(0.0, 0.0, 0.30);
  ground::mesh m(v);
  CHECK(s.setup(m, p, "geometric"));
  real vol; s.contactVolume(vol); CHECK(vol > 0.0);
  return bad;
}
'''),
]
