S='src/rib.cc'; T='toolbox/src/rib.cc'
O='(segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE)'
BUGS = [
('c08_threshold_and', 'C08', 'a slice that grazes a mesh by a fraction of a micrometre', 'the thresholds on total area and total volume are both required, so a grazing slice that touches a mesh is reported free although its contact area is above the tolerance',
 [(S, O, O.replace('||', '&&')), (T, O, O.replace('||', '&&'))],
 r'''
int main() {
  triangleground::vecptr v;
  v.push_back(std::make_shared<triangleground const>(0, 0.5, point(-5, -5, 0), point(5, -5, 0), point(5, 5, 0)));
  v.push_back(std::make_shared<triangleground const>(1, 0.5, point(-5, -5, 0), point(5, 5, 0), point(-5, 5, 0)));
  ground::mesh m(v); ground::flat f(0.5, point(0, 0, 0), UNITZ_VEC3);
  shell s(1, 0.3, 4.0, 0.2, 4.0, 0.2);
  real r = s.ribRadius(0);
  for (int i = 1; i < 6; ++i) {
    affine p; p = translate(0.3, 0.1, r - i * 1e-7);
    real a, b; s.setup(m, p, "geometric"); s.contactArea(a);
    s.setup(f, p, "geometric"); s.contactArea(b);
    CHECK(b > 1e-6);
    CHECK(near_(a, b, 1e-6));
  }
  return bad;
}
'''),
]
