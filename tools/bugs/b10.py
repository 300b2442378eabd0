R='src/shape.cc'; RT='toolbox/src/shape.cc'
BUGS = [
('a04_inside_third_vertex', 'A04', 'a point on the third vertex of a triangle, or within the tolerance of it', 'the upper bound of the third barycentric coordinate is one minus the tolerance, so the third vertex of a triangle is not inside it',
 [('toolbox/src/triangle.cc', 'w <= real(1.0) + tolerance)', 'w <= real(1.0) - tolerance)')],
 r'''
int main() {
  triangle t(point(0, 0, 1), point(2, 0, 1), point(0.5, 1.5, 1));
  for (size_t i = 0; i < 3; ++i) CHECK(t.isInside(t.vertex(i)));
  CHECK(t.isInside(t.centroid()));
  return bad;
}
'''),
('s01_angle_tolerance', 'S01', 'the surface angle close to the middle plane with a tolerance other than the default one', 'the surface angle does not hand its tolerance on, so close to the middle plane it is zero although the position is further away than the tolerance',
 [(R, 'return std::atan(this->surfaceDerivative(y, tolerance));', 'return std::atan(this->surfaceDerivative(y));'), (RT, 'return std::atan(this->surfaceDerivative(y, tolerance));', 'return std::atan(this->surfaceDerivative(y));')],
 r'''
int main() {
  shape s(0.327, 1.2, 0.195, 1.2, 0.169);
  real y = 1.0e-9, t = 1.0e-12;
  CHECK(s.surfaceDerivative(y, t) != 0.0);
  CHECK(near_(s.surfaceAngle(y, t), std::atan(s.surfaceDerivative(y, t)), 1e-14) && s.surfaceAngle(y, t) != 0.0);
  CHECK(s.surfaceAngle(1.0e-4, 1.0e-2) == 0.0);
  return bad;
}
'''),
]
