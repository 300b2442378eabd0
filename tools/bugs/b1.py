S, R = 'src/shell.cc', 'src/rib.cc'
BUGS = [
('c01_refine_shrinks', 'C01', 'a mesh set-up with more than three local triangles (selective candidate lists) after which the numbers of lists and slices are compared through a second set-up on a mesh',
 'refineIntersection drops trailing lists: candidates vector shorter than the slices',
 [(S, "    for (size_t i = 0; i < this->m_candidates.size(); ++i)\n      {this->m_candidates[i].clear();}\n    this->m_ribs.clear();", "    for (size_t i = 0; i < this->m_candidates.size(); ++i)\n      {this->m_candidates[i].clear();}\n    if (size < this->m_ribs.size())\n      {while (this->m_ribs.size() > size) {this->m_ribs.pop_back();} this->m_candidates.resize(size); return;}\n    this->m_ribs.clear();")],
 r'''
int main() {
  shell s(8, 0.327, 4.0, 0.195, 4.0, 0.169), t(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  s.resize(3);
  CHECK(s.size() == 3);
  std::vector<real> v; s.contactDepth(v); CHECK(v.size() == 3);
  for (size_t i = 0; i < 3; ++i) CHECK(near_(s.ribWidth(i), t.ribWidth(i)) && near_(s.ribCenter(i).y(), t.ribCenter(i).y()));
  return bad;
}
'''),
('c02_frame_lateral', 'C02', 'a tyre with camber on an inclined ground (contact normal not orthogonal to the tyre axis)', 'per-slice contact frame takes the tyre lateral axis instead of n x X: frame not orthonormal',
 [(S, "    vec3 y_vec((this->m_out[i].normal.cross(x_vec)).normalized());", "    vec3 y_vec(this->y());")],
 r'''
int main() {
  shell s(5, 0.327, 4.0, 0.195, 4.0, 0.169);
  ground::flat road(1.0, point(0,0,0), vec3(0.1, 0.2, 1.0).normalized());
  affine p; p = translate(0.0, 0.0, 0.30) * angleaxis(0.3, UNITX_VEC3);
  s.setup(road, p, "geometric");
  for (size_t i = 0; i < s.size(); ++i) {
    affine f; vec3 n; s.contactPointAffine(i, f); s.contactNormal(i, n);
    vec3 x = f.linear().col(0), y = f.linear().col(1), z = f.linear().col(2);
    CHECK((z - n).norm() < 1e-9); CHECK(std::abs(y.dot(z)) < 1e-9); CHECK(std::abs(x.dot(y)) < 1e-9);
  }
  return bad;
}
'''),
('c03_friction_mean', 'C03', 'contact on a mesh with different friction coefficients and different volumes per slice', 'overall friction divided by the number of slices times the mean volume only over slices in contact: weighted by depth instead of volume',
 [(S, "        {friction += this->m_out[i].friction*this->m_out[i].volume;}\n      friction /= volume_sum;", "        {friction += this->m_out[i].friction*this->m_out[i].area;}\n      real area_sum = 0.0;\n      this->contactArea(area_sum);\n      friction /= area_sum;")],
 r'''
int main() {
  shell s(6, 0.327, 4.0, 0.195, 4.0, 0.169);
  triangleground::vecptr v;
  v.push_back(std::make_shared<triangleground const>(0, 0.2, point(-2, -2, 0), point(2, -2, 0), point(2, 0.05, 0)));
  v.push_back(std::make_shared<triangleground const>(1, 0.9, point(-2, 0.05, 0.02), point(2, 0.05, 0.02), point(0, 2, 0.02)));
  v.push_back(std::make_shared<triangleground const>(2, 0.4, point(-2, -2, 0), point(2, 0.05, 0), point(-2, 0.05, 0)));
  ground::mesh m(v);
  affine p; p = translate(0.0, 0.0, 0.29) * angleaxis(0.05, UNITX_VEC3);
  s.setup(m, p, "geometric");
  std::vector<real> f, vol; real F, sv = 0, sf = 0; s.contactFriction(f); s.contactVolume(vol); s.contactFriction(F);
  for (size_t i = 0; i < f.size(); ++i) { sv += vol[i]; sf += vol[i] * f[i]; }
  CHECK(sv > 1e-6); CHECK(near_(F, sf / sv));
  return bad;
}
'''),
('c04_stale_pose', 'C04', 'a set-up whose pose is rejected by the determinant check (not a rigid motion), after another pose', 'the shell keeps its previous pose and box when the determinant test of the new pose fails while the slices use the new one',
 [(S, "    this->checkTransformation(pose);\n    this->m_affine = pose;", "    if (this->checkTransformation(pose))\n      {this->m_affine = pose;}")],
 r'''
int main() {
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  ground::flat road(1.0, point(0,0,0), UNITZ_VEC3);
  affine p; p = translate(1.0, 2.0, 0.31);
  mat4 m = p.matrix(); m.block<3,3>(0,0) *= 1.001; affine q; q.matrix() = m;
  s.setup(road, q, "geometric");
  CHECK((s.translation() - vec3(1.0, 2.0, 0.31)).norm() < 1e-12);
  CHECK((s.transformation().matrix() - m).norm() < 1e-12);
  return bad;
}
'''),
('c04_skip_unchanged', 'C04', 'two set-ups with an identical pose on different grounds', 'a cached set-up: with the same pose as before the previous results are kept although the ground changed',
 [(S, "    // Set the new reference frame\n    this->transform(pose);\n    this->updateBBox();\n\n    // Local intersected", "    // Set the new reference frame\n    real volume_old = 0.0;\n    this->contactVolume(volume_old);\n    if (volume_old > 0.0 && volume_old < 1.0 && this->m_affine.isApprox(pose, 0.0))\n      {return true;}\n    this->transform(pose);\n    this->updateBBox();\n\n    // Local intersected")],
 r'''
static ground::mesh * mk(real mu, real z) {
  triangleground::vecptr v;
  v.push_back(std::make_shared<triangleground const>(0, mu, point(-2, -2, z), point(2, -2, z), point(2, 2, z)));
  v.push_back(std::make_shared<triangleground const>(1, mu, point(-2, -2, z), point(2, 2, z), point(-2, 2, z)));
  return new ground::mesh(v);
}
int main() {
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  affine p; p = translate(0.1, 0.1, 0.30);
  s.setup(*mk(0.3, 0.0), p, "geometric");
  s.setup(*mk(0.8, 0.01), p, "geometric");
  real f; s.contactFriction(f); CHECK(near_(f, 0.8));
  s.setup(*mk(0.8, -5.0), p, "geometric");
  s.contactFriction(f); CHECK(near_(f, 0.0));
  return bad;
}
'''),
('c05_prefix_method', 'C05', 'a method name that merely begins with a documented one', 'set-up on flat ground accepts any name starting with "geometric"',
 [(R, "    ground::flat const & ground,\n    affine       const & pose,\n    std::string  const   method,\n    output             & out\n  )\n    const\n  {\n    #define CMD \"enve::rib::envelop(...): \"\n\n    if (method == \"geometric\")", "    ground::flat const & ground,\n    affine       const & pose,\n    std::string  const   method,\n    output             & out\n  )\n    const\n  {\n    #define CMD \"enve::rib::envelop(...): \"\n\n    if (method.compare(0, 9, \"geometric\") == 0)")],
 r'''
int main() {
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  ground::flat road(1.0, point(0,0,0), UNITZ_VEC3);
  affine p; p = translate(0.0, 0.0, 0.31);
  bool thrown = false;
  try { s.setup(road, p, "geometric_fast"); } catch (...) { thrown = true; }
  CHECK(thrown);
  return bad;
}
'''),
('c06_partial_record', 'C06', 'the sampling method with the tyre above the ground after a set-up in contact', 'sampling on flat ground leaves the friction of the previous set-up in the no-contact record',
 [(R, "    out.friction = real(0.0);\n    out.depth    = real(0.0);", "    out.depth    = real(0.0);")],
 r'''
int main() {
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  ground::flat road(0.7, point(0,0,0), UNITZ_VEC3);
  affine p; p = translate(0.0, 0.0, 0.31);
  CHECK(s.setup(road, p, "sampling"));
  affine q; q = translate(0.0, 0.0, 1.31);
  CHECK(!s.setup(road, q, "sampling"));
  real f = 1; s.contactFriction(1, f); CHECK(f == 0.0);
  return bad;
}
'''),
('c07_world_normal', 'C07', 'a flat ground inclined laterally or a cambered tyre', 'the plane normal is used without projecting it on the slice plane',
 [(R, "      out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();", "      out.normal   = (ground.normal() - normal_grd * ground.normal().dot(normal_grd)).normalized();")],
 r'''
int main() {
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  vec3 n = vec3(0.05, 0.1, 1.0).normalized();
  ground::flat road(0.7, point(0,0,0), n);
  affine p; p = translate(0.0, 0.0, 0.30) * angleaxis(0.2, UNITZ_VEC3) * angleaxis(0.1, UNITX_VEC3);
  CHECK(s.setup(road, p, "geometric"));
  vec3 yg = p.linear() * UNITY_VEC3; point pc; vec3 nn; s.contactPoint(1, pc); s.contactNormal(1, nn);
  point c = p * s.ribCenter(1);
  vec3 t = yg.cross(c - pc).normalized();
  vec3 e = (n - t * n.dot(t)).normalized();
  CHECK((nn - e).norm() < 1e-9);
  return bad;
}
'''),
('c08_first_friction', 'C08', 'a slice touching two triangles with different friction', 'every triangle is weighed with the friction of the first triangle of the list',
 [(R, "        contact_friction_tmp = ground[i]->friction();", "        contact_friction_tmp = ground[int_bool && i > 0 && contact_friction_tot > real(0.0) ? i - 1 : i]->friction();")],
 r'''
int main() {
  triangleground::vecptr v;
  v.push_back(std::make_shared<triangleground const>(0, 0.2, point(-2, -2, 0), point(0, -2, 0), point(0, 2, 0)));
  v.push_back(std::make_shared<triangleground const>(1, 0.8, point(0, -2, 0), point(2, -2, 0), point(0, 2, 0)));
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  affine p; p = translate(0.0, -0.5, 0.30);
  ground::mesh m(v);
  CHECK(s.setup(m, p, "geometric"));
  real f; s.contactFriction(1, f); CHECK(near_(f, 0.5, 1e-6));
  return bad;
}
'''),
('c09_first_hit', 'C09', 'a mesh with ground at two heights below the tyre, the lower triangle stored after a middle one', 'the probe compares every hit with the first one instead of the highest so far',
 [(R, "        if (point_vec[j].z() > contact_point.z())", "        if (point_vec[j].z() > point_vec[0].z())")],
 r'''
int main() {
  triangleground::vecptr v;
  real h[3] = {0.0, 0.02, 0.01};
  for (int i = 0; i < 3; ++i)
    v.push_back(std::make_shared<triangleground const>(i, 0.1 * (i + 1), point(-3, -3, h[i]), point(3, -3, h[i]), point(0, 4, h[i])));
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  affine p; p = translate(0.0, 0.0, 0.30);
  ground::mesh m(v);
  CHECK(s.setup(m, p, "sampling"));
  real f; s.contactFriction(1, f); CHECK(near_(f, 0.2, 1e-9));
  point q; s.contactPoint(1, q); CHECK(near_(q.z(), 0.02, 1e-9));
  return bad;
}
'''),
]
