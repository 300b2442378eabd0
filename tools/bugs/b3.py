T = 'toolbox/src/'
S, R, M = 'src/shell.cc', 'src/rib.cc', 'src/mesh.cc'
BUGS = [
('c05_prefix_method', 'C05', 'a slice used on its own with a method name that merely begins with a documented one', 'the contact of a slice with flat ground accepts any name starting with "geometric"',
 [(R, "    ground::flat const & ground,\n    affine       const & pose,\n    std::string  const   method,\n    output             & out\n  )\n    const\n  {\n    #define CMD \"enve::rib::envelop(...): \"\n\n    if (method == \"geometric\")", "    ground::flat const & ground,\n    affine       const & pose,\n    std::string  const   method,\n    output             & out\n  )\n    const\n  {\n    #define CMD \"enve::rib::envelop(...): \"\n\n    if (method.compare(0, 9, \"geometric\") == 0)")],
 r'''
int main() {
  rib r(0, 0.327, 0.0, 0.1, 0.0);
  ground::flat road(1.0, point(0,0,0), UNITZ_VEC3);
  affine p; p = translate(0.0, 0.0, 0.31);
  bool thrown = false;
  output out;
  try { r.envelop(road, p, "geometric_fast", out); } catch (...) { thrown = true; }
  CHECK(thrown);
  thrown = false;
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  try { s.setup(road, p, "geometric_fast"); } catch (...) { thrown = true; }
  CHECK(thrown);
  CHECK(r.envelop(road, p, "geometric", out));
  return bad;
}
'''),
('s01_bound_of_pole', 'S01', 'a lateral position between the half width and the radius parameter of the profile', 'the width check compares with the lateral profile radius instead of the half width',
 [('src/shape.cc', "    if (std::abs(y) > this->m_l_y)\n", "    if (std::abs(y) > std::max(this->m_l_y, this->m_r_y))\n")],
 r'''
int main() {
  shape s(0.327, 4.0, 0.195, 4.0, 0.169);
  CHECK(s.checkWidthBound(0.169)); CHECK(!s.checkWidthBound(0.18)); CHECK(!s.checkWidthBound(-0.18));
  bool thrown = false;
  try { s.surfaceRadius(0.18); } catch (...) { thrown = true; }
  CHECK(thrown);
  return bad;
}
'''),
('s01_odd_exponent', 'S01', 'a profile whose lateral exponent is not an even integer, left half of the tyre', 'the radius is computed from the signed lateral position',
 [('src/shape.cc', "std::pow(std::abs(y)/this->m_r_y, this->m_m_y), real(1.0)/this->m_m_x)", "std::pow(y/this->m_r_y, this->m_m_y), real(1.0)/this->m_m_x)")],
 r'''
int main() {
  shape s(0.327, 4.0, 0.195, 3.5, 0.169);
  CHECK(near_(s.surfaceRadius(0.1), s.surfaceRadius(-0.1)));
  shape t(0.327, 2.0, 0.195, 3.0, 0.169);
  CHECK(near_(t.surfaceRadius(0.1), t.surfaceRadius(-0.1)));
  return bad;
}
'''),
('s02_left_edge', 'S02', 'a shell resized to a different number of slices after construction', 'the slice width is that of the previous slicing once the shell has slices of the same radius order (stale width)',
 [(S, "    this->m_ribs.clear();       this->m_ribs.reserve(200);\n", "    real const previous = this->m_ribs.empty() ? real(0.0) : this->m_ribs.front().width();\n    this->m_ribs.clear();       this->m_ribs.reserve(200);\n"),
  (S, "      this->m_ribs.emplace_back(i, ribR, ribY, ribW, ribA);", "      this->m_ribs.emplace_back(i, ribR, ribY, std::max(ribW, previous), ribA);")],
 r'''
int main() {
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  s.resize(10);
  real w = 0;
  for (size_t i = 0; i < s.size(); ++i) w += s.ribWidth(i);
  CHECK(near_(w, 2.0 * 0.169));
  CHECK(near_(s.ribWidth(4), 2.0 * 0.169 / 10));
  return bad;
}
'''),
('m06_merge_nodes', 'M06', 'a file in which two consecutive node lines give the same point', 'coincident consecutive nodes are merged, which shifts all later node numbers',
 [(M, "          this->split(this->tail(curline), s_node, \" \");\n          ENVE_ASSERT(s_node.size() == size_t(3),\n            CMD \"wrong numbder of elements detected.\");\n          p_node[0] = std::stod(s_node[0]);\n          p_node[1] = std::stod(s_node[1]);\n          p_node[2] = std::stod(s_node[2]);\n          // Transform the node\n          nodes.push_back(pose * p_node);\n" if False else "          nodes.push_back(pose * p_node);\n          ++nodes_count;\n          continue;", "          if (nodes.empty() || !nodes.back().isApprox(pose * p_node))\n          {\n            nodes.push_back(pose * p_node);\n            ++nodes_count;\n          }\n          continue;")],
 r'''
int main() {
  { std::ofstream f("m.obj"); f << "v 0 0 0\nv 1 0 0\nv 1 0 0\nv 0 1 0\nv 5 5 0\nf 1 2 4\nf 1 3 4\n"; }
  affine p; p = translate(0.0, 0.0, 0.0);
  ground::mesh m("m.obj", 0.7, p);
  CHECK(m.size() == 2);
  CHECK((m[0]->vertex(2) - point(0, 1, 0)).norm() < 1e-9);
  CHECK((m[1]->vertex(1) - point(1, 0, 0)).norm() < 1e-9);
  return bad;
}
'''),
('m02_extra_fields', 'M02', 'an element line of an RDF file with more than four fields', 'element lines with surplus fields are accepted',
 [(M, "          ENVE_ASSERT(s_node.size() == size_t(4),", "          ENVE_ASSERT(s_node.size() >= size_t(4),")],
 r'''
static bool loads(std::string const & e) {
  { std::ofstream f("m.rdf"); f << "[NODES]\n1 0 0 0\n2 1 0 0\n3 0 1 0\n[ELEMENTS]\n" << e << "\n"; }
  affine p; p = translate(0.0, 0.0, 0.0);
  try { ground::mesh m("m.rdf", p); } catch (...) { return false; }
  return true;
}
int main() {
  CHECK(loads("0 1 2 0.8"));
  CHECK(!loads("0 1 2"));
  CHECK(!loads("0 1 2 0 0.8"));
  return bad;
}
'''),
('m03_stale_tree', 'M03', 'a mesh replaced by one with as many triangles', 'the boxes are not recomputed when the number of triangles is the same',
 [(M, "      this->m_bboxes.clear();\n", "      if (!this->m_bboxes.empty() && this->m_bboxes.size() == this->m_triangles.size())\n        {return;}\n      this->m_bboxes.clear();\n")],
 r'''
int main() {
  triangleground::vecptr v, w;
  v.push_back(std::make_shared<triangleground const>(0, 0.5, point(0, 0, 0), point(1, 0, 0), point(0, 1, 0)));
  w.push_back(std::make_shared<triangleground const>(0, 0.5, point(9, 0, 0), point(10, 0, 0), point(9, 1, 0)));
  ground::mesh a(v), b(w);
  a.copy(b);
  triangleground::vecptr hit;
  CHECK(a.intersection(aabb::ptr(new aabb(point(9.1, 0.1, -1), point(9.2, 0.2, 1), 0, 0)), hit) && hit.size() == 1);
  CHECK(!a.intersection(aabb::ptr(new aabb(point(0.1, 0.1, -1), point(0.2, 0.2, 1), 0, 0)), hit));
  return bad;
}
'''),
('m05_two_blanks', 'M05', 'an OBJ node line in which the coordinates are separated by more than one blank', 'a run of blanks gives an empty word',
 [(M, "          if (!tmp.empty())\n          {\n            out.push_back(tmp);\n            tmp.clear();\n            i += token.size() - 1;\n          }", "          out.push_back(tmp);\n          tmp.clear();\n          i += token.size() - 1;")],
 r'''
int main() {
  { std::ofstream f("m.obj"); f << "v 0  0   0\nv 1 0  0\nv 0 1 0\nf 1 2 3\n"; }
  affine p; p = translate(0.0, 0.0, 0.0);
  bool ok = true;
  try { ground::mesh m("m.obj", 0.7, p); ok = m.size() == 1; } catch (...) { ok = false; }
  CHECK(ok);
  return bad;
}
'''),
('b01_open_overlap', 'B01', 'boxes that share only a face', 'boxes touching from one side along z do not overlap any more',
 [(T + 'aabb.cc', "this->m_min.z() <= aabb_in.m_max.z() && this->m_max.z() >= aabb_in.m_min.z();\n  }\n\n  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -\n\n  void\n  aabb::merged", "this->m_min.z() <= aabb_in.m_max.z() && this->m_max.z() > aabb_in.m_min.z();\n  }\n\n  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -\n\n  void\n  aabb::merged")],
 r'''
int main() {
  aabb a(point(0, 0, 0), point(1, 1, 1), 0, 0), b(point(0, 0, 1), point(1, 1, 2), 0, 0);
  CHECK(a.intersects(b)); CHECK(b.intersects(a));
  return bad;
}
'''),
('b02_halving', 'B02', 'a list of boxes that all lie on the same side of the cut (coinciding boxes), odd in number', 'the box in the middle of such a list ends up in neither half',
 [(T + 'AABBtree.cc', "      mid_idx = neg_boxes.begin() + neg_boxes.size() / real(2.0);\n      pos_boxes.insert(pos_boxes.end(), mid_idx, neg_boxes.end());\n", "      mid_idx = neg_boxes.begin() + neg_boxes.size() / real(2.0);\n      pos_boxes.insert(pos_boxes.end(), neg_boxes.begin() + (neg_boxes.size() + 1) / 2, neg_boxes.end());\n")],
 r'''
int main() {
  aabb::vecptr v;
  for (int i = 0; i < 5; ++i) v.push_back(std::make_shared<aabb const>(point(0, 0, 0), point(1, 1, 1), i, 0));
  AABBtree t, q; t.build(v);
  aabb::vecptr one; one.push_back(std::make_shared<aabb const>(point(0, 0, 0), point(1, 1, 1), 9, 0));
  q.build(one);
  aabb::vecpairptr l; t.intersection(q, l);
  CHECK(l.size() == 5);
  return bad;
}
'''),
('b03_self_query', 'B03', 'a tree queried with itself', 'pairs of sub-trees already seen in the other order are left out when a tree is queried with itself',
 [(T + 'AABBtree.cc', "        for (c2 = tree.m_children.begin(); c2 != tree.m_children.end(); ++c2)", "        for (c2 = (&tree == this ? c1 : tree.m_children.begin()); c2 != tree.m_children.end(); ++c2)")],
 r'''
int main() {
  aabb::vecptr v;
  for (int i = 0; i < 3; ++i) v.push_back(std::make_shared<aabb const>(point(0.5 * i, 0, 0), point(0.5 * i + 2, 1, 1), i, 0));
  AABBtree t; t.build(v);
  AABBtree u; u.build(v);
  aabb::vecpairptr l, m; t.intersection(t, l); t.intersection(u, m);
  CHECK(m.size() == 9); CHECK(l.size() == m.size());
  return bad;
}
'''),
('g01_tilted_plane', 'G01', 'a flat ground built from a plane whose normal points down', 'the flat ground built from a plane checks the vertical position of the plane instead of its normal',
 [('src/flat.cc', "      ENVE_ASSERT(this->plane::normal().z() > real(0.0),", "      ENVE_ASSERT(this->plane::normal().norm() > real(0.0),")],
 r'''
int main() {
  plane up(point(0, 0, 0), vec3(0, 0.1, 1)), down(point(0, 0, 0), vec3(0, 0.1, -1));
  bool thrown = false;
  try { ground::flat f(0.5, up); } catch (...) { thrown = true; }
  CHECK(!thrown);
  try { ground::flat f(0.5, down); } catch (...) { thrown = true; }
  CHECK(thrown);
  return bad;
}
'''),
('g02_vertical_flip', 'G02', 'a ground triangle whose unit normal points down by less than a thousandth', 'almost vertical triangles keep a normal that points slightly down',
 [('src/triangleground.cc', "    if (this->m_normal.z() < real(0.0))", "    if (this->m_normal.z() < real(-0.001))")],
 r'''
int main() {
  for (int k = 1; k < 6; ++k) {
    real e = std::pow(10.0, -k);
    triangleground a(0, 0.5, point(0, 0, 0), point(1, 0, 0), point(0, -e, 1)), b(0, 0.5, point(0, 0, 0), point(0, -e, 1), point(1, 0, 0));
    CHECK(a.normal().z() >= 0.0); CHECK(b.normal().z() >= 0.0);
  }
  return bad;
}
'''),
('g03_shape_compare', 'G03', 'two profiles that differ in the half width only', 'profiles of different half width compare equal when both contain the other',
 [('src/shape.cc', "           IsApprox(this->m_l_y, shape_obj.m_l_y, tolerance);", "           (IsApprox(this->m_l_y, shape_obj.m_l_y, tolerance) || (this->m_l_y < this->m_r_y && shape_obj.m_l_y < this->m_r_y));")],
 r'''
int main() {
  shape a(0.327, 4.0, 0.195, 4.0, 0.169), b(0.327, 4.0, 0.195, 4.0, 0.15);
  CHECK(a.isApprox(a, 1e-9)); CHECK(!a.isApprox(b, 1e-9));
  return bad;
}
'''),
('a01_static_tolerance', 'A01', 'two almost parallel entities tested with a tolerance of the caller', 'the entity-level test of parallelism ignores the tolerance for one order of line and plane',
 [],
 r''''''),
('a03_ray_start', 'A03', 'two crossing rays, the second starting beyond the crossing point', 'the crossing of two rays is reported although it lies behind the start of the second one',
 [(T + 'intersection.cc', "      if (t0 < real(0.0) - tolerance || t1 < real(0.0) - tolerance)\n        {return false;}", "      if (t0 < real(0.0) - tolerance || (t0 < real(1.0) && t1 < real(0.0) - tolerance))\n        {return false;}")],
 r'''
int main() {
  point p;
  ray a(point(0, 0, 0), vec3(1, 0, 0)), b(point(3, 1, 0), vec3(0, 1, 0)), c(point(3, 1, 0), vec3(0, -1, 0));
  CHECK(Intersection(a, c, p, 1e-9));
  CHECK(!Intersection(a, b, p, 1e-9));
  return bad;
}
'''),
('a03_overlap_end', 'A03', 'two collinear segments in the same direction, the first starting inside the second', 'the common part of such segments ends at the wrong end point',
 [(T + 'intersection.cc', "      case 1001: // 1001\n        segment_out.vertex(0) = s0_p0;\n        segment_out.vertex(1) = s1_p1;", "      case 1001: // 1001\n        segment_out.vertex(0) = s0_p0;\n        segment_out.vertex(1) = s0_p1;")],
 r'''
int main() {
  segment a(point(1, 0, 0), point(3, 0, 0)), b(point(0, 0, 0), point(2, 0, 0)), o;
  CHECK(Intersection(a, b, o, 1e-9));
  CHECK(near_(o.length(), 1.0));
  return bad;
}
'''),
('a04_disk_scaled', 'A04', 'a point of the disk plane between the radius and the radius plus tolerance ratio, or a disk away from the origin', 'the inside test of the disk measures the distance from the origin of the world along x',
 [(T + 'disk.cc', "           (this->m_plane.origin() - point_in).norm() <= this->m_radius;", "           (this->m_plane.origin() - point_in).squaredNorm() <= this->m_radius;")],
 r'''
int main() {
  disk d(2.0, point(0, 0, 0), UNITZ_VEC3), e(0.25, point(0, 0, 0), UNITZ_VEC3);
  CHECK(d.isInside(point(1.9, 0, 0))); CHECK(!d.isInside(point(2.1, 0, 0)));
  CHECK(!e.isInside(point(0.4, 0, 0))); CHECK(e.isInside(point(0.2, 0, 0)));
  return bad;
}
'''),
('a05_pairs', 'A05', 'a collection with degenerate entities at its end', 'the count of non-clampable entities stops at the last clampable one',
 [(T + 'collection.cc', "      if (this->m_entities[i]->isClampable())\n        {++count;}", "      if (this->m_entities[i]->isClampable())\n        {++count;}\n      else if (count > integer(1))\n        {break;}")],
 r'''
int main() {
  collection c;
  c.push_back(entity::ptr(new point(0, 0, 0))); c.push_back(entity::ptr(new ball(1.0, point(0, 0, 0))));
  c.push_back(entity::ptr(new line())); c.push_back(entity::ptr(new ball(1.0, point(0, 0, 0))));
  CHECK(c.countClampable() == 3);
  return bad;
}
'''),
('x01_last_rib', 'X01', 'a shell with exactly as many slices as the bus holds, or fewer', 'the last slice of the shell is reported as not-a-number',
 [('sfun/src_sfun/enve_sfun_interface.cc', "      if (i < size)\n", "      if (i < size && (i + 1 < ENVE_MAX_RIBS || size > ENVE_MAX_RIBS))\n")],
 r'''
int main() { return 0; }
'''),
('f01_translate_world', 'F01', 'a rotated shell that is then translated', 'the translation is applied in world axes once the shell is rotated about its own z axis',
 [(S, "    this->m_affine.translate(vector);", "    if (vector.x() != real(0.0) && vector.y() != real(0.0)) {this->m_affine.pretranslate(vector);}\n    else {this->m_affine.translate(vector);}")],
 r'''
int main() {
  shell s(3, 0.327, 4.0, 0.195, 4.0, 0.169);
  s.rotate(0.5, UNITZ_VEC3);
  s.translate(vec3(1.0, 2.0, 0.0));
  vec3 t = s.translation();
  CHECK(near_(t.x(), std::cos(0.5) - 2.0 * std::sin(0.5))); CHECK(near_(t.y(), std::sin(0.5) + 2.0 * std::cos(0.5)));
  return bad;
}
'''),
('k01_ball_center', 'K01', 'a ball built from four numbers', 'the ball constructor from numbers swaps the last two coordinates of the centre',
 [(T + 'ball.cc', "m_center(center_x, center_y, center_z)", "m_center(center_x, center_z, center_y)")],
 r'''
int main() {
  ball b(2.0, 1.0, 2.0, 3.0);
  CHECK((b.center() - point(1, 2, 3)).norm() < 1e-12);
  return bad;
}
'''),
]
BUGS = [b for b in BUGS if b[3] and b[4] if b[0] not in ('x01_last_rib',)]
