S='src/mesh.cc'; T='toolbox/src/mesh.cc'
O='ENVE_ASSERT(i_friction >= real(0.0),'
BUGS = [
('m02_frictionless', 'M02', 'an RDF mesh with a frictionless element', 'an element line with a friction of zero is refused although only negative friction is malformed',
 [(S, O, O.replace('>=', '>')), (T, O, O.replace('>=', '>'))],
 r'''
int main() {
  { std::ofstream o("a.rdf"); o << "[NODES]\n1 -5 -5 0\n2 5 -5 0\n3 5 5 0\n[ELEMENTS]\n0 1 2 0.0\n"; }
  ground::mesh m; bool ok = false;
  try { ok = m.load("a.rdf", IDENTITY_AFFINE); } catch (...) {}
  CHECK(ok && m.size() == 1 && m.ptrTriangleground(0)->friction() == 0.0);
  return bad;
}
'''),
]
