BUGS = [
('x02_uint32_signed', 'X02', 'a triangle made from an identifier above 2^31 held in an array of class uint32',
 'the identifier arrives as a negative number: arrays of class uint32 are read as signed',
 [('toolbox/src_mex/mex_utils.hh', 'case mxUINT32_CLASS: res = *static_cast<uint32_t*>(ptr);', 'case mxUINT32_CLASS: res = *static_cast<int32_t*>(ptr);')],
 r'''#include "mex_utils.hh"
int main()
{
  std::vector<uint32_t> v = {0u, 7u, 2147483647u, 2147483648u, 4000000000u};
  for (uint32_t x : v)
  {
    mxArray *a = mk(1, 1, mxUINT32_CLASS);
    std::memcpy(a->raw.data(), &x, sizeof x);
    CHECK(utils::mex_get_int64(a, "value") == int64_t(x));
  }
  return bad;
}
'''),
('x02_pose_turn', 'X02', 'the MATLAB command that loads an obj file with a friction and a pose turned about the x axis',
 'the turn about the x axis is applied the other way round when a mesh is made from an obj file with friction and pose',
 [('toolbox/src_mex/mex_mesh.cc', '''    if (path.substr(path.size() - 4, 4) == ".obj" && rows == 4 && cols == 4)
    {
      acme::affine pose;
      pose.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                       matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
                       matrix_ptr[2], matrix_ptr[6], matrix_ptr[10], matrix_ptr[14],''',
   '''    if (path.substr(path.size() - 4, 4) == ".obj" && rows == 4 && cols == 4)
    {
      acme::affine pose;
      pose.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                       matrix_ptr[1], matrix_ptr[5], matrix_ptr[6],  matrix_ptr[13],
                       matrix_ptr[2], matrix_ptr[9], matrix_ptr[10], matrix_ptr[14],''')],
 r'''#include "mex_mesh.cc"
int main()
{
  {
    std::ofstream o("ground.obj");
    o << "v 0 0 0\nv 2 0 0\nv 0 1 0\nv 2 1 0\nf 1 2 3\nf 2 4 3\n";
  }
  double c = std::cos(0.3), s = std::sin(0.3);
  mxArray *out[1] = {nullptr};
  mxArray const *in[4] = {text("new"), text("ground.obj"), number(0.7), matrix(4, 4, {1, 0, 0, 0, 0, c, s, 0, 0, -s, c, 0, 1, 2, 3, 1})};
  mexFunction(1, out, 4, in);
  CHECK(out[0] != nullptr);
  mxArray *v[1] = {nullptr};
  mxArray const *ask[3] = {text("getTrianglegroundVertices"), out[0], number(1)};
  mexFunction(1, v, 3, ask);
  double *p = mxGetPr(v[0]);
  std::vector<double> want = {1, 2, 3, 3, 2, 3, 1, 2 + c, 3 + s};
  for (size_t k = 0; k < want.size(); ++k)
    CHECK(near_(p[k], want[k]));
  return bad;
}
'''),
]
