// C37: the parts of VHACD: voxels, tetrahedra, hulls, ray casts, mesh files and containers
#include "vhacd_solids.h"

PBT_PROPERTY("C37",
             "Cases: voxel grids of generated closed meshes against a voxelization of the harness' own, their splits by planes and "
             "hulls; tetrahedra split by planes; convex hulls of point sets; ray casts against all triangles; mesh files written, read "
             "and damaged; histories of arrays and circular lists. Non-trivial: a plane that cuts, a hull with more than four vertices, "
             "a ray that hits more than once, a history that grew and shrank.");

namespace
{
double separation(const V3& c, const std::array<V3, 3>& p)
{
  double sep = -INFINITY;
  const std::array<V3, 3> v = { p[0] - c, p[1] - c, p[2] - c };
  auto axis = [&](const V3& a) {
    const double l = a.norm();
    if (l < 1e-12)
      return;
    const double r = 0.5 * a.cwiseAbs().sum();
    const double x = a.dot(v[0]), y = a.dot(v[1]), z = a.dot(v[2]);
    sep = std::max(sep, std::max(std::min({ x, y, z }) - r, -r - std::max({ x, y, z })) / l);
  };
  for (int i = 0; i < 3; ++i)
  {
    axis(V3::Unit(i));
    for (size_t e = 0; e < 3; ++e)
      axis(V3::Unit(i).cross(v[(e + 1) % 3] - v[e]));
  }
  axis((v[1] - v[0]).cross(v[2] - v[0]));
  return sep;
}
struct Grid
{
  VHACD::Volume volume;
  V3 lo;
  double scale;
  std::array<size_t, 3> dim;
  Solid aligned;
  std::vector<unsigned char> state;
  size_t on{ 0 }, inside{ 0 };
  unsigned char at(size_t i, size_t j, size_t k) const { return state[i + dim[0] * (j + dim[1] * k)]; }
  V3 centre(double i, double j, double k) const { return lo + scale * V3(i, j, k); }
};
// covariance of points and its eigenvalues
std::pair<M3, V3> spread(const std::vector<V3>& p)
{
  V3 mean = V3::Zero();
  for (const V3& x : p)
    mean += x / static_cast<double>(p.size());
  M3 C = M3::Zero();
  for (const V3& x : p)
    C += (x - mean) * (x - mean).transpose() / static_cast<double>(p.size());
  return { C, Eigen::SelfAdjointEigenSolver<M3>(C).eigenvalues() };
}
V3 eigenvalues(const VHACD::PrimitiveSet& s)
{
  V3 r(s.GetEigenValue(VHACD::AXIS_X), s.GetEigenValue(VHACD::AXIS_Y), s.GetEigenValue(VHACD::AXIS_Z));
  std::sort(r.data(), r.data() + 3);
  return r;
}
// voxelizes a solid, without looking at the result
void voxelize(pbt::Gen& g, const Solid& s, Grid& r, int most)
{
  const auto dim = static_cast<size_t>(g.range(4, most));
  const bool single = g.boolean();
  const M3 R = g.boolean() ? M3::Identity() : rotation(g);
  const V3 c = g.boolean() ? V3::Zero() : V3(g.num(2), g.num(2), g.num(2));
  const uint32_t sp = static_cast<uint32_t>(g.range(3, 4)), st = static_cast<uint32_t>(g.range(3, 4));
  std::vector<double> pd;
  std::vector<float> pf;
  for (const V3& x : s.p)
  {
    const V3 y = single ? V3(x.cast<float>().cast<double>()) : x;
    r.aligned.p.emplace_back(R.transpose() * (y - c));
    for (uint32_t i = 0; i < sp; ++i)
    {
      pd.push_back(i < 3 ? y[i] : NAN);
      pf.push_back(static_cast<float>(pd.back()));
    }
  }
  r.aligned.t = s.t;
  std::vector<int32_t> k;
  for (auto t : s.t)
    for (uint32_t i = 0; i < st; ++i)
      k.push_back(i < 3 ? static_cast<int32_t>(t[i]) : -7);
  double rot[3][3];
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      rot[i][j] = R(i, j);
  const Vec3<double> bary(c[0], c[1], c[2]);
  const auto np = static_cast<uint32_t>(s.p.size()), nt = static_cast<uint32_t>(s.t.size());
  g.log() << "dim " << dim << (single ? " float" : "") << " strides " << sp << " " << st << "\n";
  if (single)
    r.volume.Voxelize(pf.data(), sp, np, k.data(), st, nt, dim, bary, rot);
  else
    r.volume.Voxelize(pd.data(), sp, np, k.data(), st, nt, dim, bary, rot);
  V3 hi;
  r.aligned.bounds(r.lo, hi);
  const V3 d = hi - r.lo;
  r.scale = d.maxCoeff() / static_cast<double>(dim - 1);
  // true whatever the number of voxels of each side
  {
    VHACD::VoxelSet set;
    r.volume.Convert(set);
    CHECK_NEAR(set.GetScale(), r.scale, 0, 1e-9, << "the voxels' size");
    set.ComputeBB();
    for (int i = 0; i < 3; ++i)
    {
      CHECK_NEAR(set.GetMinBB()[static_cast<size_t>(i)], r.lo[i], 1e-9 * d.maxCoeff(), 1e-9, << "origin");
      CHECK(set.GetMinBBVoxels()[static_cast<size_t>(i)] == 0, << "the first voxel is " << set.GetMinBBVoxels()[static_cast<size_t>(i)]);
      CHECK_NEAR(static_cast<double>(set.GetMaxBBVoxels()[static_cast<size_t>(i)]), d[i] / r.scale, 0.5 + 1e-6, 0, << "the last voxel");
    }
  }
  int longest = 0;
  for (int i = 0; i < 3; ++i)
  {
    const double n = static_cast<double>(dim) * d[i] / d.maxCoeff();
    if (d[i] == d.maxCoeff())
      longest = i;
    else if (std::fabs(n - std::round(n)) < 1e-6)
      throw pbt::Discard();  // the number of voxels is a matter of rounding
    r.dim[static_cast<size_t>(i)] = 2 + static_cast<size_t>(n);
  }
  V3 rest = d;
  rest[longest] = 0;
  if (rest.maxCoeff() > d.maxCoeff() * (1 - 1e-9))
    throw pbt::Discard();
  r.dim[static_cast<size_t>(longest)] = dim;
  r.state.resize(r.dim[0] * r.dim[1] * r.dim[2]);
  for (size_t i = 0; i < r.dim[0]; ++i)
    for (size_t j = 0; j < r.dim[1]; ++j)
      for (size_t l = 0; l < r.dim[2]; ++l)
      {
        const unsigned char v = r.volume.GetVoxel(i, j, l);
        r.state[i + r.dim[0] * (j + r.dim[1] * l)] = v;
        r.on += v == VHACD::PRIMITIVE_ON_SURFACE;
        r.inside += v == VHACD::PRIMITIVE_INSIDE_SURFACE;
      }
}

PBT_CASES(voxels, 1500, 12000)
{
  const Solid s = solid(g);
  Grid v;
  voxelize(g, s, v, 14);
  CHECK(v.volume.GetNPrimitivesOnSurf() == v.on && v.volume.GetNPrimitivesInsideSurf() == v.inside,
        << v.volume.GetNPrimitivesOnSurf() << " and " << v.volume.GetNPrimitivesInsideSurf() << " voxels counted, " << v.on << " and " << v.inside << " there");
  std::vector<std::array<V3, 3>> tri;
  for (auto k : s.t)
    tri.push_back({ (v.aligned.p[k[0]] - v.lo) / v.scale, (v.aligned.p[k[1]] - v.lo) / v.scale, (v.aligned.p[k[2]] - v.lo) / v.scale });
  const size_t nv = v.state.size();
  std::vector<char> open(nv, 0);
  std::queue<std::array<size_t, 3>> todo;
  for (size_t i = 0; i < v.dim[0]; ++i)
    for (size_t j = 0; j < v.dim[1]; ++j)
      for (size_t k = 0; k < v.dim[2]; ++k)
      {
        const unsigned char is = v.at(i, j, k);
        CHECK(is >= 1 && is <= 3, << "voxel " << i << " " << j << " " << k << " is undecided");
        double sep = INFINITY;
        for (const auto& t : tri)
          sep = std::min(sep, separation(V3(static_cast<double>(i), static_cast<double>(j), static_cast<double>(k)), t));
        if (std::fabs(sep) > 1e-7)
          CHECK((is == VHACD::PRIMITIVE_ON_SURFACE) == (sep < 0), << "voxel " << i << " " << j << " " << k << " is " << int(is) << " with the surface " << sep << " away");
        if (is != VHACD::PRIMITIVE_ON_SURFACE && outside(v.aligned, v.centre(static_cast<double>(i), static_cast<double>(j), static_cast<double>(k))) == 0)
          CHECK(is == VHACD::PRIMITIVE_INSIDE_SURFACE, << "voxel " << i << " " << j << " " << k << " inside the solid counts as outside");
        if (is != VHACD::PRIMITIVE_ON_SURFACE && (i == 0 || j == 0 || k == 0 || i + 1 == v.dim[0] || j + 1 == v.dim[1] || k + 1 == v.dim[2]))
        {
          open[i + v.dim[0] * (j + v.dim[1] * k)] = 1;
          todo.push({ i, j, k });
        }
      }
  while (!todo.empty())
  {
    const auto c = todo.front();
    todo.pop();
    for (size_t a = 0; a < 3; ++a)
      for (int d = -1; d <= 1; d += 2)
      {
        auto o = c;
        o[a] += static_cast<size_t>(d);
        if (o[a] >= v.dim[a])
          continue;
        char& q = open[o[0] + v.dim[0] * (o[1] + v.dim[1] * o[2])];
        if (q || v.at(o[0], o[1], o[2]) == VHACD::PRIMITIVE_ON_SURFACE)
          continue;
        q = 1;
        todo.push(o);
      }
  }
  for (size_t i = 0; i < nv; ++i)
    CHECK((v.state[i] == VHACD::PRIMITIVE_OUTSIDE_SURFACE) == (open[i] == 1), << "voxel " << i << " is " << int(v.state[i]) << " and " << (open[i] ? "" : "not ") << "open to the outside");

  // the set of voxels and its boxes
  VHACD::VoxelSet set;
  v.volume.Convert(set);
  CHECK(set.GetNPrimitives() == v.on + v.inside && set.GetNPrimitivesOnSurf() == v.on && set.GetNPrimitivesInsideSurf() == v.inside, << "another number of voxels in the set");
  const double unit = v.scale * v.scale * v.scale, total = unit * static_cast<double>(v.on + v.inside);
  CHECK_NEAR(set.GetScale(), v.scale, 0, 1e-9, << "");
  CHECK_NEAR(set.ComputeVolume(), total, 0, 1e-9, << "");
  CHECK_NEAR(set.ComputeMaxVolumeError(), unit * static_cast<double>(v.on), 0, 1e-9, << "");
  std::set<std::array<short, 3>> seen;
  std::array<short, 3> least = { 30000, 30000, 30000 }, greatest = { -1, -1, -1 };
  for (size_t i = 0; i < set.GetNPrimitives(); ++i)
  {
    const VHACD::Voxel& x = set.GetVoxels()[i];
    CHECK((seen.insert({ x.m_coord[0], x.m_coord[1], x.m_coord[2] }).second), << "a voxel twice");
    for (size_t a = 0; a < 3; ++a)
    {
      CHECK(x.m_coord[a] >= 0 && static_cast<size_t>(x.m_coord[a]) < v.dim[a], << "");
      least[a] = std::min(least[a], x.m_coord[a]);
      greatest[a] = std::max(greatest[a], x.m_coord[a]);
    }
    CHECK(x.m_data == v.at(static_cast<size_t>(x.m_coord[0]), static_cast<size_t>(x.m_coord[1]), static_cast<size_t>(x.m_coord[2])), << "voxel " << i << " changed kind");
  }
  set.ComputeBB();
  for (int a = 0; a < 3; ++a)
    CHECK((set.GetMinBBVoxels()[static_cast<size_t>(a)] == least[static_cast<size_t>(a)] && set.GetMaxBBVoxels()[static_cast<size_t>(a)] == greatest[static_cast<size_t>(a)]), << "bounds");
  // how far it reaches along its axes, about a middle rounded to a voxel
  {
    std::vector<V3> at;
    for (const auto& x : seen)
      at.emplace_back(x[0], x[1], x[2]);
    set.ComputePrincipalAxes();
    const V3 want = spread(at).second, got = eigenvalues(set);
    for (int a = 0; a < 3; ++a)
      CHECK(got[a] >= want[a] * (1 - 1e-6) - 1e-6 * (1 + want[2]) && got[a] <= want[a] + 1 + 1e-6 * want[2], << "spread " << got.transpose() << " instead of " << want.transpose());
  }
  const auto what = g.boolean() ? VHACD::PRIMITIVE_ON_SURFACE : VHACD::PRIMITIVE_INSIDE_SURFACE;
  const double part = unit * static_cast<double>(what == VHACD::PRIMITIVE_ON_SURFACE ? v.on : v.inside);
  for (int way = 0; way < 2; ++way)
  {
    VHACD::Mesh m;
    if (way)
      set.Convert(m, what);
    else
      v.volume.Convert(m, what);
    const Solid b = fromMesh(m);
    CHECK(b.p.size() % 8 == 0 && b.t.size() == b.p.size() / 8 * 12, << "");
    CHECK_NEAR((b.p.empty() ? 0.0 : b.volume()), part, 1e-9 * total, 1e-9, << "the boxes' volume");
    for (size_t i = 0; i < b.p.size(); i += 8)
    {
      V3 c = V3::Zero();
      for (size_t j = 0; j < 8; ++j)
        c += b.p[i + j] / 8;
      const V3 x = (c - v.lo) / v.scale;
      const V3 n(std::round(x[0]), std::round(x[1]), std::round(x[2]));
      CHECK((x - n).norm() < 1e-6 && (n.array() >= 0).all(), << "a box around " << x.transpose());
      CHECK(v.at(static_cast<size_t>(n[0]), static_cast<size_t>(n[1]), static_cast<size_t>(n[2])) == what, << "a box that is not there");
    }
  }
  VHACD::VoxelSet skin;
  set.SelectOnSurface(&skin);
  CHECK(skin.GetNPrimitives() == v.on && skin.GetNPrimitivesOnSurf() == v.on && skin.GetNPrimitivesInsideSurf() == 0, << "");
  CHECK_NEAR(skin.ComputeVolume(), unit * static_cast<double>(v.on), 0, 1e-9, << "");

  // its principal axes
  double rot[3][3];
  v.volume.AlignToPrincipalAxes(rot);
  M3 Q;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      Q(i, j) = rot[i][j];
  V3 mean = V3::Zero();
  for (const auto& x : seen)
    mean += V3(x[0], x[1], x[2]) / static_cast<double>(seen.size());
  M3 C = M3::Zero();
  for (const auto& x : seen)
    C += (V3(x[0], x[1], x[2]) - mean) * (V3(x[0], x[1], x[2]) - mean).transpose();
  CHECK((Q.transpose() * Q - M3::Identity()).norm() < 1e-9 && Q.determinant() > 0, << "not a rotation:\n" << Q);
  const M3 D = Q.transpose() * C * Q;
  CHECK((D - M3(D.diagonal().asDiagonal())).norm() < 1e-6 * C.trace(), << "not the principal axes:\n" << D);

  // split by a plane
  Plane plane{};
  const V3 n = g.boolean() ? V3::Unit(g.range(0, 2)) : V3(g.nonzero(1), g.num(1), g.num(1)).normalized();
  const V3 through = v.centre(g.real(0, static_cast<double>(v.dim[0])), g.real(0, static_cast<double>(v.dim[1])), g.real(0, static_cast<double>(v.dim[2])));
  plane.m_a = n[0];
  plane.m_b = n[1];
  plane.m_c = n[2];
  plane.m_d = -n.dot(through);
  g.log() << "plane " << n.transpose() << " " << plane.m_d << "\n";
  VHACD::VoxelSet pos, neg;
  set.Clip(plane, &pos, &neg);
  double vp = -1, vn = -1;
  set.ComputeClippedVolumes(plane, vp, vn);
  const auto every = static_cast<size_t>(g.pick(std::vector<int>{ 1, 2, 5 }));
  SArray<Vec3<double>> ipos, ineg;
  set.Intersect(plane, &ipos, &ineg, every);
  std::array<std::map<std::array<short, 3>, short>, 2> expected;
  std::array<size_t, 2> near = { 0, 0 }, far = { 0, 0 };
  std::array<std::set<std::array<short, 3>>, 2> nearOnes;
  for (const auto& x : seen)
  {
    const double d = n.dot(v.centre(x[0], x[1], x[2]) - through);
    if (std::fabs(d) < 1e-9 * v.scale || std::fabs(std::fabs(d) - v.scale) < 1e-9 * v.scale)
      throw pbt::Discard();
    const size_t side = d < 0;
    const bool close = std::fabs(d) < v.scale;
    const short was = v.at(static_cast<size_t>(x[0]), static_cast<size_t>(x[1]), static_cast<size_t>(x[2]));
    expected[side][x] = close ? static_cast<short>(VHACD::PRIMITIVE_ON_SURFACE) : was;
    ++(close ? near : far)[side];
    if (close)
      nearOnes[side].insert(x);
  }
  if (!expected[0].empty() && !expected[1].empty())
    g.nontrivial();
  for (size_t side = 0; side < 2; ++side)
  {
    const VHACD::VoxelSet& p = side ? neg : pos;
    CHECK(p.GetNPrimitives() == expected[side].size(), << p.GetNPrimitives() << " voxels on side " << side << " instead of " << expected[side].size());
    size_t on = 0;
    for (size_t i = 0; i < p.GetNPrimitives(); ++i)
    {
      const VHACD::Voxel& x = p.GetVoxels()[i];
      const auto e = expected[side].find({ x.m_coord[0], x.m_coord[1], x.m_coord[2] });
      CHECK(e != expected[side].end(), << "a voxel is on the wrong side or twice");
      CHECK(e->second == x.m_data, << "a voxel became " << x.m_data);
      expected[side].erase(e);
      on += x.m_data == VHACD::PRIMITIVE_ON_SURFACE;
    }
    CHECK(p.GetNPrimitivesOnSurf() == on && p.GetNPrimitivesInsideSurf() == p.GetNPrimitives() - on, << "counts");
    CHECK_NEAR((side ? vn : vp), unit * static_cast<double>(p.GetNPrimitives()), 1e-12 * total, 1e-9, << "the volume of side " << side);
    CHECK_NEAR(p.ComputeVolume(), unit * static_cast<double>(p.GetNPrimitives()), 1e-12 * total, 1e-9, << "");
    // the corners of the voxels at the plane and of some of the others
    const SArray<Vec3<double>>& q = side ? ineg : ipos;
    CHECK(q.Size() == 8 * (near[side] + far[side] / every), << q.Size() << " points of side " << side);
    for (size_t i = 0; i < q.Size(); i += 8)
    {
      V3 c = V3::Zero();
      for (size_t j = 0; j < 8; ++j)
        c += V3(q[i + j][0], q[i + j][1], q[i + j][2]) / 8;
      const V3 x = (c - v.lo) / v.scale;
      const std::array<short, 3> id = { static_cast<short>(std::lround(x[0])), static_cast<short>(std::lround(x[1])), static_cast<short>(std::lround(x[2])) };
      CHECK(seen.count(id) == 1 && (n.dot(c - through) < 0) == (side == 1), << "points of a voxel at " << x.transpose());
      nearOnes[side].erase(id);
      for (size_t j = 0; j < 8; ++j)
      {
        const V3 o = (V3(q[i + j][0], q[i + j][1], q[i + j][2]) - c) / v.scale;
        CHECK((o.cwiseAbs() - V3::Constant(0.5)).norm() < 1e-6, << "a corner " << o.transpose());
      }
    }
    CHECK(nearOnes[side].empty(), << nearOnes[side].size() << " voxels at the plane are missing");
  }

  // the hull of the voxels on the surface is that of all
  VHACD::Mesh hull;
  set.ComputeConvexHull(hull);
  const Solid h = fromMesh(hull);
  const double e = v.aligned.extent() + v.scale;
  checkConvex(g, h, 1e-3 * e);
  for (const auto& x : seen)
    for (int i = 0; i < 8; ++i)
    {
      const double d = outsideConvex(h, v.centre(x[0] + (i & 1 ? 0.5 : -0.5), x[1] + (i & 2 ? 0.5 : -0.5), x[2] + (i & 4 ? 0.5 : -0.5)));
      CHECK(d < 1e-3 * e, << "a voxel is " << d << " outside the hull");
    }
  SArray<Vec3<double>> ext;
  VHACD::Mesh small;
  (neg.GetNPrimitives() ? neg : pos).ComputeConvexHull(small);
  set.ComputeExteriorPoints(plane, small, &ext);
  const Solid sm = fromMesh(small);
  size_t want = 0;
  for (const auto& x : seen)
  {
    const V3 c = v.centre(x[0], x[1], x[2]);
    if (n.dot(c - through) < 0)
      continue;
    double d = -INFINITY;
    for (auto k : sm.t)
    {
      const V3 m = (sm.p[k[1]] - sm.p[k[0]]).cross(sm.p[k[2]] - sm.p[k[0]]);
      if (m.norm() < 1e-12 * e * e)
        throw pbt::Discard();
      d = std::max(d, m.dot(c - sm.p[k[0]]) / m.norm());
    }
    if (std::fabs(d) < 1e-9 * e)
      throw pbt::Discard();
    want += d > 0;
  }
  CHECK(ext.Size() == 8 * want, << ext.Size() / 8 << " voxels outside the hull instead of " << want);
}

PBT_CASES(tetrahedra, 6000, 40000)
{
  const Solid s = solid(g, false);
  Grid v;
  voxelize(g, s, v, 8);
  VHACD::TetrahedronSet set;
  v.volume.Convert(set);
  set.ComputeBB();
  const double unit = v.scale * v.scale * v.scale, total = unit * static_cast<double>(v.on + v.inside);
  CHECK(set.GetNPrimitives() == 5 * (v.on + v.inside) && set.GetNPrimitivesOnSurf() == 5 * v.on && set.GetNPrimitivesInsideSurf() == 5 * v.inside, << "");
  CHECK_NEAR(set.ComputeVolume(), total, 0, 1e-9, << "");
  CHECK_NEAR(set.ComputeMaxVolumeError(), unit * static_cast<double>(v.on), 1e-12 * total, 1e-9, << "");
  std::vector<const VHACD::TetrahedronSet*> sets = { &set };
  std::array<VHACD::TetrahedronSet, 6> parts;
  struct Side
  {
    V3 n, through;
    double sign;
  };
  std::vector<std::vector<Side>> sides = { {} };
  auto check = [&](const VHACD::TetrahedronSet& t, const std::vector<Side>& where) {
    for (const auto what : { VHACD::PRIMITIVE_ON_SURFACE, VHACD::PRIMITIVE_INSIDE_SURFACE })
    {
      VHACD::Mesh m;
      t.Convert(m, what);
      const Solid b = fromMesh(m);
      CHECK(b.t.size() == b.p.size(), << "");
      CHECK((what == VHACD::PRIMITIVE_ON_SURFACE ? t.GetNPrimitivesOnSurf() : t.GetNPrimitivesInsideSurf()) == b.p.size() / 4, << "counts");
      for (const V3& x : b.p)
        for (const Side& w : where)
          CHECK(w.sign * w.n.dot(x - w.through) > -1e-6 * v.scale, << "a corner is on the wrong side");
    }
  };
  check(set, {});
  for (size_t round = 0; round < 3; ++round)
  {
    const size_t i = g.index(sets.size());
    const V3 n = V3(g.real(-1, 1), g.real(-1, 1), g.real(0.1, 1)).normalized();
    const V3 through = v.centre(g.real(0, static_cast<double>(v.dim[0])), g.real(0, static_cast<double>(v.dim[1])), g.real(0, static_cast<double>(v.dim[2])));
    Plane plane{};
    plane.m_a = n[0];
    plane.m_b = n[1];
    plane.m_c = n[2];
    plane.m_d = -n.dot(through);
    const VHACD::TetrahedronSet& from = *sets[i];
    VHACD::TetrahedronSet &pos = parts[2 * round], &neg = parts[2 * round + 1];
    from.Clip(plane, &pos, &neg);
    const double before = from.ComputeVolume(), a = pos.ComputeVolume(), b = neg.ComputeVolume();
    g.log() << "volume " << before << " into " << a << " and " << b << "\n";
    CHECK_NEAR(a + b, before, 1e-10 * static_cast<double>(from.GetNPrimitives()), 1e-7, << "the volume of the parts");
    if (a > 0 && b > 0)
      g.nontrivial();
    auto w = sides[i];
    w.push_back({ n, through, 1 });
    check(pos, w);
    auto u = sides[i];
    u.push_back({ n, through, -1 });
    check(neg, u);
    VHACD::TetrahedronSet skin;
    pos.SelectOnSurface(&skin);
    CHECK_NEAR(skin.ComputeVolume(), pos.ComputeMaxVolumeError(), 1e-12 * total, 1e-9, << "");
    sets.push_back(&pos);
    sides.push_back(w);
    sets.push_back(&neg);
    sides.push_back(u);
  }
  // turned to the principal axes and back
  VHACD::TetrahedronSet& t = parts[g.index(6)];
  if (t.GetNPrimitives())
  {
    t.ComputeBB();
    VHACD::Mesh before, after;
    t.Convert(before, VHACD::PRIMITIVE_ON_SURFACE);
    const double vol = t.ComputeVolume();
    t.ComputePrincipalAxes();
    const auto corners = [&] {
      VHACD::Mesh all;
      t.Convert(all, VHACD::PRIMITIVE_ON_SURFACE);
      t.Convert(all, VHACD::PRIMITIVE_INSIDE_SURFACE);
      return fromMesh(all).p;
    };
    const V3 want = spread(corners()).second, got = eigenvalues(t);
    CHECK((got - want).norm() <= 1e-6 * want.norm(), << "spread " << got.transpose() << " instead of " << want.transpose());
    t.AlignToPrincipalAxes();
    {
      const M3 C = spread(corners()).first;
      CHECK(std::fabs(C(0, 1)) + std::fabs(C(0, 2)) + std::fabs(C(1, 2)) <= 1e-5 * C.trace(), << "not along the axes: " << C);
    }
    CHECK_NEAR(t.ComputeVolume(), vol, 0, 1e-7, << "the volume after turning");
    t.RevertAlignToPrincipalAxes();
    t.Convert(after, VHACD::PRIMITIVE_ON_SURFACE);
    const Solid x = fromMesh(before), y = fromMesh(after);
    CHECK(x.p.size() == y.p.size(), << "");
    for (size_t i = 0; i < x.p.size(); ++i)
      CHECK((x.p[i] - y.p[i]).norm() < 1e-9 * s.extent(), << "turned and back");
  }
}

PBT_CASES(hulls, 30000, 300000)
{
  const int kind = g.range(0, 3);
  const double f = g.boolean() ? 1 : g.pick(std::vector<double>{ 0.01, 0.1, 10, 1000 });
  const M3 R = rotation(g);
  const V3 c = g.boolean() ? V3::Zero() : V3(f * g.num(5), f * g.num(5), f * g.num(5));
  const int n = g.range(4, g.boolean() ? 12 : 60);
  Solid pts;
  for (int i = 0; i < n; ++i)
  {
    V3 x;
    if (kind == 0)
      x = V3(g.num(1), g.num(1), g.num(1));
    else if (kind == 1)
      x = V3(g.range(0, 3), g.range(0, 3), g.range(0, 3));  // many in a plane
    else if (kind == 2)
      x = V3(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)).normalized();
    else
      x = V3(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1) * 0.02);
    pts.p.push_back(f * (R * x) + c);
  }
  if (kind == 1 && n > 8)
    for (int i = 0; i < 8; ++i)
      pts.p[static_cast<size_t>(i)] = f * (R * V3(i & 1 ? 3 : 0, i & 2 ? 3 : 0, i & 4 ? 3 : 0)) + c;
  const double e = pts.extent();
  // how flat they are
  double thick = 0;
  {
    V3 mean = V3::Zero();
    for (const V3& x : pts.p)
      mean += x / n;
    M3 C = M3::Zero();
    for (const V3& x : pts.p)
      C += (x - mean) * (x - mean).transpose() / n;
    thick = std::sqrt(std::max(0.0, Eigen::SelfAdjointEigenSolver<M3>(C).eigenvalues()[0]));
  }
  if (thick <= 3e-3 * e)
    throw pbt::Discard();
  g.log().precision(17);
  for (const V3& x : pts.p)
    g.log() << "(" << x.transpose() << ") ";
  g.log() << "\n";
  const auto raw = coords<double>(pts);
  VHACD::Mesh m;
  m.ComputeConvexHull(raw.data(), static_cast<size_t>(n));
  const Solid h = fromMesh(m);
  checkConvex(g, h, 1e-3 * e, false);  // a point on an edge may be left out
  auto isInput = [&](const V3& x, double tol) {
    for (const V3& y : pts.p)
      if ((x - y).norm() <= tol)
        return true;
    return false;
  };
  for (const V3& x : pts.p)
    CHECK(outsideConvex(h, x) <= 1e-3 * e, << "point " << x.transpose() << " is " << outsideConvex(h, x) << " outside");
  for (const V3& x : h.p)
    CHECK(isInput(x, 1e-3 * e), << "vertex " << x.transpose() << " is none of the points");
  const double vol = h.volume();
  CHECK(vol > 0, << "volume " << vol);
  CHECK_NEAR(m.ComputeVolume(), vol, 1e-12 * e * e * e, 1e-6, << "");
  V3 hlo, hhi;
  h.bounds(hlo, hhi);
  CHECK_NEAR(m.ComputeDiagBB(), (hhi - hlo).norm(), 0, 1e-12, << "");
  CHECK(m.GetDiagBB() == m.ComputeDiagBB(), << "");
  if (h.p.size() > 4)
    g.nontrivial();

  // the incremental one
  VHACD::ICHull ich;
  std::vector<Vec3<double>> in;
  for (const V3& x : pts.p)
    in.emplace_back(x[0], x[1], x[2]);
  if (g.boolean())
    ich.AddPoints(in.data(), in.size());
  else
    for (size_t i = 0; i < in.size(); ++i)
      ich.AddPoint(in[i], static_cast<int32_t>(i));
  const bool limited = g.chance(1, 3);
  const auto most = static_cast<uint32_t>(limited ? g.range(4, 12) : 100000);
  const auto res = limited ? ich.Process(most) : ich.Process();
  if (res == VHACD::ICHullErrorOK)
  {
    VHACD::Mesh im;
    im.ResizePoints(ich.GetMesh().GetNVertices());
    im.ResizeTriangles(ich.GetMesh().GetNTriangles());
    ich.GetMesh().GetIFS(im.GetPointsBuffer(), im.GetTrianglesBuffer());
    const Solid ih = fromMesh(im);
    checkConvex(g, ih, 1e-3 * e, false);
    CHECK(ih.p.size() <= most, << ih.p.size() << " vertices");
    for (const V3& x : ih.p)
      CHECK(isInput(x, 1e-12 * e), << "vertex " << x.transpose() << " is none of the points");
    const double iv = ih.volume();
    if (!limited)
    {
      for (const V3& x : pts.p)
        CHECK(outsideConvex(ih, x) <= 1e-3 * e, << "point " << x.transpose() << " is " << outsideConvex(ih, x) << " outside the incremental hull");
      CHECK_NEAR(iv, vol, 1e-3 * e * e * e, 0, << "the two hulls");
    }
    else
      CHECK(iv > 0 && iv <= vol + 1e-3 * e * e * e, << "volume " << iv << " of " << vol);
    CHECK(!ich.IsFlat(), << "flat");
  }
  else
    g.label("not processed");
  CHECK(limited || res == VHACD::ICHullErrorOK || res == VHACD::ICHullErrorInconsistent, << "error " << res);

  // what is inside
  for (int i = 0; i < 6; ++i)
  {
    V3 x = pts.p[g.index(pts.p.size())] + e * V3(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)) * (i < 3 ? 0.5 : 0.05);
    if (g.boolean())
      x = 0.5 * (x + pts.p[g.index(pts.p.size())]);
    double d = -INFINITY;
    for (auto k : h.t)
    {
      const V3 nrm = (h.p[k[1]] - h.p[k[0]]).cross(h.p[k[2]] - h.p[k[0]]);
      if (nrm.norm() > 1e-9 * e * e)
        d = std::max(d, nrm.dot(x - h.p[k[0]]) / nrm.norm());
    }
    if (std::fabs(d) > 1e-3 * e)
    {
      CHECK(m.IsInside(Vec3<double>(x[0], x[1], x[2])) == (d < 0), << "point " << x.transpose() << " at " << d << " of the surface");
      g.label(d < 0 ? "inside" : "outside");
    }
  }
  // its points on both sides of a plane
  const V3 nrm = V3(g.nonzero(1), g.num(1), g.num(1)).normalized();
  const bool through = g.boolean();
  const V3 o = through ? h.p[0] : V3(c + f * V3(g.num(1), g.num(1), g.num(1)));
  Plane plane{};
  plane.m_a = nrm[0];
  plane.m_b = nrm[1];
  plane.m_c = nrm[2];
  plane.m_d = -nrm.dot(o);
  SArray<Vec3<double>> pos, neg;
  m.Clip(plane, pos, neg);
  size_t np = 0, nn = 0, at = 0;
  for (const V3& x : h.p)
  {
    const double d = plane.m_a * x[0] + plane.m_b * x[1] + plane.m_c * x[2] + plane.m_d;
    const bool edge = std::fabs(d) < 1e-12 * (e + c.norm());
    np += d > 0 && !edge;
    nn += d < 0 && !edge;
    at += edge;
  }
  CHECK(pos.Size() >= np && pos.Size() <= np + at && neg.Size() >= nn && neg.Size() <= nn + at && pos.Size() + neg.Size() >= h.p.size(), << pos.Size() << " and " << neg.Size() << " points instead of " << np << " and " << nn << " with " << at << " in the plane");
  // a point in the plane is on both sides
  {
    const int axis = g.range(0, 2);
    const V3 at0 = h.p[g.index(h.p.size())];
    const double sign = g.boolean() ? 1 : -1;
    Plane q{};
    (axis == 0 ? q.m_a : axis == 1 ? q.m_b : q.m_c) = sign;
    q.m_d = -sign * at0[axis];
    std::vector<V3> side[2];
    for (const V3& x : h.p)
      for (int k = 0; k < 2; ++k)
        if ((k ? -sign : sign) * (x[axis] - at0[axis]) >= 0)
          side[k].push_back(x);
    for (int k = 0; k < 2; ++k)
    {
      SArray<Vec3<double>> got[2];
      m.Clip(q, got[0], got[1]);
      CHECK(got[k].Size() == side[k].size(), << got[k].Size() << " points on side " << k << " instead of " << side[k].size());
      for (size_t i = 0; i < side[k].size(); ++i)
        CHECK((V3(got[k][i][0], got[k][i][1], got[k][i][2]) == side[k][i]), << "point " << i << " of side " << k);
    }
  }
  // the middle of its surface, and its box
  {
    V3 sum = V3::Zero();
    double area = 0;
    for (auto k : h.t)
    {
      const double a = (h.p[k[1]] - h.p[k[0]]).cross(h.p[k[2]] - h.p[k[0]]).norm() / 2;
      sum += a * (h.p[k[0]] + h.p[k[1]] + h.p[k[2]]) / 3;
      area += a;
    }
    const auto got = m.ComputeCenter();
    CHECK((V3(got[0], got[1], got[2]) - sum / area).norm() <= 1e-5 * (e + c.norm()), << "centre " << got[0] << " " << got[1] << " " << got[2] << " instead of " << (sum / area).transpose());
    for (int k = 0; k < 3; ++k)
    {
      CHECK(m.GetCenter()[k] == got[k], << "");
      CHECK(m.GetMinBB()[k] == hlo[k] && m.GetMaxBB()[k] == hhi[k], << "box " << m.GetMinBB()[k] << " to " << m.GetMaxBB()[k] << " instead of " << hlo[k] << " to " << hhi[k]);
    }
  }
}

PBT_CASES(rays, 30000, 300000)
{
  const Solid s = solid(g);
  const double e = s.extent();
  V3 lo, hi;
  s.bounds(lo, hi);
  const auto k = indices(s);
  VHACD::RaycastMesh* m = nullptr;
  Solid used = s;
  if (g.boolean())
  {
    const auto c = coords<double>(s);
    m = VHACD::RaycastMesh::createRaycastMesh(static_cast<uint32_t>(s.p.size()), c.data(), static_cast<uint32_t>(s.t.size()), k.data());
  }
  else
  {
    const auto c = coords<float>(s);
    m = VHACD::RaycastMesh::createRaycastMesh(static_cast<uint32_t>(s.p.size()), c.data(), static_cast<uint32_t>(s.t.size()), k.data());
    for (V3& x : used.p)
      x = x.cast<float>().cast<double>();
  }
  struct Free
  {
    VHACD::RaycastMesh* m;
    ~Free() { m->release(); }
  } guard{ m };
  for (int round = 0; round < 4; ++round)
  {
    auto anywhere = [&] { return V3(lo + (hi - lo).cwiseProduct(V3(g.real(-0.5, 1.5), g.real(-0.5, 1.5), g.real(-0.5, 1.5)))); };
    const V3 from = anywhere();
    const V3 to = g.boolean() ? pointOn(g, s) : anywhere();
    const bool simple = g.boolean();
    const V3 goal = simple ? from : g.boolean() ? to : anywhere();
    const double len = (to - from).norm();
    if (len < 1e-6 * e)
      continue;
    const V3 d = (to - from) / len;
    // the hits, and those that are a matter of rounding
    std::vector<double> sure, maybe;
    for (auto t : used.t)
    {
      const V3 a = used.p[t[0]], b = used.p[t[1]], c = used.p[t[2]];
      const V3 n = (b - a).cross(c - a);
      const double size = std::max({ (b - a).norm(), (c - a).norm(), (c - b).norm() });
      if (n.norm() == 0)
        continue;
      const double across = n.dot(d) / ((b - a).norm() * (c - a).norm());
      const double p = n.dot(a - from) / n.dot(d);
      if (std::fabs(across) < 1e-4)
      {
        // nearly along the triangle
        if (toTriangle(from, a, b, c) < len * 3 || true)
          maybe.push_back(NAN);
        continue;
      }
      const V3 x = from + p * d;
      const double w0 = n.dot((b - a).cross(x - a)) / n.squaredNorm(), w1 = n.dot((c - b).cross(x - b)) / n.squaredNorm(), w2 = n.dot((a - c).cross(x - c)) / n.squaredNorm();
      const double w = std::min({ w0, w1, w2 });
      if (w < -1e-6 || p < -1e-9 * (size + len))
        continue;
      (w > 1e-6 && p > 1e-9 * (size + len) ? sure : maybe).push_back(p);
    }
    if (std::any_of(maybe.begin(), maybe.end(), [](double p) { return std::isnan(p); }))
      continue;
    double best = INFINITY;
    for (double p : sure)
      best = std::min(best, (from + p * d - goal).norm());
    double alt = best;
    for (double p : maybe)
      alt = std::min(alt, (from + p * d - goal).norm());
    const double tol = 1e-7 * (e + len);
    double where[3] = { 1e300, 1e300, 1e300 }, dist = -1;
    const bool wantPlace = !g.chance(1, 8), wantDist = !g.chance(1, 8);
    const bool hit = m->raycast(from.data(), to.data(), goal.data(), wantPlace ? where : nullptr, wantDist ? &dist : nullptr);
    g.log() << "from " << from.transpose() << " to " << to.transpose() << " near " << goal.transpose() << ": " << hit << " with " << sure.size() << " hits\n";
    if (std::fabs(best - len) < tol || std::fabs(alt - len) < tol)
      continue;
    if (best < len)
      CHECK(hit, << "misses the surface at " << best << " of the point");
    if (alt > len)
      CHECK(!hit, << "hits a surface that is " << alt << " away, further than the ray's length " << len);
    if (hit)
    {
      if (wantPlace)
      {
        const V3 x(where[0], where[1], where[2]);
        const double got = (x - goal).norm();
        CHECK(got <= best + tol && got >= alt - tol, << "hit " << got << " from the point although one is at " << best);
        CHECK((x - from - d * d.dot(x - from)).norm() <= tol && d.dot(x - from) >= -tol, << "the hit is not on the ray");
        if (wantDist && simple)
          CHECK_NEAR(dist, got, tol, 0, << "distance");
      }
    }
    else
      CHECK(where[0] == 1e300 && dist == -1, << "a result without a hit");
    if (sure.size() > 1)
      g.nontrivial();
    g.label(sure.empty() ? "no hit" : sure.size() == 1 ? "one hit" : "several hits");
  }
}

PBT_CASES(files, 2000, 10000)
{
  char dir[] = "/tmp/c36.XXXXXX";
  CHECK(mkdtemp(dir) != nullptr, << "");
  const std::string name = std::string(dir) + "/mesh.off";
  struct Cleanup
  {
    std::string f, d;
    ~Cleanup()
    {
      unlink(f.c_str());
      rmdir(d.c_str());
    }
  } cleanup{ name, dir };
  const Solid s = solid(g);
  const double far = [&] { double m = 0; for (const V3& x : s.p) m = std::max(m, x.cwiseAbs().maxCoeff()); return m; }();
  VHACD::Mesh m = toMesh(s);
  CHECK(m.SaveOFF(name), << "not saved");
  const bool invert = g.boolean();
  VHACD::Mesh r;
  CHECK(r.LoadOFF(name, invert), << "not loaded");
  const Solid l = fromMesh(r);
  CHECK(l.p.size() == s.p.size() && l.t.size() == s.t.size(), << "");
  for (size_t i = 0; i < s.p.size(); ++i)
    CHECK((l.p[i] - s.p[i]).norm() <= 1e-5 * far, << "point " << i << " came back as " << l.p[i].transpose());
  for (size_t i = 0; i < s.t.size(); ++i)
    CHECK((l.t[i][0] == s.t[i][0] && l.t[i][invert ? 2 : 1] == s.t[i][1] && l.t[i][invert ? 1 : 2] == s.t[i][2]), << "triangle " << i);
  // the scene with its colours
  {
    const std::string scene = std::string(dir) + "/mesh.wrl";
    VHACD::Material mat;
    const bool own = g.boolean();
    if (own)
    {
      for (int k = 0; k < 3; ++k)
      {
        mat.m_diffuseColor[k] = g.real(0, 1);
        mat.m_specularColor[k] = g.real(0, 1);
        mat.m_emissiveColor[k] = g.real(0, 1);
      }
      mat.m_ambientIntensity = g.real(0, 1);
      mat.m_shininess = g.real(0, 1);
      mat.m_transparency = g.real(0, 1);
      std::ofstream o(scene);
      CHECK(m.SaveVRML2(o, mat), << "not saved");
      o.close();
      CHECK(!m.SaveVRML2(o, mat), << "saved to a closed file");
    }
    else
      CHECK(m.SaveVRML2(scene), << "not saved");
    std::ifstream in(scene);
    std::map<std::string, std::vector<double>> of;
    std::string line, at;
    while (std::getline(in, line))
    {
      for (char& ch : line)
        if (ch == ',' || ch == '[' || ch == ']')
          ch = ' ';
      std::istringstream w(line);
      std::string word;
      while (w >> word)
      {
        char* end = nullptr;
        const double x = std::strtod(word.c_str(), &end);
        if (*end == 0)
          of[at].push_back(x);
        else
          at = word;
      }
    }
    in.close();
    unlink(scene.c_str());
    CHECK(!m.SaveVRML2(std::string(dir) + "/none/mesh.wrl"), << "saved where there is no directory");
    auto same = [&](const char* name, const std::vector<double>& want) {
      const auto& got = of[name];
      CHECK(got.size() == want.size(), << name << ": " << got.size() << " numbers instead of " << want.size());
      for (size_t i = 0; i < want.size(); ++i)
        CHECK(std::fabs(got[i] - want[i]) <= 6e-7, << name << ": " << got[i] << " instead of " << want[i]);
    };
    auto three = [](const Vec3<double>& x) { return std::vector<double>{ x[0], x[1], x[2] }; };
    same("diffuseColor", three(mat.m_diffuseColor));
    same("specularColor", three(mat.m_specularColor));
    same("emissiveColor", three(mat.m_emissiveColor));
    same("ambientIntensity", { mat.m_ambientIntensity });
    same("shininess", { mat.m_shininess });
    same("transparency", { mat.m_transparency });
    same("Vertices:", { static_cast<double>(s.p.size()) });
    same("Triangles:", { static_cast<double>(s.t.size()) });
    std::vector<double> idx;
    for (auto k : s.t)
      for (double x : { double(k[0]), double(k[1]), double(k[2]), -1.0 })
        idx.push_back(x);
    same("coordIndex", idx);
    std::vector<double> xyz = coords<double>(s);
    if (far < 1e3)
      same("point", xyz);
  }
  // cut short or spoilt: refused, nothing is left open
  std::string text;
  {
    FILE* f = fopen(name.c_str(), "r");
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0)
      text.append(buf, n);
    fclose(f);
  }
  const int how = g.range(0, 4);
  std::string bad;
  if (how == 0)
    bad = text.substr(0, text.rfind(' '));  // one number short
  else if (how == 1)
    bad = text.substr(0, g.index(text.find_last_of(' ')));
  else if (how == 2)
    bad = std::string(static_cast<size_t>(g.range(1, 5000)), g.pick(std::vector<char>{ 'O', 'x', '7' })) + text;
  else if (how == 3)
  {
    bad = text;
    const auto at = bad.find_first_of("0123456789", g.index(bad.size() / 2));
    bad[at] = 'z';
  }
  else
    bad = "OFF\n" + std::to_string(-g.range(1, 100)) + text.substr(text.find(' '));
  {
    FILE* f = fopen(name.c_str(), "w");
    fwrite(bad.data(), 1, bad.size(), f);
    fclose(f);
  }
  const int probe = dup(0);
  close(probe);
  VHACD::Mesh q;
  CHECK(!q.LoadOFF(name, invert), << "loaded a malformed file of kind " << how);
  const int after = dup(0);
  close(after);
  CHECK(after == probe, << "the file is still open");
  CHECK(!q.LoadOFF(name + "x", invert), << "loaded a file that is not there");
  g.label("spoilt " + std::to_string(how));
  g.nontrivial();
}

template <size_t N>
void arrayHistory(pbt::Gen& g)
{
  std::vector<SArray<int, N>> a(2);
  std::vector<std::vector<int>> b(2);
  const int n = g.range(1, 40);
  for (int i = 0; i < n; ++i)
  {
    const size_t k = g.index(2);
    SArray<int, N>& x = a[k];
    std::vector<int>& y = b[k];
    const int v = g.range(0, 9);
    switch (g.range(0, 8))
    {
      case 0:
      case 1:
        for (int j = g.range(0, 6); j >= 0; --j)
        {
          x.PushBack(v + j);
          y.push_back(v + j);
        }
        break;
      case 2:
        if (!y.empty())
        {
          x.PopBack();
          y.pop_back();
        }
        break;
      case 3:
      {
        const auto it = std::find(y.begin(), y.end(), v);
        CHECK(x.Insert(v) == (it == y.end()), << "Insert " << v);
        if (it == y.end())
          y.push_back(v);
        break;
      }
      case 4:
      {
        const auto it = std::find(y.begin(), y.end(), v);
        CHECK(x.Erase(v) == (it != y.end()), << "Erase " << v);
        if (it != y.end())
          y.erase(it);
        break;
      }
      case 5:
      {
        const auto size = static_cast<size_t>(g.range(0, 3 * static_cast<int>(N)));
        if (g.boolean())
          x.Allocate(size);
        else
        {
          const size_t old = y.size();
          x.Resize(size);
          y.resize(size);
          for (size_t j = old; j < size; ++j)
            x[j] = y[j] = v;
        }
        break;
      }
      case 6:
        x.Clear();
        y.clear();
        break;
      case 7:
        a[k] = a[1 - k];
        b[k] = b[1 - k];
        g.nontrivial();
        break;
      default:
      {
        SArray<int, N> c(x);
        c.PushBack(7);
        CHECK(c.Size() == y.size() + 1, << "a copy");
        size_t pos = 99;
        CHECK(x.Find(v, pos) == (std::find(y.begin(), y.end(), v) != y.end()), << "Find " << v);
        if (pos < y.size())
          CHECK(static_cast<long>(pos) == std::find(y.begin(), y.end(), v) - y.begin(), << "Find " << v << " at " << pos);
      }
    }
    for (size_t j = 0; j < 2; ++j)
    {
      CHECK(a[j].Size() == b[j].size(), << "size " << a[j].Size() << " instead of " << b[j].size());
      for (size_t l = 0; l < b[j].size(); ++l)
        CHECK(a[j][l] == b[j][l], << "element " << l);
    }
  }
}
PBT_CASES(arrays, 2000, 100000)
{
  if (g.boolean())
    arrayHistory<2>(g);
  else
    arrayHistory<8>(g);
}

PBT_CASES(lists, 2000, 100000)
{
  VHACD::CircularList<int> x;
  std::vector<int> y;  // from the head on
  int next = 0;
  auto check = [&](VHACD::CircularList<int>& l, const char* what) {
    CHECK(l.GetSize() == y.size(), << what << ": size " << l.GetSize() << " instead of " << y.size());
    if (y.empty())
      return;
    const int n = static_cast<int>(y.size());
    auto* e = l.GetHead();
    for (int i = 0; i < 2 * n; ++i)
    {
      CHECK(e->GetData() == y[static_cast<size_t>(i % n)], << what << ": element " << i << " is " << e->GetData());
      CHECK(e->GetNext()->GetPrev() == e, << what << ": links");
      e = e->GetNext();
    }
  };
  const int n = g.range(1, 40);
  for (int i = 0; i < n; ++i)
  {
    switch (g.range(0, 6))
    {
      case 0:
      case 1:
        // behind the head, and the head from then on
        x.Add(next);
        if (y.empty())
          y.push_back(next);
        else
        {
          std::rotate(y.begin(), y.begin() + 1, y.end());
          y.insert(y.begin(), next);
        }
        ++next;
        break;
      case 2:
        CHECK(x.Next() == !y.empty(), << "");
        if (!y.empty())
          std::rotate(y.begin(), y.begin() + 1, y.end());
        break;
      case 3:
        CHECK(x.Prev() == !y.empty(), << "");
        if (!y.empty())
          std::rotate(y.begin(), y.end() - 1, y.end());
        break;
      case 4:
        CHECK(x.Delete() == !y.empty(), << "");
        if (!y.empty())
          y.erase(y.begin());
        break;
      case 5:
        if (y.size() > 1)
        {
          const size_t k = g.index(y.size());
          auto* e = x.GetHead();
          for (size_t j = 0; j < k; ++j)
            e = e->GetNext();
          CHECK(x.Delete(e), << "");
          y.erase(y.begin() + static_cast<long>(k));
        }
        break;
      default:
      {
        g.nontrivial();
        if (g.boolean())
        {
          VHACD::CircularList<int> c;
          c.Add(77);
          c = x;
          check(c, "assigned");
        }
        else
        {
          using L = VHACD::CircularList<int>;
          alignas(L) unsigned char room[sizeof(L)];
          std::fill_n(room, sizeof(L), static_cast<unsigned char>(0x5a));
          asm volatile("" : : "r"(room) : "memory");  // do not leave it out
          L* c = new (room) L(x);
          check(*c, "copied");
          c->~L();
        }
        if (g.chance(1, 4))
        {
          x.Clear();
          y.clear();
        }
      }
    }
    check(x, "list");
  }
}

}  // namespace
