// solids, and what both checks of VHACD need
#pragma once
#include <vhacd/VHACD.h>
#include <vhacd/inc/vhacdCircularList.h>
#include <vhacd/inc/vhacdICHull.h>
#include <vhacd/inc/vhacdMesh.h>
#include <vhacd/inc/vhacdRaycastMesh.h>
#include <vhacd/inc/vhacdVolume.h>

#include <omp.h>
#include <unistd.h>

#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <fstream>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <sstream>
#include <thread>

#include "pbt.h"

namespace
{
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using VHACD::IVHACD;
using VHACD::Plane;
using VHACD::SArray;
using VHACD::Vec3;

struct Solid
{
  std::vector<V3> p;
  std::vector<std::array<uint32_t, 3>> t;  // outwards
  void add(const Solid& o)
  {
    const auto s = static_cast<uint32_t>(p.size());
    p.insert(p.end(), o.p.begin(), o.p.end());
    for (auto k : o.t)
      t.push_back({ k[0] + s, k[1] + s, k[2] + s });
  }
  void bounds(V3& lo, V3& hi) const
  {
    lo = hi = p[0];
    for (const V3& x : p)
    {
      lo = lo.cwiseMin(x);
      hi = hi.cwiseMax(x);
    }
  }
  double extent() const
  {
    V3 lo, hi;
    bounds(lo, hi);
    return (hi - lo).maxCoeff();
  }
  double volume() const
  {
    double v = 0;
    for (auto k : t)
      v += (p[k[0]] - p[0]).dot((p[k[1]] - p[0]).cross(p[k[2]] - p[0])) / 6;
    return v;
  }
};
// distance of a point from a triangle
double toTriangle(const V3& x, const V3& a, const V3& b, const V3& c)
{
  auto seg = [&](const V3& u, const V3& v) {
    const double l = (v - u).squaredNorm();
    const double s = l > 0 ? std::clamp((x - u).dot(v - u) / l, 0.0, 1.0) : 0.0;
    return (x - u - s * (v - u)).norm();
  };
  double d = std::min({ seg(a, b), seg(b, c), seg(c, a) });
  const V3 n = (b - a).cross(c - a);
  if (n.squaredNorm() > 0)
  {
    const bool in = n.dot((b - a).cross(x - a)) >= 0 && n.dot((c - b).cross(x - b)) >= 0 && n.dot((a - c).cross(x - c)) >= 0;
    if (in)
      d = std::min(d, std::fabs((x - a).dot(n)) / n.norm());
  }
  return d;
}
// how far a point is outside a solid (any of its overlapping closed pieces)
double outside(const Solid& s, const V3& x)
{
  double w = 0;
  double d = INFINITY;
  for (auto k : s.t)
  {
    const V3 a = s.p[k[0]] - x, b = s.p[k[1]] - x, c = s.p[k[2]] - x;
    const double la = a.norm(), lb = b.norm(), lc = c.norm();
    w += 2 * std::atan2(a.dot(b.cross(c)), la * lb * lc + a.dot(b) * lc + b.dot(c) * la + c.dot(a) * lb);
    d = std::min(d, toTriangle(x, s.p[k[0]], s.p[k[1]], s.p[k[2]]));
  }
  return w > 2 * M_PI ? 0.0 : d;
}

Solid box(const V3& lo, const V3& hi)
{
  Solid s;
  for (int i = 0; i < 8; ++i)
    s.p.emplace_back(i & 1 ? hi[0] : lo[0], i & 2 ? hi[1] : lo[1], i & 4 ? hi[2] : lo[2]);
  s.t = { { 0, 2, 3 }, { 0, 3, 1 }, { 4, 5, 7 }, { 4, 7, 6 }, { 0, 1, 5 }, { 0, 5, 4 }, { 2, 6, 7 }, { 2, 7, 3 }, { 0, 4, 6 }, { 0, 6, 2 }, { 1, 3, 7 }, { 1, 7, 5 } };
  return s;
}
// a closed surface of n meridians and m parallels around the z axis, with radius r(angle, polar angle)
template <class F>
Solid star(int n, int m, F r)
{
  Solid s;
  auto at = [&](double ph, double th) { return V3(V3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)) * r(ph, th)); };
  s.p.push_back(at(0, 0));
  for (int i = 1; i < m; ++i)
    for (int j = 0; j < n; ++j)
      s.p.push_back(at(2 * M_PI * j / n, M_PI * i / m));
  s.p.push_back(at(0, M_PI));
  auto id = [&](int i, int j) { return static_cast<uint32_t>(1 + (i - 1) * n + (j + n) % n); };
  const auto last = static_cast<uint32_t>(s.p.size() - 1);
  for (int j = 0; j < n; ++j)
  {
    s.t.push_back({ 0, id(1, j), id(1, j + 1) });
    for (int i = 1; i + 1 < m; ++i)
    {
      s.t.push_back({ id(i, j), id(i + 1, j), id(i + 1, j + 1) });
      s.t.push_back({ id(i, j), id(i + 1, j + 1), id(i, j + 1) });
    }
    s.t.push_back({ id(m - 1, j), last, id(m - 1, j + 1) });
  }
  return s;
}
Solid ring(int n, int m, double R, double r)
{
  Solid s;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j)
    {
      const double a = 2 * M_PI * i / n, b = 2 * M_PI * j / m;
      s.p.emplace_back((R + r * std::cos(b)) * std::cos(a), (R + r * std::cos(b)) * std::sin(a), r * std::sin(b));
    }
  auto id = [&](int i, int j) { return static_cast<uint32_t>(((i + n) % n) * m + (j + m) % m); };
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j)
    {
      s.t.push_back({ id(i, j), id(i + 1, j), id(i + 1, j + 1) });
      s.t.push_back({ id(i, j), id(i + 1, j + 1), id(i, j + 1) });
    }
  return s;
}
M3 rotation(pbt::Gen& g)
{
  if (g.boolean())
    return M3::Identity();
  if (g.boolean())
  {
    M3 m;
    m << 0, 0, 1, 1, 0, 0, 0, 1, 0;
    return m;
  }
  return Eigen::Quaterniond(g.nonzero(1), g.num(1), g.num(1), g.num(1)).normalized().toRotationMatrix();
}
const std::vector<double> SIDES = { 1, 1, 2, 0.5, 0.25, 3, 1.3, 0.1 };

Solid solid(pbt::Gen& g, bool move = true)
{
  Solid s;
  const int kind = g.range(0, 7);
  switch (kind)
  {
    case 0:
    {
      const double z = g.chance(1, 4) ? 0.01 : g.pick(SIDES);
      s = box(V3::Zero(), V3(g.pick(SIDES), g.pick(SIDES), z));
      g.label("box");
      break;
    }
    case 1:
    {
      const double a = g.pick(SIDES), b = g.pick(SIDES), c = g.pick(SIDES);
      s = box(V3::Zero(), V3(a, b, c));
      s.add(box(V3(a, 0, 0), V3(a + g.pick(SIDES), b * g.real(1.2, 3), c * g.real(0.3, 1))));
      g.label("L shape");
      break;
    }
    case 2:
    {
      const int n = g.range(1, 3);
      V3 at = V3::Zero();
      for (int i = 0; i <= n; ++i)
      {
        const V3 e(g.real(0.2, 1), g.real(0.2, 1), g.real(0.2, 1));
        s.add(box(at, at + e));
        at += V3(g.boolean() ? e[0] + g.real(0.3, 1) : 0, g.boolean() ? e[1] + g.real(0.3, 1) : 0, e[2] + g.real(0.3, 1));
      }
      g.label("pieces apart");
      break;
    }
    case 3:
    {
      const int n = g.range(3, 8);
      const double h = g.pick(SIDES), top = g.boolean() ? 1 : g.real(0.1, 1.5);
      for (int i = 0; i < 2 * n; ++i)
      {
        const double a = 2 * M_PI * (i % n) / n, r = i < n ? 1 : top;
        s.p.emplace_back(r * std::cos(a), r * std::sin(a), i < n ? 0 : h);
      }
      const auto N = static_cast<uint32_t>(n);
      for (uint32_t i = 0; i < N; ++i)
      {
        const uint32_t j = (i + 1) % N;
        s.t.push_back({ i, j, N + j });
        s.t.push_back({ i, N + j, N + i });
        if (i && j)
        {
          s.t.push_back({ 0, j, i });
          s.t.push_back({ N, N + i, N + j });
        }
      }
      g.label("prism");
      break;
    }
    case 4:
    {
      const double h = g.real(0.3, 2);
      s.p = { V3(0, 0, 0), V3(1, 0, 0), V3(g.num(1), g.real(0.3, 1), 0), V3(g.num(1), g.num(1), h) };
      s.t = { { 0, 2, 1 }, { 0, 1, 3 }, { 1, 2, 3 }, { 2, 0, 3 } };
      g.label("tetrahedron");
      break;
    }
    case 5:
    {
      const double a = g.real(0, 0.45), b = g.range(1, 4), c = g.real(0, 0.4);
      s = star(g.range(5, 14), g.range(4, 10), [&](double ph, double th) { return 1 + a * std::cos(b * ph) * std::sin(th) + c * std::cos(2 * th); });
      g.label("star");
      break;
    }
    case 6:
    {
      // a box with a pit
      const double a = g.pick(SIDES), b = g.pick(SIDES), h = g.pick(SIDES), w = std::min(a, b) * g.real(0.1, 0.4), f = h * g.real(0.1, 0.6);
      for (int k = 0; k < 16; ++k)
      {
        const double in = k < 8 ? 0 : w, z = k < 4 ? 0 : k < 8 || k > 11 ? h : f;
        s.p.emplace_back(k % 4 == 1 || k % 4 == 2 ? a - in : in, k % 4 > 1 ? b - in : in, z);
      }
      s.t = { { 0, 2, 1 }, { 0, 3, 2 }, { 8, 9, 10 }, { 8, 10, 11 } };
      for (uint32_t i = 0; i < 4; ++i)
      {
        const uint32_t j = (i + 1) % 4;
        s.t.push_back({ i, j, 4 + j });
        s.t.push_back({ i, 4 + j, 4 + i });
        s.t.push_back({ 4 + i, 4 + j, 12 + j });
        s.t.push_back({ 4 + i, 12 + j, 12 + i });
        s.t.push_back({ 8 + i, 12 + j, 8 + j });
        s.t.push_back({ 8 + i, 12 + i, 12 + j });
      }
      g.label("pit");
      break;
    }
    default:
      s = ring(g.range(6, 16), g.range(4, 8), 1, g.real(0.15, 0.6));
      g.label("ring");
  }
  if (move)
  {
    const M3 R = rotation(g);
    const double f = g.boolean() ? 1 : g.pick(std::vector<double>{ 0.05, 0.3, 10, 100 });
    const V3 d = g.boolean() ? V3::Zero() : V3(f * g.num(5), f * g.num(5), f * g.num(5));
    for (V3& x : s.p)
      x = f * (R * x) + d;
  }
  g.log() << "solid of " << s.p.size() << " points, " << s.t.size() << " triangles";
  g.log().precision(17);
  if (s.p.size() <= 16)
    for (const V3& x : s.p)
      g.log() << " (" << x[0] << ", " << x[1] << ", " << x[2] << ")";
  g.log() << "\n";
  return s;
}
template <class T>
std::vector<T> coords(const Solid& s)
{
  std::vector<T> c;
  for (const V3& x : s.p)
    for (int i = 0; i < 3; ++i)
      c.push_back(static_cast<T>(x[i]));
  return c;
}
std::vector<uint32_t> indices(const Solid& s)
{
  std::vector<uint32_t> c;
  for (auto k : s.t)
    c.insert(c.end(), k.begin(), k.end());
  return c;
}

struct Hull
{
  Solid s;
  double volume;
  V3 centre;
  bool operator==(const Hull& o) const { return s.p == o.s.p && s.t == o.s.t && volume == o.volume && centre == o.centre; }
};
Hull copyHull(const IVHACD& v, uint32_t i)
{
  IVHACD::ConvexHull h{};
  v.GetConvexHull(i, h);
  Hull r;
  for (uint32_t k = 0; k < h.m_nPoints; ++k)
    r.s.p.emplace_back(h.m_points[3 * k], h.m_points[3 * k + 1], h.m_points[3 * k + 2]);
  for (uint32_t k = 0; k < h.m_nTriangles; ++k)
    r.s.t.push_back({ h.m_triangles[3 * k], h.m_triangles[3 * k + 1], h.m_triangles[3 * k + 2] });
  r.volume = h.m_volume;
  r.centre = V3(h.m_center[0], h.m_center[1], h.m_center[2]);
  return r;
}
std::vector<Hull> hulls(const IVHACD& v)
{
  std::vector<Hull> r;
  const uint32_t n = v.GetNConvexHulls();
  for (uint32_t i = 0; i < n; ++i)
    r.push_back(copyHull(v, i));
  return r;
}
// how far x is outside a convex solid, as far as its faces' planes are known: the hulls are computed in single precision
double outsideConvex(const Solid& h, const V3& x)
{
  double d = 0, far = 0;
  for (const V3& y : h.p)
    far = std::max(far, y.cwiseAbs().maxCoeff());
  for (auto k : h.t)
  {
    const V3 a = h.p[k[1]] - h.p[k[0]], b = h.p[k[2]] - h.p[k[0]];
    const V3 n = a.cross(b);
    if (n.norm() > 1e-4 * far * std::max({ a.norm(), b.norm(), (b - a).norm() }))
      d = std::max(d, n.dot(x - h.p[k[0]]) / n.norm());
  }
  return d;
}
// a closed, consistently oriented surface around a convex solid
void checkConvex(pbt::Gen& g, const Solid& h, double tol, bool allUsed = true)
{
  CHECK(h.p.size() >= 4 && h.t.size() >= 4, << h.p.size() << " points and " << h.t.size() << " triangles");
  std::map<std::pair<uint32_t, uint32_t>, int> edges;
  for (auto k : h.t)
    for (int i = 0; i < 3; ++i)
    {
      const uint32_t a = k[static_cast<size_t>(i)], b = k[static_cast<size_t>((i + 1) % 3)];
      CHECK(a < h.p.size() && b < h.p.size(), << "index out of range");
      CHECK(a != b, << "a triangle uses point " << a << " twice");
      CHECK((++edges[{ a, b }] == 1), << "edge " << a << "-" << b << " is in two triangles the same way round");
    }
  std::set<uint32_t> used;
  for (const auto& e : edges)
  {
    CHECK((edges.count({ e.first.second, e.first.first }) == 1), << "edge " << e.first.first << "-" << e.first.second << " has no other side");
    used.insert(e.first.first);
  }
  CHECK(used.size() == h.p.size() || !allUsed, << h.p.size() - used.size() << " points are in no triangle");
  CHECK(used.size() - edges.size() / 2 + h.t.size() == 2, << "not a single closed surface");
  for (const V3& x : h.p)
  {
    CHECK(x.allFinite(), << "");
    const double d = outsideConvex(h, x);
    CHECK(d <= tol, << "vertex " << x.transpose() << " is " << d << " outside one of the faces (allowed " << tol << ")");
  }
}

VHACD::Mesh toMesh(const Solid& s)
{
  VHACD::Mesh m;
  for (const V3& x : s.p)
    m.AddPoint(Vec3<double>(x[0], x[1], x[2]));
  for (auto k : s.t)
    m.AddTriangle(Vec3<int32_t>(static_cast<int32_t>(k[0]), static_cast<int32_t>(k[1]), static_cast<int32_t>(k[2])));
  return m;
}
Solid fromMesh(const VHACD::Mesh& m)
{
  Solid s;
  for (size_t i = 0; i < m.GetNPoints(); ++i)
    s.p.emplace_back(m.GetPoint(i)[0], m.GetPoint(i)[1], m.GetPoint(i)[2]);
  for (size_t i = 0; i < m.GetNTriangles(); ++i)
  {
    const auto& t = m.GetTriangle(i);
    s.t.push_back({ static_cast<uint32_t>(t[0]), static_cast<uint32_t>(t[1]), static_cast<uint32_t>(t[2]) });
  }
  return s;
}
// by how much the closest axis separates a triangle from the unit box around c (negative: they overlap)
V3 pointOn(pbt::Gen& g, const Solid& s)
{
  const auto& k = s.t[g.index(s.t.size())];
  double a = g.real(0, 1), b = g.real(0, 1);
  if (a + b > 1)
  {
    a = 1 - a;
    b = 1 - b;
  }
  return s.p[k[0]] + a * (s.p[k[1]] - s.p[k[0]]) + b * (s.p[k[2]] - s.p[k[0]]);
}
}  // namespace
