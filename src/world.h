// A world of spheres on the links of a serial robot, a wall and a door that the environment moves; stand-ins for tesseract's
// environment and contact managers whose contacts are known in closed form
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include <tesseract/stub_robot.h>

#include <map>
#include <memory>
#include <set>

#include "pbt.h"
#include "robot.h"

namespace world
{
namespace tc = tesseract::collision;
using tesseract::common::TransformMap;
using CC = tc::ContinuousCollisionType;
using Robot = robot::Chain<>;

struct Ball
{
  std::string link;
  int shape, subshape;
  Eigen::Vector3d at;
  double radius;
};
struct Shapes
{
  std::vector<Ball> balls;
  bool reversed{ false };  // the order of the links in a contact
  // the balls of a pair, in the order of their links in a contact
  std::pair<std::size_t, std::size_t> order(std::size_t i, std::size_t j) const
  {
    return (balls[i].link < balls[j].link) != reversed ? std::make_pair(i, j) : std::make_pair(j, i);
  }
};
// How two balls meet: one state, or while one moves on a straight line relative to the other
inline tc::ContactResult meet(const Ball& a, const Ball& b, const Eigen::Isometry3d& a0, const Eigen::Isometry3d& a1,
                              const Eigen::Isometry3d& b0, const Eigen::Isometry3d& b1, bool a_moves, bool b_moves, bool sweep)
{
  tc::ContactResult r;
  r.link_names = { a.link, b.link };
  r.shape_id = { a.shape, b.shape };
  r.subshape_id = { a.subshape, b.subshape };
  const Eigen::Vector3d ca0 = a0 * a.at, ca1 = a1 * a.at, cb0 = b0 * b.at, cb1 = b1 * b.at;
  const Eigen::Vector3d d0 = cb0 - ca0, d1 = cb1 - ca1, m = d1 - d0;
  double t = 0;
  CC type = CC::CCType_None;
  if (sweep)
  {
    t = m.squaredNorm() < 1e-18 ? 0.5 : std::min(1.0, std::max(0.0, -d0.dot(m) / m.squaredNorm()));
    type = t <= 0 ? CC::CCType_Time0 : t >= 1 ? CC::CCType_Time1 : CC::CCType_Between;
  }
  const Eigen::Vector3d d = d0 + t * m;
  r.distance = d.norm() - a.radius - b.radius;
  r.normal = d.norm() > 1e-12 ? Eigen::Vector3d(d / d.norm()) : Eigen::Vector3d::UnitX();
  const Eigen::Vector3d ca = ca0 + t * (ca1 - ca0), cb = cb0 + t * (cb1 - cb0);
  r.nearest_points = { ca + a.radius * r.normal, cb - b.radius * r.normal };
  r.transform = { a0, b0 };
  r.cc_transform = { a1, b1 };
  const Eigen::Isometry3d& ta = t >= 1 ? a1 : a0;
  const Eigen::Isometry3d& tb = t >= 1 ? b1 : b0;
  r.nearest_points_local = { a.at + ta.linear().transpose() * (a.radius * r.normal),
                             b.at - tb.linear().transpose() * (b.radius * r.normal) };
  if (sweep)
  {
    if (a_moves)
    {
      r.cc_time[0] = t;
      r.cc_type[0] = type;
    }
    if (b_moves)
    {
      r.cc_time[1] = t;
      r.cc_type[1] = type;
    }
  }
  else
    r.cc_transform = { Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() };
  return r;
}
// every pair of balls of two links of which one is active, nearer than `within`
inline void contacts(const Shapes& s, const std::vector<std::string>& active, const TransformMap& p0, const TransformMap& p1,
                     bool sweep, double within, tc::ContactResultMap& out)
{
  auto is = [&](const std::string& l) { return std::find(active.begin(), active.end(), l) != active.end(); };
  for (std::size_t i = 0; i < s.balls.size(); ++i)
    for (std::size_t j = i + 1; j < s.balls.size(); ++j)
    {
      const auto o = s.order(i, j);
      const Ball &a = s.balls[o.first], &b = s.balls[o.second];
      if (a.link == b.link || !(is(a.link) || is(b.link)))
        continue;
      const auto r = meet(a, b, p0.at(a.link), p1.at(a.link), p0.at(b.link), p1.at(b.link), is(a.link), is(b.link), sweep);
      if (r.distance <= within)
        out.addContactResult(tesseract::common::makeOrderedLinkPair(a.link, b.link), r);
    }
}
class Discrete : public tc::DiscreteContactManager
{
public:
  std::shared_ptr<const Shapes> shapes;
  TransformMap poses;
  long* tests;
  void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& pose) override { poses[name] = pose; }
  void contactTest(tc::ContactResultMap& out, const tc::ContactRequest&) override
  {
    ++*tests;
    contacts(*shapes, active, poses, poses, false, margin.getMaxCollisionMargin(), out);
  }
};
class Continuous : public tc::ContinuousContactManager
{
public:
  std::shared_ptr<const Shapes> shapes;
  TransformMap poses0, poses1;
  long* tests;
  void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& pose) override
  {
    poses0[name] = poses1[name] = pose;
  }
  void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& a, const Eigen::Isometry3d& b) override
  {
    poses0[name] = a;
    poses1[name] = b;
  }
  void contactTest(tc::ContactResultMap& out, const tc::ContactRequest&) override
  {
    ++*tests;
    contacts(*shapes, active, poses0, poses1, true, margin.getMaxCollisionMargin(), out);
  }
};
class Env : public tesseract::environment::Environment
{
public:
  std::shared_ptr<const Robot> robot;
  std::shared_ptr<Shapes> shapes = std::make_shared<Shapes>();
  Eigen::Isometry3d door{ Eigen::Isometry3d::Identity() };
  mutable long tests{ 0 };
  TransformMap at(const Eigen::Ref<const Eigen::VectorXd>& q) const
  {
    TransformMap m;
    robot->calcFwdKin(m, q);
    m["door"] = door;
    return m;
  }
  void getLinkTransforms(TransformMap& m, const std::vector<std::string>& joints,
                         const Eigen::Ref<const Eigen::VectorXd>& q) const override
  {
    if (joints != robot->getJointNames())
      throw std::logic_error("the state of the environment asked for by the wrong joints");
    m = at(q);
  }
  std::vector<std::string> getActiveLinkNames() const override
  {
    auto n = robot->getActiveLinkNames();
    n.insert(n.begin(), "door");
    return n;
  }
  std::unique_ptr<tc::DiscreteContactManager> getDiscreteContactManager() const override
  {
    auto m = std::make_unique<Discrete>();
    m->shapes = shapes;
    m->tests = &tests;
    m->poses = at(Eigen::VectorXd::Zero(robot->numJoints()));
    return m;
  }
  std::unique_ptr<tc::ContinuousContactManager> getContinuousContactManager() const override
  {
    auto m = std::make_unique<Continuous>();
    m->shapes = shapes;
    m->tests = &tests;
    m->poses0 = m->poses1 = at(Eigen::VectorXd::Zero(robot->numJoints()));
    return m;
  }
};
// `straight`: only prismatic joints, so that links move on straight lines
inline std::shared_ptr<Env> generate(pbt::Gen& g, int max_joints, bool straight)
{
  auto joints = Robot::generate(g, max_joints);
  for (auto& j : joints)
    j.prismatic |= straight;
  auto r = std::make_shared<Robot>(joints);
  r->wall = robot::genPose(g, 2);
  auto e = std::make_shared<Env>();
  e->robot = r;
  e->door = robot::genPose(g, 2);
  e->shapes->reversed = g.boolean();
  std::vector<std::string> links = r->getActiveLinkNames();
  for (const char* s : { "wall", "door", "floor" })
    links.push_back(s);
  std::map<std::string, int> used;
  const int parts = g.range(0, 2);  // shapes without parts, shapes of two parts, one shape of many contacts
  for (int n = g.range(2, 6); n > 0; --n)
  {
    Ball b;
    b.link = n == 1 ? "l1" : n == 2 ? "wall" : g.pick(links);
    const int k = used[b.link]++;
    b.shape = parts == 2 ? 0 : parts == 1 ? k / 2 : k;
    b.subshape = parts == 1 ? k % 2 : -1;
    b.at = Eigen::Vector3d(g.num(1), g.num(1), g.num(1));
    b.radius = g.real(0.05, 0.6);
    e->shapes->balls.push_back(b);
  }
  return e;
}

// ------------------------------------------------------------------ what a collision evaluator has to find
enum class Kind { single, lvs_discrete, continuous, lvs_continuous };
struct Contact
{
  std::size_t a, b;  // balls
  tesseract::common::LinkNamesPair key;
  std::pair<std::string, std::string> links;
  double distance, margin;
  double time;
  std::array<double, 2> cc_time;
  std::array<CC, 2> type;
  bool kept;
  bool still{ false };  // the distance does not change on the motion
  CC end{ CC::CCType_None };  // where on the motion
  bool operator<(const Contact& o) const
  {
    return std::make_tuple(key, links, a, b, time) < std::make_tuple(o.key, o.links, o.a, o.b, o.time);
  }
};
struct Setting
{
  Kind kind;
  double lvs{ 0.1 };
  bool fixed0{ false }, fixed1{ false };
  bool dynamic{ false };
  double margin{ 0 }, buffer{ 0 };
  std::map<std::set<std::string>, double> margins, coeffs;
  double coeff{ 1 };
  Eigen::Isometry3d first_door{ Eigen::Isometry3d::Identity() };
  double marginOf(const std::string& a, const std::string& b) const
  {
    auto it = margins.find({ a, b });
    return it == margins.end() ? margin : it->second;
  }
  double coeffOf(const std::string& a, const std::string& b) const
  {
    auto it = coeffs.find({ a, b });
    return it == coeffs.end() ? coeff : it->second;
  }
};
inline std::vector<Contact> expected(const Env& env, const Setting& s, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1)
{
  const auto active = env.robot->getActiveLinkNames();
  auto is = [&](const std::string& l) { return std::find(active.begin(), active.end(), l) != active.end(); };
  auto poses = [&](double t) {
    TransformMap m = env.at(q0 + t * (q1 - q0));
    if (!s.dynamic)
      m["door"] = s.first_door;
    return m;
  };
  long segments = 1;
  const double dist = (q1 - q0).norm();
  if (s.kind == Kind::lvs_discrete || s.kind == Kind::lvs_continuous)
  {
    const double n = dist / s.lvs;
    if (n > 0.5 && std::fabs(n - std::round(n)) < 1e-6)
      throw pbt::Discard();
    if (dist > s.lvs)
      segments = static_cast<long>(std::ceil(n));
  }
  const bool sweep = s.kind == Kind::continuous || s.kind == Kind::lvs_continuous;
  const long checks = s.kind == Kind::single ? 1 : sweep ? segments : segments + 1;
  std::vector<Contact> out;
  const auto& balls = env.shapes->balls;
  for (long k = 0; k < checks; ++k)
  {
    const double t0 = double(k) / double(segments);
    const TransformMap p0 = poses(t0), p1 = sweep ? poses(double(k + 1) / double(segments)) : p0;
    for (std::size_t i = 0; i < balls.size(); ++i)
      for (std::size_t j = i + 1; j < balls.size(); ++j)
      {
        Contact c;
        std::tie(c.a, c.b) = env.shapes->order(i, j);
        const Ball &a = balls[c.a], &b = balls[c.b];
        if (a.link == b.link || !(is(a.link) || is(b.link)))
          continue;
        c.key = tesseract::common::makeOrderedLinkPair(a.link, b.link);
        c.links = { a.link, b.link };
        c.margin = s.marginOf(a.link, b.link);
        const auto r = meet(a, b, p0.at(a.link), p1.at(a.link), p0.at(b.link), p1.at(b.link), true, true, sweep);
        c.distance = r.distance;
        if (r.distance + a.radius + b.radius < 1e-3)  // no direction
          throw pbt::Discard();
        if (std::fabs(r.distance - c.margin - s.buffer) < 1e-6)
          throw pbt::Discard();
        c.still = sweep && ((p1.at(b.link) * b.at - p1.at(a.link) * a.at) - (p0.at(b.link) * b.at - p0.at(a.link) * a.at)).norm() < 1e-3;
        const double local = sweep ? r.cc_time[0] : 0;
        if (sweep && ((local > 0 && local < 1e-6) || (local < 1 && local > 1 - 1e-6)))
          throw pbt::Discard();
        c.time = t0 + local / double(segments);
        if (s.kind == Kind::single)
          c.end = CC::CCType_None;
        else if (k == 0 && local == 0)
          c.end = CC::CCType_Time0;
        else if (k == checks - 1 && (!sweep || local == 1))
          c.end = CC::CCType_Time1;
        else
          c.end = CC::CCType_Between;
        c.cc_time = { -1, -1 };
        c.type = { CC::CCType_None, CC::CCType_None };
        for (std::size_t e = 0; e < 2; ++e)
          if (s.kind != Kind::single && is(e == 0 ? a.link : b.link))
          {
            c.cc_time[e] = c.time;
            c.type[e] = c.end;
          }
        auto z = s.coeffs.find({ a.link, b.link });
        c.kept = r.distance <= c.margin + s.buffer && !(z != s.coeffs.end() && z->second == 0) &&
                 !(s.fixed0 && c.end == CC::CCType_Time0) && !(s.fixed1 && c.end == CC::CCType_Time1);
        out.push_back(c);
      }
  }
  return out;
}
// how margin - distance of a contact changes with the joints at its time
inline Eigen::VectorXd slope(const Env& env, const Setting& s, const Contact& c, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1)
{
  const Eigen::VectorXd q = q0 + c.time * (q1 - q0);
  const Ball &a = env.shapes->balls[c.a], &b = env.shapes->balls[c.b];
  auto gap = [&](const Eigen::VectorXd& x) {
    TransformMap m = env.at(x);
    if (!s.dynamic)
      m["door"] = s.first_door;
    return (m.at(b.link) * b.at - m.at(a.link) * a.at).eval();
  };
  const Eigen::Vector3d g0 = gap(q);
  Eigen::VectorXd d(q.size());
  const double h = 1e-5;
  for (long i = 0; i < q.size(); ++i)
  {
    Eigen::VectorXd lo = q, hi = q;
    lo[i] -= h;
    hi[i] += h;
    d[i] = -(gap(hi) - gap(lo)).dot(g0.normalized()) / (2 * h);
  }
  return d;
}
}  // namespace world
#endif
