// C30: from a problem description to the optimization problem: variables, bounds, initial values, fixed values and every term
#include <json/json.h>
#include <trajopt/problem_description.hpp>
#include <trajopt/utils.hpp>

#include <algorithm>
#include <set>

#include "collision_case.h"
#include "local_model.h"

PBT_PROPERTY("C30",
             "Cases: a generated world and robot, and a problem description in JSON (or put together in code) with steps, limits, times, "
             "fixed steps and joints, an initialization and up to five costs and constraints of every registered type with any of their "
             "optional fields left out; the problem constructed is compared with one worked out from the description: names, bounds, "
             "initial values, closest feasible point, and names, values and local models of all terms at random trajectories. Descriptions "
             "with one error are to be refused. Non-trivial: at least two terms, or an error in a description with terms.");

using namespace trajopt;
using namespace world;
using Eigen::Isometry3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
using sco::DblVec;

namespace
{
// ---------------------------------------------------------------- the world
struct World : Env
{
  std::vector<double> now;
  std::shared_ptr<const tesseract::kinematics::JointGroup> getJointGroup(const std::string& name) const override
  {
    return name == "manip" ? robot : nullptr;
  }
  tesseract::scene_graph::SceneState getState() const override
  {
    tesseract::scene_graph::SceneState s;
    s.joints["another"] = 99;
    const auto names = robot->getJointNames();
    for (std::size_t i = 0; i < names.size(); ++i)
      s.joints[names[i]] = now[i];
    return s;
  }
};
std::shared_ptr<World> genWorld(pbt::Gen& g, bool straight)
{
  const auto e = generate(g, 3, straight);
  auto w = std::make_shared<World>();
  auto r = std::make_shared<Robot>(e->robot->joints);
  r->wall = e->robot->wall;
  const long n = r->numJoints();
  r->limits.resize(n, 2);
  for (long i = 0; i < n; ++i)
  {
    r->limits(i, 0) = -g.real(1.0, 4.0);
    r->limits(i, 1) = g.real(1.0, 4.0);
    w->now.push_back(g.num(1));
  }
  if (g.boolean())
    for (long i = 0; i < n; ++i)
      r->names.push_back("joint_" + std::string(1, static_cast<char>('z' - i)));
  w->robot = r;
  w->shapes = e->shapes;
  w->door = e->door;
  return w;
}

// ---------------------------------------------------------------- what is expected of a term
enum class Sort { abs, hinge, squared, eq, ineq };
using Errors = std::function<DblVec(const MatrixXd&)>;  // of a trajectory
struct Item
{
  std::vector<std::string> names;  // allowed ones
  Sort sort;
  Errors errors;
  std::function<DblVec(const MatrixXd&)> weights;  // one per error
  bool exact_model{ true };
  int frozen{ -1 };  // the step the local model does not vary with
  bool maybe_squared{ false };  // value of an equality (C18's finding)
  std::function<bool(const MatrixXd&, const MatrixXd&)> kink;  // between two near trajectories
  bool cost() const { return sort != Sort::eq && sort != Sort::ineq; }
  double value(const MatrixXd& t, bool square = false) const
  {
    const DblVec e = errors(t), w = weights(t);
    double v = 0;
    for (std::size_t i = 0; i < e.size(); ++i)
      switch (sort)
      {
        case Sort::abs:
          v += w[i] * std::fabs(e[i]);
          break;
        case Sort::hinge:
          v += w[i] * std::max(0.0, e[i]);
          break;
        case Sort::squared:
          v += w[i] * e[i] * e[i];
          break;
        case Sort::eq:
          v += w[i] * (square ? e[i] * e[i] : std::fabs(e[i]));
          break;
        case Sort::ineq:
          v += w[i] * std::max(0.0, e[i]);
      }
    return v;
  }
};
std::function<DblVec(const MatrixXd&)> constant(const DblVec& w)
{
  return [w](const MatrixXd&) { return w; };
}
struct Desc
{
  std::shared_ptr<World> world;
  bool straight;
  Json::Value root;
  int n, dof;
  bool time{ false };
  double dt_low{ 1 }, dt_up{ 1 };
  MatrixXd init;
  std::vector<int> fixed_steps, fixed_dofs;
  std::vector<Item> costs, cnts;
  std::vector<std::string> types;
  int cols() const { return dof + (time ? 1 : 0); }
};

Json::Value arr(const DblVec& v)
{
  Json::Value a(Json::arrayValue);
  for (double d : v)
    a.append(d);
  return a;
}
Json::Value arr(const std::vector<int>& v)
{
  Json::Value a(Json::arrayValue);
  for (int d : v)
    a.append(d);
  return a;
}
Json::Value vec(const VectorXd& v) { return arr(DblVec(v.data(), v.data() + v.size())); }

// ---------------------------------------------------------------- poses
VectorXd relative(const Isometry3d& a, const Isometry3d& b)
{
  VectorXd e(6);
  e.head<3>() = a.linear().transpose() * (b.translation() - a.translation());
  const Eigen::Quaterniond q(Eigen::Matrix3d(a.linear().transpose() * b.linear()));
  const double n = q.vec().norm(), angle = 2 * std::atan2(n, std::fabs(q.w()));
  if (angle > 3.0)
    throw pbt::Discard();
  e.tail<3>() = n < 1e-12 ? Vector3d(2 * q.vec()) : Vector3d(q.vec() / n * angle * (q.w() < 0 ? -1 : 1));
  return e;
}
struct Pose
{
  int step;
  std::string source, target;
  Isometry3d source_offset{ Isometry3d::Identity() }, target_offset{ Isometry3d::Identity() };
  Vector3d pos{ 1, 1, 1 }, rot{ 1, 1, 1 };
  VectorXd lower, upper;
  bool dynamic;
};
Isometry3d genOffset(pbt::Gen& g, Json::Value& params, const std::string& key)
{
  Isometry3d t = Isometry3d::Identity();
  const int what = g.range(0, 3);
  if (what & 1)
  {
    t.translation() = Vector3d(g.num(1), g.num(1), g.num(1));
    params[key + "_xyz"] = vec(t.translation());
  }
  if (what & 2)
  {
    const Eigen::Quaterniond q(robot::genPose(g).linear());
    t.linear() = q.toRotationMatrix();
    params[key + "_wxyz"] = arr(DblVec{ q.w(), q.x(), q.y(), q.z() });
  }
  return t;
}
Vector3d genCoeffs(pbt::Gen& g)
{
  Vector3d c;
  for (int i = 0; i < 3; ++i)
    c[i] = g.chance(1, 4) ? 0.0 : g.real(0.1, 10.0);
  return c;
}
Item poseItem(const Desc& d, const Pose& p, Sort sort)
{
  Item it;
  it.sort = sort;
  DblVec w;
  std::vector<int> used;
  for (int i = 0; i < 6; ++i)
  {
    const double c = i < 3 ? p.pos[i] : p.rot[i - 3];
    if (std::fabs(c) > 1e-5)
    {
      used.push_back(i);
      w.push_back(c);
    }
  }
  it.weights = constant(w);
  const auto r = d.world->robot;
  const int dof = d.dof;
  it.errors = [=](const MatrixXd& t) {
    const auto m = r->calcFwdKin(VectorXd(t.row(p.step).head(dof).transpose()));
    const Isometry3d s = m.at(p.source) * p.source_offset, o = m.at(p.target) * p.target_offset;
    const VectorXd e = !p.dynamic && r->isActiveLinkName(p.target) ? relative(s, o) : relative(o, s);
    DblVec out;
    for (int k : used)
    {
      double v = e[k];
      if (p.lower.size())
        v = v > p.upper[k] ? v - p.upper[k] : v < p.lower[k] ? v - p.lower[k] : 0;
      out.push_back(v);
    }
    return out;
  };
  return it;
}
const std::vector<std::string>& still()
{
  static const std::vector<std::string> l{ "base", "wall", "floor" };
  return l;
}
Pose genFrames(pbt::Gen& g, const Desc& d, bool dynamic)
{
  Pose p;
  p.dynamic = dynamic;
  const auto active = d.world->robot->getActiveLinkNames();
  p.source = g.pick(active);
  p.target = dynamic ? g.pick(active) : g.pick(still());
  if (!dynamic && g.boolean())
    std::swap(p.source, p.target);
  return p;
}

// ---------------------------------------------------------------- joint terms
struct Joint
{
  DblVec coeffs, targets, upper, lower;
  int first, last;
};
// the range a joint term of this order works on; false if there is none
bool range(const Desc& d, int order, int& first, int& last)
{
  if (last <= -1)
    last = d.n - 1;
  first = std::min(first, d.n - 1 - order);
  last = std::min(last, d.n - 1);
  if (order > 0 && last == first)
    last += order;
  if (last < first)
    std::swap(first, last);
  return first >= 0 && last - first >= order;
}
double difference(const MatrixXd& t, int i, int j, int order)
{
  static const double c[4][4] = { { 1, 0, 0, 0 }, { -1, 1, 0, 0 }, { 1, -2, 1, 0 }, { -1, 3, -3, 1 } };
  double v = 0;
  for (int a = 0; a <= order; ++a)
    v += c[order][a] * t(i + a, j);
  return v;
}
bool zero(const DblVec& v)
{
  return std::all_of(v.begin(), v.end(), [](double d) { return d == 0; });
}
void jointItems(const Desc& d, const Joint& t, int order, bool timed, bool cost, const std::string& name, std::vector<Item>& out)
{
  const bool exact = zero(t.upper) && zero(t.lower);
  const Sort sort = cost ? (exact ? Sort::squared : Sort::hinge) : (exact ? Sort::eq : Sort::ineq);
  const int dof = d.dof;
  if (timed)
  {
    for (int j = 0; j < dof; ++j)
    {
      Item it;
      it.names = { name + "_j" + std::to_string(j) };
      it.sort = sort;
      const std::size_t k = static_cast<std::size_t>(j);
      it.weights = constant(DblVec(static_cast<std::size_t>(2 * (t.last - t.first)), t.coeffs[k]));
      it.errors = [=](const MatrixXd& x) {
        DblVec e;
        for (int i = t.first; i < t.last; ++i)
        {
          const double v = (x(i + 1, j) - x(i, j)) * x(i + 1, dof);
          e.push_back(v - t.targets[k] - t.upper[k]);
          e.push_back(t.targets[k] + t.lower[k] - v);
        }
        return e;
      };
      out.push_back(it);
    }
    return;
  }
  Item it;
  it.names = { name };
  it.sort = sort;
  it.maybe_squared = !cost && exact;
  DblVec w;
  for (int i = t.first; i + order <= t.last; ++i)
    for (int j = 0; j < dof; ++j)
      for (int side = 0; side < (exact ? 1 : 2); ++side)
        w.push_back(t.coeffs[static_cast<std::size_t>(j)]);
  it.weights = constant(w);
  it.errors = [=](const MatrixXd& x) {
    DblVec e;
    for (int i = t.first; i + order <= t.last; ++i)
      for (int j = 0; j < dof; ++j)
      {
        const std::size_t k = static_cast<std::size_t>(j);
        const double v = difference(x, i, j, order) - t.targets[k];
        if (exact)
          e.push_back(v);
        else
        {
          e.push_back(v - t.upper[k]);
          e.push_back(t.lower[k] - v);
        }
      }
    return e;
  };
  out.push_back(it);
}
// one per joint, or one for all
DblVec genPerJoint(pbt::Gen& g, Json::Value& params, const char* key, int dof, bool optional, double missing, double low, double high)
{
  if (optional && g.chance(1, 3))
    return DblVec(static_cast<std::size_t>(dof), missing);
  DblVec v(static_cast<std::size_t>(g.chance(1, 4) ? 1 : dof));
  const bool zeros = g.chance(1, 6);
  for (double& x : v)
    x = zeros ? 0 : g.real(low, high);
  params[key] = arr(v);
  if (v.size() == 1)
    v.assign(static_cast<std::size_t>(dof), v[0]);
  return v;
}
Joint genJoint(pbt::Gen& g, const Desc& d, int order, Json::Value& params)
{
  Joint t;
  t.targets = genPerJoint(g, params, "targets", d.dof, false, 0, -2, 2);
  t.coeffs = genPerJoint(g, params, "coeffs", d.dof, true, 1, 0.1, 10);
  t.upper.assign(static_cast<std::size_t>(d.dof), 0);
  t.lower = t.upper;
  if (g.boolean())
  {
    t.upper = genPerJoint(g, params, "upper_tols", d.dof, true, 0, 0.01, 1);
    t.lower = genPerJoint(g, params, "lower_tols", d.dof, true, 0, -1, -0.01);
  }
  t.first = 0;
  t.last = d.n - 1;
  for (int tries = 0; g.boolean() && tries < 5; ++tries)
  {
    int first = g.range(0, d.n), last = g.range(-1, d.n);
    const int f = first, l = last;
    if (!range(d, order, first, last))
      continue;
    params["first_step"] = f;
    params["last_step"] = l;
    t.first = first;
    t.last = last;
    break;
  }
  return t;
}

// ---------------------------------------------------------------- collisions
void collisionItems(const Desc& d, const Setting& s, int first, int last, const std::vector<int>& fixed, bool cost, const std::string& name,
                    std::vector<Item>& out)
{
  const bool two = s.kind != Kind::single;
  auto is = [&](int i) { return std::find(fixed.begin(), fixed.end(), i) != fixed.end(); };
  for (int i = first; i <= (two ? last - 1 : last); ++i)
  {
    if (!two && is(i))
      continue;
    Setting k = s;
    k.fixed0 = two && is(i);
    k.fixed1 = two && !is(i) && is(i + 1);
    Item it;
    it.names = { name + "_" + std::to_string(i) };
    it.sort = cost ? Sort::hinge : Sort::ineq;
    const auto w = d.world;
    const int dof = d.dof;
    auto all = [=](const MatrixXd& t) {
      std::vector<std::pair<double, double>> o;
      const VectorXd q0 = t.row(i).head(dof).transpose(), q1 = t.row(two ? i + 1 : i).head(dof).transpose();
      for (const Contact& c : expected(*w, k, q0, q1))
        if (c.kept)
          o.emplace_back(c.margin - c.distance, k.coeffOf(w->shapes->balls[c.a].link, w->shapes->balls[c.b].link));
      return o;
    };
    it.kink = [=](const MatrixXd& a, const MatrixXd& b) {
      const auto of = [&](const MatrixXd& t) {
        return expected(*w, k, t.row(i).head(dof).transpose(), t.row(two ? i + 1 : i).head(dof).transpose());
      };
      const auto ca = of(a), cb = of(b);
      if (ca.size() != cb.size())
        return true;
      for (std::size_t c = 0; c < ca.size(); ++c)
        if (ca[c].still || ca[c].kept != cb[c].kept || ca[c].end != cb[c].end)
          return true;
      return false;
    };
    it.errors = [=](const MatrixXd& t) {
      DblVec e;
      for (const auto& p : all(t))
        e.push_back(p.first);
      return e;
    };
    it.weights = [=](const MatrixXd& t) {
      DblVec e;
      for (const auto& p : all(t))
        e.push_back(p.second);
      return e;
    };
    it.exact_model = !two || d.straight;
    it.frozen = k.fixed0 ? i : k.fixed1 ? i + 1 : -1;
    out.push_back(it);
  }
}
void genCollision(pbt::Gen& g, const Desc& d, Json::Value& params, bool cost, const std::string& name, std::vector<Item>& out)
{
  Setting s;
  s.first_door = d.world->door;
  const int type = g.range(1, 4);
  const bool omitted = type == 1 && g.boolean();
  s.kind = type == 1 ? Kind::single : type == 2 ? Kind::lvs_discrete : type == 3 ? Kind::continuous : Kind::lvs_continuous;
  if (!omitted)
    params["evaluator_type"] = type;
  s.lvs = 0.5;
  if (g.boolean())
    params["longest_valid_segment_length"] = s.lvs = g.real(0.3, 5.0);
  s.buffer = 0.5;
  if (g.boolean())
    params["safety_margin_buffer"] = s.buffer = g.chance(1, 3) ? 0.0 : g.real(0.01, 1.0);
  params["coeffs"] = s.coeff = g.real(0.5, 20.0);
  params["dist_pen"] = s.margin = g.real(0.0, 1.0);
  int first = 0, last = d.n - 1;
  if (g.boolean())
    params["first_step"] = first = g.range(0, d.n - 1);
  if (first > 0 || g.boolean())
    params["last_step"] = last = g.range(first, d.n - 1);
  std::vector<int> fixed;
  for (int i = first; i <= last; ++i)
    if ((fixed.empty() || fixed.back() < i - 1) && g.chance(1, 5))
      fixed.push_back(i);
  if (!fixed.empty() || g.boolean())
    params["fixed_steps"] = arr(fixed);
  if (g.boolean())
    params["contact_test_type"] = g.range(0, 2);
  if (g.boolean())
    params["type"] = "whatever";
  auto links = d.world->robot->getActiveLinkNames();
  for (const char* n : { "wall", "door", "floor" })
    links.push_back(n);
  if (g.chance(1, 3))
  {
    Json::Value pairs(Json::arrayValue);
    for (int n = g.range(1, 2); n > 0; --n)
    {
      Json::Value p;
      const std::string a = g.pick(links);
      p["link"] = a;
      const double c = g.chance(1, 4) ? 0.0 : g.real(0.5, 20.0), m = g.real(-0.5, 1.5);
      p["coeffs"] = c;
      p["dist_pen"] = m;
      for (int k = g.range(1, 2); k > 0; --k)
      {
        const std::string b = g.pick(links);
        p["pair"].append(b);
        s.margins[{ a, b }] = m;
        s.coeffs[{ a, b }] = c;
      }
      pairs.append(p);
    }
    params["pairs"] = pairs;
  }
  collisionItems(d, s, first, last, fixed, cost, name, out);
}

// ---------------------------------------------------------------- a description
void genTerm(pbt::Gen& g, Desc& d, bool cost)
{
  static const std::vector<std::string> untimed{ "cart_pose", "dynamic_cart_pose", "cart_vel", "joint_pos", "joint_vel",
                                                 "joint_acc", "joint_jerk", "collision" };
  Json::Value t, params(Json::objectValue);
  const bool timed = d.time && g.boolean();
  std::string type = timed ? g.pick(std::vector<std::string>{ "joint_vel", "total_time", "joint_pos" }) : g.pick(untimed);
  t["type"] = type;
  d.types.push_back(type);
  std::string name = type;
  if (g.chance(2, 3))
    t["name"] = name = "term" + std::to_string(g.range(0, 20));
  if (timed)
    t["use_time"] = true;
  else if (g.chance(1, 4))
    t["use_time"] = false;
  std::vector<Item>& out = cost ? d.costs : d.cnts;
  if (type == "cart_pose" || type == "dynamic_cart_pose")
  {
    Pose p = genFrames(g, d, type == "dynamic_cart_pose");
    params["source_frame"] = p.source;
    params["target_frame"] = p.target;
    p.step = d.n - 1;
    if (g.chance(3, 4))
      params["timestep"] = p.step = g.range(0, d.n - 1);
    p.source_offset = genOffset(g, params, "source_frame_offset");
    p.target_offset = genOffset(g, params, "target_frame_offset");
    if (g.boolean())
      params["pos_coeffs"] = vec(p.pos = genCoeffs(g));
    if (g.boolean())
      params["rot_coeffs"] = vec(p.rot = genCoeffs(g));
    Item it = poseItem(d, p, cost ? Sort::abs : Sort::eq);
    it.names = { name };
    out.push_back(it);
  }
  else if (type == "cart_vel")
  {
    const int first = g.range(0, d.n - 2), last = g.range(first + 1, d.n - 1);
    const double max = g.real(0.0, 0.8);
    const std::string link = g.pick(d.world->robot->getActiveLinkNames());
    params["first_step"] = first;
    params["last_step"] = last;
    params["max_displacement"] = max;
    params["link"] = link;
    for (int i = first; i <= std::min(last, d.n - 2); ++i)
    {
      Item it;
      it.names = { name };
      if (!cost)
        it.names.push_back("CartVel");
      it.sort = cost ? Sort::abs : Sort::ineq;
      it.weights = constant(DblVec(6, 1.0));
      const auto r = d.world->robot;
      const int dof = d.dof;
      it.errors = [=](const MatrixXd& t) {
        auto at = [&](int k) { return r->calcFwdKin(VectorXd(t.row(k).head(dof).transpose())).at(link).translation().eval(); };
        const Vector3d m = at(i + 1) - at(i);
        DblVec e;
        for (int k = 0; k < 3; ++k)
        {
          e.push_back(m[k] - max);
          e.push_back(-m[k] - max);
        }
        return e;
      };
      out.push_back(it);
    }
  }
  else if (type == "collision")
    genCollision(g, d, params, cost, name, out);
  else if (type == "total_time")
  {
    double coeff = 1, limit = 1;
    if (g.chance(2, 3))
      params["coeff"] = coeff = g.real(0.1, 10.0);
    if (g.chance(2, 3))
      params["limit"] = limit = g.chance(1, 3) ? 0.0 : g.real(0.1, 3.0);
    Item it;
    it.names = { name };
    it.sort = limit == 0 ? (cost ? Sort::squared : Sort::eq) : (cost ? Sort::hinge : Sort::ineq);
    it.weights = constant({ coeff });
    const int dof = d.dof;
    it.errors = [=](const MatrixXd& t) {
      double v = -limit;
      for (long i = 1; i < t.rows(); ++i)
        v += 1 / t(i, dof);
      return DblVec{ v };
    };
    out.push_back(it);
  }
  else
  {
    const int order = type == "joint_pos" ? 0 : type == "joint_vel" ? 1 : type == "joint_acc" ? 2 : 3;
    const Joint j = genJoint(g, d, order, params);
    if ((order == 1 || order == 2) && g.chance(1, 5))
      params["use_time"] = true;  // accepted there, and of no meaning
    jointItems(d, j, order, timed && order == 1, cost, name, out);
  }
  t["params"] = params;
  d.root[cost ? "costs" : "constraints"].append(t);
}
Desc genDesc(pbt::Gen& g, int min_terms = 0)
{
  Desc d;
  d.straight = g.boolean();
  d.world = genWorld(g, d.straight);
  d.dof = static_cast<int>(d.world->robot->numJoints());
  d.n = g.range(4, 6);
  d.time = g.chance(1, 3);
  Json::Value b;
  b["n_steps"] = d.n;
  b["manip"] = "manip";
  if (g.boolean())
    b["dt_lower_lim"] = d.dt_low = g.real(0.1, 0.9);
  if (g.boolean())
    b["dt_upper_lim"] = d.dt_up = g.real(1.0, 5.0);
  if (d.dt_low == 1 && d.dt_up != 1)
    d.dt_low = 1;
  if (g.chance(1, 2))
    b["use_time"] = d.time;
  if (g.chance(1, 4))
    b["convex_solver"] = "BPMPD";
  for (int i = 0; i < d.n; ++i)
    if (g.chance(1, 5))
      d.fixed_steps.push_back(i);
  for (int j = 0; j < d.cols(); ++j)
    if (g.chance(1, 6))
      d.fixed_dofs.push_back(j);
  if (g.boolean())
  {
    std::reverse(d.fixed_steps.begin(), d.fixed_steps.end());
    std::reverse(d.fixed_dofs.begin(), d.fixed_dofs.end());
  }
  if (!d.fixed_steps.empty() || g.boolean())
    b["fixed_timesteps"] = arr(d.fixed_steps);
  if (!d.fixed_dofs.empty() || g.boolean())
    b["fixed_dofs"] = arr(d.fixed_dofs);
  d.root["basic_info"] = b;
  if (d.time)  // at least one term that uses it
  {
    Json::Value t;
    t["type"] = "total_time";
    t["use_time"] = true;
    t["params"]["limit"] = 0.5;
    d.root["costs"].append(t);
    d.types.push_back("total_time");
    Item it;
    it.names = { "total_time" };
    it.sort = Sort::hinge;
    it.weights = constant({ 1 });
    const int dof = d.dof;
    it.errors = [=](const MatrixXd& x) {
      double v = -0.5;
      for (long i = 1; i < x.rows(); ++i)
        v += 1 / x(i, dof);
      return DblVec{ v };
    };
    d.costs.push_back(it);
  }
  for (int n = g.range(min_terms, 5); n > 0; --n)
    genTerm(g, d, g.boolean());
  // initialization
  Json::Value i;
  MatrixXd t(d.n, d.dof);
  const VectorXd now = Eigen::Map<const VectorXd>(d.world->now.data(), d.dof);
  switch (g.range(0, 2))
  {
    case 0:
      i["type"] = g.pick(std::vector<std::string>{ "stationary", "STATIONARY" });
      t = now.transpose().replicate(d.n, 1);
      break;
    case 1:
    {
      i["type"] = "joint_interpolated";
      VectorXd end(d.dof);
      for (int j = 0; j < d.dof; ++j)
        end[j] = g.num(1);
      i["endpoint"] = vec(end);
      for (int k = 0; k < d.n; ++k)
        t.row(k) = (now + double(k) / (d.n - 1) * (end - now)).transpose();
      break;
    }
    default:
      i["type"] = "given_traj";
      for (int k = 0; k < d.n; ++k)
      {
        for (int j = 0; j < d.dof; ++j)
          t(k, j) = g.num(1);
        i["data"].append(vec(VectorXd(t.row(k).transpose())));
      }
  }
  double dt = 1;
  if (g.boolean())
    i["dt"] = dt = g.real(d.dt_low, d.dt_up);
  d.root["init_info"] = i;
  d.init.resize(d.n, d.cols());
  d.init.leftCols(d.dof) = t;
  if (d.time)
    d.init.col(d.dof).setConstant(dt);
  g.log() << d.root.toStyledString() << "joints now " << now.transpose() << "\n";
  return d;
}

// ---------------------------------------------------------------- a problem against what was expected
void compareItem(pbt::Gen& g, const Item& it, const Desc& d, const sco::Cost::Ptr& cost, const sco::Constraint::Ptr& cnt)
{
  const std::string got_name = cost ? cost->name() : cnt->name();
  CHECK(std::find(it.names.begin(), it.names.end(), got_name) != it.names.end(), << "a term named " << got_name << " instead of " << it.names[0]);
  if (cnt)
    CHECK(cnt->type() == (it.sort == Sort::eq ? sco::EQ : sco::INEQ), << "the type of " << got_name);
  for (int k = 0; k < 2; ++k)
    try
    {
      MatrixXd t(d.n, d.cols());
      for (int i = 0; i < d.n; ++i)
      {
        for (int j = 0; j < d.dof; ++j)
          t(i, j) = g.num(2);
        if (d.time)
          t(i, d.dof) = g.real(0.2, 4.0);
      }
      const DblVec x = trajToDblVec(t);
      const double want = it.value(t);
      const double got = cost ? cost->value(x) : cnt->violation(x);
      const double scale = 1 + std::fabs(want);
      if (!(it.maybe_squared && pbt::near(got, it.value(t, true), 1e-7 * scale, 1e-7)))
        CHECK_NEAR(got, want, 1e-7 * scale, 1e-7, << "the value of " << got_name);
      if (k == 1 || !it.exact_model || g.boolean())
        continue;
      MatrixXd t2 = t;
      for (int i = 0; i < d.n; ++i)
        for (int j = 0; j < d.cols(); ++j)
          t2(i, j) += i == it.frozen ? 0 : 1e-4 * g.num(1);
      if (it.kink && it.kink(t, t2))
        continue;
      const DblVec y = trajToDblVec(t2);
      const double want2 = it.value(t2);
      double model = 0;
      MockModel m;
      if (cost)
        model = modelAt(g, *cost, x, y);
      else
      {
        for (std::size_t i = 0; i < x.size(); ++i)
          m.addVar("x" + std::to_string(i));
        model = cnt->convex(x, &m)->violation(y);
      }
      double weight = 1;
      for (double w : it.weights(t2))
        weight += std::fabs(w);
      CHECK_NEAR(model, want2, 3e-6 * weight + 1e-6 * scale, 1e-6, << "the local model of " << got_name << " nearby");
    }
    catch (const pbt::Discard&)
    {
      g.label("term not judged at a point");
    }
}
void compare(pbt::Gen& g, const Desc& d, const TrajOptProb::Ptr& p)
{
  const std::size_t size = static_cast<std::size_t>(d.n * d.cols());
  CHECK(p->GetNumSteps() == d.n && p->GetNumDOF() == d.cols() && p->GetHasTime() == d.time);
  CHECK(p->GetKin() == d.world->robot && p->GetEnv() == d.world);
  CHECK(p->getNumVars() == static_cast<int>(size), << p->getNumVars() << " variables");
  const auto& lim = d.world->robot->limits;
  MatrixXd low(d.n, d.cols()), up(d.n, d.cols());
  std::size_t k = 0;
  for (int i = 0; i < d.n; ++i)
    for (int j = 0; j < d.cols(); ++j, ++k)
    {
      const bool dt = j == d.dof;
      const std::string name = dt ? "dt_" + std::to_string(i) : "j_" + std::to_string(i) + "_" + std::to_string(j);
      CHECK(p->GetVar(i, j).var_rep == p->getVars()[k].var_rep && p->GetVar(i, j).var_rep->name == name,
            << "variable " << p->getVars()[k].var_rep->name << " instead of " << name);
      low(i, j) = dt ? d.dt_low : lim(j, 0);
      up(i, j) = dt ? d.dt_up : lim(j, 1);
      CHECK(p->getLowerBounds()[k] == low(i, j) && p->getUpperBounds()[k] == up(i, j), << "bounds of " << name);
    }
  const MatrixXd init = p->GetInitTraj();
  CHECK(init.rows() == d.n && init.cols() == d.cols());
  for (int i = 0; i < d.n; ++i)
    for (int j = 0; j < d.cols(); ++j)
      CHECK_NEAR(init(i, j), d.init(i, j), 1e-12, 1e-12, << "initial value " << i << "," << j);
  std::vector<Item> cnts = d.cnts;
  std::stable_partition(cnts.begin(), cnts.end(), [](const Item& i) { return i.sort == Sort::eq; });
  const auto have = p->getConstraints();
  CHECK(p->getCosts().size() == d.costs.size(), << p->getCosts().size() << " costs instead of " << d.costs.size());
  CHECK(have.size() == cnts.size(), << have.size() << " constraints instead of " << cnts.size());
  for (std::size_t i = 0; i < d.costs.size(); ++i)
    compareItem(g, d.costs[i], d, p->getCosts()[i], nullptr);
  for (std::size_t i = 0; i < cnts.size(); ++i)
    compareItem(g, cnts[i], d, nullptr, have[i]);
  // what is fixed, and the bounds, as the solver sees them
  MatrixXd t(d.n, d.cols());
  for (int i = 0; i < d.n; ++i)
    for (int j = 0; j < d.cols(); ++j)
      t(i, j) = g.num(6);
  const DblVec near = p->getClosestFeasiblePointQP(trajToDblVec(t));
  CHECK(near.size() == size);
  k = 0;
  for (int i = 0; i < d.n; ++i)
    for (int j = 0; j < d.cols(); ++j, ++k)
    {
      const bool fixed = (std::count(d.fixed_steps.begin(), d.fixed_steps.end(), i) && j < d.dof) ||
                         (std::count(d.fixed_dofs.begin(), d.fixed_dofs.end(), j) &&
                          !std::count(d.fixed_steps.begin(), d.fixed_steps.end(), i));
      const double want = fixed ? d.init(i, j) : std::min(up(i, j), std::max(low(i, j), t(i, j)));
      CHECK_NEAR(near[k], want, 1e-2, 1e-3, << "the closest feasible value of " << (fixed ? "a fixed " : "a free ") << p->getVars()[k].var_rep->name);
    }
}
struct Named
{
  const char* key;
  double sco::BasicTrustRegionSQPParameters::*field;
};
}  // namespace

PBT_CASES(documents, 2500, 60000)
{
  const Desc d = genDesc(g);
  const auto p = ConstructProblem(d.root, d.world);
  compare(g, d, p);
  for (const auto& t : d.types)
    g.label(t);
  if (d.types.size() > 1)
    g.nontrivial();
}

PBT_CASES(settings, 3000, 30000)
{
  using P = sco::BasicTrustRegionSQPParameters;
  Desc d = genDesc(g);
  Json::Value o(Json::objectValue);
  P want;
  for (const Named& n : std::vector<Named>{ { "improve_ratio_threshold", &P::improve_ratio_threshold },
                                            { "min_trust_box_size", &P::min_trust_box_size },
                                            { "min_approx_improve", &P::min_approx_improve },
                                            { "min_approx_improve_frac", &P::min_approx_improve_frac },
                                            { "trust_shrink_ratio", &P::trust_shrink_ratio },
                                            { "trust_expand_ratio", &P::trust_expand_ratio },
                                            { "cnt_tolerance", &P::cnt_tolerance },
                                            { "merit_coeff_increase_ratio", &P::merit_coeff_increase_ratio },
                                            { "max_time", &P::max_time },
                                            { "initial_merit_error_coeff", &P::initial_merit_error_coeff },
                                            { "trust_box_size", &P::trust_box_size } })
    if (g.boolean())
      o[n.key] = want.*n.field = g.real(0.0, 100.0);
  if (g.boolean())
    o["max_iter"] = (want.max_iter = g.range(0, 100));
  if (g.boolean())
    o["max_merit_coeff_increases"] = (want.max_merit_coeff_increases = g.range(0, 20));
  if (g.boolean())
    o["inflate_constraints_individually"] = want.inflate_constraints_individually = g.boolean();
  if (g.chance(3, 4))
    d.root["opt_info"] = o;
  else
    want = P();
  ProblemConstructionInfo pci(d.world);
  pci.fromJson(d.root);
  const P& got = pci.opt_info;
  CHECK(got.improve_ratio_threshold == want.improve_ratio_threshold && got.min_trust_box_size == want.min_trust_box_size &&
        got.min_approx_improve == want.min_approx_improve && got.min_approx_improve_frac == want.min_approx_improve_frac &&
        got.max_iter == want.max_iter && got.trust_shrink_ratio == want.trust_shrink_ratio &&
        got.trust_expand_ratio == want.trust_expand_ratio && got.cnt_tolerance == want.cnt_tolerance &&
        got.max_merit_coeff_increases == want.max_merit_coeff_increases &&
        got.merit_coeff_increase_ratio == want.merit_coeff_increase_ratio && got.max_time == want.max_time &&
        got.initial_merit_error_coeff == want.initial_merit_error_coeff &&
        got.inflate_constraints_individually == want.inflate_constraints_individually && got.trust_box_size == want.trust_box_size);
  CHECK(pci.basic_info.use_time == d.time && pci.basic_info.n_steps == d.n && pci.basic_info.manip == "manip" && pci.kin == d.world->robot);
  CHECK(pci.basic_info.fixed_timesteps == d.fixed_steps && pci.basic_info.fixed_dofs == d.fixed_dofs);
  CHECK(pci.basic_info.dt_lower_lim == d.dt_low && pci.basic_info.dt_upper_lim == d.dt_up);
  std::size_t costs = d.root["costs"].size(), cnts = d.root["constraints"].size();
  CHECK(pci.cost_infos.size() == costs && pci.cnt_infos.size() == cnts);
  // read again, into the same place: nothing of before is left
  Desc e = genDesc(g);
  e.world = d.world;
  e.root["basic_info"]["use_time"] = e.time;
  if (e.dof == d.dof && e.types.empty())
  {
    pci.fromJson(e.root);
    CHECK(pci.basic_info.n_steps == e.n && pci.basic_info.fixed_timesteps == e.fixed_steps);
  }
  if (o.size() > 1)
    g.nontrivial();
}

PBT_CASES(refused, 6000, 100000)
{
  Desc d = genDesc(g, 1);
  Json::Value& root = d.root;
  // one of the terms
  std::vector<Json::Value*> all;
  for (const char* k : { "costs", "constraints" })
    if (root.isMember(k))
      for (auto& t : root[k])
        all.push_back(&t);
  Json::Value& term = *g.pick(all);
  Json::Value& params = term["params"];
  const std::string type = term["type"].asString();
  Json::Value &b = root["basic_info"], &init = root["init_info"];
  const bool joint = type.rfind("joint_", 0) == 0, pose = type == "cart_pose" || type == "dynamic_cart_pose";
  std::string what;
  auto wrongLength = [&](long right) {
    long n = g.range(0, 5);
    if (n == right || n == 1)
      n = right + 1 + (right == 0);
    return arr(DblVec(static_cast<std::size_t>(n), 0.5));
  };
  switch (g.range(0, 16))
  {
    case 0:
      what = "an unknown field";
      params[g.pick(std::vector<std::string>{ "coef", "timesteps", "Targets", "link_name", "limits", "" })] = 1;
      break;
    case 1:
    {
      std::vector<std::string> needed;
      if (joint)
        needed = { "targets" };
      else if (pose)
        needed = { "source_frame", "target_frame" };
      else if (type == "cart_vel")
        needed = { "first_step", "last_step", "max_displacement", "link" };
      else if (type == "collision")
        needed = { "coeffs", "dist_pen" };
      needed.push_back("");
      const std::string k = g.pick(needed);
      what = "the lack of " + k;
      if (k.empty())
        term.removeMember("params");
      else
        params.removeMember(k);
      break;
    }
    case 2:
      what = "a list of the wrong length";
      if (joint)
        params[g.pick(std::vector<std::string>{ "targets", "upper_tols", "lower_tols", "coeffs" })] = [&] {
          Json::Value v = wrongLength(d.dof);
          return v.empty() ? arr(DblVec(static_cast<std::size_t>(d.dof + 1), 1.0)) : v;
        }();
      else if (pose)
      {
        const bool quat = g.boolean();
        params[quat ? "source_frame_offset_wxyz" : g.pick(std::vector<std::string>{ "pos_coeffs", "rot_coeffs", "target_frame_offset_xyz" })] =
            wrongLength(quat ? 4 : 3);
      }
      else
        throw pbt::Discard();
      break;
    case 3:
      what = "an unknown link";
      if (pose)
        params[g.pick(std::vector<std::string>{ "source_frame", "target_frame" })] = g.pick(std::vector<std::string>{ "nowhere", "", "l9" });
      else if (type == "cart_vel")
        params["link"] = g.pick(std::vector<std::string>{ "nowhere", "", "wall", "l9" });
      else
        throw pbt::Discard();
      break;
    case 4:
      what = "links of the wrong sort";
      if (!pose)
        throw pbt::Discard();
      if (type == "cart_pose")
      {
        const auto active = d.world->robot->getActiveLinkNames();
        const bool both = g.boolean();
        params["source_frame"] = both ? g.pick(active) : g.pick(still());
        params["target_frame"] = both ? g.pick(active) : g.pick(still());
      }
      else
        params[g.pick(std::vector<std::string>{ "source_frame", "target_frame" })] = g.pick(still());
      break;
    case 5:
      what = "steps or values out of range";
      if (type == "cart_vel")
        switch (g.range(0, 3))
        {
          case 0:
            params["first_step"] = -1;
            break;
          case 1:
            params["last_step"] = d.n;
            break;
          case 2:
            params["first_step"] = params["last_step"];
            break;
          default:
            params["last_step"] = 0;
        }
      else if (type == "collision")
        switch (g.range(0, 8))
        {
          case 0:
            params["first_step"] = g.boolean() ? -1 : d.n;
            break;
          case 1:
            params["last_step"] = g.boolean() ? -1 : d.n;
            break;
          case 2:
            params["longest_valid_segment_length"] = -0.1;
            break;
          case 3:
            params["evaluator_type"] = g.pick(std::vector<int>{ 0, 5, -1, 7 });
            params["first_step"] = 0;
            params["last_step"] = d.n - 1;
            params["fixed_steps"] = Json::Value(Json::arrayValue);
            break;
          case 4:
            params["contact_test_type"] = g.boolean() ? -1 : 3;
            break;
          case 5:
            params["safety_margin_buffer"] = -0.1;
            break;
          case 6:
            params["fixed_steps"] = arr(std::vector<int>{ g.boolean() ? -1 : d.n });
            break;
          case 7:
          {
            Json::Value p;
            p["link"] = "l1";
            p["pair"] = Json::Value(Json::arrayValue);
            p["coeffs"] = 1;
            p["dist_pen"] = 1;
            params["pairs"].append(p);
            break;
          }
          default:
          {
            Json::Value p;
            p["link"] = "l1";
            p["pair"].append("wall");
            p["coeffs"] = 1;
            p["dist_pen"] = 1;
            p.removeMember(g.pick(std::vector<std::string>{ "link", "pair", "coeffs", "dist_pen" }));
            params["pairs"].append(p);
          }
        }
      else if (pose)
        params["timestep"] = g.pick(std::vector<int>{ -1, d.n, d.n + 5 });
      else if (joint && type != "joint_vel")  // asserted there
      {
        params["first_step"] = -1;
        params["last_step"] = d.n - 1;
      }
      else
        throw pbt::Discard();
      break;
    case 6:
      what = "a term that cannot use time";
      if (type == "joint_vel" || type == "joint_pos" || type == "total_time")
        throw pbt::Discard();
      term["use_time"] = true;
      break;
    case 7:
      what = "time that no term uses";
      if (d.time)
        throw pbt::Discard();
      b["use_time"] = true;
      break;
    case 8:
      what = "a gap in the basics";
      switch (g.range(0, 4))
      {
        case 0:
          b["manip"] = g.pick(std::vector<std::string>{ "arm", "" });
          break;
        case 1:
          root.removeMember("basic_info");
          break;
        case 2:
          root.removeMember("init_info");
          break;
        case 3:
          b.removeMember("n_steps");
          break;
        default:
          b.removeMember("manip");
      }
      break;
    case 9:
      what = "impossible limits of time";
      switch (g.range(0, 2))
      {
        case 0:
          b["dt_lower_lim"] = g.boolean() ? 0.0 : -1.0;
          break;
        case 1:
          b["dt_lower_lim"] = 2.0;
          b["dt_upper_lim"] = 1.5;
          break;
        default:
          b["dt_upper_lim"] = 0.5 * d.dt_low;
      }
      break;
    case 10:
      what = "a fixed step that is none";
      b["fixed_timesteps"].append(g.pick(std::vector<int>{ -1, d.n, d.n + 1, d.n + 7 }));
      break;
    case 11:
      what = "a fixed joint that is none";
      b["fixed_dofs"].append(g.pick(std::vector<int>{ -1, d.cols(), d.cols() + 1, d.cols() + 7 }));
      // the entry is to be looked at also when every step is fixed
      break;
    case 12:
      what = "a wrong initialization";
      switch (g.range(0, 5))
      {
        case 0:
          init["type"] = g.pick(std::vector<std::string>{ "random", "", "stationary " });
          break;
        case 1:
          init.removeMember("type");
          break;
        case 2:
          init["type"] = "given_traj";
          init.removeMember("data");
          break;
        case 3:
        {
          init["type"] = "given_traj";
          init["data"] = Json::Value(Json::arrayValue);
          const bool rows = g.boolean();
          const int length = d.n + (rows ? g.pick(std::vector<int>{ -1, 1 }) : 0);
          for (int i = 0; i < length; ++i)
            init["data"].append(arr(DblVec(static_cast<std::size_t>(d.dof), 0.1)));
          if (!rows)
            init["data"][g.range(0, d.n - 1)] = arr(DblVec(static_cast<std::size_t>(d.dof + g.pick(std::vector<int>{ -1, 1 })), 0.1));
          break;
        }
        case 4:
          init["type"] = "joint_interpolated";
          init.removeMember("endpoint");
          break;
        default:
          init["type"] = "joint_interpolated";
          init["endpoint"] = arr(DblVec(static_cast<std::size_t>(d.dof + g.pick(std::vector<int>{ -1, 1 })), 0.1));
      }
      break;
    case 13:
      what = "an unknown type";
      if (g.boolean())
        term["type"] = g.pick(std::vector<std::string>{ "joint", "", "Collision", "avoid_singularity" });
      else
        term.removeMember("type");
      break;
    case 14:
      what = "a total time without times";
      if (d.time)
        throw pbt::Discard();
      term = Json::Value();
      term["type"] = "total_time";
      term["params"]["limit"] = 1.0;
      break;
    case 15:
      what = "a value of the wrong kind";
      switch (g.range(0, 2))
      {
        case 0:
          b["n_steps"] = "many";
          break;
        case 1:
          b["dt_upper_lim"] = arr(DblVec{ 1 });
          break;
        default:
          if (!joint)
            throw pbt::Discard();
          params["targets"] = "zero";
      }
      break;
    default:
      what = "too few steps";
      if (!joint || type == "joint_pos" || type == "joint_vel")
        throw pbt::Discard();
      b["n_steps"] = type == "joint_acc" ? 2 : 3;
      b["fixed_timesteps"] = Json::Value(Json::arrayValue);
      init = Json::Value();
      init["type"] = "stationary";
      {
        const Json::Value only = term;
        root.removeMember("costs");
        root.removeMember("constraints");
        root["costs"].append(only);
        b["use_time"] = false;
      }
  }
  g.log() << "with " << what << ": " << root.toStyledString() << "\n";
  CHECK_THROWS(ConstructProblem(root, d.world), << "a description with " << what << " was not refused");
  g.label(what.rfind("the lack", 0) == 0 ? "the lack of a field" : what);
  g.nontrivial();
}

// ---------------------------------------------------------------- put together in code
PBT_CASES(in_code, 2500, 50000)
{
  Desc d = genDesc(g);
  ProblemConstructionInfo pci(d.world);
  pci.fromJson(d.root);
  for (int n = g.range(1, 3); n > 0; --n)
  {
    const bool cost = g.boolean();
    const std::string name = "own" + std::to_string(n);
    std::vector<Item>& out = cost ? d.costs : d.cnts;
    std::shared_ptr<TermInfo> info;
    const int kind = g.range(0, 3);
    if (kind == 0)
    {
      Pose p = genFrames(g, d, g.boolean());
      p.step = g.range(0, d.n - 1);
      p.source_offset = robot::genPose(g);
      p.target_offset = robot::genPose(g);
      p.pos = genCoeffs(g);
      p.rot = genCoeffs(g);
      if (g.boolean())
      {
        p.lower.resize(6);
        p.upper.resize(6);
        for (int i = 0; i < 6; ++i)
        {
          p.lower[i] = -g.real(0.05, 0.5);
          p.upper[i] = g.real(0.05, 0.5);
        }
      }
      auto fill = [&](auto& t) {
        t.timestep = p.step;
        t.pos_coeffs = p.pos;
        t.rot_coeffs = p.rot;
        t.source_frame = p.source;
        t.target_frame = p.target;
        t.source_frame_offset = p.source_offset;
        t.target_frame_offset = p.target_offset;
        t.lower_tolerance = p.lower;
        t.upper_tolerance = p.upper;
      };
      if (p.dynamic)
      {
        auto t = std::make_shared<DynamicCartPoseTermInfo>();
        fill(*t);
        info = t;
      }
      else
      {
        auto t = std::make_shared<CartPoseTermInfo>();
        fill(*t);
        info = t;
      }
      info->name = name;
      Item it = poseItem(d, p, cost ? Sort::abs : Sort::eq);
      it.names = { name };
      out.push_back(it);
      g.label(p.lower.size() ? "pose with tolerances" : "pose");
    }
    else if (kind == 1)
    {
      auto t = std::make_shared<UserDefinedTermInfo>();
      static_cast<TermInfo&>(*t).name = name;
      t->name = name;
      t->first_step = g.range(0, d.n - 1);
      t->last_step = g.range(t->first_step, d.n - 1);
      for (int i = 0; i < d.n; ++i)
        if (g.chance(1, 4))
          t->fixed_steps.push_back(i);
      const VectorXd a = robot::genJoints(g, d.dof), c = robot::genJoints(g, d.dof);
      const int rows = g.range(1, 3);
      auto f = [a, c, rows](const VectorXd& q) {
        VectorXd e(rows);
        for (int r = 0; r < rows; ++r)
          e[r] = r + (a.array() * q.array()).sum() + (c.array() * q.array().square()).sum() * (r - 1);
        return e;
      };
      t->error_function = f;
      if (g.boolean())
        t->jacobian_function = [a, c, rows](const VectorXd& q) {
          MatrixXd j(rows, q.size());
          for (int r = 0; r < rows; ++r)
            j.row(r) = (a.array() + 2 * (r - 1) * c.array() * q.array()).matrix().transpose();
          return j;
        };
      DblVec w;
      for (int r = 0; r < rows; ++r)
        w.push_back(g.real(0.1, 5.0));
      t->coeff = Eigen::Map<VectorXd>(w.data(), rows);
      const int penalty = g.range(0, 2);
      t->cost_penalty_type = penalty == 0 ? sco::ABS : penalty == 1 ? sco::HINGE : sco::SQUARED;
      t->constraint_type = g.boolean() ? sco::EQ : sco::INEQ;
      const std::string kindname = cost ? (penalty == 0 ? "ABS" : penalty == 1 ? "HING" : "SQUARED") : t->constraint_type == sco::EQ ? "EQ" : "INEQ";
      for (int s = t->first_step; s <= t->last_step; ++s)
      {
        if (std::count(t->fixed_steps.begin(), t->fixed_steps.end(), s))
          continue;
        Item it;
        it.names = { name + "_" + kindname + "_" + std::to_string(s) };
        it.sort = cost ? (penalty == 0 ? Sort::abs : penalty == 1 ? Sort::hinge : Sort::squared) : t->constraint_type == sco::EQ ? Sort::eq : Sort::ineq;
        it.weights = constant(w);
        const int dof = d.dof;
        it.errors = [=](const MatrixXd& x) {
          const VectorXd e = f(x.row(s).head(dof).transpose());
          return DblVec(e.data(), e.data() + e.size());
        };
        out.push_back(it);
      }
      info = t;
      g.label("own function");
    }
    else if (kind == 2)
    {
      auto t = std::make_shared<AvoidSingularityTermInfo>(nullptr, g.pick(std::vector<double>{ 0.1, 0.5 }));
      t->name = name;
      t->link = "l" + std::to_string(d.dof);
      t->first_step = g.range(0, d.n - 1);
      t->last_step = g.range(t->first_step, d.n - 1);
      const double w = g.real(0.1, 5.0), lambda = t->lambda;
      t->coeffs = { w };
      const bool sub = g.boolean();
      std::shared_ptr<Robot> part;
      if (sub && d.dof > 1)
      {
        // the same joints without the last, in another order of names
        auto joints = d.world->robot->joints;
        joints.pop_back();
        part = std::make_shared<Robot>(joints);
        for (std::size_t i = 0; i < joints.size(); ++i)
          part->names.push_back(d.world->robot->getJointNames()[joints.size() - i]);
        t->subset_kin_ = part;
        t->link = "l" + std::to_string(joints.size());
      }
      for (int s = t->first_step; s <= t->last_step; ++s)
      {
        Item it;
        it.names = { name + "_" + std::to_string(s) };
        it.sort = cost ? Sort::abs : Sort::ineq;
        it.weights = constant({ w });
        it.exact_model = false;
        const int dof = d.dof;
        const auto r = d.world->robot;
        const std::string link = t->link;
        it.errors = [=](const MatrixXd& x) {
          VectorXd q = x.row(s).head(dof).transpose();
          MatrixXd j;
          if (part)
          {
            VectorXd p(dof - 1);
            for (int i = 0; i < dof - 1; ++i)
              p[i] = q[dof - 1 - i];
            j = part->calcJacobian(p, link);
          }
          else
            j = r->calcJacobian(q, link);
          const VectorXd sv = Eigen::JacobiSVD<MatrixXd>(j).singularValues();
          return DblVec{ 1 / (sv[sv.size() - 1] + lambda) - 1 / (0.1 + lambda) };
        };
        out.push_back(it);
      }
      info = t;
      g.label(part ? "singularity of a part" : "singularity");
    }
    else
    {
      // joint terms whose optional parts are left empty
      const int order = g.range(0, 3);
      Json::Value unused;
      const Joint j = genJoint(g, d, order, unused);
      auto fill = [&](auto& t) {
        t.targets = j.targets;
        t.coeffs = j.coeffs;
        t.upper_tols = j.upper;
        t.lower_tols = j.lower;
        if (zero(j.upper) && g.boolean())
          t.upper_tols.clear();
        if (zero(j.lower) && g.boolean())
          t.lower_tols.clear();
        if (std::all_of(j.coeffs.begin(), j.coeffs.end(), [](double c) { return c == 1; }) && g.boolean())
          t.coeffs.clear();
        t.first_step = j.first;
        t.last_step = j.last;
        if (j.last == d.n - 1 && g.boolean())
          t.last_step = -1;
        t.name = name;
      };
      if (order == 0)
      {
        auto t = std::make_shared<JointPosTermInfo>();
        fill(*t);
        info = t;
      }
      else if (order == 1)
      {
        auto t = std::make_shared<JointVelTermInfo>();
        fill(*t);
        info = t;
      }
      else if (order == 2)
      {
        auto t = std::make_shared<JointAccTermInfo>();
        fill(*t);
        info = t;
      }
      else
      {
        auto t = std::make_shared<JointJerkTermInfo>();
        fill(*t);
        info = t;
      }
      jointItems(d, j, order, false, cost, name, out);
      g.label("joint term");
    }
    info->term_type = cost ? TermType::TT_COST : TermType::TT_CNT;
    (cost ? pci.cost_infos : pci.cnt_infos).push_back(info);
  }
  if (g.chance(1, 3))  // the end of an interpolation as a row
  {
    pci.init_info.type = InitInfo::JOINT_INTERPOLATED;
    pci.init_info.data = MatrixXd::Constant(1, d.dof, 0.5);
    for (int k = 0; k < d.n; ++k)
      for (int j = 0; j < d.dof; ++j)
        d.init(k, j) = d.world->now[static_cast<std::size_t>(j)] * (1 - double(k) / (d.n - 1)) + 0.5 * double(k) / (d.n - 1);
  }
  compare(g, d, ConstructProblem(pci));
  g.nontrivial();
}
