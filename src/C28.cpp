// Kinematic error functions: values against an independent model of the robot, Jacobians against differences of the values
#include <tesseract/visualization/visualization.h>
#include <trajopt/kinematic_terms.hpp>
#include <trajopt/utils.hpp>

#include <numeric>

#include "pbt.h"
#include "robot.h"

using namespace trajopt;
using Eigen::Isometry3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
using Robot = robot::Chain<>;
using Fn = std::function<VectorXd(const VectorXd&)>;

PBT_PROPERTY("C28",
             "Cases: a generated robot of 1..6 revolute and prismatic joints, frames, offsets, tolerances and a choice of the six "
             "components; the errors of pose, velocity, time and singularity terms are compared with an independent model, their "
             "Jacobians with differences of the errors, terms interleaved with others. Non-trivial: several variables and a Jacobian "
             "that is not zero.");

namespace
{
MatrixXd derivative(const Fn& f, const VectorXd& x, double h = 1e-5)
{
  const VectorXd f0 = f(x);
  MatrixXd j(f0.size(), x.size());
  for (Eigen::Index i = 0; i < x.size(); ++i)
  {
    VectorXd lo = x, hi = x;
    lo[i] -= h;
    hi[i] += h;
    j.col(i) = (f(hi) - f(lo)) / (2 * h);
  }
  return j;
}
void same(pbt::Gen& g, const MatrixXd& got, const MatrixXd& want, double abs_tol, double rel_tol, const char* what)
{
  CHECK(got.rows() == want.rows() && got.cols() == want.cols(), << what << " is " << got.rows() << " x " << got.cols() << ", not "
                                                                << want.rows() << " x " << want.cols());
  const double scale = want.size() ? want.cwiseAbs().maxCoeff() : 0;
  for (Eigen::Index r = 0; r < want.rows(); ++r)
    for (Eigen::Index c = 0; c < want.cols(); ++c)
      CHECK_NEAR(got(r, c), want(r, c), abs_tol + rel_tol * scale, 0, << what << " at " << r << "," << c);
}
std::shared_ptr<Robot> genRobot(pbt::Gen& g, int n)
{
  auto r = std::make_shared<Robot>(Robot::generate(g, n));
  r->wall = robot::genPose(g);
  return r;
}

// ---------------------------------------------------------------- poses
Isometry3d poseOf(const Robot& r, const VectorXd& q, const std::string& link, const Isometry3d& offset)
{
  return r.calcFwdKin(q).at(link) * offset;
}
// of b as seen from a; the rotation as a vector
VectorXd relative(const Isometry3d& a, const Isometry3d& b, double* angle)
{
  VectorXd e(6);
  e.head<3>() = a.linear().transpose() * (b.translation() - a.translation());
  const Eigen::Quaterniond q(Eigen::Matrix3d(a.linear().transpose() * b.linear()));
  const double n = q.vec().norm();
  *angle = 2 * std::atan2(n, std::fabs(q.w()));
  e.tail<3>() = n < 1e-12 ? Vector3d(2 * q.vec()) : Vector3d(q.vec() / n * *angle * (q.w() < 0 ? -1 : 1));
  return e;
}
struct PoseCase
{
  std::shared_ptr<Robot> robot;
  std::string source, target;
  Isometry3d source_offset, target_offset;
  std::vector<int> indices;
  VectorXd lower, upper;
  bool swap{ false };  // the error is that of the target as seen from the source
  Eigen::VectorXi idx() const { return Eigen::Map<const Eigen::VectorXi>(indices.data(), static_cast<long>(indices.size())); }
  VectorXd error(const VectorXd& q, bool* near_edge) const
  {
    const Isometry3d s = poseOf(*robot, q, source, source_offset), t = poseOf(*robot, q, target, target_offset);
    double angle = 0;
    const VectorXd e = swap ? relative(s, t, &angle) : relative(t, s, &angle);
    if (angle > 3.0)
      throw pbt::Discard();
    VectorXd out(static_cast<long>(indices.size()));
    for (std::size_t i = 0; i < indices.size(); ++i)
    {
      const int k = indices[i];
      double v = e[k];
      if (lower.size())
      {
        if (near_edge && (std::fabs(v - lower[k]) < 2e-3 || std::fabs(v - upper[k]) < 2e-3))
          *near_edge = true;
        v = v > upper[k] ? v - upper[k] : v < lower[k] ? v - lower[k] : 0;
      }
      out[static_cast<long>(i)] = v;
    }
    return out;
  }
};
PoseCase genPose(pbt::Gen& g, bool dynamic)
{
  PoseCase c;
  c.robot = genRobot(g, 5);
  const auto active = c.robot->getActiveLinkNames();
  const std::vector<std::string> fixed{ "base", "wall", "floor" };
  if (dynamic)
  {
    c.source = g.pick(active);
    c.target = g.chance(1, 5) ? g.pick(fixed) : g.pick(active);
  }
  else
  {
    c.swap = g.boolean();
    c.source = c.swap ? g.pick(fixed) : g.pick(active);
    c.target = c.swap ? g.pick(active) : g.pick(fixed);
  }
  c.source_offset = g.chance(1, 3) ? Isometry3d::Identity() : robot::genPose(g);
  c.target_offset = g.chance(1, 3) ? Isometry3d::Identity() : robot::genPose(g);
  std::vector<int> all{ 0, 1, 2, 3, 4, 5 };
  if (g.chance(2, 3))
    for (int i = 5; i > 0; --i)
      std::swap(all[static_cast<std::size_t>(i)], all[static_cast<std::size_t>(g.range(0, i))]);
  all.resize(static_cast<std::size_t>(g.chance(1, 3) ? 6 : g.range(1, 6)));
  c.indices = all;
  const int kind = g.range(0, 3);
  if (kind >= 2)
  {
    c.lower.resize(6);
    c.upper.resize(6);
    for (int i = 0; i < 6; ++i)
    {
      const double a = g.num(0.5), b = g.chance(1, 4) ? a : g.num(0.5);
      c.lower[i] = std::min(a, b);
      c.upper[i] = std::max(a, b);
    }
    if (c.lower.isApprox(c.upper, 1e-3) || (c.upper - c.lower).maxCoeff() < 1e-3)
      c.upper[g.range(0, 5)] += 0.1;
  }
  else if (kind == 1)
    c.lower = c.upper = VectorXd::Zero(6);
  g.log() << "source " << c.source << " target " << c.target << " indices " << c.idx().transpose() << " tolerances " << c.lower.transpose()
          << " .. " << c.upper.transpose() << "\n";
  return c;
}
struct Drawn : tesseract::visualization::Visualization
{
  std::vector<Isometry3d> axes;
  std::vector<std::pair<Vector3d, Vector3d>> arrows;
  void plotMarker(const tesseract::visualization::Marker& m, const std::string&) override
  {
    if (auto* a = dynamic_cast<const tesseract::visualization::AxisMarker*>(&m))
      axes.push_back(a->axis);
    if (auto* a = dynamic_cast<const tesseract::visualization::ArrowMarker*>(&m))
      arrows.emplace_back(a->from, a->to);
  }
};
template <class Err, class Jac>
void poses(pbt::Gen& g, bool dynamic)
{
  const PoseCase c = genPose(g, dynamic), other = genPose(g, dynamic);
  Err err(c.robot, c.source, c.target, c.source_offset, c.target_offset, c.idx(), c.lower, c.upper);
  Jac jac(c.robot, c.source, c.target, c.source_offset, c.target_offset, c.idx(), c.lower, c.upper);
  Err err2(other.robot, other.source, other.target, other.source_offset, other.target_offset, other.idx(), other.lower, other.upper);
  Jac jac2(other.robot, other.source, other.target, other.source_offset, other.target_offset, other.idx(), other.lower, other.upper);
  for (int n = g.range(1, 3); n > 0; --n)
  {
    const VectorXd q = robot::genJoints(g, c.robot->numJoints());
    if (g.boolean())  // what another term computes in between changes nothing
    {
      const VectorXd p = robot::genJoints(g, other.robot->numJoints());
      err2(p);
      jac2(p);
    }
    bool edge = false;
    const VectorXd want = c.error(q, &edge);
    same(g, err(q), want, 1e-7, 1e-7, "the error");
    if (!edge)
    {
      const MatrixXd d = derivative([&](const VectorXd& x) { return c.error(x, nullptr); }, q);
      same(g, jac(q), d, 2e-3, 2e-4, "the Jacobian");
      if (q.size() > 1 && d.norm() > 1e-3)
        g.nontrivial();
      g.label(c.lower.size() ? "with tolerances" : "without tolerances");
    }
    auto drawn = std::make_shared<Drawn>();
    err.Plot(drawn, q);
    const Isometry3d s = poseOf(*c.robot, q, c.source, c.source_offset), t = poseOf(*c.robot, q, c.target, c.target_offset);
    CHECK(drawn->axes.size() == 2 && drawn->arrows.size() == 1);
    CHECK(drawn->axes[0].isApprox(s, 1e-9) && drawn->axes[1].isApprox(t, 1e-9));
    CHECK((drawn->arrows[0].first - s.translation()).norm() < 1e-9 && (drawn->arrows[0].second - t.translation()).norm() < 1e-9);
  }
  // bands that are none
  VectorXd lo = VectorXd::Constant(6, -0.1), hi = VectorXd::Constant(6, 0.1);
  if (g.boolean())
    lo = VectorXd::Constant(g.range(0, 5), -0.1);
  else
    lo[g.range(0, 5)] = 0.1 + g.real(1e-3, 1.0);
  CHECK_THROWS(Err(c.robot, c.source, c.target, c.source_offset, c.target_offset, c.idx(), lo, hi));
  CHECK_THROWS(Jac(c.robot, c.source, c.target, c.source_offset, c.target_offset, c.idx(), lo, hi));
}
}  // namespace

PBT_CASES(cart_pose, 15000, 300000) { poses<CartPoseErrCalculator, CartPoseJacCalculator>(g, false); }
PBT_CASES(dynamic_cart_pose, 15000, 300000) { poses<DynamicCartPoseErrCalculator, DynamicCartPoseJacCalculator>(g, true); }

// ---------------------------------------------------------------- how far a link moves in a step
PBT_CASES(cart_vel, 15000, 300000)
{
  auto r = genRobot(g, 5);
  const std::string link = g.pick(r->getActiveLinkNames());
  const double limit = g.real(0.0, 1.0);
  Isometry3d tcp = Isometry3d::Identity();
  if (g.chance(2, 3))
    tcp = robot::genPose(g);
  if (g.chance(1, 4))
    tcp.translation().setZero();
  CartVelErrCalculator err(r, link, limit, tcp);
  CartVelJacCalculator jac(r, link, limit, tcp);
  const long n = r->numJoints();
  VectorXd x(2 * n);
  x << robot::genJoints(g, n), robot::genJoints(g, n);
  auto f = [&](const VectorXd& v) {
    const Vector3d d = poseOf(*r, v.tail(n), link, tcp).translation() - poseOf(*r, v.head(n), link, tcp).translation();
    VectorXd e(6);
    for (int i = 0; i < 3; ++i)
    {
      e[i] = d[i] - limit;
      e[i + 3] = -d[i] - limit;
    }
    return e;
  };
  same(g, err(x), f(x), 1e-9, 1e-9, "the error");
  const MatrixXd d = derivative(f, x);
  same(g, jac(x), d, 1e-6, 1e-6, "the Jacobian");
  if (n > 1 && d.norm() > 1e-3)
    g.nontrivial();
}

// ---------------------------------------------------------------- one joint over time; x = positions, then 1/dt
PBT_CASES(joint_over_time, 30000, 600000)
{
  const int half = g.range(4, 8);
  VectorXd x(2 * half);
  for (int i = 0; i < half; ++i)
  {
    x[i] = g.num(2);
    x[half + i] = g.real(0.2, 5.0);
  }
  const double target = g.num(2), a = g.num(1), b = g.num(1), limit = g.num(3);
  const double up = std::max(a, b), low = std::min(a, b);
  auto velocity = [&](const VectorXd& v) {
    VectorXd o(half - 1);
    for (int i = 0; i + 1 < half; ++i)
      o[i] = (v[i + 1] - v[i]) * v[half + i + 1];
    return o;
  };
  JointVelErrCalculator vel(target, up, low);
  auto want = [&](const VectorXd& v) {
    const VectorXd u = velocity(v);
    VectorXd o(2 * u.size());
    for (long i = 0; i < u.size(); ++i)
    {
      o[i] = u[i] - (target + up);
      o[u.size() + i] = (target + low) - u[i];
    }
    return o;
  };
  same(g, vel(x), want(x), 1e-9, 1e-9, "the velocity's error");
  same(g, JointVelErrCalculator()(x).head(half - 1), velocity(x), 1e-9, 1e-9, "the velocity");
  same(g, JointVelJacCalculator()(x), derivative(want, x), 1e-6, 1e-6, "the velocity's Jacobian");
  // acceleration and jerk: the limit is what the error is measured from, and the Jacobian is that of the error
  {
    JointAccErrCalculator acc(limit), free;
    const VectorXd e = acc(x);
    CHECK(e.size() == half - 2, << e.size());
    same(g, e, (free(x).array() - limit).matrix(), 1e-9, 1e-9, "the acceleration's error");
    const VectorXd u = velocity(x);
    for (int i = 0; i + 2 < half; ++i)
      CHECK((u[i + 1] - u[i]) * free(x)[i] >= 0, << "the acceleration " << i << " has the wrong sign");
    same(g, JointAccJacCalculator()(x), derivative([&](const VectorXd& v) { return acc(v); }, x), 1e-5, 1e-6, "the acceleration's Jacobian");
    JointJerkErrCalculator jerk(limit), free_jerk;
    CHECK(jerk(x).size() == half - 3);
    same(g, jerk(x), (free_jerk(x).array() - limit).matrix(), 1e-9, 1e-9, "the jerk's error");
    const VectorXd ac = free(x);
    for (int i = 0; i + 3 < half; ++i)
      CHECK((ac[i + 1] - ac[i]) * free_jerk(x)[i] >= 0, << "the jerk " << i << " has the wrong sign");
    same(g, JointJerkJacCalculator()(x), derivative([&](const VectorXd& v) { return jerk(v); }, x), 1e-5, 1e-6, "the jerk's Jacobian");
    // even steps: the usual differences
    VectorXd even = x;
    even.tail(half).setOnes();
    for (int i = 0; i + 2 < half; ++i)
      CHECK_NEAR(free(even)[i], x[i + 2] - 2 * x[i + 1] + x[i], 1e-9, 1e-9);
    for (int i = 0; i + 3 < half; ++i)
      CHECK_NEAR(free_jerk(even)[i], x[i + 3] - 3 * x[i + 2] + 3 * x[i + 1] - x[i], 1e-9, 1e-9);
  }
  const VectorXd t = x.tail(half);
  TimeCostCalculator time(limit);
  VectorXd total(1);
  total[0] = -limit;
  for (int i = 0; i < half; ++i)
    total[0] += 1 / t[i];
  same(g, time(t), total, 1e-9, 1e-9, "the time");
  same(g, TimeCostJacCalculator()(t), derivative([&](const VectorXd& v) { return time(v); }, t), 1e-5, 1e-6, "the time's Jacobian");
  g.nontrivial();
}

// ---------------------------------------------------------------- singularities
namespace
{
MatrixXd geometric(const Robot& r, const VectorXd& q, const std::string& link)
{
  // column i: the velocity of the link for a unit velocity of joint i
  const double h = 1e-6;
  MatrixXd j(6, q.size());
  for (long i = 0; i < q.size(); ++i)
  {
    VectorXd lo = q, hi = q;
    lo[i] -= h;
    hi[i] += h;
    const Isometry3d a = r.calcFwdKin(lo).at(link), b = r.calcFwdKin(hi).at(link);
    j.col(i).head<3>() = (b.translation() - a.translation()) / (2 * h);
    const Eigen::AngleAxisd w(Eigen::Matrix3d(b.linear() * a.linear().transpose()));
    j.col(i).tail<3>() = w.axis() * w.angle() / (2 * h);
  }
  return j;
}
}  // namespace
PBT_CASES(singularity, 20000, 400000)
{
  auto r = genRobot(g, 6);
  const long n = r->numJoints();
  const std::string link = g.chance(3, 4) ? "l" + std::to_string(n) : g.pick(r->getActiveLinkNames());
  const double lambda = g.pick(std::vector<double>{ 1e-3, 0.1, 0.5 });
  const VectorXd q = robot::genJoints(g, n);
  auto smallest = [&](const VectorXd& x, double* gap) {
    const VectorXd s = Eigen::JacobiSVD<MatrixXd>(geometric(*r, x, link)).singularValues();
    if (gap)
      *gap = s.size() > 1 ? s[s.size() - 2] - s[s.size() - 1] : 1;
    return s[s.size() - 1];
  };
  double gap = 0;
  const double sv = smallest(q, &gap);
  AvoidSingularityErrCalculator err(r, link, lambda);
  const VectorXd e = err(q);
  CHECK(e.size() == 1);
  CHECK_NEAR(e[0], 1 / (sv + lambda) - 1 / (0.1 + lambda), 1e-6, 1e-6 / (sv + lambda), << "smallest singular value " << sv);
  AvoidSingularityJacCalculator jac(r, link, lambda);
  const MatrixXd d = derivative([&](const VectorXd& x) { return err(x); }, q);
  const bool smooth = sv > 2e-2 && gap > 2e-2;
  if (smooth)
  {
    same(g, jac(q), d, 1e-3, 1e-3, "the Jacobian");
    if (n > 1 && d.norm() > 1e-3)
      g.nontrivial();
  }
  // of some of the joints of a larger group, in any order among them
  auto whole = genRobot(g, 1);
  const int extra = g.range(1, 3);
  std::vector<std::string> names;
  for (long i = 0; i < n + extra; ++i)
    names.push_back("joint_" + std::to_string(i));
  for (std::size_t i = names.size() - 1; i > 0; --i)
    std::swap(names[i], names[static_cast<std::size_t>(g.range(0, static_cast<int>(i)))]);
  robot::Joint j;
  whole->joints.assign(names.size(), j);
  whole->names = names;
  std::vector<std::size_t> at(names.size());
  std::iota(at.begin(), at.end(), 0);
  for (std::size_t i = at.size() - 1; i > 0; --i)
    std::swap(at[i], at[static_cast<std::size_t>(g.range(0, static_cast<int>(i)))]);
  at.resize(static_cast<std::size_t>(n));
  VectorXd x(static_cast<long>(names.size()));
  for (long i = 0; i < x.size(); ++i)
    x[i] = g.num(2);
  r->names.clear();
  for (long i = 0; i < n; ++i)
  {
    r->names.push_back(names[at[static_cast<std::size_t>(i)]]);
    x[static_cast<long>(at[static_cast<std::size_t>(i)])] = q[i];
  }
  CHECK(isSuperset(r->names, names) && !isSuperset(names, r->names) && !isSuperset(names, names));
  VectorXd part(n);
  CHECK(getSubset(names, x, r->names, part) && part == q);
  VectorXd merged(x.size());
  CHECK(updateFromSubset(names, x, r->names, VectorXd(q.array() + 1), merged));
  for (long i = 0; i < x.size(); ++i)
  {
    const bool used = std::find(at.begin(), at.end(), static_cast<std::size_t>(i)) != at.end();
    CHECK(merged[i] == x[i] + (used ? 1 : 0));
  }
  {
    std::vector<std::string> strange = r->names;
    strange.back() = "none";
    CHECK(!getSubset(names, x, strange, part) && !updateFromSubset(names, x, strange, q, merged) && !isSuperset(strange, names));
  }
  const AvoidSingularitySubsetErrCalculator err_of(r, whole, link, lambda);
  const AvoidSingularitySubsetJacCalculator jac_of(r, whole, link, lambda);
  const VectorXd eo = err_of(x);
  CHECK(eo.size() == 1);
  CHECK_NEAR(eo[0], e[0], 1e-9, 1e-9, << "through the larger group");
  if (smooth)
  {
    MatrixXd wide = MatrixXd::Zero(1, x.size());
    for (long i = 0; i < n; ++i)
      wide(0, static_cast<long>(at[static_cast<std::size_t>(i)])) = d(0, i);
    same(g, jac_of(x), wide, 1e-3, 1e-3, "the Jacobian in the larger group");
  }
}
