// Pose constraints on a state of the trajectory: values against an independent model of the robot, Jacobians against differences
#include <tesseract/kinematics/kinematic_group.h>
#include <trajopt_ifopt/constraints/cartesian_line_constraint.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/constraints/inverse_kinematics_constraint.h>

#include "ifopt_fixture.h"
#include "robot.h"

PBT_PROPERTY("C31",
             "Cases: a generated robot of 1..5 revolute and prismatic joints, a trajectory of 1..4 states, and pose, line and inverse "
             "kinematics constraints on its states with generated frames, offsets, coefficients and bounds, evaluated at a history of points "
             "with other constraints in between. Non-trivial: several joints and a Jacobian that is not zero.");

using namespace fx;
using Eigen::Isometry3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
using Robot = robot::Chain<>;

namespace
{
Isometry3d poseOf(const tesseract::kinematics::JointGroup& r, const VectorXd& q, const std::string& link, const Isometry3d& offset)
{
  return r.calcFwdKin(q).at(link) * offset;
}
// b as seen from a; the rotation as a vector
VectorXd relative(const Isometry3d& a, const Isometry3d& b)
{
  VectorXd e(6);
  e.head<3>() = a.linear().transpose() * (b.translation() - a.translation());
  const Eigen::Quaterniond q(Eigen::Matrix3d(a.linear().transpose() * b.linear()));
  const double n = q.vec().norm(), angle = 2 * std::atan2(n, std::fabs(q.w()));
  if (angle > 3.0)
    throw pbt::Discard();  // a rotation vector near pi is not continuous
  e.tail<3>() = n < 1e-12 ? Vector3d(2 * q.vec()) : Vector3d(q.vec() / n * angle * (q.w() < 0 ? -1 : 1));
  return e;
}
std::shared_ptr<Robot> genRobot(pbt::Gen& g)
{
  auto r = std::make_shared<Robot>(Robot::generate(g, 5));
  r->wall = robot::genPose(g);
  return r;
}
struct Frames
{
  std::string source, target;
  Isometry3d source_offset{ Isometry3d::Identity() }, target_offset{ Isometry3d::Identity() };
};
Frames genFrames(pbt::Gen& g, const Robot& r)
{
  const auto active = r.getActiveLinkNames();
  const std::vector<std::string> fixed{ "base", "wall", "floor" };
  Frames f;
  const int kind = g.range(0, 2);
  f.source = kind == 0 ? g.pick(fixed) : g.pick(active);
  f.target = kind == 1 ? g.pick(fixed) : g.pick(active);
  g.label(kind == 0 ? "target moves" : kind == 1 ? "source moves" : "both move");
  if (g.chance(2, 3))
    f.source_offset = robot::genPose(g);
  if (g.chance(2, 3))
    f.target_offset = robot::genPose(g);
  return f;
}
using Fn = std::function<VectorXd(const VectorXd&)>;
MatrixXd derivative(const Fn& f, const VectorXd& x, double h = 1e-5)
{
  const VectorXd f0 = f(x);
  MatrixXd j(f0.size(), x.size());
  for (Eigen::Index i = 0; i < x.size(); ++i)
  {
    VectorXd lo = x, hi = x;
    lo[i] -= h;
    hi[i] += h;
    j.col(i) = (f(hi) - f(lo)) / (2 * h);
  }
  return j;
}
void same(pbt::Gen& g, const MatrixXd& got, const MatrixXd& want, double abs_tol, double rel_tol, const char* what)
{
  CHECK(got.rows() == want.rows() && got.cols() == want.cols(), << what << " is " << got.rows() << " x " << got.cols() << ", not "
                                                                << want.rows() << " x " << want.cols());
  const double scale = want.size() ? want.cwiseAbs().maxCoeff() : 0;
  for (Eigen::Index r = 0; r < want.rows(); ++r)
    for (Eigen::Index c = 0; c < want.cols(); ++c)
      CHECK_NEAR(got(r, c), want(r, c), abs_tol + rel_tol * scale, 0, << what << " at " << r << "," << c);
}
// Values and Jacobian of a constraint on the state of `var`
void judge(pbt::Gen& g, const ConstraintSet& c, const Layout& l, const Var& var, const Fn& error)
{
  const VectorXd q = var.value();
  same(g, c.getValues(), error(q), 1e-7, 1e-7, "the error");
  MatrixXd want = MatrixXd::Zero(c.getRows(), l.vars->getRows());
  want.middleCols(var.getIndex(), var.size()) = derivative(error, q);
  const Jacobian j = c.getJacobian();
  same(g, MatrixXd(j), want, 2e-3, 2e-4, "the Jacobian");
  CHECK(c.getNonZeros() >= j.nonZeros(), << c.getNonZeros() << " entries announced, " << j.nonZeros() << " there");
  if (q.size() > 1 && want.norm() > 1e-3)
    g.nontrivial();
}
template <class T>
MatrixXd block(const T& c, const Layout& l, const VectorXd& q)
{
  Jacobian j(c.getRows(), l.vars->getRows());
  j.reserve(c.getNonZeros());
  c.calcJacobianBlock(j, q);
  return MatrixXd(j);
}
void checkBounds(pbt::Gen& g, const std::vector<Bounds>& got, const std::vector<Bounds>& want)
{
  CHECK(got.size() == want.size(), << got.size() << " bounds for " << want.size() << " rows");
  for (std::size_t i = 0; i < want.size(); ++i)
    CHECK(got[i].getLower() == want[i].getLower() && got[i].getUpper() == want[i].getUpper(),
          << "bounds " << i << ": " << got[i].getLower() << " .. " << got[i].getUpper());
}

// ---------------------------------------------------------------- pose
struct Pose
{
  std::shared_ptr<Robot> robot;
  Frames f;
  std::shared_ptr<const Var> var;
  std::vector<int> rows;  // component of each row
  std::vector<Bounds> bounds;
  std::vector<double> coeffs;
  std::shared_ptr<CartPosConstraint> c;
  VectorXd error(const VectorXd& q) const
  {
    const Isometry3d s = poseOf(*robot, q, f.source, f.source_offset), t = poseOf(*robot, q, f.target, f.target_offset);
    // the moving frame as seen from the other; the source's, when both move
    const VectorXd e = robot->isActiveLinkName(f.source) ? relative(t, s) : relative(s, t);
    VectorXd o(static_cast<long>(rows.size()));
    for (std::size_t i = 0; i < rows.size(); ++i)
      o[static_cast<long>(i)] = e[rows[i]];
    return o;
  }
};
Pose genPoseConstraint(pbt::Gen& g, const std::shared_ptr<Robot>& r, const Layout& l)
{
  Pose p;
  p.robot = r;
  p.f = genFrames(g, *r);
  p.var = l.all[static_cast<std::size_t>(g.index(l.all.size()))];
  if (g.chance(1, 4))
  {
    p.rows = { 0, 1, 2, 3, 4, 5 };
    p.bounds.assign(6, BoundZero);
    p.coeffs.assign(6, 1.0);
    p.c = std::make_shared<CartPosConstraint>(p.var, r, p.f.source, p.f.target, p.f.source_offset, p.f.target_offset, "pose");
  }
  else
  {
    const bool split = g.boolean();
    VectorXd coeffs(6);
    std::vector<Bounds> bounds;
    for (int i = 0; i < 6; ++i)
    {
      coeffs[i] = g.chance(1, 3) ? 0.0 : g.nonzero(4, 0.1);
      bounds.push_back(genBounds(g, 2));
    }
    for (int i = 0; i < 6; ++i)
    {
      if (coeffs[i] == 0)
        continue;
      const Bounds& b = bounds[static_cast<std::size_t>(i)];
      const bool range = std::isfinite(b.getLower()) && std::isfinite(b.getUpper()) && b.getLower() != b.getUpper();
      if (split && range)
      {
        p.bounds.emplace_back(b.getLower(), INFINITY);
        p.bounds.emplace_back(-INFINITY, b.getUpper());
      }
      else
        p.bounds.push_back(b);
      while (p.rows.size() < p.bounds.size())
      {
        p.rows.push_back(i);
        p.coeffs.push_back(coeffs[i]);
      }
    }
    const auto how = split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs;
    p.c = std::make_shared<CartPosConstraint>(p.var, coeffs, bounds, r, p.f.source, p.f.target, p.f.source_offset, p.f.target_offset,
                                              "pose", how);
  }
  g.log() << "pose of " << p.f.source << " and " << p.f.target << " state " << p.var->getIndex() << " rows " << p.rows.size() << "\n";
  p.c->linkWithVariables(l.vars);
  return p;
}
}  // namespace

PBT_CASES(cart_pos, 20000, 400000)
{
  auto r = genRobot(g);
  Layout l = trajectory(g, g.range(1, 4), static_cast<int>(r->numJoints()), 2);
  Pose p = genPoseConstraint(g, r, l), other = genPoseConstraint(g, r, l);
  CHECK(p.c->getName() == "pose" && !p.c->isDynamic());
  checkBounds(g, p.c->getBounds(), p.bounds);
  const VectorXd cf = p.c->getCoefficients();
  CHECK(cf.size() == static_cast<long>(p.coeffs.size()), << cf.size() << " coefficients for " << p.coeffs.size() << " rows");
  for (long i = 0; i < cf.size(); ++i)
    CHECK(cf[i] == p.coeffs[static_cast<std::size_t>(i)], << "coefficient " << i << " is " << cf[i]);
  for (int n = g.range(1, 3); n > 0; --n)
  {
    l.vars->setVariables(genPoint(g, l.vars->getRows(), 2));
    CHECK(p.c->update() == static_cast<int>(p.rows.size()) && p.c->getRows() == p.c->update());
    if (g.chance(1, 4))
    {
      p.f.target_offset = robot::genPose(g);
      p.c->setTargetPose(p.f.target_offset);
    }
    if (g.boolean())
    {
      other.c->getValues();
      other.c->getJacobian();
    }
    auto error = [&](const VectorXd& q) { return p.error(q); };
    judge(g, *p.c, l, *p.var, error);
    CHECK(p.c->getTargetPose().isApprox(p.f.target_offset, 1e-12));
    CHECK(p.c->getCurrentPose().isApprox(poseOf(*r, p.var->value(), p.f.source, p.f.source_offset), 1e-9));
    const VectorXd q = robot::genJoints(g, r->numJoints());
    same(g, p.c->calcValues(q), error(q), 1e-7, 1e-7, "the error at other values");
    MatrixXd want = MatrixXd::Zero(p.c->getRows(), l.vars->getRows());
    want.middleCols(p.var->getIndex(), q.size()) = derivative(error, q);
    same(g, block(*p.c, l, q), want, 2e-3, 2e-4, "the Jacobian at other values");
  }
}

PBT_CASES(refused, 4000, 40000)
{
  auto r = genRobot(g);
  Layout l = trajectory(g, 1, static_cast<int>(r->numJoints()), 2);
  const std::string moving = g.pick(r->getActiveLinkNames());
  const VectorXd ones = VectorXd::Ones(6);
  const std::vector<Bounds> zero(6, BoundZero);
  auto pos = [&](const VectorXd& c, const std::vector<Bounds>& b, const std::string& s, const std::string& t) {
    CartPosConstraint(l.all[0], c, b, r, s, t);
  };
  pos(ones, zero, moving, "wall");
  CHECK_THROWS(pos(ones, zero, "nowhere", moving));
  CHECK_THROWS(pos(ones, zero, moving, "nowhere"));
  CHECK_THROWS(pos(ones, zero, "wall", g.boolean() ? "base" : "floor"));
  const int n = g.chance(1, 2) ? g.range(0, 5) : g.range(7, 9);
  CHECK_THROWS(pos(VectorXd::Ones(n), zero, moving, "wall"));
  CHECK_THROWS(pos(ones, std::vector<Bounds>(static_cast<std::size_t>(n), BoundZero), moving, "wall"));
  const Isometry3d a = robot::genPose(g);
  Isometry3d b = a;
  b.translation() += Vector3d(1, 2, 3);
  const Isometry3d id = Isometry3d::Identity();
  auto info = [&](const std::string& s, const std::string& t, const Isometry3d& end, int m) {
    return CartLineInfo(r, s, t, a, end, id, Eigen::VectorXi::Zero(m));
  };
  info(moving, "wall", b, g.range(1, 6));
  CHECK_THROWS(info("nowhere", "wall", b, 6));
  CHECK_THROWS(info(moving, "nowhere", b, 6));
  CHECK_THROWS(info(moving, "wall", a, 6));
  CHECK_THROWS(info(moving, "wall", b, 0));
  CHECK_THROWS(info(moving, "wall", b, g.range(7, 9)));
  const int m = g.range(1, 6);
  int k = g.range(0, 8);
  if (k == m)
    k = 9;
  CHECK_THROWS(CartLineConstraint(info(moving, "wall", b, m), l.all[0], VectorXd::Ones(k)));
  g.nontrivial();
}

// ---------------------------------------------------------------- line
PBT_CASES(cart_line, 20000, 400000)
{
  auto r = genRobot(g);
  Layout l = trajectory(g, g.range(1, 4), static_cast<int>(r->numJoints()), 2);
  Frames f = genFrames(g, *r);
  const Isometry3d a = robot::genPose(g), source_offset = f.source_offset;
  Isometry3d b = robot::genPose(g);
  if (g.chance(1, 3))
    b.linear() = a.linear();
  const double length = (b.translation() - a.translation()).norm();
  if (length < 0.05)
    throw pbt::Discard();
  std::vector<int> idx{ 0, 1, 2, 3, 4, 5 };
  for (int i = 5; i > 0; --i)
    if (g.boolean())
      std::swap(idx[static_cast<std::size_t>(i)], idx[static_cast<std::size_t>(g.range(0, i))]);
  idx.resize(static_cast<std::size_t>(g.boolean() ? 6 : g.range(1, 6)));
  const long rows = static_cast<long>(idx.size());
  VectorXd coeffs(rows);
  for (long i = 0; i < rows; ++i)
    coeffs[i] = g.nonzero(4, 0.1);
  g.log() << "line of " << f.source << " along " << f.target << " rows " << pbt::mat(Eigen::Map<Eigen::VectorXi>(idx.data(), rows).cast<double>())
          << "\n";
  CartLineInfo info(r, f.source, f.target, a, b, source_offset, Eigen::Map<Eigen::VectorXi>(idx.data(), rows));
  auto var = l.all[static_cast<std::size_t>(g.index(l.all.size()))];
  CartLineConstraint c(info, var, coeffs, "line");
  c.linkWithVariables(l.vars);
  CHECK(c.getName() == "line" && c.getRows() == rows && c.update() == rows);
  same(g, c.getCoefficients(), coeffs, 0, 0, "the coefficients");
  checkBounds(g, c.getBounds(), std::vector<Bounds>(static_cast<std::size_t>(rows), BoundZero));
  CHECK(c.getLine().first.isApprox(a, 1e-12) && c.getLine().second.isApprox(b, 1e-12));
  bool edge = false;
  // the point of the line nearest to p; the rotation moves with it
  auto nearest = [&](const Vector3d& p, const Isometry3d& from, const Isometry3d& to) {
    const Vector3d d = to.translation() - from.translation();
    const double at = d.dot(p - from.translation()) / d.squaredNorm(), u = std::min(1.0, std::max(0.0, at));
    edge = edge || std::fabs(at) < 1e-3 || std::fabs(at - 1) < 1e-3;
    g.label(at < 0 ? "before the line" : at > 1 ? "after the line" : "along the line");
    Isometry3d t = Isometry3d::Identity();
    t.translation() = from.translation() + u * d;
    const Eigen::AngleAxisd turn(Eigen::Matrix3d(from.linear().transpose() * to.linear()));
    if (turn.angle() > 3.0)
      throw pbt::Discard();
    t.linear() = from.linear() * Eigen::AngleAxisd(turn.angle() * u, turn.axis()).toRotationMatrix();
    return t;
  };
  auto error = [&](const VectorXd& q) {
    const Isometry3d s = poseOf(*r, q, f.source, source_offset), t = poseOf(*r, q, f.target, Isometry3d::Identity());
    const VectorXd e = relative(nearest(s.translation(), t * a, t * b), s);
    VectorXd o(rows);
    for (long i = 0; i < rows; ++i)
      o[i] = e[idx[static_cast<std::size_t>(i)]];
    return o;
  };
  if (g.boolean())
  {
    std::vector<Bounds> bounds;
    for (long i = 0; i < rows; ++i)
      bounds.push_back(genBounds(g, 2));
    c.setBounds(bounds);
    checkBounds(g, c.getBounds(), bounds);
  }
  for (int n = g.range(1, 3); n > 0; --n)
  {
    l.vars->setVariables(genPoint(g, l.vars->getRows(), 2));
    const VectorXd q = robot::genJoints(g, r->numJoints());
    same(g, c.calcValues(q), error(q), 1e-7, 1e-7, "the error at other values");
    const Isometry3d p = robot::genPose(g);
    CHECK(c.getLinePoint(p, a, b).isApprox(nearest(p.translation(), a, b), 1e-7), << "the point of the line");
    edge = false;
    error(var->value());
    if (edge)
      throw pbt::Discard();
    judge(g, c, l, *var, error);
    MatrixXd want = MatrixXd::Zero(rows, l.vars->getRows());
    want.middleCols(var->getIndex(), var->size()) = derivative(error, var->value());
    same(g, block(c, l, var->value()), want, 2e-3, 2e-4, "the Jacobian at other values");
  }
}

// ---------------------------------------------------------------- inverse kinematics
namespace
{
struct Ik : robot::Chain<tesseract::kinematics::KinematicGroup>
{
  using Chain::Chain;
  mutable tesseract::kinematics::KinGroupIKInputs asked;
  int n{ 1 };
  // any function of pose and seed will do
  tesseract::kinematics::IKSolutions calcInvKin(const tesseract::kinematics::KinGroupIKInputs& in,
                                                const Eigen::Ref<const VectorXd>& seed) const override
  {
    asked = in;
    tesseract::kinematics::IKSolutions out;
    for (int k = 0; k < n; ++k)
    {
      VectorXd s(seed.size());
      for (long i = 0; i < s.size(); ++i)
        s[i] = std::sin(2.0 * double(k) + double(i) + 0.5 * seed[i]) + in[0].pose.translation()[i % 3];
      out.push_back(s);
    }
    return out;
  }
};
}  // namespace
PBT_CASES(inverse_kinematics, 20000, 400000)
{
  auto r = std::make_shared<Ik>(Ik::generate(g, 4));
  r->n = g.range(1, 4);
  const long dof = r->numJoints();
  Layout l = trajectory(g, g.range(1, 4), static_cast<int>(dof), 2);
  auto var = l.all[static_cast<std::size_t>(g.index(l.all.size()))], seed = l.all[static_cast<std::size_t>(g.index(l.all.size()))];
  const std::string tcp = g.pick(r->getActiveLinkNames()), frame = g.pick(std::vector<std::string>{ "base", "wall" });
  CHECK_THROWS(InverseKinematicsInfo(r, frame, "nowhere"));
  auto info = std::make_shared<InverseKinematicsInfo>(r, frame, tcp);
  Isometry3d pose = robot::genPose(g);
  InverseKinematicsConstraint c(pose, info, var, seed, "ik");
  c.linkWithVariables(l.vars);
  CHECK(c.getName() == "ik" && c.getRows() == dof && c.update() == dof && c.getKinematicInfo() == info);
  same(g, c.getCoefficients(), VectorXd::Ones(dof), 0, 0, "the coefficients");
  checkBounds(g, c.getBounds(), std::vector<Bounds>(static_cast<std::size_t>(dof), BoundZero));
  if (g.boolean())
  {
    std::vector<Bounds> bounds;
    for (long i = 0; i < dof; ++i)
      bounds.push_back(genBounds(g, 2));
    c.setBounds(bounds);
    checkBounds(g, c.getBounds(), bounds);
  }
  for (int n = g.range(1, 3); n > 0; --n)
  {
    l.vars->setVariables(genPoint(g, l.vars->getRows(), 2));
    if (g.chance(1, 3))
    {
      pose = robot::genPose(g);
      c.setTargetPose(pose);
    }
    const VectorXd q = var->value(), got = c.getValues();
    CHECK(r->asked.size() == 1 && r->asked[0].pose.isApprox(pose, 1e-12) && r->asked[0].working_frame == frame &&
              r->asked[0].tip_link_name == tcp,
          << "what inverse kinematics was asked");
    tesseract::kinematics::KinGroupIKInputs in;
    in.emplace_back(pose, frame, tcp);
    double best = INFINITY;
    VectorXd want;
    for (const auto& s : r->calcInvKin(in, seed->value()))
      if ((s - q).norm() < best)
      {
        best = (s - q).norm();
        want = s - q;
      }
    same(g, got, want, 1e-12, 0, "the distance to the nearest solution");
    MatrixXd jac = MatrixXd::Zero(dof, l.vars->getRows());
    for (long i = 0; i < dof; ++i)
      jac(i, var->getIndex() + i) = -1;
    const Jacobian j = c.getJacobian();
    same(g, MatrixXd(j), jac, 0, 0, "the Jacobian");
    CHECK(c.getNonZeros() >= j.nonZeros());
    if (dof > 1 && r->n > 1)
      g.nontrivial();
  }
}
