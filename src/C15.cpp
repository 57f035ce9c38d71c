// C15: joint constraints are the stated differences of the trajectory
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>

#include "ifopt_fixture.h"

PBT_PROPERTY("C15",
             "Cases: random trajectories (2..9 steps, 1..4 joints), all joint constraints over all or some of their steps, with no, one or "
             "per-joint coefficients, targets and every kind of position bound; values, slopes, coefficients and bounds compared with "
             "finite difference tables computed from the trajectory. Non-trivial: at least two joints and a per-joint or bounded "
             "constraint.");

using namespace fx;

namespace
{
const std::vector<double>& stencil(int order)
{
  static const std::vector<double> s[] = { { 1 }, { -1, 1 }, { 1, -2, 1 }, { -1, 3, -3, 1 } };
  return s[order];
}
// 0: none, 1: one for all, 2: one per joint; an illegal one otherwise
Eigen::VectorXd genCoeff(pbt::Gen& g, int dof, int kind)
{
  Eigen::VectorXd c(kind == 0 ? 0 : kind == 1 ? 1 : dof);
  for (Eigen::Index i = 0; i < c.size(); ++i)
    c[i] = std::fabs(g.nonzero(5, 0.1));
  return c;
}
void checkJacobian(pbt::Gen& g, const Jacobian& j, const Eigen::MatrixXd& want)
{
  CHECK(j.rows() == want.rows() && j.cols() == want.cols(), << j.rows() << "x" << j.cols());
  const Eigen::MatrixXd d = j;
  for (Eigen::Index r = 0; r < d.rows(); ++r)
    for (Eigen::Index c = 0; c < d.cols(); ++c)
      CHECK(d(r, c) == want(r, c), << "Jacobian entry " << r << "," << c << " is " << d(r, c) << " instead of " << want(r, c));
}
}  // namespace

PBT_CASES(differences, 300000, 1500000)
{
  const int order = g.range(1, 3);
  const int need = order == 1 ? 2 : order == 2 ? 4 : 6;
  const int steps = need + g.count(0, 3, 25), dof = g.count(1, 4, 10);
  Layout l = trajectory(g, steps + g.range(0, 2), dof);
  // an ascending choice of the steps
  std::vector<std::shared_ptr<const Var>> use;
  int skip = static_cast<int>(l.all.size()) - steps;
  for (auto& v : l.all)
  {
    if (static_cast<int>(use.size()) == steps)
      break;
    if (skip > 0 && g.boolean())
      --skip;
    else
      use.push_back(v);
  }
  while (static_cast<int>(use.size()) < steps)
    use.insert(use.begin(), l.all[0]);  // unreachable: skips are bounded
  const Eigen::VectorXd target = genPoint(g, dof);
  const int kind = g.range(0, 2);
  const Eigen::VectorXd coeffs = genCoeff(g, dof, kind);
  g.log() << "order " << order << " steps " << steps << " of " << l.all.size() << " joints " << dof << " coefficients " << pbt::mat(coeffs);
  std::shared_ptr<ConstraintSet> c;
  if (order == 1)
    c = std::make_shared<JointVelConstraint>(target, use, coeffs, "c");
  else if (order == 2)
    c = std::make_shared<JointAccelConstraint>(target, use, coeffs, "c");
  else
    c = std::make_shared<JointJerkConstraint>(target, use, coeffs, "c");
  c->linkWithVariables(l.vars);
  if (dof >= 2 && kind == 2)
    g.nontrivial();
  const int out = order == 1 ? steps - 1 : steps;  // velocity has one value per interval
  CHECK(c->getRows() == out * dof && c->getName() == "c" && !c->isDynamic());

  const int evals = g.range(1, 3);
  for (int e = 0; e < evals; ++e)
  {
    const Eigen::VectorXd x = genPoint(g, l.vars->getRows());
    l.vars->setVariables(x);
    CHECK(c->update() == out * dof);
    const Eigen::VectorXd v = c->getValues();
    CHECK(v.size() == out * dof);
    Eigen::MatrixXd jac = Eigen::MatrixXd::Zero(out * dof, x.size());
    for (int s = 0; s < out; ++s)
    {
      // the derivative at a step looks ahead; where the trajectory ends too early, it looks back the same way
      const int first = s + order < steps ? s : s - order;
      for (int d = 0; d < dof; ++d)
      {
        double want = 0;
        for (int k = 0; k <= order; ++k)
        {
          const auto& var = use[static_cast<std::size_t>(first + k)];
          want += stencil(order)[static_cast<std::size_t>(k)] * x[var->getIndex() + d];
          jac(s * dof + d, var->getIndex() + d) = stencil(order)[static_cast<std::size_t>(k)];
        }
        CHECK_NEAR(v[s * dof + d], want, 1e-12, 1e-12, << "step " << s << " joint " << d);
      }
    }
    checkJacobian(g, c->getJacobian(), jac);
    CHECK(c->getNonZeros() >= c->getJacobian().nonZeros());
  }
  const auto b = c->getBounds();
  const Eigen::VectorXd cf = c->getCoefficients();
  CHECK(static_cast<int>(b.size()) == out * dof && cf.size() == out * dof);
  for (int s = 0; s < out; ++s)
    for (int d = 0; d < dof; ++d)
    {
      const auto& bd = b[static_cast<std::size_t>(s * dof + d)];
      CHECK(bd.getLower() == target[d] && bd.getUpper() == target[d] && bd.getType() == BoundsType::kEquality);
      const double want = kind == 0 ? (order == 1 ? 5.0 : 1.0) : kind == 1 ? coeffs[0] : coeffs[d];
      CHECK(cf[s * dof + d] == want, << "coefficient of step " << s << " joint " << d << " is " << cf[s * dof + d]);
    }
}

PBT_CASES(positions, 300000, 1500000)
{
  const int steps = g.count(1, 4, 20), dof = g.count(1, 5, 12);
  Layout l = trajectory(g, steps, dof);
  const auto var = g.pick(l.all);
  const bool by_target = g.chance(1, 3);
  const bool split = g.boolean();
  const auto handling = split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs;
  const int kind = by_target ? g.range(1, 2) : g.range(0, 2);
  const Eigen::VectorXd coeffs = genCoeff(g, dof, kind);
  std::vector<Bounds> given;
  Eigen::VectorXd target = genPoint(g, dof);
  std::shared_ptr<JointPosConstraint> c;
  for (int i = 0; i < dof; ++i)
    given.push_back(by_target ? Bounds(target[i], target[i]) : genBounds(g));
  if (by_target)
    c = std::make_shared<JointPosConstraint>(target, var, coeffs, "p", handling);
  else
    c = std::make_shared<JointPosConstraint>(given, var, coeffs, "p", handling);
  c->linkWithVariables(l.vars);
  // the rows: one per joint, two where a range is split
  struct Row
  {
    int joint;
    double lo, hi;
  };
  std::vector<Row> rows;
  for (int i = 0; i < dof; ++i)
  {
    const auto& b = given[static_cast<std::size_t>(i)];
    g.log() << "[" << b.getLower() << "," << b.getUpper() << "] ";
    if (split && b.getType() == BoundsType::kRangeBound)
    {
      rows.push_back({ i, b.getLower(), INFINITY });
      rows.push_back({ i, -INFINITY, b.getUpper() });
    }
    else
      rows.push_back({ i, b.getLower(), b.getUpper() });
  }
  g.log() << (split ? "split" : "kept") << " coefficients " << pbt::mat(coeffs);
  if (dof >= 2 && (kind == 2 || !by_target))
    g.nontrivial();
  if (static_cast<int>(rows.size()) > dof)
    g.label("split");
  const Eigen::VectorXd x = genPoint(g, l.vars->getRows());
  l.vars->setVariables(x);
  CHECK(c->getRows() == static_cast<int>(rows.size()) && c->update() == c->getRows());
  const Eigen::VectorXd v = c->getValues(), cf = c->getCoefficients();
  const auto b = c->getBounds();
  CHECK(v.size() == c->getRows() && cf.size() == c->getRows() && static_cast<int>(b.size()) == c->getRows());
  Eigen::MatrixXd jac = Eigen::MatrixXd::Zero(c->getRows(), x.size());
  for (std::size_t r = 0; r < rows.size(); ++r)
  {
    const auto i = static_cast<Eigen::Index>(r);
    CHECK(v[i] == x[var->getIndex() + rows[r].joint], << "value of row " << r);
    CHECK(b[r].getLower() == rows[r].lo && b[r].getUpper() == rows[r].hi, << "bounds of row " << r);
    CHECK(cf[i] == (kind == 0 ? 1.0 : kind == 1 ? coeffs[0] : coeffs[rows[r].joint]), << "coefficient of row " << r << " is " << cf[i]);
    jac(i, var->getIndex() + rows[r].joint) = 1;
  }
  checkJacobian(g, c->getJacobian(), jac);
}

PBT_CASES(refusals, 200000, 1000000)
{
  const int order = g.range(0, 3), dof = g.count(1, 4, 10), steps = g.count(1, 7, 25);
  Layout l = trajectory(g, steps, dof);
  Eigen::VectorXd c(g.range(0, 5));
  for (Eigen::Index i = 0; i < c.size(); ++i)
    c[i] = g.chance(1, 8) ? -g.real(0, 2) : g.real(0.1, 5);
  static const int need[] = { 1, 2, 4, 6 };
  const bool by_target = order == 0 && g.boolean();
  const bool bad = (c.array() <= 0).any() || (c.size() > 1 && c.size() != dof) || (by_target && c.size() == 0 && dof > 0) || steps < need[order];
  const Eigen::VectorXd t = Eigen::VectorXd::Zero(dof);
  auto make = [&]() -> std::shared_ptr<ConstraintSet> {
    switch (order)
    {
      case 0:
        if (by_target)
          return std::make_shared<JointPosConstraint>(t, l.all[0], c);
        return std::make_shared<JointPosConstraint>(std::vector<Bounds>(static_cast<std::size_t>(dof), BoundZero), l.all[0], c);
      case 1:
        return std::make_shared<JointVelConstraint>(t, l.all, c);
      case 2:
        return std::make_shared<JointAccelConstraint>(t, l.all, c);
      default:
        return std::make_shared<JointJerkConstraint>(t, l.all, c);
    }
  };
  g.log() << "order " << order << " steps " << steps << " joints " << dof << " coefficients " << pbt::mat(c);
  if (bad)
  {
    g.nontrivial();
    CHECK_THROWS(make());
  }
  else
    CHECK(make() != nullptr);
}
