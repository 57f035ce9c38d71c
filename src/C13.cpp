// C13: bounds are classified, shifted, clamped to and measured as intervals
#include <trajopt_ifopt/utils/ifopt_utils.h>
#include <trajopt_ifopt/utils/trajopt_utils.h>
#include <tesseract/common/joint_state.h>

#include "ifopt_fixture.h"

PBT_PROPERTY("C13",
             "Cases: histories of up to 8 changes to an interval (set, one side, shift; infinite, huge, equal and almost equal limits) "
             "judged after each change; points clamped to and measured against random intervals; interpolations between random "
             "points; trajectories converted to arrays. Non-trivial: a history that changes the kind of the interval, or a point "
             "outside at least one interval.");

using namespace fx;

namespace
{
double genLimit(pbt::Gen& g)
{
  switch (g.range(0, 7))
  {
    case 0:
      return INFINITY;
    case 1:
      return -INFINITY;
    case 2:
      return 1e20;
    case 3:
      return -1e20;
    case 4:
      return g.boolean() ? 1e25 : -1e25;
    default:
      return g.num(10);
  }
}
BoundsType kind(double lo, double hi)
{
  const bool fl = lo > -1e20 && lo < 1e20, fh = hi > -1e20 && hi < 1e20;
  if (!fl && !fh)
    return BoundsType::kUnbounded;
  if (fl && fh)
    return std::fabs(hi - lo) < 1e-8 ? BoundsType::kEquality : BoundsType::kRangeBound;
  return fl ? BoundsType::kLowerBound : BoundsType::kUpperBound;
}
}  // namespace

PBT_CASES(interval_histories, 2400000, 12000000)
{
  double lo = genLimit(g), hi = genLimit(g);
  Bounds b(lo, hi);
  auto check = [&](const char* what) {
    CHECK(b.getLower() == lo && b.getUpper() == hi, << what << ": [" << b.getLower() << "," << b.getUpper() << "]");
    CHECK(b.getType() == kind(lo, hi), << what << ": [" << lo << "," << hi << "] is classified " << static_cast<int>(b.getType()));
  };
  check("construction");
  const int steps = g.range(0, 8);
  for (int i = 0; i < steps; ++i)
  {
    const BoundsType before = kind(lo, hi);
    switch (g.range(0, 5))
    {
      case 0:
        lo = genLimit(g);
        hi = g.boolean() ? genLimit(g) : lo + g.pick(std::vector<double>{ 0, 1e-9, -1e-9, 5e-9, 1e-7, -1e-7, 1 });
        b.set(lo, hi);
        break;
      case 1:
        lo = g.boolean() ? genLimit(g) : hi;
        b.setLower(lo);
        break;
      case 2:
        hi = g.boolean() ? genLimit(g) : lo;
        b.setUpper(hi);
        break;
      case 3:
      {
        const double d = g.num(10);
        lo += d;
        hi += d;
        b += d;
        break;
      }
      case 4:
      {
        const double d = g.num(10);
        lo -= d;
        hi -= d;
        b -= d;
        break;
      }
      default:
      {
        Bounds c(b);
        b = Bounds();
        CHECK(b.getLower() == 0 && b.getUpper() == 0 && b.getType() == BoundsType::kEquality);
        b = c;
      }
    }
    g.log() << "[" << lo << "," << hi << "] ";
    if (kind(lo, hi) != before)
      g.nontrivial();
    check("after a change");
  }
  CHECK(NoBound.getType() == BoundsType::kUnbounded && BoundZero.getType() == BoundsType::kEquality &&
        BoundGreaterZero.getType() == BoundsType::kLowerBound && BoundSmallerZero.getType() == BoundsType::kUpperBound);
  CHECK(BoundGreaterZero.getLower() == 0 && BoundSmallerZero.getUpper() == 0);
}

PBT_CASES(points_and_intervals, 1800000, 9000000)
{
  const int n = g.count(0, 6, 40);
  std::vector<Bounds> b;
  Eigen::MatrixX2d lim(n, 2);
  Eigen::VectorXd lo(n), hi(n);
  for (int i = 0; i < n; ++i)
  {
    b.push_back(genBounds(g));
    lo[i] = lim(i, 0) = b.back().getLower();
    hi[i] = lim(i, 1) = b.back().getUpper();
  }
  const Eigen::VectorXd x = genPoint(g, n, 8);
  g.log() << "x=" << pbt::mat(x) << " lo=" << pbt::mat(lo) << " hi=" << pbt::mat(hi);
  for (const auto& made : { toBounds(lim), toBounds(lo, hi) })
  {
    CHECK(made.size() == b.size());
    for (std::size_t i = 0; i < b.size(); ++i)
      CHECK(made[i].getLower() == b[i].getLower() && made[i].getUpper() == b[i].getUpper() && made[i].getType() == b[i].getType());
  }
  const Eigen::VectorXd c = getClosestValidPoint(x, b);
  Eigen::VectorXd err = Eigen::VectorXd::Constant(n, 77), viol = Eigen::VectorXd::Constant(n, 77);
  calcBoundsErrors(err, x, b);
  calcBoundsViolations(viol, x, b);
  CHECK(c.size() == n);
  for (int i = 0; i < n; ++i)
  {
    const double want = x[i] < lo[i] ? lo[i] : x[i] > hi[i] ? hi[i] : x[i];
    if (want != x[i])
      g.nontrivial();
    CHECK(c[i] == want, << "the closest point to " << x[i] << " in [" << lo[i] << "," << hi[i] << "] is " << c[i]);
    CHECK_NEAR(err[i], x[i] - want, 1e-14, 1e-14, << "error of " << x[i] << " in [" << lo[i] << "," << hi[i] << "]");
    CHECK_NEAR(viol[i], std::fabs(x[i] - want), 1e-14, 1e-14, << "violation of " << x[i] << " in [" << lo[i] << "," << hi[i] << "]");
  }
}

PBT_CASES(interpolations, 900000, 4500000)
{
  const int n = g.count(1, 5, 20), steps = g.count(2, 30, 200);
  const Eigen::VectorXd a = genPoint(g, n, 10), b = genPoint(g, n, 10);
  g.log() << pbt::mat(a) << " to " << pbt::mat(b) << " in " << steps;
  const auto r = interpolate(a, b, steps);
  CHECK(static_cast<int>(r.size()) == steps);
  if (a != b && steps > 2)
    g.nontrivial();
  for (int s = 0; s < steps; ++s)
  {
    CHECK(r[static_cast<std::size_t>(s)].size() == n);
    for (int i = 0; i < n; ++i)
      CHECK_NEAR(r[static_cast<std::size_t>(s)][i], a[i] + (b[i] - a[i]) * s / (steps - 1), 1e-12, 1e-12, << "step " << s << " entry " << i);
  }
  CHECK(r[0] == a, << "the first point is not the start");
}

PBT_CASES(trajectories, 360000, 1800000)
{
  const int steps = g.count(0, 6, 40), dof = g.count(1, 4, 12);
  std::vector<std::shared_ptr<const Var>> vars;
  Layout l;
  if (steps > 0)
  {
    l = trajectory(g, steps, dof);
    vars = l.all;
    l.vars->setVariables(genPoint(g, l.vars->getRows()));
  }
  const auto arr = toTrajArray(vars);
  CHECK(arr.rows() == steps);
  const auto traj = toJointTrajectory(vars);
  CHECK(static_cast<int>(traj.states.size()) == steps);
  if (steps >= 2)
    g.nontrivial();
  for (int s = 0; s < steps; ++s)
  {
    const auto& v = vars[static_cast<std::size_t>(s)];
    CHECK(arr.cols() == dof);
    CHECK(arr.row(s).transpose() == v->value());
    CHECK(traj.states[static_cast<std::size_t>(s)].position == v->value());
    CHECK(traj.states[static_cast<std::size_t>(s)].joint_names == v->name());
  }
}
