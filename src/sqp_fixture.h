// Dense reference of the quadratic programs the SQP problems build
#ifndef VERIF_SQP_FIXTURE_H
#define VERIF_SQP_FIXTURE_H
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/types.h>

#include <algorithm>

#include "ifopt_fixture.h"

namespace sq
{
using namespace fx;
using trajopt_sqp::CostPenaltyType;

// A term of the problem and what it was when the problem was last convexified
struct Term
{
  std::shared_ptr<FnSet> set;
  CostPenaltyType type{ CostPenaltyType::kSquared };  // costs only
  bool is_cost{ false };
  // at the last convexify()
  int rows{ 0 };
  Eigen::VectorXd v, w;
  Eigen::MatrixXd J;
  std::vector<Bounds> b;

  void freeze(const Eigen::VectorXd& x, int rows_now)
  {
    rows = rows_now;
    v = set->f(x).head(rows);
    J = set->f.jac(x).topRows(rows);
    w = set->coeffsAt(x).head(rows);
    b = set->boundsAt(x);
    b.resize(static_cast<std::size_t>(rows));
  }
  // value of the rows of the local model at distance d from where it was made
  Eigen::VectorXd model(const Eigen::VectorXd& d) const { return rows ? Eigen::VectorXd(v + J * d) : Eigen::VectorXd(0); }
};

inline double viol(double v, const Bounds& b) { return std::fabs(boundsError(v, b)); }
// cost of row values
inline double costOf(CostPenaltyType t, const Eigen::VectorXd& v, const std::vector<Bounds>& b, const Eigen::VectorXd& w)
{
  double s = 0;
  for (Eigen::Index i = 0; i < v.size(); ++i)
  {
    const double e = viol(v[i], b[static_cast<std::size_t>(i)]);
    s += w[i] * (t == CostPenaltyType::kSquared ? e * e : e);
  }
  return s;
}
inline double sumViol(const Eigen::VectorXd& v, const std::vector<Bounds>& b)
{
  double s = 0;
  for (Eigen::Index i = 0; i < v.size(); ++i)
    s += viol(v[i], b[static_cast<std::size_t>(i)]);
  return s;
}

inline Bounds genConstraintBounds(pbt::Gen& g)
{
  switch (g.range(0, 2))
  {
    case 0:
    {
      const double v = g.num(4);
      return Bounds(v, v);
    }
    case 1:
      return Bounds(g.num(4), INFINITY);
    default:
      return Bounds(-INFINITY, g.num(4));
  }
}
inline std::vector<Bounds> genBoundsFor(pbt::Gen& g, int m, int kind)  // 0 equality, 1 inequality, 2 any
{
  std::vector<Bounds> b;
  for (int i = 0; i < m; ++i)
  {
    if (kind == 0)
    {
      const double v = g.num(4);
      b.emplace_back(v, v);
    }
    else if (kind == 1)
      b.push_back(g.boolean() ? Bounds(g.num(4), INFINITY) : Bounds(-INFINITY, g.num(4)));
    else
      b.push_back(genConstraintBounds(g));
  }
  return b;
}

// A row of the quadratic program that stems from a constraint or penalty
struct Row
{
  Eigen::RowVectorXd J;
  double constant;  // value of the row's model at x = 0
  Bounds b;
  double weight;  // of one unit of violation
};

// Everything about the QP but the objective in the variables: the rows, their slack variables and the bounds.
inline void checkRows(pbt::Gen& g,
                      const trajopt_sqp::QPProblem& qp,
                      Eigen::Index nv,
                      const std::vector<Row>& rows,
                      const Eigen::VectorXd& xc)
{
  const Eigen::Index m = static_cast<Eigen::Index>(rows.size());
  Eigen::Index ns = 0;
  for (const Row& r : rows)
    ns += r.b.getType() == BoundsType::kEquality ? 2 : 1;
  const Eigen::MatrixXd A(qp.getConstraintMatrix());
  const Eigen::VectorXd& lo = qp.getBoundsLower();
  const Eigen::VectorXd& up = qp.getBoundsUpper();
  CHECK(qp.getNumQPVars() == nv + ns, << "variables of the QP, " << ns << " slack variables expected");
  CHECK(qp.getNumQPConstraints() == m + nv + ns);
  CHECK(A.rows() == m + nv + ns && A.cols() == nv + ns);
  CHECK(lo.size() == A.rows() && up.size() == A.rows());
  CHECK(qp.getGradient().size() == nv + ns);
  CHECK(qp.getHessian().rows() == nv + ns && qp.getHessian().cols() == nv + ns);
  const Eigen::MatrixXd H(qp.getHessian());
  CHECK(H.bottomRows(ns).isZero(0) && H.rightCols(ns).isZero(0), << "curvature in the slack variables");
  std::vector<int> owner(static_cast<std::size_t>(ns), -1);
  for (Eigen::Index i = 0; i < m; ++i)
  {
    const Row& r = rows[static_cast<std::size_t>(i)];
    for (Eigen::Index c = 0; c < nv; ++c)
      CHECK_NEAR(A(i, c), r.J[c], 1.01e-7, 1e-10, << "coefficient of variable " << c << " in row " << i);
    const double tol = 1e-9 * (1 + r.J.cwiseAbs().sum() * (1 + xc.cwiseAbs().sum())) + 1e-7 * xc.cwiseAbs().sum();
    CHECK_NEAR(lo[i], r.b.getLower() - r.constant, tol, 1e-10, << "lower bound of row " << i);
    CHECK_NEAR(up[i], r.b.getUpper() - r.constant, tol, 1e-10, << "upper bound of row " << i);
    int plus = 0, minus = 0;
    for (Eigen::Index c = 0; c < ns; ++c)
    {
      const double v = A(i, nv + c);
      if (v == 0)
        continue;
      CHECK(v == 1 || v == -1, << "slack coefficient " << v << " in row " << i);
      CHECK(owner[static_cast<std::size_t>(c)] < 0, << "slack variable " << c << " is shared by two rows");
      owner[static_cast<std::size_t>(c)] = static_cast<int>(i);
      ++(v > 0 ? plus : minus);
      CHECK_NEAR(qp.getGradient()[nv + c], r.weight, 1e-9, 1e-10, << "price of a slack variable of row " << i);
    }
    const bool can_be_low = r.b.getType() != BoundsType::kUpperBound;
    const bool can_be_high = r.b.getType() != BoundsType::kLowerBound;
    CHECK(plus == (can_be_low ? 1 : 0) && minus == (can_be_high ? 1 : 0),
          << "slack variables of row " << i << ": " << plus << " up, " << minus << " down");
  }
  for (Eigen::Index r = 0; r < nv + ns; ++r)
    for (Eigen::Index c = 0; c < nv + ns; ++c)
      CHECK(A(m + r, c) == (r == c ? 1.0 : 0.0), << "the rows of the variables are not an identity at " << r << "," << c);
  for (Eigen::Index c = 0; c < ns; ++c)
  {
    CHECK(lo[m + nv + c] == 0, << "slack variables start at zero");
    CHECK(up[m + nv + c] == INFINITY);
  }
}
// The trust box around the point x where it was last set
inline void checkBox(pbt::Gen& g,
                     const trajopt_sqp::QPProblem& qp,
                     Eigen::Index m,
                     const Eigen::VectorXd& x,
                     const Eigen::VectorXd& box,
                     const std::vector<Bounds>& bounds)
{
  CHECK(qp.getBoxSize().size() == x.size());
  for (Eigen::Index i = 0; i < x.size(); ++i)
  {
    const Bounds& b = bounds[static_cast<std::size_t>(i)];
    CHECK_NEAR(qp.getBoxSize()[i], box[i], 1e-12, 1e-12, << "trust box of variable " << i);
    const double xi = std::max(b.getLower(), std::min(b.getUpper(), x[i]));
    CHECK_NEAR(qp.getBoundsLower()[m + i], std::max(b.getLower(), xi - box[i]), 1e-12, 1e-12, << "variable " << i);
    CHECK_NEAR(qp.getBoundsUpper()[m + i], std::min(b.getUpper(), xi + box[i]), 1e-12, 1e-12, << "variable " << i);
    CHECK(qp.getBoundsLower()[m + i] <= qp.getBoundsUpper()[m + i], << "empty box of variable " << i);
  }
}
// A point for the variables: sometimes outside of their bounds
inline Eigen::VectorXd genX(pbt::Gen& g, const std::vector<Bounds>& bounds)
{
  Eigen::VectorXd x(static_cast<Eigen::Index>(bounds.size()));
  const bool inside = g.chance(2, 3);
  for (Eigen::Index i = 0; i < x.size(); ++i)
  {
    const Bounds& b = bounds[static_cast<std::size_t>(i)];
    x[i] = g.num(4);
    if (inside)
      x[i] = std::max(b.getLower(), std::min(b.getUpper(), x[i]));
  }
  return x;
}
}  // namespace sq
#endif
