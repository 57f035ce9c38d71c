// C16: a penalty on a constraint is the stated function of its bounds errors, with the matching slope
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/costs/squared_cost.h>

#include "ifopt_fixture.h"

PBT_PROPERTY("C16",
             "Cases: random constraint sets (1..5 rows, every kind of bound, weights of either sign) wrapped in squared and absolute "
             "penalties, evaluated at a history of up to 4 points; value and slope compared with the closed form, points on the bound "
             "included. Non-trivial: at least two rows, one violated and one not, with given weights.");

using namespace fx;

PBT_CASES(penalties, 600000, 3000000)
{
  Layout l = genVars(g, 2, true);
  const int n = l.vars->getRows(), m = g.count(1, 5, 30);
  const SmoothVec f = SmoothVec::make(g, m, n, g.boolean());
  std::vector<Bounds> b;
  for (int i = 0; i < m; ++i)
    b.push_back(genBounds(g));
  auto set = std::make_shared<FnSet>("set", f, b, genCoeffs(g, m));
  set->keep_zero_entries = g.boolean();
  set->linkWithVariables(l.vars);
  const bool given = g.boolean();
  Eigen::VectorXd w = Eigen::VectorXd::Ones(m);
  if (given)
    w = genPoint(g, m, 5);
  const bool squared = g.boolean();
  std::shared_ptr<CostTerm> cost;
  if (squared)
    cost = given ? std::make_shared<SquaredCost>(set, w) : std::make_shared<SquaredCost>(set);
  else
    cost = given ? std::static_pointer_cast<CostTerm>(std::make_shared<AbsoluteCost>(set, w)) : std::make_shared<AbsoluteCost>(set);
  cost->linkWithVariables(l.vars);
  g.log() << (squared ? "squared" : "absolute") << " of " << m << " rows, weights " << pbt::mat(w);
  const int evals = g.range(1, 4);
  for (int e = 0; e < evals; ++e)
  {
    const Eigen::VectorXd x = genPoint(g, n);
    l.vars->setVariables(x);
    const int before = set->updates;
    CHECK(cost->update() == 1);
    CHECK(set->updates > before, << "the wrapped constraint is not updated");
    CHECK(cost->getRows() == 1 && cost->getBounds().size() == 1 && cost->getBounds()[0].getType() == BoundsType::kUnbounded);
    const Eigen::VectorXd v = f(x);
    const Eigen::MatrixXd J = f.jac(x);
    double want = 0, scale = 1;
    Eigen::VectorXd slope = Eigen::VectorXd::Zero(n);
    bool some = false, none = false, at_zero = false;
    for (int i = 0; i < m; ++i)
    {
      const double err = boundsError(v[i], b[static_cast<std::size_t>(i)]);
      const double wi = std::fabs(w[i]);
      some = some || err != 0;
      none = none || err == 0;
      // an error this close to zero has either subgradient
      if (!squared && err != 0 && std::fabs(err) < 1e-11)
        at_zero = true;
      want += squared ? wi * err * err : wi * std::fabs(err);
      slope += (squared ? 2 * wi * err : wi * (err > 0 ? 1 : err < 0 ? -1 : 0)) * J.row(i).transpose();
      scale += wi * (squared ? std::fabs(err) : 1) * J.row(i).cwiseAbs().maxCoeff();
    }
    if (m >= 2 && some && none && given)
      g.nontrivial();
    g.label(some ? none ? "mixed" : "violated" : "satisfied");
    CHECK_NEAR(cost->getValues()[0], want, 1e-11, 1e-11, << "cost at " << pbt::mat(x));
    const Eigen::MatrixXd j = cost->getJacobian();
    CHECK(j.rows() == 1 && j.cols() == n);
    if (!at_zero)
      for (int i = 0; i < n; ++i)
        CHECK_NEAR(j(0, i), slope[i], 1e-11 * scale, 1e-11, << "slope in variable " << i << " at " << pbt::mat(x));
  }
}
