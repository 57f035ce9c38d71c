// C09: a problem keeps what it is given, and its feasible points are feasible and closest
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>

#include <algorithm>

#include "pbt.h"

PBT_PROPERTY("C09",
             "Cases: histories of up to 12 operations (create variables with and without bounds, replace all or some bounds, add costs, "
             "equations and inequalities) followed by projections of random points with random margins, judged against a list model and "
             "coordinate-wise clamping; projections by the solver with linear constraints. Non-trivial: at least two batches of "
             "variables or a bound change, and a point outside the bounds.");

using namespace sco;

namespace
{
struct NoCost : Cost
{
  double value(const DblVec&) override { return 0; }
  ConvexObjective::Ptr convex(const DblVec&, Model* m) override { return std::make_shared<ConvexObjective>(m); }
  VarVector getVars() override { return {}; }
};
template <class Base>
struct NoCnt : Base
{
  DblVec value(const DblVec&) override { return {}; }
  ConvexConstraints::Ptr convex(const DblVec&, Model* m) override { return std::make_shared<ConvexConstraints>(m); }
  VarVector getVars() override { return {}; }
};
}  // namespace

PBT_CASES(histories, 150000, 600000)
{
  OptProb prob(ModelType::BPMPD);
  std::vector<double> lb, ub;
  std::vector<std::string> names;
  std::vector<Cost*> costs;
  std::vector<Constraint*> eq, ineq;
  VarVector vars;
  int batches = 0;
  auto bound = [&](double& l, double& u) {
    l = g.chance(1, 6) ? -INFINITY : g.num(6);
    u = g.chance(1, 6) ? INFINITY : (std::isinf(l) ? g.num(6) : l + (g.chance(1, 6) ? 0.0 : std::fabs(g.num(5))));
  };
  const int ops = g.count(1, 12, 40);
  for (int o = 0; o < ops; ++o)
    switch (g.range(0, 6))
    {
      case 0:
      case 1:
      {
        const int k = g.count(0, 4, 20);
        std::vector<std::string> nm;
        DblVec l, u;
        for (int i = 0; i < k; ++i)
        {
          nm.push_back("v" + std::to_string(names.size() + nm.size()));
          double a = 0, b = 0;
          bound(a, b);
          l.push_back(a);
          u.push_back(b);
        }
        const bool with = g.boolean();
        if (!with)
        {
          std::fill(l.begin(), l.end(), -INFINITY);
          std::fill(u.begin(), u.end(), INFINITY);
        }
        const VarVector got = with ? prob.createVariables(nm, l, u) : prob.createVariables(nm);
        CHECK(got.size() == nm.size());
        for (std::size_t i = 0; i < nm.size(); ++i)
        {
          CHECK(got[i].var_rep->name == nm[i] && got[i].var_rep->index == names.size() + i);
          vars.push_back(got[i]);
        }
        names.insert(names.end(), nm.begin(), nm.end());
        lb.insert(lb.end(), l.begin(), l.end());
        ub.insert(ub.end(), u.begin(), u.end());
        g.log() << "create " << k << (with ? " with bounds\n" : "\n");
        batches += k > 0;
        break;
      }
      case 2:
      {  // all bounds
        for (std::size_t i = 0; i < lb.size(); ++i)
          bound(lb[i], ub[i]);
        prob.setLowerBounds(lb);
        prob.setUpperBounds(ub);
        ++batches;
        g.log() << "all bounds\n";
        break;
      }
      case 3:
      {  // some bounds
        VarVector some;
        DblVec l, u;
        for (std::size_t i = lb.size(); i-- > 0;)
          if (g.boolean())
          {
            bound(lb[i], ub[i]);
            some.push_back(vars[i]);
            l.push_back(lb[i]);
            u.push_back(ub[i]);
          }
        prob.setUpperBounds(u, some);
        prob.setLowerBounds(l, some);
        ++batches;
        g.log() << "bounds of " << some.size() << "\n";
        break;
      }
      case 4:
      {
        auto c = std::make_shared<NoCost>();
        c->setName("cost" + std::to_string(costs.size()));
        costs.push_back(c.get());
        prob.addCost(c);
        break;
      }
      case 5:
      {
        auto c = std::make_shared<NoCnt<EqConstraint>>();
        eq.push_back(c.get());
        g.boolean() ? prob.addConstraint(c) : prob.addEqConstraint(c);
        break;
      }
      default:
      {
        auto c = std::make_shared<NoCnt<IneqConstraint>>();
        ineq.push_back(c.get());
        g.boolean() ? prob.addConstraint(c) : prob.addIneqConstraint(c);
      }
    }
  const std::size_t n = names.size();
  CHECK(prob.getNumVars() == static_cast<int>(n) && prob.getVars().size() == n);
  CHECK(prob.getLowerBounds() == lb && prob.getUpperBounds() == ub, << "the bounds are not those set last");
  CHECK(prob.getNumCosts() == static_cast<int>(costs.size()) && prob.getCosts().size() == costs.size());
  CHECK(prob.getNumConstraints() == static_cast<int>(eq.size() + ineq.size()));
  for (std::size_t i = 0; i < costs.size(); ++i)
    CHECK(prob.getCosts()[i].get() == costs[i] && prob.getCosts()[i]->name() == "cost" + std::to_string(i));
  const auto all = prob.getConstraints();
  CHECK(all.size() == eq.size() + ineq.size() && prob.getEqConstraints().size() == eq.size() &&
        prob.getIneqConstraints().size() == ineq.size());
  for (std::size_t i = 0; i < eq.size(); ++i)
    CHECK(prob.getEqConstraints()[i].get() == eq[i] && all[i].get() == eq[i]);
  for (std::size_t i = 0; i < ineq.size(); ++i)
    CHECK(prob.getIneqConstraints()[i].get() == ineq[i] && all[eq.size() + i].get() == ineq[i]);

  // feasible points
  DblVec x(n);
  for (auto& v : x)
    v = g.num(10);
  const double delta = g.pick(std::vector<double>{ 1e-3, 0.0, 1e-6, 0.05, 0.5 });
  const bool dflt = delta == 1e-3;
  const DblVec y = dflt ? prob.getClosestFeasiblePoint(x) : prob.getClosestFeasiblePoint(x, delta);
  CHECK(y.size() == n);
  bool outside = false;
  for (std::size_t i = 0; i < n; ++i)
  {
    g.log() << x[i] << " in [" << lb[i] << "," << ub[i] << "] margin " << delta << " -> " << y[i] << "\n";
    CHECK(y[i] >= lb[i] - 1e-12 && y[i] <= ub[i] + 1e-12, << "coordinate " << i << " of the feasible point is outside its bounds");
    outside = outside || x[i] < lb[i] || x[i] > ub[i];
    if (ub[i] - lb[i] >= 2 * delta)
      CHECK_NEAR(y[i], std::min(std::max(x[i], lb[i] + delta), ub[i] - delta), 1e-9, 0, << "coordinate " << i);
  }
  if (batches >= 2 && outside)
    g.nontrivial();
  bool finite = true;
  for (std::size_t i = 0; i < n; ++i)
    finite = finite && std::isfinite(lb[i]) && std::isfinite(ub[i]);
  if (finite)
  {
    const DblVec c = prob.getCentralFeasiblePoint(x);
    CHECK(c.size() == n);
    for (std::size_t i = 0; i < n; ++i)
      CHECK_NEAR(c[i], (lb[i] + ub[i]) / 2, 1e-9, 0, << "central coordinate " << i);
  }
  if (n > 0)
  {
    const DblVec q = prob.getClosestFeasiblePointQP(x);
    CHECK(q.size() == n);
    for (std::size_t i = 0; i < n; ++i)
      CHECK_NEAR(q[i], std::min(std::max(x[i], lb[i]), ub[i]), 5e-3, 1e-3, << "coordinate " << i << " of the solver's projection");
  }
}

// Linear constraints belong to the feasible set of the solver's projection
PBT_CASES(linear_constraints, 50000, 300000)
{
  OptProb prob(ModelType::BPMPD);
  const int n = g.count(1, 4, 40);
  std::vector<std::string> names;
  DblVec lb, ub, x;
  Eigen::VectorXd a(n), p(n);
  for (int i = 0; i < n; ++i)
  {
    names.push_back("v" + std::to_string(i));
    lb.push_back(-20);
    ub.push_back(20);
    x.push_back(g.range(-40, 40) / 8.0);
    p[i] = x.back();
    a[i] = (g.boolean() ? 1 : -1) * g.range(1, 16) / 8.0;
  }
  const VarVector v = prob.createVariables(names, lb, ub);
  AffExpr e(g.range(-24, 24) / 8.0);
  for (int i = 0; i < n; ++i)
    exprInc(e, exprMult(v[static_cast<std::size_t>(i)], a[i]));
  const bool eq = g.boolean();
  prob.addLinearConstraint(e, eq ? EQ : INEQ);
  const double s = a.dot(p) + e.constant;
  // orthogonal projection onto the plane / half space (the box is far away)
  Eigen::VectorXd want = p;
  if (eq || s > 0)
    want -= a * (s / a.squaredNorm());
  g.log() << e << (eq ? " == 0" : " <= 0") << " from " << pbt::mat(p.transpose());
  if (want.cwiseAbs().maxCoeff() > 19)
    return;
  if (std::fabs(s) > 0.1)
    g.nontrivial();
  const DblVec y = prob.getClosestFeasiblePointQP(x);
  for (int i = 0; i < n; ++i)
    CHECK_NEAR(y[static_cast<std::size_t>(i)], want[i], 1e-2, 1e-3, << "coordinate " << i);
}
