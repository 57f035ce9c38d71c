// C17: a problem is the sum of its costs and the stack of its constraints
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/costs/squared_cost.h>

#include "ifopt_fixture.h"

PBT_PROPERTY("C17",
             "Cases: problems of 0..4 cost terms and 0..4 constraint sets over random variables through histories of value changes, saves "
             "and restores, and stacks of fixed and changing-size sets; values, bounds, coefficients and Jacobians compared with those of "
             "the parts. Non-trivial: at least two costs or two constraint sets, and a value change.");

using namespace fx;

PBT_CASES(problem_histories, 100000, 1000000)
{
  Layout l = genVars(g, 3, g.boolean());
  const int n = l.vars->getRows();
  Problem nlp(l.vars);
  const int nc = g.count(0, 4, 12), ns = g.count(0, 4, 12);
  struct Cost
  {
    SmoothVec f;
    std::vector<Bounds> b;
    Eigen::VectorXd w;
    bool squared;
  };
  std::vector<Cost> costs;
  std::vector<std::shared_ptr<FnSet>> sets;
  // costs and constraints added in any order
  int c = 0, s = 0;
  while (c < nc || s < ns)
  {
    const int m = g.count(1, 3, 12);
    SmoothVec f = SmoothVec::make(g, m, n, g.boolean());
    std::vector<Bounds> b;
    for (int i = 0; i < m; ++i)
      b.push_back(genBounds(g));
    auto set = std::make_shared<FnSet>("set" + std::to_string(s), f, b, genCoeffs(g, m));
    set->keeps = g.boolean();
    if (s >= ns || (c < nc && g.boolean()))
    {
      ++c;
      set->linkWithVariables(l.vars);
      costs.push_back({ f, b, genPoint(g, m).cwiseAbs(), g.boolean() });
      if (costs.back().squared)
        nlp.addCostSet(std::make_shared<SquaredCost>(set, costs.back().w));
      else
        nlp.addCostSet(std::make_shared<AbsoluteCost>(set, costs.back().w));
    }
    else
    {
      ++s;
      sets.push_back(set);
      nlp.addConstraintSet(set);
    }
  }
  CHECK(nlp.getNumberOfOptimizationVariables() == n && nlp.hasCostTerms() == (nc > 0) && nlp.getOptVariables() == l.vars);
  CHECK(nlp.getBoundsOnOptimizationVariables().size() == static_cast<std::size_t>(n));
  Eigen::VectorXd x = l.vars->getValues();
  std::vector<Eigen::VectorXd> saved;

  auto check = [&]() {
    CHECK(nlp.getVariableValues() == x);
    // costs
    Eigen::VectorXd each(nc), slope = Eigen::VectorXd::Zero(n);
    Eigen::MatrixXd J(nc, n);
    double total = 0, scale = 1;
    for (int i = 0; i < nc; ++i)
    {
      const Cost& k = costs[static_cast<std::size_t>(i)];
      const Eigen::VectorXd v = k.f(x);
      const Eigen::MatrixXd d = k.f.jac(x);
      each[i] = 0;
      J.row(i).setZero();
      for (Eigen::Index r = 0; r < v.size(); ++r)
      {
        const double e = boundsError(v[r], k.b[static_cast<std::size_t>(r)]);
        each[i] += k.squared ? k.w[r] * e * e : k.w[r] * std::fabs(e);
        J.row(i) += (k.squared ? 2 * k.w[r] * e : std::fabs(e) < 1e-12 ? 0 : k.w[r] * (e > 0 ? 1 : -1)) * d.row(r);
        scale += d.row(r).cwiseAbs().maxCoeff() * k.w[r] * (1 + std::fabs(e));
      }
      total += each[i];
      slope += J.row(i).transpose();
    }
    CHECK_NEAR(nlp.evaluateCostFunction(), total, 1e-10, 1e-10, << "total cost");
    const Eigen::VectorXd gr = nlp.evaluateCostFunctionGradient();
    CHECK(gr.size() == n);
    for (int i = 0; i < n; ++i)
      CHECK_NEAR(gr[i], slope[i], 1e-10 * scale, 1e-10, << "slope of the total cost in variable " << i);
    const Eigen::VectorXd cv = nlp.getCosts().getValues();
    const Eigen::MatrixXd cj = nlp.getJacobianOfCosts();
    CHECK(cv.size() == nc && cj.rows() == nc && cj.cols() == n);
    for (int i = 0; i < nc; ++i)
    {
      CHECK_NEAR(cv[i], each[i], 1e-10, 1e-10, << "cost " << i);
      for (int k = 0; k < n; ++k)
        CHECK_NEAR(cj(i, k), J(i, k), 1e-10 * scale, 1e-10, << "slope of cost " << i);
    }
    // constraints
    const Eigen::VectorXd v = nlp.evaluateConstraints();
    const auto b = nlp.getBoundsOnConstraints();
    Jacobian cjac = nlp.getJacobianOfConstraints();
    const Eigen::MatrixXd d = cjac;
    const Eigen::VectorXd co = nlp.getConstraints().getCoefficients();
    Eigen::Index row = 0;
    std::vector<double> nz;
    for (auto& set : sets)
    {
      const Eigen::VectorXd want = set->f(x);
      const Eigen::MatrixXd wj = set->f.jac(x);
      CHECK(v.size() >= row + want.size() && d.rows() == v.size() && d.cols() == n && co.size() == v.size());
      for (Eigen::Index r = 0; r < want.size(); ++r, ++row)
      {
        CHECK(v[row] == want[r], << "constraint row " << row);
        CHECK(co[row] == set->coeffs[r]);
        CHECK(b[static_cast<std::size_t>(row)].getLower() == set->bounds[static_cast<std::size_t>(r)].getLower() &&
              b[static_cast<std::size_t>(row)].getUpper() == set->bounds[static_cast<std::size_t>(r)].getUpper());
        for (int k = 0; k < n; ++k)
        {
          CHECK(d(row, k) == wj(r, k), << "Jacobian entry " << row << "," << k);
          if (wj(r, k) != 0)
            nz.push_back(wj(r, k));
        }
      }
    }
    CHECK(v.size() == row && static_cast<Eigen::Index>(b.size()) == row && nlp.getNumberOfConstraints() == row);
    CHECK(nlp.getConstraints().getRows() == row);
    std::vector<double> got(nz.size() + 1, 12345.5);
    nlp.evalNonzerosOfJacobian(got.data());
    CHECK(got.back() == 12345.5, << "more nonzeros than the Jacobian has");
    got.pop_back();
    CHECK(got == nz, << "the nonzeros, row by row");
    CHECK(nlp.getIterationCount() == static_cast<int>(saved.size()));
    for (std::size_t i = 0; i < saved.size(); ++i)
      CHECK(nlp.getIterations()[i] == saved[i], << "saved iteration " << i);
  };
  check();
  const int steps = g.count(0, 5, 15);
  for (int i = 0; i < steps; ++i)
  {
    const int op = g.range(0, 3);
    if (op <= 1 || saved.empty())
    {
      x = genPoint(g, n);
      nlp.setVariables(x.data());
    }
    else if (op == 2)
    {
      const int k = g.range(0, static_cast<int>(saved.size()) - 1);
      nlp.setOptVariables(k);
      x = saved[static_cast<std::size_t>(k)];
    }
    else
    {
      nlp.setOptVariablesFinal();
      x = saved.back();
    }
    if (g.boolean())
    {
      nlp.saveCurrent();
      saved.push_back(x);
    }
    if ((nc >= 2 || ns >= 2))
      g.nontrivial();
    check();
  }
  if (nc >= 2)
    g.label("several costs");
  if (ns >= 2)
    g.label("several constraints");
}

PBT_CASES(stacks, 100000, 1000000)
{
  Layout l = genVars(g, 2, true);
  const int n = l.vars->getRows();
  const bool dynamic = g.boolean();
  CompositeDifferentiable comp("stack", n, Differentiable::Mode::kStackRows, dynamic);
  std::vector<std::shared_ptr<FnSet>> sets;
  CHECK(comp.empty() && comp.getRows() == 0 && comp.isDynamic() == dynamic && !comp.isScalar());
  const int steps = g.count(1, 8, 25);
  Eigen::VectorXd x = l.vars->getValues();
  bool current = true;
  for (int i = 0; i < steps; ++i)
  {
    switch (g.range(0, 3))
    {
      case 0:
      {
        const int m = g.count(dynamic ? 0 : 1, 3, 12);
        const SmoothVec f = SmoothVec::make(g, m, n, g.boolean());
        std::vector<Bounds> b;
        for (int k = 0; k < m; ++k)
          b.push_back(genBounds(g));
        sets.push_back(std::make_shared<FnSet>("set" + std::to_string(sets.size()), f, b, genCoeffs(g, m), dynamic));
        sets.back()->linkWithVariables(l.vars);
        sets.back()->update();
        comp.addComponent(sets.back());
        break;
      }
      case 1:
        x = genPoint(g, n);
        l.vars->setVariables(x);
        comp.update();
        break;
      case 2:
        if (g.chance(1, 4))
        {
          comp.clearComponents();
          sets.clear();
          CHECK(comp.empty() && comp.getRows() == 0);
        }
        break;
      default:
        comp.update();
    }
    int rows = 0;
    for (auto& s : sets)
      rows += s->getRows();
    g.log() << rows << " ";
    CHECK(comp.getRows() == rows && comp.empty() == sets.empty() && comp.getComponents().size() == sets.size());
    const Eigen::VectorXd v = comp.getValues(), co = comp.getCoefficients();
    const Eigen::MatrixXd j = comp.getJacobian();
    const auto b = comp.getBounds();
    CHECK(v.size() == rows && co.size() == rows && j.rows() == rows && j.cols() == n && static_cast<int>(b.size()) == rows);
    Eigen::Index r = 0;
    for (auto& s : sets)
    {
      CHECK(comp.getComponent(s->getName()) == s);
      const Eigen::VectorXd sv = s->f(x);
      const Eigen::MatrixXd sj = s->f.jac(x);
      CHECK(s->getRows() == s->rowsAt(x), << "a part is not updated");
      for (int k = 0; k < s->getRows(); ++k, ++r)
      {
        CHECK(v[r] == sv[k] && co[r] == s->coeffs[k]);
        CHECK(b[static_cast<std::size_t>(r)].getLower() == s->bounds[static_cast<std::size_t>(k)].getLower());
        CHECK(b[static_cast<std::size_t>(r)].getUpper() == s->bounds[static_cast<std::size_t>(k)].getUpper());
        for (int c = 0; c < n; ++c)
          CHECK(j(r, c) == sj(k, c));
      }
    }
    if (sets.size() >= 2 && rows > 0)
      g.nontrivial();
  }
  const CompositeDifferentiable sum("sum", n, Differentiable::Mode::kSumToScalar, dynamic);
  CHECK(sum.isScalar() && sum.isDynamic() == dynamic && sum.getName() == "sum" && sum.empty());
  for (auto& s : sets)
    CHECK(!s->isScalar() && s->isDynamic() == dynamic);
  if (dynamic)
    g.label("dynamic");
}
