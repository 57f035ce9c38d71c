// C10: numerical derivatives approximate the true ones and leave the problem as it was
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/costs/squared_cost.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
#include <trajopt_ifopt/utils/numeric_differentiation.h>
#include <trajopt_sco/num_diff.hpp>

#include "ifopt_fixture.h"

PBT_PROPERTY("C10",
             "Cases: random smooth functions (affine, quadratic and sinusoidal parts) of 1..5 variables with 1..4 outputs, random "
             "points and step sizes 1e-6..1e-1, through every numerical derivative of the library, compared with the exact "
             "derivative within the truncation and rounding bound of the difference formula. Non-trivial: a function with a second "
             "derivative, of at least two variables.");

using namespace fx;

namespace
{
// bounds on the derivatives of order k in one variable direction, over everything (x up to ~5)
double derivBound(const Smooth& s, int k)
{
  double m = k == 2 ? s.A.cwiseAbs().maxCoeff() : 0;
  for (std::size_t i = 0; i < s.amp.size(); ++i)
    m += std::fabs(s.amp[i]) * std::pow(s.w[i].cwiseAbs().maxCoeff(), k);
  return m;
}
double size(const Smooth& s, const Eigen::VectorXd& x)
{
  double v = 1 + std::fabs(s.c) + s.b.cwiseAbs().dot(x.cwiseAbs()) + 0.5 * x.cwiseAbs().dot(s.A.cwiseAbs() * x.cwiseAbs());
  for (double a : s.amp)
    v += std::fabs(a) * 4;
  return v;
}
double genEps(pbt::Gen& g)
{
  static const double e[] = { 1e-2, 1e-1, 1e-3, 1e-4, 1e-5, 1e-6 };
  return e[g.range(0, 5)];
}
// forward difference: truncation plus rounding
double fwdTol(const Smooth& s, const Eigen::VectorXd& x, double eps)
{
  return 0.5 * eps * derivBound(s, 2) * 1.0001 + 4e-15 * size(s, x) / eps + 1e-12;
}
void classify(pbt::Gen& g, const std::vector<Smooth>& f, Eigen::Index n)
{
  double c = 0;
  for (auto& s : f)
    c += derivBound(s, 2);
  if (c > 0 && n >= 2)
    g.nontrivial();
  if (c > 0)
    g.label("curved");
}
}  // namespace

PBT_CASES(scalar_functions, 240000, 1200000)
{
  const int n = g.count(1, 5, 14);
  const Smooth f = Smooth::make(g, n);
  const Eigen::VectorXd x = genPoint(g, n);
  const double eps = genEps(g);
  classify(g, { f }, n);
  g.log() << "b=" << pbt::mat(f.b) << " A=" << pbt::mat(f.A) << " terms=" << f.amp.size() << " x=" << pbt::mat(x) << " eps=" << eps;
  auto sov = sco::ScalarOfVector::construct([&](const Eigen::VectorXd& v) { return f(v); });
  CHECK(sov->call(x) == f(x) && (*sov)(x) == f(x));
  const Eigen::VectorXd exact = f.grad(x);
  const Eigen::VectorXd g1 = sco::calcForwardNumGrad(*sov, x, eps);
  auto gf = sco::forwardNumGrad(sov, eps);
  const Eigen::VectorXd g2 = gf->call(x);
  CHECK(g1.size() == n && g2.size() == n);
  for (int i = 0; i < n; ++i)
  {
    // for a quadratic the forward difference is the slope plus half the curvature, exactly
    CHECK_NEAR(g1[i], exact[i], fwdTol(f, x, eps), 0, << "forward gradient, entry " << i);
    if (f.amp.empty())
      CHECK_NEAR(g1[i], exact[i] + 0.5 * eps * f.A(i, i), 4e-15 * size(f, x) / eps + 1e-12, 0, << "forward gradient of a quadratic");
    CHECK(g2[i] == g1[i], << "the two forms differ");
  }

  double y = 0;
  Eigen::VectorXd grad, hess;
  sco::calcGradAndDiagHess(*sov, x, eps, y, grad, hess);
  CHECK(y == f(x) && grad.size() == n && hess.size() == n);
  const Eigen::MatrixXd H = f.hess(x);
  for (int i = 0; i < n; ++i)
  {
    CHECK_NEAR(grad[i], exact[i], eps * eps / 24 * derivBound(f, 3) * 1.0001 + 4e-15 * size(f, x) / eps + 1e-12, 0,
               << "central gradient, entry " << i);
    // h = eps/2: (f+ + f- - 2f)/h^2
    CHECK_NEAR(hess[i], H(i, i), eps * eps / 48 * derivBound(f, 4) * 1.0001 + 6e-15 * size(f, x) / (eps * eps / 4) + 1e-10, 0,
               << "diagonal Hessian, entry " << i);
  }

  double y2 = 0;
  Eigen::VectorXd grad2;
  Eigen::MatrixXd full;
  sco::calcGradHess(sov, x, eps, y2, grad2, full);
  CHECK(y2 == f(x) && grad2.size() == n && full.rows() == n && full.cols() == n);
  for (int i = 0; i < n; ++i)
  {
    CHECK_NEAR(grad2[i], exact[i], fwdTol(f, x, eps), 0, << "gradient with Hessian, entry " << i);
    for (int j = 0; j < n; ++j)
    {
      CHECK(full(i, j) == full(j, i), << "the Hessian is not symmetric");
      CHECK_NEAR(full(i, j), H(i, j), 2 * eps * derivBound(f, 3) * 1.0001 + 2e-14 * size(f, x) / (eps * eps) + 1e-10, 0,
                 << "Hessian entry " << i << "," << j);
    }
  }
}

PBT_CASES(vector_functions, 240000, 1200000)
{
  const int n = g.count(1, 5, 14), m = g.count(1, 4, 12);
  const SmoothVec f = SmoothVec::make(g, m, n);
  const Eigen::VectorXd x = genPoint(g, n);
  const double eps = genEps(g);
  classify(g, f.f, n);
  g.log() << "m=" << m << " x=" << pbt::mat(x) << " eps=" << eps;
  const Eigen::MatrixXd exact = f.jac(x);
  auto vov = sco::VectorOfVector::construct([&](const Eigen::VectorXd& v) { return f(v); });
  CHECK(vov->call(x) == f(x));
  const Eigen::MatrixXd j1 = sco::calcForwardNumJac(*vov, x, eps);
  const Eigen::MatrixXd j2 = sco::forwardNumJac(vov, eps)->call(x);
  const Eigen::MatrixXd j3 = trajopt_ifopt::calcForwardNumJac([&](const Eigen::Ref<const Eigen::VectorXd>& v) { return f(v); }, x, eps);
  for (const Eigen::MatrixXd* j : { &j1, &j2, &j3 })
  {
    CHECK(j->rows() == m && j->cols() == n);
    for (int r = 0; r < m; ++r)
      for (int c = 0; c < n; ++c)
        CHECK_NEAR((*j)(r, c), exact(r, c), fwdTol(f.f[static_cast<std::size_t>(r)], x, eps), 0,
                   << "Jacobian entry " << r << "," << c << " of form " << (j == &j1 ? 1 : j == &j2 ? 2 : 3));
  }
}

// a cost term with an exact gradient
class FnCost : public CostTerm
{
public:
  Smooth f;
  FnCost(std::string name, Smooth fn) : CostTerm(std::move(name)), f(std::move(fn)) { non_zeros_ = 64; }
  double getCost() const override { return f(variables_->getValues()); }
  int update() override { return rows_; }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(1); }
  Jacobian getJacobian() const override
  {
    const Eigen::VectorXd gr = f.grad(variables_->getValues());
    Jacobian j(1, gr.size());
    for (Eigen::Index i = 0; i < gr.size(); ++i)
      j.insert(0, i) = gr[i];
    return j;
  }
};

PBT_CASES(problems, 120000, 600000)
{
  Layout l = genVars(g, 3, true);
  const int n = l.vars->getRows();
  Problem nlp(l.vars);
  std::vector<Smooth> costs;
  std::vector<std::shared_ptr<FnSet>> sets;
  std::vector<Smooth> rows;
  const int nc = g.count(0, 3, 8), ns = g.count(0, 3, 8);
  for (int i = 0; i < nc; ++i)
  {
    costs.push_back(Smooth::make(g, n));
    nlp.addCostSet(std::make_shared<FnCost>("c" + std::to_string(i), costs.back()));
  }
  for (int i = 0; i < ns; ++i)
  {
    const int m = g.range(1, 3);
    SmoothVec f = SmoothVec::make(g, m, n);
    rows.insert(rows.end(), f.f.begin(), f.f.end());
    sets.push_back(std::make_shared<FnSet>("s" + std::to_string(i), f, std::vector<Bounds>(static_cast<std::size_t>(m), BoundZero),
                                           Eigen::VectorXd::Ones(m)));
    sets.back()->keeps = g.boolean();
    nlp.addConstraintSet(sets.back());
  }
  std::vector<Smooth> all = costs;
  all.insert(all.end(), rows.begin(), rows.end());
  classify(g, all, n);
  const Eigen::VectorXd at = genPoint(g, n), now = genPoint(g, n);
  const double eps = genEps(g);
  nlp.setVariables(now.data());
  const std::size_t hash = l.vars->getHash();
  g.log() << nc << " costs, " << rows.size() << " constraint rows, at " << pbt::mat(at) << " now " << pbt::mat(now) << " eps " << eps;

  auto restored = [&](const char* what) {
    CHECK(nlp.getVariableValues() == now && l.vars->getHash() == hash, << what << " changes the variables");
    Eigen::Index k = 0;
    for (auto& v : l.all)
    {
      CHECK(v->value() == now.segment(k, v->size()), << what << " changes a variable");
      k += v->size();
    }
    const Eigen::VectorXd values = nlp.evaluateConstraints();
    for (std::size_t r = 0; r < rows.size(); ++r)
      CHECK(values[static_cast<Eigen::Index>(r)] == rows[r](now), << what << " leaves constraint row " << r << " at another point");
  };
  auto checkCost = [&](const Eigen::VectorXd& gr, const Eigen::VectorXd& x, const char* what) {
    CHECK(gr.size() == n, << what);
    Eigen::VectorXd exact = Eigen::VectorXd::Zero(n);
    double tol = 1e-12;
    for (auto& c : costs)
    {
      exact += c.grad(x);
      tol += fwdTol(c, x, eps);
    }
    for (int i = 0; i < n; ++i)
      CHECK_NEAR(gr[i], exact[i], tol, 0, << what << ", entry " << i);
  };
  auto checkJac = [&](const Eigen::MatrixXd& j, const std::vector<Smooth>& f, const Eigen::VectorXd& x, const char* what) {
    CHECK(j.rows() == static_cast<Eigen::Index>(f.size()) && j.cols() == n, << what);
    for (std::size_t r = 0; r < f.size(); ++r)
    {
      const Eigen::VectorXd e = f[r].grad(x);
      for (int i = 0; i < n; ++i)
        CHECK_NEAR(j(static_cast<Eigen::Index>(r), i), e[i], fwdTol(f[r], x, eps), 0, << what << ", entry " << r << "," << i);
    }
  };
  checkCost(calcNumericalCostGradient(at.data(), nlp, eps), at, "numerical cost gradient");
  restored("the numerical cost gradient");
  checkCost(nlp.evaluateCostFunctionGradient(true, eps), now, "finite difference cost gradient");
  restored("the finite difference cost gradient");
  checkJac(calcNumericalConstraintGradient(at.data(), nlp, eps), rows, at, "numerical constraint gradient");
  restored("the numerical constraint gradient");
  for (auto& s : sets)
  {
    checkJac(calcNumericalConstraintGradient(*l.vars, *s, eps), s->f.f, now, "numerical gradient of one set");
    restored("the numerical gradient of one set");
  }
}
