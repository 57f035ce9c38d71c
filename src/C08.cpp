// C08: convex terms mean what they say, and convexified costs and constraints are tangent to the functions they stand for
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/num_diff.hpp>

#include <algorithm>

#include "mock_model.h"
#include "pbt.h"
#include "smooth.h"

PBT_PROPERTY("C08",
             "Cases: random lists of affine, quadratic, hinge, absolute, norm and maximum terms added to a recording model, whose minimum "
             "over the auxiliary variables (by active-set enumeration) is compared with the terms' own value at random points; costs "
             "and constraints built from random smooth functions (quadratic plus sines, exact derivatives known), with analytic or "
             "numerical derivatives, weights with zeros, and variables that are a permuted subset of the problem's, whose convexification "
             "is compared with the first/second order expansion; life cycles of terms in the model. Non-trivial: a term with auxiliary "
             "variables, or a function that is not affine.");

using namespace sco;

namespace
{
struct World
{
  MockModel m;
  VarVector vars;
  std::vector<double> x;
};
void world(pbt::Gen& g, World& w, int lo, int hi)
{
  const int n = g.range(lo, hi);
  for (int i = 0; i < n; ++i)
  {
    w.vars.push_back(w.m.addVar("x" + std::to_string(i)));
    w.x.push_back(g.num(3));
  }
}
AffExpr affine(pbt::Gen& g, const World& w)
{
  AffExpr a(g.num(3));
  const int k = g.count(0, 4, 16);
  for (int i = 0; i < k; ++i)
  {
    a.vars.push_back(g.pick(w.vars));
    a.coeffs.push_back(g.num(3));
  }
  return a;
}
std::vector<double> point(pbt::Gen& g, std::size_t n)
{
  std::vector<double> x(n);
  for (auto& v : x)
    v = g.num(3);
  return x;
}
}  // namespace

PBT_CASES(terms, 80000, 400000)
{
  World w;
  world(g, w, 1, 4);
  const std::size_t n = w.x.size();
  std::vector<std::function<double(const std::vector<double>&)>> want;
  {
    ConvexObjective obj(&w.m);
    int aux = 0, rows = 0;
    const int k = g.range(1, 4);
    for (int i = 0; i < k; ++i)
    {
      const AffExpr a = affine(g, w);
      const double c = std::fabs(g.num(3));
      AffExprVector list;
      const int len = g.range(0, 2);
      for (int j = 0; j < len; ++j)
        list.push_back(affine(g, w));
      switch (g.range(0, 7))
      {
        case 0:
          obj.addAffExpr(a);
          g.log() << "affine " << a << "\n";
          want.push_back([a](const std::vector<double>& x) { return a.value(x); });
          break;
        case 1:
        {
          const QuadExpr q = exprMult(a, affine(g, w));
          obj.addQuadExpr(q);
          g.log() << "quadratic " << q << "\n";
          want.push_back([q](const std::vector<double>& x) { return q.value(x); });
          break;
        }
        case 2:
          if (aux + 1 > 4)
            break;
          obj.addHinge(a, c);
          aux += 1;
          rows += 1;
          g.log() << c << " hinge " << a << "\n";
          want.push_back([a, c](const std::vector<double>& x) { return c * std::max(a.value(x), 0.0); });
          break;
        case 3:
          if (aux + 2 > 4)
            break;
          obj.addAbs(a, c);
          aux += 2;
          g.log() << c << " abs " << a << "\n";
          want.push_back([a, c](const std::vector<double>& x) { return c * std::fabs(a.value(x)); });
          break;
        case 4:
          if (aux + len > 4)
            break;
          obj.addHinges(list);
          aux += len;
          rows += len;
          g.log() << len << " hinges\n";
          want.push_back([list](const std::vector<double>& x) {
            double s = 0;
            for (auto& e : list)
              s += std::max(e.value(x), 0.0);
            return s;
          });
          break;
        case 5:
          if (aux + 2 * len > 4)
            break;
          obj.addL1Norm(list);
          aux += 2 * len;
          g.log() << len << " absolutes\n";
          want.push_back([list](const std::vector<double>& x) {
            double s = 0;
            for (auto& e : list)
              s += std::fabs(e.value(x));
            return s;
          });
          break;
        case 6:
          obj.addL2Norm(list);
          g.log() << len << " squares\n";
          want.push_back([list](const std::vector<double>& x) {
            double s = 0;
            for (auto& e : list)
              s += e.value(x) * e.value(x);
            return s;
          });
          break;
        default:
          if (len == 0 || aux + 1 > 4)
            break;
          obj.addMax(list);
          aux += 1;
          rows += len;
          g.log() << "max of " << len << "\n";
          want.push_back([list](const std::vector<double>& x) {
            double s = -1e300;
            for (auto& e : list)
              s = std::max(s, e.value(x));
            return s;
          });
      }
    }
    if (aux > 0)
      g.nontrivial();
    CHECK(obj.inModel());
    obj.addConstraintsToModel();
    for (int t = 0; t < 2; ++t)
    {
      const auto x = t == 0 ? w.x : point(g, n);
      double expect = 0, size = 1;
      for (auto& f : want)
      {
        expect += f(x);
        size += std::fabs(f(x));
      }
      double constant = 0;
      const qpref::Answer a = w.m.minimum(obj.quad_, x, constant);
      CHECK(a.feasible, << "no value of the auxiliary variables is feasible");
      CHECK_NEAR(a.value + constant, expect, 1e-5 * size, 0, << "minimum of the convex terms at " << x.size() << " variables");
      // value() of the objective is its expression at a full point
      std::vector<double> full(w.m.vars.size(), 0.0);
      std::copy(x.begin(), x.end(), full.begin());
      Eigen::Index j = 0;
      for (std::size_t i = n; i < w.m.vars.size(); ++i)
        if (w.m.vars[i].live)
          full[i] = a.x[j++];
      CHECK_NEAR(obj.value(full), expect, 1e-5 * size, 0, << "value at the minimum");
    }
    if (g.boolean())
    {
      obj.removeFromModel();
      CHECK(!obj.inModel());
      CHECK(w.m.liveCnts() == 0 && w.m.liveVars() == n, << "after removal " << w.m.liveVars() - n << " auxiliary variables and "
                                                        << w.m.liveCnts() << " constraints are left");
    }
  }
  CHECK(w.m.liveCnts() == 0, << w.m.liveCnts() << " constraints are left in the model");
  CHECK(w.m.liveVars() == n, << w.m.liveVars() - n << " auxiliary variables are left in the model");
  CHECK(w.m.unknown == 0, << "something was removed twice");
}

PBT_CASES(constraint_sets, 240000, 1200000)
{
  World w;
  world(g, w, 1, 4);
  AffExprVector eqs, ineqs;
  {
    ConvexConstraints c(g.boolean() ? &w.m : nullptr);
    const int k = g.count(0, 6, 24);
    for (int i = 0; i < k; ++i)
    {
      const AffExpr a = affine(g, w);
      if (g.boolean())
      {
        eqs.push_back(a);
        c.addEqCnt(a);
      }
      else
      {
        ineqs.push_back(a);
        c.addIneqCnt(a);
      }
    }
    if (!eqs.empty() && !ineqs.empty())
      g.nontrivial();
    if (!c.inModel())
      c.setModel(&w.m);
    std::vector<double> want;
    double sum = 0;
    for (auto& e : eqs)
      want.push_back(std::fabs(e.value(w.x)));
    for (auto& e : ineqs)
      want.push_back(std::max(0.0, e.value(w.x)));
    DblVec got = c.violations(w.x);
    CHECK(got.size() == want.size());
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    for (std::size_t i = 0; i < got.size(); ++i)
    {
      sum += want[i];
      CHECK_NEAR(got[i], want[i], 1e-12, 1e-12, << "violation");
    }
    CHECK_NEAR(c.violation(w.x), sum, 1e-10, 1e-10);
    c.addConstraintsToModel();
    CHECK(w.m.liveCnts() == eqs.size() + ineqs.size());
    // the model has exactly these rows
    for (int t = 0; t < 2; ++t)
    {
      const auto x = point(g, w.x.size());
      double a = 0, b = 0;
      for (auto& r : w.m.cnts)
        a += (r.eq ? 3.0 : 1.0) * r.e.value(x) * (1 + r.e.value(x));
      for (auto& e : eqs)
        b += 3.0 * e.value(x) * (1 + e.value(x));
      for (auto& e : ineqs)
        b += e.value(x) * (1 + e.value(x));
      CHECK_NEAR(a, b, 1e-8, 1e-9, << "rows in the model");
    }
    if (g.boolean())
    {
      c.removeFromModel();
      CHECK(!c.inModel() && w.m.liveCnts() == 0);
    }
  }
  CHECK(w.m.liveCnts() == 0 && w.m.unknown == 0, << "constraints are left in the model or removed twice");
}

namespace
{
struct Fn
{
  VarVector vars;              // a permuted subset of the problem's
  std::vector<std::size_t> at;
  Eigen::VectorXd x0;
  Eigen::VectorXd of(const std::vector<double>& x) const
  {
    Eigen::VectorXd r(static_cast<Eigen::Index>(at.size()));
    for (std::size_t i = 0; i < at.size(); ++i)
      r[static_cast<Eigen::Index>(i)] = x[at[i]];
    return r;
  }
};
Fn subset(pbt::Gen& g, const World& w, std::size_t most)
{
  Fn f;
  std::vector<std::size_t> all(w.vars.size());
  for (std::size_t i = 0; i < all.size(); ++i)
    all[i] = i;
  const std::size_t k = 1 + g.index(std::min(most, all.size()));
  for (std::size_t i = 0; i < k; ++i)
  {
    const auto j = g.index(all.size());
    f.at.push_back(all[j]);
    f.vars.push_back(w.vars[all[j]]);
    all.erase(all.begin() + static_cast<long>(j));
  }
  f.x0 = f.of(w.x);
  return f;
}
}  // namespace

PBT_CASES(error_costs, 60000, 300000)
{
  World w;
  world(g, w, 1, 5);
  const std::size_t n = w.x.size();
  const Fn f = subset(g, w, 4);
  const int rows = g.count(1, 3, 6);
  const bool analytic = g.boolean();
  const SmoothVec fn = SmoothVec::make(g, rows, static_cast<int>(f.at.size()), g.chance(1, 4));
  Eigen::VectorXd coeffs(g.chance(1, 4) ? 0 : rows);
  for (Eigen::Index i = 0; i < coeffs.size(); ++i)
    coeffs[i] = std::fabs(g.num(4));
  const PenaltyType pen = g.pick(std::vector<PenaltyType>{ SQUARED, ABS, HINGE });
  if (pen == ABS && rows > 2)
    return;
  auto vf = VectorOfVector::construct([&](const Eigen::VectorXd& x) { return fn(x); });
  auto mf = MatrixOfVector::construct([&](const Eigen::VectorXd& x) { return fn.jac(x); });
  CostFromErrFunc cost = analytic ? CostFromErrFunc(vf, mf, f.vars, coeffs, pen, "c") : CostFromErrFunc(vf, f.vars, coeffs, pen, "c");
  auto penalty = [&](const Eigen::VectorXd& e) {
    double s = 0;
    for (Eigen::Index i = 0; i < e.size(); ++i)
      s += (coeffs.size() ? coeffs[i] : 1.0) * (pen == SQUARED ? e[i] * e[i] : pen == ABS ? std::fabs(e[i]) : std::max(e[i], 0.0));
    return s;
  };
  CHECK(cost.getVars().size() == f.vars.size() && cost.name() == "c");
  const Eigen::VectorXd y = fn(f.x0);
  const Eigen::MatrixXd J = fn.jac(f.x0);
  g.log() << "penalty " << pen << " coeffs " << pbt::mat(coeffs.transpose()) << " err " << pbt::mat(y.transpose()) << " jac "
          << pbt::mat(J) << " at " << pbt::mat(f.x0.transpose());
  CHECK_NEAR(cost.value(w.x), penalty(y), 1e-9, 1e-9, << "value");
  {
    ConvexObjective::Ptr c = cost.convex(w.x, &w.m);
    c->addConstraintsToModel();
    for (int t = 0; t < 2; ++t)
    {
      auto z = w.x;
      if (t > 0)
        for (auto& v : z)
          v += g.num(2);
      const Eigen::VectorXd e = y + J * (f.of(z) - f.x0);
      const double expect = penalty(e);
      double constant = 0;
      const qpref::Answer a = w.m.minimum(c->quad_, z, constant);
      CHECK(a.feasible);
      const double tol = (analytic ? 1e-5 : 2e-3) * (1 + expect + e.cwiseAbs().maxCoeff());
      CHECK_NEAR(a.value + constant, expect, tol, 0, << (t == 0 ? "at the expansion point" : "away from the expansion point"));
    }
    g.nontrivial();
  }
  CHECK(w.m.liveVars() == n && w.m.liveCnts() == 0 && w.m.unknown == 0, << "the convexified cost leaves something in the model");
}

PBT_CASES(error_constraints, 240000, 1200000)
{
  World w;
  world(g, w, 1, 5);
  const Fn f = subset(g, w, 4);
  const int rows = g.count(1, 4, 14);
  const bool analytic = g.boolean();
  const SmoothVec fn = SmoothVec::make(g, rows, static_cast<int>(f.at.size()), g.chance(1, 4));
  Eigen::VectorXd coeffs(g.chance(1, 4) ? 0 : rows);
  for (Eigen::Index i = 0; i < coeffs.size(); ++i)
    coeffs[i] = g.num(4);  // a negative one turns the row around
  const ConstraintType type = g.boolean() ? EQ : INEQ;
  auto vf = VectorOfVector::construct([&](const Eigen::VectorXd& x) { return fn(x); });
  auto mf = MatrixOfVector::construct([&](const Eigen::VectorXd& x) { return fn.jac(x); });
  ConstraintFromErrFunc cnt = analytic ? ConstraintFromErrFunc(vf, mf, f.vars, coeffs, type, "k") :
                                         ConstraintFromErrFunc(vf, f.vars, coeffs, type, "k");
  CHECK(cnt.type() == type && cnt.getVars().size() == f.vars.size() && cnt.name() == "k");
  const Eigen::VectorXd y = fn(f.x0);
  const Eigen::MatrixXd J = fn.jac(f.x0);
  const DblVec val = cnt.value(w.x), viol = cnt.violations(w.x);
  CHECK(static_cast<int>(val.size()) == rows && static_cast<int>(viol.size()) == rows);
  double sum = 0;
  int live = 0;
  for (int i = 0; i < rows; ++i)
  {
    const double k = coeffs.size() ? coeffs[i] : 1.0;
    live += k != 0;
    const double v = k * y[i];
    CHECK_NEAR(val[static_cast<std::size_t>(i)], v, 1e-10, 1e-10, << "value " << i);
    const double vi = type == EQ ? std::fabs(v) : std::max(v, 0.0);
    CHECK_NEAR(viol[static_cast<std::size_t>(i)], vi, 1e-10, 1e-10, << "violation " << i);
    sum += vi;
  }
  CHECK_NEAR(cnt.violation(w.x), sum, 1e-9, 1e-9);
  {
    ConvexConstraints::Ptr c = cnt.convex(w.x, &w.m);
    c->addConstraintsToModel();
    CHECK(static_cast<int>(w.m.cnts.size()) == live, << "one row per weighted component: " << w.m.cnts.size() << " of " << live);
    for (int t = 0; t < 2; ++t)
    {
      auto z = w.x;
      if (t > 0)
        for (auto& v : z)
          v += g.num(2);
      std::vector<double> want, got;
      for (int i = 0; i < rows; ++i)
      {
        const double k = coeffs.size() ? coeffs[i] : 1.0;
        if (k != 0)
          want.push_back(k * (y[i] + J.row(i).dot(f.of(z) - f.x0)));
      }
      for (auto& r : w.m.cnts)
      {
        CHECK(r.eq == (type == EQ), << "equation or inequality");
        got.push_back(r.e.value(z));
      }
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      for (std::size_t i = 0; i < want.size(); ++i)
        CHECK_NEAR(got[i], want[i], (analytic ? 1e-5 : 1e-3) * (1 + std::fabs(want[i])), 0, << "linearized row");
    }
    // violation of the linearization at the expansion point is that of the constraint
    CHECK_NEAR(c->violation(w.x), sum, 1e-5 * (1 + sum), 0, << "violation of the linearization");
    g.nontrivial();
  }
  CHECK(w.m.liveCnts() == 0 && w.m.unknown == 0);
}

PBT_CASES(scalar_costs, 160000, 800000)
{
  World w;
  world(g, w, 1, 5);
  const Fn f = subset(g, w, 4);
  const auto k = static_cast<Eigen::Index>(f.at.size());
  const bool full = g.boolean();
  const Smooth fn = Smooth::make(g, static_cast<int>(k));
  CostFromFunc cost(ScalarOfVector::construct([&](const Eigen::VectorXd& x) { return fn(x); }), f.vars, "s", full);
  const double y = fn(f.x0);
  CHECK_NEAR(cost.value(w.x), y, 1e-12, 1e-12);
  const Eigen::VectorXd grad = fn.grad(f.x0);
  Eigen::MatrixXd H = fn.hess(f.x0);
  if (full)
  {
    const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(H);
    H = es.eigenvectors() * es.eigenvalues().cwiseMax(0.0).asDiagonal() * es.eigenvectors().transpose();
  }
  else
  {
    const Eigen::VectorXd d = H.diagonal().cwiseMax(0.0);
    H = d.asDiagonal();
  }
  g.log() << "c " << fn.c << " b " << pbt::mat(fn.b.transpose()) << " A " << pbt::mat(fn.A) << " sines " << fn.amp.size() << " x0 " << pbt::mat(f.x0.transpose()) << "\n" << (full ? "full" : "diagonal") << " value " << y << " grad " << pbt::mat(grad.transpose()) << " hessian " << pbt::mat(H);
  ConvexObjective::Ptr c = cost.convex(w.x, &w.m);
  c->addConstraintsToModel();
  CHECK(w.m.liveCnts() == 0 && w.m.liveVars() == w.x.size());
  CHECK_NEAR(c->value(w.x), y, 1e-5 * (1 + std::fabs(y)), 0, << "the expansion at its point");
  for (int t = 0; t < 2; ++t)
  {
    auto z = w.x;
    for (auto& v : z)
      v += g.num(1);
    const Eigen::VectorXd d = f.of(z) - f.x0;
    const double expect = y + grad.dot(d) + 0.5 * d.dot(H * d);
    CHECK_NEAR(c->value(z), expect, 0.02 * (1 + std::fabs(y) + d.norm()), 0, << "the expansion at distance " << d.norm());
  }
  if (H.norm() > 0.1)
    g.nontrivial();
}

PBT_CASES(value_gradient, 400000, 2000000)
{
  World w;
  world(g, w, 1, 5);
  const Fn f = subset(g, w, 5);
  Eigen::VectorXd grad(f.x0.size());
  for (Eigen::Index i = 0; i < grad.size(); ++i)
    grad[i] = g.num(5);
  const double y = g.num(5);
  const AffExpr a = affFromValGrad(y, f.x0, grad, f.vars);
  CHECK_NEAR(a.value(w.x), y, 1e-5, 0);
  auto z = point(g, w.x.size());
  CHECK_NEAR(a.value(z), y + grad.dot(f.of(z) - f.x0), 1e-5, 1e-9);
  const Eigen::VectorXd v1 = getVec(z, f.vars);
  const DblVec v2 = getDblVec(z, f.vars);
  const auto v3 = getVec1<Eigen::VectorXd>(z, f.vars);
  auto y2 = w.x;
  setVec(y2, f.vars, v1);
  for (std::size_t i = 0; i < f.at.size(); ++i)
    CHECK(v1[static_cast<Eigen::Index>(i)] == z[f.at[i]] && v2[i] == z[f.at[i]] && v3[static_cast<Eigen::Index>(i)] == z[f.at[i]] &&
          y2[f.at[i]] == z[f.at[i]]);
  for (std::size_t i = 0; i < y2.size(); ++i)
    CHECK(std::find(f.at.begin(), f.at.end(), i) != f.at.end() || y2[i] == w.x[i], << "another variable was overwritten");
  if (f.at.size() > 1)
    g.nontrivial();
}
