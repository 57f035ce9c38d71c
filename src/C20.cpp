// IfoptQPProblem: histories of setVariables / convexify / trust box / merit coefficient against a dense reference of the
// costs, violations, local models and of the quadratic program.
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_sqp/ifopt_qp_problem.h>

#include "sqp_fixture.h"

using namespace sq;
using trajopt_sqp::IfoptQPProblem;

PBT_PROPERTY("C20", "the problem has several costs or constraints of more than one kind and is convexified again elsewhere");

PBT_CASES(histories, 60000, 1200000)
{
  Layout l = genVars(g, g.count(3, 3, 8), g.chance(1, 3));
  const Eigen::Index nv = l.vars->getRows();
  IfoptQPProblem qp = g.boolean() ? IfoptQPProblem(l.vars) :
                                    IfoptQPProblem(std::make_shared<trajopt_ifopt::Problem>(l.vars));
  std::vector<Term> costs, cnts;
  const int n_costs = g.count(0, 3, 8), n_cnts = g.count(0, 3, 8);
  bool equality_costs = true, absolute = false;
  for (int k = 0; k < n_costs; ++k)
  {
    Term t;
    t.is_cost = true;
    const int m = g.count(1, 3, 12);
    const int kind = g.chance(3, 4) ? 0 : 1;
    t.type = g.chance(1, 6) ? CostPenaltyType::kAbsolute : CostPenaltyType::kSquared;
    if (t.type == CostPenaltyType::kAbsolute)
      absolute = true;
    if (kind)
      equality_costs = false;
    t.set = std::make_shared<FnSet>("cost" + std::to_string(k), SmoothVec::make(g, m, static_cast<int>(nv), g.chance(1, 3)),
                                    genBoundsFor(g, m, kind), genCoeffs(g, m));
    t.set->keep_zero_entries = g.boolean();
    t.set->keeps = g.boolean();
    qp.addCostSet(t.set, t.type);
    costs.push_back(t);
  }
  std::vector<std::string> cnt_names;
  for (int k = 0; k < n_cnts; ++k)
  {
    Term t;
    const int m = g.count(1, 3, 12);
    t.set = std::make_shared<FnSet>("cnt" + std::to_string(k), SmoothVec::make(g, m, static_cast<int>(nv), g.chance(1, 3)),
                                    genBoundsFor(g, m, 2), genCoeffs(g, m));
    t.set->keep_zero_entries = g.boolean();
    t.set->keeps = g.boolean();
    qp.addConstraintSet(t.set);
    cnts.push_back(t);
    for (int i = 0; i < m; ++i)
      cnt_names.push_back("cnt" + std::to_string(k) + "_" + std::to_string(i));
  }
  {
    // what this problem cannot represent is refused when it is added
    auto dyn = std::make_shared<FnSet>("dyn", SmoothVec::make(g, 1, static_cast<int>(nv)), genBoundsFor(g, 1, 0),
                                       Eigen::VectorXd::Ones(1), true);
    CHECK_THROWS(qp.addConstraintSet(dyn));
    CHECK_THROWS(qp.addCostSet(dyn, CostPenaltyType::kSquared));
  }
  const Eigen::Index rows = static_cast<Eigen::Index>(cnt_names.size());
  g.log() << nv << " variables, " << n_costs << " costs, " << rows << " constraint rows\n";

  Eigen::VectorXd x = l.vars->getValues(), xbox, box, merit, merit_used, xc;
  auto convexify = [&] {
    qp.convexify();
    xc = xbox = x;
    merit_used = merit;
    for (auto* v : { &costs, &cnts })
      for (Term& t : *v)
        t.freeze(x, static_cast<int>(t.set->f.f.size()));
  };
  auto setup = [&] {
    qp.setup();
    box = Eigen::VectorXd::Constant(nv, 0.1);
    merit = Eigen::VectorXd::Constant(rows, 10);
    CHECK(qp.getNumNLPVars() == nv && qp.getNumNLPConstraints() == rows && qp.getNumNLPCosts() == n_costs);
    CHECK(qp.getNLPConstraintNames() == cnt_names, << qp.getNLPConstraintNames().size() << " names");
    CHECK(static_cast<int>(qp.getNLPCostNames().size()) == n_costs);
    for (int k = 0; k < n_costs; ++k)
      CHECK(qp.getNLPCostNames()[static_cast<std::size_t>(k)].find("cost" + std::to_string(k)) != std::string::npos);
    convexify();
  };
  auto verify = [&] {
    CHECK(qp.getVariableValues() == x);
    CHECK(qp.getConstraintMeritCoeff().size() == rows);
    for (Eigen::Index i = 0; i < rows; ++i)
      CHECK(qp.getConstraintMeritCoeff()[i] == merit[i]);
    // the problem itself
    double total = 0;
    const Eigen::VectorXd exact = qp.getExactCosts();
    CHECK(exact.size() == n_costs);
    for (int k = 0; k < n_costs; ++k)
    {
      const Term& t = costs[static_cast<std::size_t>(k)];
      const double want = costOf(t.type, t.set->f(x), t.set->bounds, t.set->coeffs);
      CHECK_NEAR(exact[k], want, 1e-9, 1e-9, << "cost " << k);
      total += want;
    }
    CHECK_NEAR(qp.getTotalExactCost(), total, 1e-9, 1e-9);
    const Eigen::VectorXd v = qp.getExactConstraintViolations();
    CHECK(v.size() == rows);
    Eigen::Index i = 0;
    for (const Term& t : cnts)
    {
      const Eigen::VectorXd val = t.set->f(x);
      for (Eigen::Index r = 0; r < val.size(); ++r, ++i)
        CHECK_NEAR(v[i], viol(val[r], t.set->bounds[static_cast<std::size_t>(r)]), 1e-10, 1e-10, << "row " << i);
    }
    // the quadratic program
    std::vector<Row> qrows;
    for (const Term& t : cnts)
      for (int r = 0; r < t.rows; ++r)
        qrows.push_back({ t.J.row(r), t.v[r] - t.J.row(r).dot(xc), t.b[static_cast<std::size_t>(r)],
                          merit_used[static_cast<Eigen::Index>(qrows.size())] });
    checkRows(g, qp, nv, qrows, xc);
    checkBox(g, qp, rows, xbox, box, l.bounds);
    // the local models
    const Eigen::Index nq = qp.getNumQPVars();
    const Eigen::MatrixXd H = Eigen::MatrixXd(qp.getHessian()).topLeftCorner(nv, nv);
    const Eigen::VectorXd grad = qp.getGradient().head(nv);
    CHECK((H - H.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * (1 + H.cwiseAbs().maxCoeff()), << "asymmetric Hessian");
    auto objective = [&](const Eigen::VectorXd& y) { return y.dot(H * y) + grad.dot(y); };
    Eigen::VectorXd slope = Eigen::VectorXd::Zero(nv), as_squares = slope;
    double scale = 1;
    for (const Term& t : costs)
      for (int r = 0; r < t.rows; ++r)
      {
        const double e = boundsError(t.v[r], t.b[static_cast<std::size_t>(r)]);
        const double s = t.type == CostPenaltyType::kSquared ? 2 * e : (e > 0 ? 1 : (e < 0 ? -1 : 0));
        slope += t.w[r] * s * t.J.row(r).transpose();
        as_squares += t.w[r] * 2 * e * t.J.row(r).transpose();
        const double reach = std::fabs(t.v[r]) + 4 + t.J.row(r).cwiseAbs().sum() * 8;
        scale += t.w[r] * reach * reach;
      }
    const Eigen::VectorXd model_slope = 2 * H * xc + grad;
    for (Eigen::Index c = 0; c < nv; ++c)
    {
      const double tol = 1e-11 * scale + 2e-7 * (1 + xc.cwiseAbs().sum()) * std::max<double>(1, n_costs);
      if (pbt::near(model_slope[c], slope[c], tol, 1e-9))
        continue;
      const std::string msg = "slope of the model in variable " + std::to_string(c) + ": " + pbt::str(model_slope[c]) +
                              ", of the costs: " + pbt::str(slope[c]);
      absolute && pbt::near(model_slope[c], as_squares[c], tol, 1e-9) ? g.failUnlessKnown("absolute-cost-model", msg) :
                                                                        g.fail(msg);
    }
    for (int p = 0; p < 3; ++p)
    {
      Eigen::VectorXd z = Eigen::VectorXd::Zero(nq);
      z.head(nv) = p == 0 ? xc : genPoint(g, nv, 4);
      for (Eigen::Index s = nv; s < nq; ++s)
        z[s] = std::fabs(g.num(2));
      const Eigen::VectorXd y = z.head(nv), d = y - xc;
      const Eigen::VectorXd convex = qp.evaluateConvexCosts(z);
      CHECK(convex.size() == n_costs);
      const double tol = 1e-10 * scale + 4e-7 * (1 + y.cwiseAbs().sum() + xc.cwiseAbs().sum()) *
                                             (1 + y.cwiseAbs().sum() + xc.cwiseAbs().sum()) * std::max(1, n_costs);
      double sum = 0;
      for (int k = 0; k < n_costs; ++k)
      {
        const Term& t = costs[static_cast<std::size_t>(k)];
        sum += convex[k];
        if (p == 0 || (t.type == CostPenaltyType::kSquared && equality_costs))
          CHECK_NEAR(convex[k], costOf(t.type, t.model(d), t.b, t.w), tol, 1e-9, << "model of cost " << k << " at distance "
                                                                                 << pbt::mat(d.transpose()));
      }
      CHECK_NEAR(qp.evaluateTotalConvexCost(z), sum, 1e-9, 1e-9);
      if (n_costs)
      {
        double at_xc = 0;
        for (const Term& t : costs)
          at_xc += costOf(t.type, t.v, t.b, t.w);
        CHECK_NEAR(sum - at_xc, objective(y) - objective(xc), tol, 1e-9,
                     << "what the QP minimises and what the model reports differ at distance " << pbt::mat(d.transpose()));
      }
      const Eigen::VectorXd cv = qp.evaluateConvexConstraintViolations(z);
      CHECK(cv.size() == rows);
      for (Eigen::Index r = 0; r < rows; ++r)
      {
        const Row& row = qrows[static_cast<std::size_t>(r)];
        CHECK_NEAR(cv[r], viol(row.constant + row.J.dot(y), row.b), 1e-8 * scale + 4e-7 * (1 + d.cwiseAbs().sum()), 1e-9,
                   << "model of constraint row " << r);
      }
    }
  };

  setup();
  verify();
  const int ops = g.count(0, 6, 20);
  bool moved = false;
  for (int o = 0; o < ops; ++o)
  {
    switch (g.range(0, 5))
    {
      case 0:
      case 1:
        x = genX(g, l.bounds);
        g.log() << "setVariables " << pbt::mat(x.transpose()) << "\n";
        qp.setVariables(x.data());
        moved = true;
        if (!g.boolean())
          break;
        [[fallthrough]];
      case 2:
        g.log() << "convexify\n";
        convexify();
        if (moved && (n_costs > 1 || rows > 1))
          g.nontrivial();
        break;
      case 3:
      {
        double s = std::fabs(g.nonzero(3, 0.05));
        g.log() << "scaleBoxSize " << s << "\n";
        qp.scaleBoxSize(s);
        box *= s;
        xbox = x;
        break;
      }
      case 4:
        if (g.boolean())
        {
          for (Eigen::Index i = 0; i < nv; ++i)
            box[i] = std::fabs(g.nonzero(2, 0.01));
          g.log() << "setBoxSize " << pbt::mat(box.transpose()) << "\n";
          qp.setBoxSize(box);
          xbox = x;
        }
        else
        {
          for (Eigen::Index i = 0; i < rows; ++i)
            merit[i] = std::fabs(g.nonzero(50, 0.1));
          g.log() << "setConstraintMeritCoeff " << pbt::mat(merit.transpose()) << "\n";
          qp.setConstraintMeritCoeff(merit);
        }
        break;
      default:
        if (g.chance(1, 3))
        {
          g.log() << "setup\n";
          setup();
        }
    }
    verify();
  }
}

// bounds that have no representation are an error of setup(), wherever they are among the rows
PBT_CASES(unsupported_bounds, 400, 4000)
{
  Layout l = genVars(g, 2, true);
  const int nv = static_cast<int>(l.vars->getRows());
  IfoptQPProblem qp(l.vars);
  const int before = g.range(0, 2), m = g.range(1, 3);
  for (int k = 0; k < before; ++k)
    qp.addConstraintSet(std::make_shared<FnSet>("ok" + std::to_string(k), SmoothVec::make(g, 1, nv), genBoundsFor(g, 1, 2),
                                                Eigen::VectorXd::Ones(1)));
  std::vector<Bounds> b = genBoundsFor(g, m, 2);
  b[g.index(b.size())] = g.boolean() ? NoBound : Bounds(-1, 2);
  qp.addConstraintSet(std::make_shared<FnSet>("bad", SmoothVec::make(g, m, nv), b, Eigen::VectorXd::Ones(m)));
  if (before || m > 1)
    g.nontrivial();
  CHECK_THROWS(qp.setup());
  IfoptQPProblem other(l.vars);
  CHECK_THROWS(other.addCostSet(std::make_shared<FnSet>("hinge", SmoothVec::make(g, 1, nv), genBoundsFor(g, 1, 1),
                                                        Eigen::VectorXd::Ones(1)),
                                CostPenaltyType::kHinge));
}
