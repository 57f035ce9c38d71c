// TrajOptQPProblem: histories of setVariables / convexify / trust box / merit coefficients / added terms, with terms whose
// number of rows follows the variables, against a dense reference of costs, violations, local models and quadratic program.
#include <trajopt_sqp/trajopt_qp_problem.h>

#include "sqp_fixture.h"

using namespace sq;
using trajopt_sqp::TrajOptQPProblem;

PBT_PROPERTY("C21", "the problem is convexified at several points and has terms of several kinds or with changing rows");

namespace
{
struct Model
{
  Layout l;
  Eigen::Index nv{ 0 };
  std::vector<Term> terms[2][3][2];  // [cost or constraint][penalty type][dynamic]
  std::vector<Term*> costs, cnts;    // in the order of the problem
  Eigen::VectorXd x, xbox, box, merit, merit_used, xc;
  int next{ 0 };

  Term make(pbt::Gen& g, bool is_cost)
  {
    Term t;
    t.is_cost = is_cost;
    t.type = std::vector<CostPenaltyType>{ CostPenaltyType::kSquared, CostPenaltyType::kHinge,
                                           CostPenaltyType::kAbsolute }[g.index(3)];
    const int m = g.count(1, 3, 12);
    const int kind = !is_cost ? 2 : (t.type == CostPenaltyType::kHinge ? 1 : 0);
    const bool dynamic = g.chance(1, 3);
    t.set = std::make_shared<FnSet>((is_cost ? "cost" : "cnt") + std::to_string(next++),
                                    SmoothVec::make(g, m, static_cast<int>(nv), g.chance(1, 3)), genBoundsFor(g, m, kind),
                                    genCoeffs(g, m), dynamic);
    t.set->keep_zero_entries = g.boolean();
    t.set->keeps = g.boolean();
    t.set->turns = g.boolean();
    return t;
  }
  int slot(CostPenaltyType t) const
  {
    return t == CostPenaltyType::kSquared ? 0 : (t == CostPenaltyType::kHinge ? 1 : 2);
  }
  void add(pbt::Gen& g, TrajOptQPProblem& qp, bool is_cost)
  {
    Term t = make(g, is_cost);
    if (is_cost)
      qp.addCostSet(t.set, t.type);
    else
      qp.addConstraintSet(t.set);
    g.log() << "add " << t.set->getName() << " type " << (is_cost ? slot(t.type) : -1) << " rows " << t.set->f.f.size()
            << (t.set->isDynamic() ? " dynamic" : "") << " coefficients " << pbt::mat(t.set->coeffs.transpose()) << "\n";
    terms[is_cost ? 1 : 0][is_cost ? slot(t.type) : 0][t.set->isDynamic() ? 1 : 0].push_back(t);
  }
  void order()
  {
    costs.clear();
    cnts.clear();
    for (int k = 0; k < 3; ++k)
      for (int d = 0; d < 2; ++d)
        for (Term& t : terms[1][k][d])
          costs.push_back(&t);
    for (int d = 0; d < 2; ++d)
      for (Term& t : terms[0][0][d])
        cnts.push_back(&t);
  }
};

void verify(pbt::Gen& g, const TrajOptQPProblem& qp, const Model& m)
{
  const Eigen::Index nc = static_cast<Eigen::Index>(m.costs.size()), nk = static_cast<Eigen::Index>(m.cnts.size());
  CHECK(qp.getVariableValues() == m.x);
  CHECK(qp.getNumNLPVars() == m.nv && qp.getNumNLPCosts() == nc && qp.getNumNLPConstraints() == nk);
  CHECK(qp.getConstraintMeritCoeff().size() == nk);
  for (Eigen::Index i = 0; i < nk; ++i)
    CHECK(qp.getConstraintMeritCoeff()[i] == m.merit[i]);

  // the problem itself
  double total = 0;
  const Eigen::VectorXd exact = qp.getExactCosts();
  CHECK(exact.size() == nc);
  for (Eigen::Index k = 0; k < nc; ++k)
  {
    const Term& t = *m.costs[static_cast<std::size_t>(k)];
    const double want = costOf(t.type, t.set->f(m.x).head(t.set->rowsAt(m.x)), t.set->boundsAt(m.x), t.set->coeffsAt(m.x));
    CHECK_NEAR(exact[k], want, 1e-9, 1e-9, << "cost " << t.set->getName());
    total += want;
  }
  CHECK_NEAR(qp.getTotalExactCost(), total, 1e-9, 1e-9);
  const Eigen::VectorXd v = qp.getExactConstraintViolations();
  CHECK(v.size() == nk);
  for (Eigen::Index k = 0; k < nk; ++k)
  {
    const Term& t = *m.cnts[static_cast<std::size_t>(k)];
    CHECK_NEAR(v[k], sumViol(t.set->f(m.x).head(t.set->rowsAt(m.x)), t.set->boundsAt(m.x)), 1e-9, 1e-9,
               << "constraint " << t.set->getName());
  }

  // the quadratic program
  std::vector<Row> rows;
  std::vector<std::pair<int, int>> row_of_cost(static_cast<std::size_t>(nc)), row_of_cnt(static_cast<std::size_t>(nk));
  auto addRows = [&](const Term& t, double weight) {
    for (int r = 0; r < t.rows; ++r)
      rows.push_back({ t.J.row(r), t.v[r] - t.J.row(r).dot(m.xc), t.b[static_cast<std::size_t>(r)], weight * t.w[r] });
  };
  double scale = 1;
  for (const Term* t : m.costs)
  {
    if (t->type != CostPenaltyType::kSquared)
      addRows(*t, 1);
    for (int r = 0; r < t->rows; ++r)
    {
      const double reach = std::fabs(t->v[r]) + 4 + t->J.row(r).cwiseAbs().sum() * 8;
      scale += t->w[r] * reach * reach;
    }
  }
  for (Eigen::Index k = 0; k < nk; ++k)
  {
    const Term& t = *m.cnts[static_cast<std::size_t>(k)];
    addRows(t, m.merit_used[k]);
    for (int r = 0; r < t.rows; ++r)
      scale += std::fabs(t.v[r]) + t.J.row(r).cwiseAbs().sum() * 8;
  }
  checkRows(g, qp, m.nv, rows, m.xc);
  checkBox(g, qp, static_cast<Eigen::Index>(rows.size()), m.xbox, m.box, m.l.bounds);

  // the local models, and that they are what the quadratic program minimises
  const Eigen::Index nq = qp.getNumQPVars();
  const Eigen::MatrixXd H = Eigen::MatrixXd(qp.getHessian()).topLeftCorner(m.nv, m.nv);
  const Eigen::VectorXd grad = qp.getGradient().head(m.nv);
  CHECK((H - H.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * (1 + H.cwiseAbs().maxCoeff()), << "asymmetric Hessian");
  int n_rows = 0;
  for (auto* v : { &m.costs, &m.cnts })
    for (const Term* t : *v)
      n_rows += t->rows;
  auto objective = [&](const Eigen::VectorXd& y) { return y.dot(H * y) + grad.dot(y); };
  for (int p = 0; p < 3; ++p)
  {
    Eigen::VectorXd z = Eigen::VectorXd::Zero(nq);
    z.head(m.nv) = p == 0 ? m.xc : genPoint(g, m.nv, 4);
    for (Eigen::Index s = m.nv; s < nq; ++s)
      z[s] = std::fabs(g.num(2));
    const Eigen::VectorXd y = z.head(m.nv), d = y - m.xc;
    const double far = 1 + y.cwiseAbs().sum() + m.xc.cwiseAbs().sum();
    const double tol = 1e-10 * scale + 4e-7 * far * far * (1 + static_cast<double>(n_rows) / 3);
    const Eigen::VectorXd convex = qp.evaluateConvexCosts(z);
    CHECK(convex.size() == nc);
    double sum = 0, squares = 0, squares_xc = 0;
    for (Eigen::Index k = 0; k < nc; ++k)
    {
      const Term& t = *m.costs[static_cast<std::size_t>(k)];
      const double want = costOf(t.type, t.model(d), t.b, t.w);
      CHECK_NEAR(convex[k], want, tol, 1e-9, << "model of " << t.set->getName() << " at distance " << pbt::mat(d.transpose()));
      sum += convex[k];
      if (t.type == CostPenaltyType::kSquared)
      {
        squares += want;
        squares_xc += costOf(t.type, t.v, t.b, t.w);
      }
    }
    CHECK_NEAR(qp.evaluateTotalConvexCost(z), sum, 1e-9, 1e-9);
    CHECK_NEAR(objective(y) - objective(m.xc), squares - squares_xc, tol, 1e-9,
               << "objective of the QP at distance " << pbt::mat(d.transpose()));
    const Eigen::VectorXd cv = qp.evaluateConvexConstraintViolations(z);
    CHECK(cv.size() == nk);
    for (Eigen::Index k = 0; k < nk; ++k)
    {
      const Term& t = *m.cnts[static_cast<std::size_t>(k)];
      CHECK_NEAR(cv[k], sumViol(t.model(d), t.b), tol, 1e-9, << "model of " << t.set->getName());
    }
  }
}
}  // namespace

PBT_CASES(histories, 40000, 1000000)
{
  Model m;
  m.l = genVars(g, g.count(3, 3, 8), g.chance(1, 3));
  m.nv = m.l.vars->getRows();
  TrajOptQPProblem qp(m.l.vars);
  m.x = m.l.vars->getValues();
  const int n_costs = g.count(0, 4, 10), n_cnts = g.count(0, 3, 8);
  for (int k = 0; k < n_costs; ++k)
    m.add(g, qp, true);
  for (int k = 0; k < n_cnts; ++k)
    m.add(g, qp, false);
  int convexified = 0;
  bool rows_changed = false;
  auto convexify = [&] {
    qp.convexify();
    if (++convexified > 1 && (rows_changed || m.costs.size() + m.cnts.size() > 2))
      g.nontrivial();
    m.xc = m.xbox = m.x;
    m.merit_used = m.merit;
    for (auto* v : { &m.costs, &m.cnts })
      for (Term* t : *v)
      {
        const int rows = t->set->rowsAt(m.x);
        if (convexified > 1 && rows != t->rows)
        {
          rows_changed = true;
          g.label("rows of a term changed");
          if (rows == 0 || t->rows == 0)
            g.label("a term became or was empty");
        }
        t->freeze(m.x, rows);
      }
  };
  auto setup = [&] {
    g.log() << "setup\n";
    qp.setup();
    m.order();
    m.box = Eigen::VectorXd::Constant(m.nv, 0.1);
    m.merit = Eigen::VectorXd::Constant(static_cast<Eigen::Index>(m.cnts.size()), 10);
    auto names = [](const std::vector<Term*>& ts) {
      std::vector<std::string> n;
      for (const Term* t : ts)
        n.push_back(t->set->getName());
      return n;
    };
    CHECK(qp.getNLPCostNames() == names(m.costs) && qp.getNLPConstraintNames() == names(m.cnts));
    convexify();
  };
  setup();
  verify(g, qp, m);
  const int ops = g.count(0, 7, 25);
  for (int o = 0; o < ops; ++o)
  {
    switch (g.range(0, 6))
    {
      case 0:
      case 1:
        if (!g.chance(1, 6))
          m.x = genX(g, m.l.bounds);
        g.log() << "setVariables " << pbt::mat(m.x.transpose()) << "\n";
        qp.setVariables(m.x.data());
        if (g.chance(1, 4))
          break;
        [[fallthrough]];
      case 2:
        g.log() << "convexify\n";
        convexify();
        break;
      case 3:
      {
        double s = std::fabs(g.nonzero(3, 0.05));
        g.log() << "scaleBoxSize " << s << "\n";
        qp.scaleBoxSize(s);
        m.box *= s;
        m.xbox = m.x;
        break;
      }
      case 4:
        for (Eigen::Index i = 0; i < m.nv; ++i)
          m.box[i] = std::fabs(g.nonzero(2, 0.01));
        g.log() << "setBoxSize " << pbt::mat(m.box.transpose()) << "\n";
        qp.setBoxSize(m.box);
        m.xbox = m.x;
        break;
      case 5:
        for (Eigen::Index i = 0; i < m.merit.size(); ++i)
          m.merit[i] = std::fabs(g.nonzero(50, 0.1));
        g.log() << "setConstraintMeritCoeff " << pbt::mat(m.merit.transpose()) << "\n";
        qp.setConstraintMeritCoeff(m.merit);
        break;
      default:
        if (g.chance(1, 2))
          m.add(g, qp, g.boolean());
        setup();
    }
    verify(g, qp, m);
  }
}

// what cannot be represented is an error
PBT_CASES(unsupported, 1000, 20000)
{
  Layout l = genVars(g, 2, true);
  const int nv = static_cast<int>(l.vars->getRows());
  TrajOptQPProblem qp(l.vars);
  const int m = g.range(1, 3);
  const auto type = std::vector<CostPenaltyType>{ CostPenaltyType::kSquared, CostPenaltyType::kHinge,
                                                  CostPenaltyType::kAbsolute }[g.index(3)];
  const bool hinge = type == CostPenaltyType::kHinge;
  std::vector<Bounds> good = genBoundsFor(g, m, hinge ? 1 : 0), bad = good;
  const std::vector<Bounds> wrong{ NoBound, Bounds(-1, 2), hinge ? Bounds(1, 1) : Bounds(1, INFINITY),
                                   hinge ? Bounds(0, 0) : Bounds(-INFINITY, 1) };
  bad[g.index(bad.size())] = wrong[g.index(wrong.size())];
  auto set = [&](const std::vector<Bounds>& b) {
    return std::make_shared<FnSet>("s", SmoothVec::make(g, m, nv), b, Eigen::VectorXd::Ones(m));
  };
  if (m > 1)
    g.nontrivial();
  CHECK_THROWS(qp.addCostSet(set(bad), type), << "bounds that do not fit the penalty");
  qp.addCostSet(set(good), type);
  std::vector<Bounds> b = genBoundsFor(g, m, 2);
  const bool unsupported = g.boolean();
  if (unsupported)
    b[g.index(b.size())] = g.boolean() ? NoBound : Bounds(-1, 2);
  qp.addConstraintSet(set(b));
  qp.setup();
  CHECK(qp.getNumNLPCosts() == 1, << "a refused cost was kept");
  if (unsupported)
    CHECK_THROWS(qp.convexify());
  else
    qp.convexify();
}
