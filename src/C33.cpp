// C33: OSQPEigenSolver hands OSQP the quadratic program it was given, and its answer back
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>

#include <OsqpEigen/OsqpEigen.h>

#include "ipm.h"
#include "sqp_fixture.h"

PBT_PROPERTY("C33",
             "Cases: histories of init, clear, updates in any order (of the right and of other sizes, some refused by OSQP) and solves "
             "with drawn answers, on OSQPEigenSolver linked with stand-ins of OSQP and OsqpEigen; warm starts from SQP problems; whole "
             "SQP runs over several problems with one solver, where every problem OSQP is asked to solve is compared with the SQP "
             "problem's. Non-trivial: a solve after an update of a solved problem, a warm start with violated constraints, a run over "
             "a second problem.");

using namespace trajopt_sqp;
using trajopt_ifopt::Jacobian;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace
{
Jacobian sparse(pbt::Gen& g, const MatrixXd& d)
{
  Jacobian s(d.rows(), d.cols());
  std::vector<Eigen::Triplet<double>> t;
  for (Eigen::Index r = 0; r < d.rows(); ++r)
    for (Eigen::Index c = 0; c < d.cols(); ++c)
      if (d(r, c) != 0 || g.chance(1, 10))
        t.emplace_back(static_cast<int>(r), static_cast<int>(c), d(r, c));
  s.setFromTriplets(t.begin(), t.end());
  return s;
}
VectorXd none(VectorXd v)
{
  for (Eigen::Index i = 0; i < v.size(); ++i)
    if (std::fabs(v[i]) >= 1e20)
      v[i] = v[i] > 0 ? INFINITY : -INFINITY;
  return v;
}
bool sameVec(const VectorXd& a, const VectorXd& b, double tol)
{
  if (a.size() != b.size())
    return false;
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!(a[i] == b[i] || std::fabs(a[i] - b[i]) <= tol))
      return false;
  return true;
}
// the problem OSQP was asked to solve is  min x'Hx + q'x,  l <= Ax <= u
void checkProblem(pbt::Gen& g, const standin::Problem& p, const MatrixXd& H, const VectorXd& q, const MatrixXd& A, const VectorXd& l, const VectorXd& u)
{
  CHECK(p.H.rows() == H.rows() && (p.H - 2 * H).cwiseAbs().maxCoeff() <= 1e-12 * (1 + H.cwiseAbs().maxCoeff()),
        << "OSQP's Hessian\n" << pbt::mat(p.H) << "\nis not twice\n" << pbt::mat(H));
  // entries too small to matter may be dropped
  CHECK(sameVec(p.c, q, 1e-7), << "gradient " << pbt::mat(p.c.transpose()) << " instead of " << pbt::mat(q.transpose()));
  CHECK(p.A.rows() == A.rows() && p.A.cols() == A.cols() && p.A == A, << "matrix\n" << pbt::mat(p.A) << "\ninstead of\n" << pbt::mat(A));
  CHECK(sameVec(none(p.l), none(l), 0) && sameVec(none(p.u), none(u), 0),
        << "bounds " << pbt::mat(p.l.transpose()) << "; " << pbt::mat(p.u.transpose()) << " instead of " << pbt::mat(l.transpose()) << "; "
        << pbt::mat(u.transpose()));
}
}  // namespace

PBT_CASES(histories, 60000, 600000)
{
  auto& lib = standin::state();
  lib = standin::State();
  {
    OSQPEigenSolver solver;
    {
      const OSQPSettings& s = *solver.solver_->settings()->getSettings();
      CHECK(s.verbose == 0 && s.warm_starting == 1 && s.polishing == 1 && s.adaptive_rho == 1 && s.max_iter == 8192 &&
                s.eps_abs == 1e-4 && s.eps_rel == 1e-6 && s.check_dualgap == 0,
            << "the default settings have changed");
    }
    CHECK(solver.getSolverStatus() == QPSolverStatus::kUninitialized);
    Eigen::Index n = 0, m = 0;
    MatrixXd H, A;
    VectorXd q, l, u;
    bool haveH = false, haveQ = false, haveA = false, haveL = false, haveU = false;
    bool started = false, solved = false, updated = false, in_osqp = false;
    auto genH = [&](Eigen::Index k) {
      MatrixXd h = MatrixXd::Zero(k, k);
      for (Eigen::Index i = 0; i < k; ++i)
        for (Eigen::Index j = i; j < k; ++j)
          if (g.boolean())
            h(i, j) = h(j, i) = g.num(4);
      return h;
    };
    auto genV = [&](Eigen::Index k) {
      VectorXd v(k);
      for (Eigen::Index i = 0; i < k; ++i)
        v[i] = g.chance(1, 8) ? (g.boolean() ? 1 : -1) * g.real(0, 2e-7) : g.num(4);
      return v;
    };
    auto genLU = [&](Eigen::Index k, VectorXd& a, VectorXd& b) {
      a.resize(k);
      b.resize(k);
      for (Eigen::Index i = 0; i < k; ++i)
      {
        const double big = g.pick(std::vector<double>{ INFINITY, 1e30, 1e35 });
        a[i] = g.chance(1, 4) ? -big : g.num(4);
        b[i] = g.chance(1, 4) ? big : a[i] < -1e20 ? g.num(4) : a[i] + (g.chance(1, 3) ? 0 : std::fabs(g.num(4)));
      }
    };
    auto start = [&] {
      if (started || g.boolean())
        CHECK(solver.clear());
      if (g.boolean())
        CHECK(solver.getSolverStatus() == QPSolverStatus::kUninitialized, << "cleared");
      n = g.range(1, 4);
      m = g.range(0, 4);
      g.log() << "init " << n << ", " << m << "\n";
      CHECK(solver.init(n, m));
      CHECK(solver.getSolverStatus() == QPSolverStatus::kInitialized);
      haveH = haveQ = haveA = haveL = haveU = false;
      started = true;
      in_osqp = false;
    };
    auto give = [&](int what) {
      lib.refuse_update = in_osqp && g.chance(1, 8);
      const bool refuse = lib.refuse_update;
      // a size that does not fit is refused, not taken
      const Eigen::Index wrong = g.chance(1, 12) ? (g.boolean() ? 1 : -1) : 0;
      bool ok = false;
      switch (what)
      {
        case 0:
        {
          if (n + wrong < 1)
            return;
          const MatrixXd h = genH(n + wrong);
          ok = solver.updateHessianMatrix(sparse(g, h));
          if (ok)
            H = h, haveH = true;
          else if (!in_osqp)
            haveH = false;  // the refused one has replaced it
          break;
        }
        case 1:
        {
          const VectorXd v = genV(n + (in_osqp ? wrong : 0));
          ok = solver.updateGradient(v);
          if (ok)
            q = v, haveQ = true;
          if (!in_osqp)
            lib.refuse_update = false;
          CHECK(ok == !(refuse || (in_osqp && wrong)), << "gradient: " << ok);
          lib.refuse_update = false;
          return;
        }
        case 2:
        {
          const bool rows = g.boolean();
          if (wrong && ((rows && m + wrong < 0) || (!rows && n + wrong < 1)))
            return;
          MatrixXd a = MatrixXd::Zero(m + (rows ? wrong : 0), n + (rows ? 0 : wrong));
          for (Eigen::Index i = 0; i < a.size(); ++i)
            if (g.boolean())
              a.data()[i] = g.num(4);
          ok = solver.updateLinearConstraintsMatrix(sparse(g, a));
          if (ok)
            A = a, haveA = true;
          break;
        }
        default:
        {
          VectorXd a, b;
          if (what == 3 || !haveL || !haveU)
          {
            genLU(m, a, b);
            ok = solver.updateBounds(a, b);
            if (ok)
              l = a, u = b, haveL = haveU = true;
          }
          else if (g.boolean())
          {
            a = u;
            for (Eigen::Index i = 0; i < m; ++i)
              a[i] = u[i] > 1e20 ? (g.boolean() ? -INFINITY : g.num(4)) : g.boolean() ? u[i] : u[i] - std::fabs(g.num(4));
            ok = solver.updateLowerBound(a);
            if (ok)
              l = a;
          }
          else
          {
            b = l;
            for (Eigen::Index i = 0; i < m; ++i)
              b[i] = l[i] < -1e20 ? (g.boolean() ? INFINITY : g.num(4)) : g.boolean() ? l[i] : l[i] + std::fabs(g.num(4));
            ok = solver.updateUpperBound(b);
            if (ok)
              u = b;
          }
          lib.refuse_update = false;
          CHECK(ok == !refuse, << "bounds: " << ok);
          updated = true;
          return;
        }
      }
      lib.refuse_update = false;
      CHECK(ok == !(refuse || wrong), << (what == 0 ? "Hessian: " : "constraint matrix: ") << ok);
      updated = true;
    };
    const int ops = g.range(1, 20);
    start();
    bool lost = false;  // after a refused update the caller clears the solver
    for (int o = 0; o < ops; ++o)
    {
      const int op = g.range(0, 9);
      if (op == 9)
      {
        start();
        solved = updated = false;
      }
      else if (op < 4)
        give(op);
      else if (op == 4)
        give(4);
      else
      {
        if (g.chance(9, 10))
        {  // what is missing, in some order
          std::vector<int> need;
          if (!haveH)
            need.insert(need.begin() + static_cast<long>(g.index(need.size() + 1)), 0);
          if (!haveQ)
            need.insert(need.begin() + static_cast<long>(g.index(need.size() + 1)), 1);
          if (!haveA)
            need.insert(need.begin() + static_cast<long>(g.index(need.size() + 1)), 2);
          if (!haveL || !haveU)
            need.insert(need.begin() + static_cast<long>(g.index(need.size() + 1)), 3);
          for (int w : need)
            give(w);
        }
        const bool all = haveH && haveQ && haveA && haveL && haveU;
        if (!all && haveH && haveA)
          continue;  // vectors of an earlier problem may be left in OsqpEigen
        const int kind = g.range(0, 5);
        lib.status = OSQP_SOLVED;
        lib.retcode = 0;
        bool good = true;
        if (kind == 0)
        {
          lib.status = g.range(OSQP_PRIMAL_INFEASIBLE, OSQP_UNSOLVED);
          good = false;
        }
        else if (kind == 1)
        {
          lib.retcode = g.range(1, 6);
          good = false;
        }
        else if (kind == 2)
          lib.status = OSQP_SOLVED_INACCURATE;
        lib.x = genV(n);
        lib.solved.clear();
        const bool ok = solver.solve();
        lib.retcode = 0;
        g.log() << "solve " << ok << "\n";
        if (!all)
        {
          CHECK(!ok && solver.getSolverStatus() == QPSolverStatus::kFailed, << "solved without all data");
          g.label("data missing");
          continue;
        }
        in_osqp = true;
        CHECK(lib.solved.size() == 1, << lib.solved.size() << " problems were solved");
        checkProblem(g, lib.solved[0], H, q, A, l, u);
        CHECK(ok == good, << "status " << lib.status << ": " << ok);
        CHECK(solver.getSolverStatus() == (good ? QPSolverStatus::kInitialized : QPSolverStatus::kFailed),
              << "solver status " << int(solver.getSolverStatus()) << " after a solve that " << (good ? "succeeded" : "failed"));
        g.label(good ? "solved" : "failed");
        if (good)
        {
          CHECK(solver.getSolution() == lib.x, << pbt::mat(solver.getSolution().transpose()));
          if (solved && updated)
            g.nontrivial();
          solved = true;
        }
        updated = false;
      }
    }
    (void)lost;
  }
  CHECK(lib.alive == 0, << lib.alive << " solver objects were not released");
}

namespace
{
using namespace sq;
struct SqpCase
{
  std::shared_ptr<QPProblem> qp;
  Layout l;
};
SqpCase genProblem(pbt::Gen& g)
{
  SqpCase p;
  p.l = genVars(g, 2, g.boolean());
  const int nv = static_cast<int>(p.l.vars->getRows());
  const bool ifopt = g.chance(1, 3);
  if (ifopt)
    p.qp = std::make_shared<IfoptQPProblem>(p.l.vars);
  else
    p.qp = std::make_shared<TrajOptQPProblem>(p.l.vars);
  const int n_costs = g.range(0, 3), n_cnts = g.range(0, 3);
  for (int k = 0; k < n_costs; ++k)
  {
    const int m = g.range(1, 2);
    const CostPenaltyType t = ifopt ? CostPenaltyType::kSquared :
                                      std::vector<CostPenaltyType>{ CostPenaltyType::kSquared, CostPenaltyType::kHinge,
                                                                    CostPenaltyType::kAbsolute }[g.index(3)];
    p.qp->addCostSet(std::make_shared<FnSet>("cost" + std::to_string(k), SmoothVec::make(g, m, nv, g.boolean()),
                                             genBoundsFor(g, m, t == CostPenaltyType::kHinge ? 1 : 0), genCoeffs(g, m)),
                     t);
  }
  for (int k = 0; k < n_cnts; ++k)
  {
    const int m = g.range(1, 3);
    p.qp->addConstraintSet(std::make_shared<FnSet>("cnt" + std::to_string(k), SmoothVec::make(g, m, nv, g.boolean()),
                                                   genBoundsFor(g, m, 2), Eigen::VectorXd::Ones(m)));
  }
  p.qp->setup();
  return p;
}
}  // namespace

// The warm start is the current point, with the slack variables at the violations of the rows: a feasible point of the QP
PBT_CASES(warm_start, 30000, 300000)
{
  auto& lib = standin::state();
  lib = standin::State();
  const SqpCase p = genProblem(g);
  QPProblem& qp = *p.qp;
  if (g.boolean())
  {
    const VectorXd x = genX(g, p.l.bounds);
    qp.setVariables(x.data());
  }
  qp.convexify();
  OSQPEigenSolver solver;
  const bool on = g.chance(7, 8);
  solver.solver_->settings()->setWarmStart(on);
  const int rounds = g.range(1, 2);
  for (int k = 0; k < rounds; ++k)
  {
    lib = standin::State();
    solver.clear();
    const Eigen::Index n = qp.getNumQPVars(), m = qp.getNumQPConstraints(), nv = qp.getNumNLPVars();
    CHECK(solver.init(n, m));
    CHECK(solver.updateHessianMatrix(qp.getHessian()));
    CHECK(solver.updateGradient(qp.getGradient()));
    CHECK(solver.updateLinearConstraintsMatrix(qp.getConstraintMatrix()));
    CHECK(solver.updateBounds(qp.getBoundsLower(), qp.getBoundsUpper()));
    const bool set = g.chance(7, 8);
    if (set)
      CHECK(solver.setWarmStart(qp));
    lib.x = VectorXd::Zero(n);
    CHECK(solver.solve());
    if (!on)
      CHECK(lib.warm_starts == 0, << "a warm start that is switched off");
    else if (set)
    {
      CHECK(lib.warm_starts == 1 && lib.warm_x.size() == 1 && lib.warm_y.size() == 1, << "no warm start");
      const VectorXd& x = lib.warm_x[0];
      CHECK(x.size() == n && x.head(nv) == qp.getVariableValues(), << "the warm start is not the current point");
      CHECK(lib.warm_y[0].size() == m && lib.warm_y[0].allFinite());
      const MatrixXd A(qp.getConstraintMatrix());
      const VectorXd r = A * x, l = qp.getBoundsLower(), u = qp.getBoundsUpper();
      g.log() << "A\n" << pbt::mat(A) << "\nl " << pbt::mat(l.transpose()) << "\nu " << pbt::mat(u.transpose()) << "\nwarm start "
              << pbt::mat(x.transpose()) << "\n";
      bool violated = false;
      const VectorXd free = A.leftCols(nv) * x.head(nv);
      for (Eigen::Index i = 0; i < m; ++i)
      {
        const double tol = 1e-9 * (1 + std::fabs(free[i]) + A.row(i).cwiseAbs().dot(x.cwiseAbs()));
        // rows of the variables: the current point itself may be out of its bounds
        if (i >= m - n && i < m - n + nv)
          continue;
        CHECK(r[i] >= l[i] - tol && r[i] <= u[i] + tol, << "the warm start violates row " << i << ": " << r[i] << " not in [" << l[i]
                                                       << "," << u[i] << "]");
        // and the slack variables are no larger than needed
        double slack = 0, need = 0;
        if (i < m - n)
        {
          for (Eigen::Index c = nv; c < n; ++c)
            slack += A(i, c) != 0 ? x[c] : 0;
          need = std::max({ 0.0, l[i] - free[i], free[i] - u[i] });
          CHECK_NEAR(slack, need, tol, 1e-9, << "slack of row " << i);
          violated = violated || need > 1e-3;
        }
      }
      if (violated)
        g.nontrivial();
    }
    const VectorXd x = genX(g, p.l.bounds);
    qp.setVariables(x.data());
    qp.convexify();
  }
}

// Whole runs: what OSQP is asked to solve is always the SQP problem's current quadratic program
PBT_CASES(sqp_runs, 6000, 60000)
{
  auto& lib = standin::state();
  lib = standin::State();
  auto qs = std::make_shared<OSQPEigenSolver>();
  TrustRegionSQPSolver solver(qs);
  solver.params.max_iterations = 8;
  solver.params.initial_trust_box_size = g.boolean() ? 0.5 : 4;
  solver.params.max_merit_coeff_increases = 2;
  const int problems = g.range(1, 3);
  int total = 0;
  for (int k = 0; k < problems; ++k)
  {
    const SqpCase p = genProblem(g);
    g.log() << "problem of " << p.qp->getNumQPVars() << " variables and " << p.qp->getNumQPConstraints() << " rows\n";
    int solves = 0;
    std::string broken;
    VectorXd last;
    lib.on_solve = [&](const standin::Problem& now) {
      ++solves;
      lib.retcode = 0;
      lib.status = OSQP_SOLVED;
      lib.refuse_matrix = g.chance(1, 10);
      const QPProblem& qp = *p.qp;
      checkProblem(g, now, MatrixXd(qp.getHessian()), qp.getGradient(), MatrixXd(qp.getConstraintMatrix()), qp.getBoundsLower(),
                   qp.getBoundsUpper());
      if (g.chance(1, 10))
      {
        if (g.boolean())
          lib.status = g.range(OSQP_PRIMAL_INFEASIBLE, OSQP_UNSOLVED);
        else
          lib.retcode = g.range(1, 6);
        return;
      }
      // a solution of the QP, coarsely
      const int n = static_cast<int>(now.c.size());
      ipm::Problem q(n);
      const Eigen::Index rows = now.A.rows() - n;
      for (int i = 0; i < n; ++i)
      {
        for (int j = 0; j < n; ++j)
          q.H[static_cast<std::size_t>(i * n + j)] = now.H(i, j);
        q.c[static_cast<std::size_t>(i)] = now.c[i];
        q.lb[static_cast<std::size_t>(i)] = none(now.l)[rows + i];
        q.ub[static_cast<std::size_t>(i)] = none(now.u)[rows + i];
      }
      for (Eigen::Index r = 0; r < rows; ++r)
      {
        ipm::Vec row, neg;
        for (int j = 0; j < n; ++j)
        {
          row.push_back(now.A(r, j));
          neg.push_back(-now.A(r, j));
        }
        if (now.l[r] == now.u[r])
        {
          q.Aeq.push_back(row);
          q.beq.push_back(now.l[r]);
          continue;
        }
        if (now.u[r] < 1e20)
        {
          q.Ain.push_back(row);
          q.bin.push_back(now.u[r]);
        }
        if (now.l[r] > -1e20)
        {
          q.Ain.push_back(neg);
          q.bin.push_back(-now.l[r]);
        }
      }
      const ipm::Answer a = ipm::solve(q);
      if (!a.ok)
        throw pbt::Discard();
      lib.x = Eigen::Map<const VectorXd>(a.x.data(), n);
      for (int i = 0; i < n; ++i)
        lib.x[i] = std::max(q.lb[static_cast<std::size_t>(i)], std::min(q.ub[static_cast<std::size_t>(i)], lib.x[i]));
      last = lib.x;
    };
    solver.solve(p.qp);
    lib.on_solve = nullptr;
    lib.refuse_matrix = false;
    CHECK(solves > 0, << "nothing was solved");
    const SQPResults& r = solver.getResults();
    if (last.size() > 0)
      CHECK(r.new_var_vals == last, << "the last step is not OSQP's last solution");
    g.label(toString(solver.getStatus()));
    total += solves;
    if (k > 0 && solves > 1)
      g.nontrivial();
  }
}
