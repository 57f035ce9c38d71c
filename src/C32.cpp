// C32: the OSQP, qpOASES and Gurobi back ends hand the model their history of edits describes to the solver, and its answer back
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/gurobi_interface.hpp>
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_sco/qpoases_interface.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/solver_interface.hpp>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <memory>

#include "pbt.h"
extern "C" {
#include <gurobi_c.h>
}
#include <standin.h>

PBT_PROPERTY("C32",
             "Cases: histories of up to 25 edits (add/remove variables and constraints, change bounds, replace the objective, change "
             "coefficients in place or move one, update) with solves in between, on the OSQP, qpOASES and Gurobi models linked with "
             "stand-ins of these libraries that keep the problem they are asked to solve and answer with a drawn status and point; "
             "the problem must be the one the edits describe, and status and point must come back. Also the choice of a back end. "
             "Non-trivial: a solve after an earlier solve of the same model and an edit in between.");

using namespace sco;

namespace
{
struct RefVar
{
  Var v;
  double lb{ -INFINITY }, ub{ INFINITY };
};
struct RefAff
{
  double c{ 0 };
  std::vector<std::pair<Var, double>> t;
};
struct RefQuad
{
  RefAff a;
  std::vector<std::pair<std::pair<Var, Var>, double>> q;
};
struct RefCnt
{
  Cnt c;
  bool eq;
  RefAff e;
};
double grid(pbt::Gen& g, int eighths) { return (g.boolean() ? 1 : -1) * g.range(0, eighths) / 8.0; }
bool same(const Var& a, const Var& b) { return a.var_rep == b.var_rep; }
double inf(double v) { return v >= 1e20 ? INFINITY : v <= -1e20 ? -INFINITY : v; }

using Row = std::vector<double>;  // l, u, coefficients
void addRow(std::vector<Row>& rows, const Eigen::VectorXd& a, double l, double u)
{
  l = inf(l);
  u = inf(u);
  if (std::isinf(l) && std::isinf(u))
    return;
  Row r{ l, u };
  for (Eigen::Index i = 0; i < a.size(); ++i)
    r.push_back(a[i] + 0.0);
  rows.push_back(r);
}
std::vector<Row> rowsOf(const standin::Problem& p)
{
  std::vector<Row> rows;
  for (Eigen::Index i = 0; i < p.A.rows(); ++i)
    addRow(rows, p.A.row(i).transpose(), p.l[i], p.u[i]);
  for (Eigen::Index i = 0; i < p.lb.size(); ++i)
    addRow(rows, Eigen::VectorXd::Unit(p.lb.size(), i), p.lb[i], p.ub[i]);
  std::sort(rows.begin(), rows.end());
  return rows;
}
std::string show(const std::vector<Row>& rows)
{
  std::ostringstream o;
  for (auto& r : rows)
  {
    o << "\n  " << r[0] << " <=";
    for (std::size_t i = 2; i < r.size(); ++i)
      o << " " << r[i];
    o << " <= " << r[1];
  }
  return o.str();
}

enum Backend
{
  OSQP,
  QPOASES,
  GUROBI
};

// Coefficients are multiples of 1/8 and their sums are exact, so that problems are compared exactly.
void history(pbt::Gen& g, Backend be)
{
  auto& lib = standin::state();
  lib = standin::State();
  bool update_workspace = false;
  OSQPSettings asked{};
  {
    Model::Ptr model;
    if (be == OSQP)
    {
      auto cfg = std::make_shared<OSQPModelConfig>();
      OSQPModelConfig plain;
      CHECK(plain.settings.eps_abs == 1e-4 && plain.settings.eps_rel == 1e-6 && plain.settings.max_iter == 8192 &&
                plain.settings.polishing == 1 && plain.settings.verbose == 0 && plain.settings.check_dualgap == 0 &&
                plain.settings.adaptive_rho == 1 && !plain.update_workspace,
            << "the default settings have changed");
      asked = plain.settings;
      if (g.chance(2, 3))
      {
        cfg->update_workspace = update_workspace = g.boolean();
        cfg->settings.warm_starting = g.boolean();
        cfg->settings.max_iter = g.range(1, 10000);
        cfg->settings.eps_abs = g.range(1, 100) * 1e-5;
        cfg->settings.rho = g.range(1, 100) * 1e-2;
        asked = cfg->settings;
        g.log() << "update_workspace " << update_workspace << ", warm_starting " << asked.warm_starting << "\n";
        model = createModel(ModelType(ModelType::OSQP), cfg);
      }
      else
        model = createModel(ModelType(ModelType::OSQP));
    }
    else
      model = createModel(ModelType(be == QPOASES ? ModelType::QPOASES : ModelType::GUROBI));

    std::vector<RefVar> vars;
    std::vector<RefCnt> cnts;
    RefQuad obj;
    std::vector<RefQuad> quads;
    bool solved_before = false, edited = false;
    bool structure_kept = false, last_ok = false;  // since the last solve
    Eigen::VectorXd last_x;
    auto expr = [&](const RefAff& a) {
      AffExpr e(a.c);
      for (auto& t : a.t)
      {
        e.vars.push_back(t.first);
        e.coeffs.push_back(t.second);
      }
      return e;
    };
    auto qexpr = [&](const RefQuad& q) {
      QuadExpr e(expr(q.a));
      for (auto& t : q.q)
      {
        e.vars1.push_back(t.first.first);
        e.vars2.push_back(t.first.second);
        e.coeffs.push_back(t.second);
      }
      return e;
    };
    auto pickAff = [&](int min_terms) {
      RefAff a;
      a.c = grid(g, 24);
      const int k = g.range(min_terms, 4);
      for (int i = 0; i < k; ++i)
        a.t.emplace_back(g.pick(vars).v, grid(g, 24));
      return a;
    };
    auto pickQuad = [&](int most) {
      RefQuad o;
      o.a = pickAff(0);
      const int k = g.range(0, most);
      for (int i = 0; i < k; ++i)
        o.q.emplace_back(std::make_pair(g.pick(vars).v, g.pick(vars).v), grid(g, 16));
      return o;
    };
    auto indexOf = [&](const Var& v) {
      for (std::size_t i = 0; i < vars.size(); ++i)
        if (same(vars[i].v, v))
          return static_cast<Eigen::Index>(i);
      throw pbt::Failure("harness: unknown variable");
    };
    auto setObjective = [&](const RefQuad& o) {
      g.log() << "objective " << qexpr(o);
      if (o.q.empty() && g.boolean())
        model->setObjective(expr(o.a));
      else
        model->setObjective(qexpr(o));
      obj = o;
    };
    auto addCnt = [&](bool eq, const RefAff& e) {
      RefCnt r;
      r.eq = eq;
      r.e = e;
      r.c = eq ? model->addEqCnt(expr(e), "c") : model->addIneqCnt(expr(e), "c");
      CHECK(r.c.cnt_rep != nullptr);
      g.log() << "add " << expr(e) << (eq ? " == 0\n" : " <= 0\n");
      cnts.push_back(r);
      if (be == GUROBI)
        model->update();
    };
    auto solve = [&] {
      const auto n = static_cast<Eigen::Index>(vars.size());
      // the problem there is
      standin::Problem want;
      want.H = Eigen::MatrixXd::Zero(n, n);
      want.c = Eigen::VectorXd::Zero(n);
      want.lb = want.ub = Eigen::VectorXd::Zero(n);
      bool empty_box = false;
      for (Eigen::Index i = 0; i < n; ++i)
      {
        want.lb[i] = vars[static_cast<std::size_t>(i)].lb;
        want.ub[i] = vars[static_cast<std::size_t>(i)].ub;
        empty_box = empty_box || want.lb[i] > want.ub[i];
      }
      for (auto& t : obj.q)
      {
        want.H(indexOf(t.first.first), indexOf(t.first.second)) += t.second;
        want.H(indexOf(t.first.second), indexOf(t.first.first)) += t.second;
      }
      for (auto& t : obj.a.t)
        want.c[indexOf(t.first)] += t.second;
      want.A = Eigen::MatrixXd::Zero(static_cast<Eigen::Index>(cnts.size()), n);
      want.l = want.u = Eigen::VectorXd::Zero(want.A.rows());
      for (std::size_t i = 0; i < cnts.size(); ++i)
      {
        const auto r = static_cast<Eigen::Index>(i);
        for (auto& t : cnts[i].e.t)
          want.A(r, indexOf(t.first)) += t.second;
        want.u[r] = -cnts[i].e.c;
        want.l[r] = cnts[i].eq ? want.u[r] : -INFINITY;
      }
      // the answer there will be
      lib.x = Eigen::VectorXd::Zero(n);
      for (Eigen::Index i = 0; i < n; ++i)
        lib.x[i] = g.range(-80, 80) / 8.0;
      CvxOptStatus expect = CVX_SOLVED;
      bool has_x = true, error = false;
      const int kind = g.range(0, 9);
      lib.status = be == OSQP ? OSQP_SOLVED : be == QPOASES ? qpOASES::SUCCESSFUL_RETURN : GRB_OPTIMAL;
      if (kind == 9)
      {
        expect = CVX_INFEASIBLE;
        lib.status = be == OSQP ? g.pick(std::vector<int>{ OSQP_PRIMAL_INFEASIBLE, OSQP_PRIMAL_INFEASIBLE_INACCURATE,
                                                           OSQP_DUAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE_INACCURATE }) :
                     be == QPOASES ? qpOASES::RET_INIT_FAILED_INFEASIBILITY :
                                     GRB_INFEASIBLE;
        has_x = false;
      }
      else if (kind == 8)
      {
        expect = CVX_FAILED;
        lib.status = be == OSQP    ? g.pick(std::vector<int>{ OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_NON_CVX,
                                                              OSQP_SIGINT, OSQP_UNSOLVED }) :
                     be == QPOASES ? g.pick(std::vector<int>{ qpOASES::RET_INIT_FAILED, qpOASES::RET_INIT_FAILED_CHOLESKY,
                                                              qpOASES::RET_INIT_FAILED_UNBOUNDEDNESS }) :
                                     g.pick(std::vector<int>{ GRB_INF_OR_UNBD, GRB_UNBOUNDED, GRB_ITERATION_LIMIT, GRB_TIME_LIMIT,
                                                              GRB_NUMERIC });
        has_x = false;
      }
      else if (kind == 7 && be == OSQP)
      {
        error = true;
        if (g.boolean())
          lib.retcode = g.range(1, 11);
        else
          lib.setup_error = g.pick(std::vector<int>{ OSQP_LINSYS_SOLVER_INIT_ERROR, OSQP_NONCVX_ERROR, OSQP_MEM_ALLOC_ERROR });
      }
      else if (kind == 6 && be == OSQP)
        lib.status = OSQP_SOLVED_INACCURATE;
      lib.refuse_hot = g.chance(1, 5);
      lib.refuse_update = g.chance(1, 8);
      lib.hot_steps = g.range(0, 255);
      lib.init_steps = g.range(1, 255);
      const int setups = lib.setups, updates = lib.updates, warm = lib.warm_starts;
      const std::size_t before = lib.solved.size();
      const bool refused = lib.refuse_update;
      const CvxOptStatus st = model->optimize();
      g.log() << "solve: " << int(st) << "\n";
      lib.refuse_hot = lib.refuse_update = false;
      const bool failed_setup = be == OSQP && (empty_box || (error && lib.setup_error == 0 && lib.solved.size() == before));
      if (be == OSQP && error)
      {
        // the error was to come from a setup there was no need of, or came
        if (lib.setup_error != 0)
        {
          lib.setup_error = 0;
          error = false;
          if (empty_box)
            error = true;
        }
        lib.retcode = 0;
      }
      if (be == OSQP && empty_box)
      {
        CHECK(st == CVX_FAILED, << "bounds that leave nothing were not refused");
        CHECK(lib.solved.size() == before, << "a problem OSQP refuses was solved: some other one");
        structure_kept = last_ok = false;
        g.label("empty box");
        return;
      }
      if (failed_setup)
      {
        CHECK(st == CVX_FAILED, << "OSQP could not be set up, and status is " << int(st));
        structure_kept = last_ok = false;
        g.label("setup error");
        return;
      }
      CHECK(lib.solved.size() > before, << "nothing was solved");
      const std::vector<Row> rows = rowsOf(want);
      for (std::size_t k = before; k < lib.solved.size(); ++k)
      {
        const standin::Problem& p = lib.solved[k];
        CHECK(p.H.rows() == n && p.H == want.H, << "Hessian\n" << pbt::mat(p.H) << "\ninstead of\n" << pbt::mat(want.H));
        CHECK(p.c == want.c, << "linear costs " << pbt::mat(p.c.transpose()) << " instead of " << pbt::mat(want.c.transpose()));
        const std::vector<Row> got = rowsOf(p);
        CHECK(got == rows, << "constraints" << show(got) << "\ninstead of" << show(rows));
        if (be == GUROBI)
        {
          CHECK(p.c0 == obj.a.c, << "constant cost " << p.c0 << " instead of " << obj.a.c);
          CHECK(p.quads.size() == quads.size());
          for (std::size_t i = 0; i < quads.size(); ++i)
          {
            Eigen::MatrixXd q = Eigen::MatrixXd::Zero(n, n), h = p.quads[i].Q + p.quads[i].Q.transpose();
            Eigen::VectorXd a = Eigen::VectorXd::Zero(n);
            for (auto& t : quads[i].q)
            {
              q(indexOf(t.first.first), indexOf(t.first.second)) += t.second;
              q(indexOf(t.first.second), indexOf(t.first.first)) += t.second;
            }
            for (auto& t : quads[i].a.t)
              a[indexOf(t.first)] += t.second;
            CHECK(h == q && a == p.quads[i].a && p.quads[i].b == -quads[i].a.c, << "quadratic constraint " << i << " is another");
          }
        }
      }
      if (be == OSQP)
      {
        if (lib.setups > setups)
        {
          OSQPSettings s = standin_last_settings();
          s.rho = asked.rho;  // the one of the previous solve may be kept
          CHECK(std::memcmp(&s, &asked, sizeof s) == 0, << "OSQP was set up with other settings");
        }
        if (structure_kept && last_ok && !refused)
        {
          if (update_workspace)
          {
            CHECK(lib.setups == setups && lib.updates > updates, << "the workspace was not updated");
            g.label("updated");
          }
          else if (asked.warm_starting != 0)
          {
            CHECK(lib.warm_starts > warm, << "no warm start");
            g.label("warm start");
          }
        }
        if (lib.warm_starts > warm)
          CHECK(last_ok && !lib.warm_x.empty() && lib.warm_x.back() == last_x, << "warm start from "
                                                                               << pbt::mat(lib.warm_x.back().transpose()));
        if (!update_workspace)
          CHECK(lib.setups > setups, << "the workspace was updated");
      }
      if (error)
      {
        CHECK(st == CVX_FAILED, << "OSQP returned an error, and status is " << int(st));
        g.label("solver error");
        last_ok = last_ok && lib.setups == setups;
        structure_kept = last_ok;
        return;
      }
      CHECK(st == expect, << "status " << int(st) << ", not " << int(expect));
      g.label(expect == CVX_SOLVED ? "solved" : expect == CVX_INFEASIBLE ? "infeasible" : "failed");
      const VarVector all = model->getVars();
      CHECK(all.size() == vars.size(), << "the model has " << all.size() << " variables, not " << vars.size());
      for (std::size_t i = 0; i < vars.size(); ++i)
        CHECK(same(all[i], vars[i].v) && all[i].var_rep->index == i, << "variable " << i << " is " << all[i]);
      if (has_x)
      {
        std::vector<std::size_t> order;
        for (std::size_t i = 0; i < vars.size(); ++i)
          order.insert(order.begin() + static_cast<long>(g.index(order.size() + 1)), i);
        VarVector vs;
        for (std::size_t i : order)
          vs.push_back(vars[i].v);
        const DblVec x = model->getVarValues(vs);
        for (std::size_t i = 0; i < order.size(); ++i)
          CHECK(x[i] == lib.x[static_cast<Eigen::Index>(order[i])] && model->getVarValue(vs[i]) == x[i],
                << vs[i] << " is " << x[i] << " instead of " << lib.x[static_cast<Eigen::Index>(order[i])]);
      }
      if (solved_before && edited)
        g.nontrivial();
      solved_before = true;
      edited = false;
      structure_kept = true;
      last_ok = has_x;
      last_x = lib.x;
    };

    const int ops = g.range(3, 25);
    for (int o = 0; o <= ops; ++o)
    {
      int op = o == ops ? 12 : g.range(0, 13);
      if (vars.empty())
        op = 0;
      if (op != 5 && op < 12 && op != 8 && op != 9)
        structure_kept = false;
      if (op < 12)
        edited = true;
      switch (op)
      {
        case 0:
          if (vars.size() < 5)
          {
            RefVar r;
            const std::string name = "v" + std::to_string(o);
            if (g.boolean())
            {
              r.lb = grid(g, 40);
              r.ub = r.lb + (g.chance(1, 8) ? 0.0 : std::fabs(grid(g, 40)));
              r.v = model->addVar(name, r.lb, r.ub);
            }
            else
              r.v = model->addVar(name);
            CHECK(r.v.var_rep != nullptr && r.v.var_rep->name == name && r.v.var_rep->index == vars.size());
            g.log() << "add " << name << " in [" << r.lb << "," << r.ub << "]\n";
            vars.push_back(r);
            if (be == GUROBI || g.boolean())
              model->update();
          }
          break;
        case 1:
        case 2:
          if (cnts.size() < 4)
            addCnt(g.chance(1, 3), pickAff(1));
          break;
        case 3:
        {  // remove a variable that nothing refers to any more
          if (!quads.empty())
            break;
          const auto i = g.index(vars.size());
          const Var v = vars[i].v;
          CntVector gone;
          for (std::size_t k = cnts.size(); k-- > 0;)
            for (auto& t : cnts[k].e.t)
              if (same(t.first, v))
              {
                gone.push_back(cnts[k].c);
                cnts.erase(cnts.begin() + static_cast<long>(k));
                break;
              }
          if (!gone.empty())
            model->removeCnts(gone);
          g.log() << "remove variable " << v << " and " << gone.size() << " constraints\n";
          bool used = false;
          for (auto& t : obj.a.t)
            used = used || same(t.first, v);
          for (auto& t : obj.q)
            used = used || same(t.first.first, v) || same(t.first.second, v);
          vars.erase(vars.begin() + static_cast<long>(i));
          if (used)
            setObjective(vars.empty() ? RefQuad() : pickQuad(4));
          if (g.boolean())
            model->removeVar(v);
          else
            model->removeVars(VarVector(1, v));
          if (be != GUROBI || g.boolean())
            model->update();
          else if (!vars.empty())
          {
            g.log() << "no update\n";
            solve();
          }
          else
            model->update();
          break;
        }
        case 4:
          if (!cnts.empty())
          {
            const auto i = g.index(cnts.size());
            g.log() << "remove constraint " << i << "\n";
            if (g.boolean())
              model->removeCnt(cnts[i].c);
            else
              model->removeCnts(CntVector(1, cnts[i].c));
            cnts.erase(cnts.begin() + static_cast<long>(i));
            if (g.boolean())
              model->update();
            else if (be == GUROBI)
              solve();
          }
          break;
        case 5:
        {
          VarVector vs;
          DblVec lo, hi;
          for (auto& r : vars)
            if (g.boolean())
            {
              const double none = g.pick(std::vector<double>{ INFINITY, 1e30, 1e20 });
              r.lb = g.chance(1, 5) ? -none : grid(g, 40);
              r.ub = g.chance(1, 5) ? none : r.lb <= -1e20 ? grid(g, 40) : r.lb + (g.chance(1, 8) ? 0.0 : std::fabs(grid(g, 40)));
              if (be == OSQP && g.chance(1, 30) && std::fabs(r.lb) < 1e10)
                r.ub = r.lb - 1;
              vs.push_back(r.v);
              lo.push_back(r.lb);
              hi.push_back(r.ub);
              g.log() << "bounds of " << r.v << " [" << r.lb << "," << r.ub << "]\n";
            }
          if (vs.size() == 1 && g.boolean())
            model->setVarBounds(vs[0], lo[0], hi[0]);
          else
            model->setVarBounds(vs, lo, hi);
          break;
        }
        case 6:
        case 7:
          setObjective(pickQuad(6));
          break;
        case 8:
        {  // other values in the same places
          RefQuad q = obj;
          for (auto& t : q.a.t)
            t.second = grid(g, 24);
          for (auto& t : q.q)
            if (t.second != 0)
              t.second = (t.second < 0 ? -1 : 1) * g.range(1, 16) / 8.0;
          setObjective(q);
          // coefficients of one place may cancel now, and a sum's place is kept or not
          break;
        }
        case 9:
          model->update();
          break;
        case 10:
          if (!obj.q.empty())
          {  // one coefficient of the objective moves to another place
            RefQuad q = obj;
            auto& t = q.q[g.index(q.q.size())];
            (g.boolean() ? t.first.first : t.first.second) = g.pick(vars).v;
            setObjective(q);
          }
          break;
        case 11:
          if (!cnts.empty() && g.chance(7, 8))
          {  // one coefficient of a constraint moves to another variable
            const std::size_t i = cnts.size() - 1;
            RefAff e = cnts[i].e;
            const bool eq = cnts[i].eq;
            model->removeCnt(cnts[i].c);
            cnts.erase(cnts.begin() + static_cast<long>(i));
            model->update();
            e.t[g.index(e.t.size())].first = g.pick(vars).v;
            addCnt(eq, e);
          }
          else if (be == GUROBI && quads.size() < 2)
          {
            quads.push_back(pickQuad(4));
            model->addIneqCnt(qexpr(quads.back()), "q");
            g.log() << "add quadratic " << qexpr(quads.back()) << "\n";
            model->update();
          }
          break;
        default:
          solve();
      }
    }
  }
  CHECK(lib.alive == 0, << lib.alive << " solver objects were not released");
}
}  // namespace

PBT_CASES(osqp, 60000, 600000) { history(g, OSQP); }
PBT_CASES(qpoases, 60000, 600000) { history(g, QPOASES); }
PBT_CASES(gurobi, 60000, 600000) { history(g, GUROBI); }

PBT_CASES(choice, 2000, 20000)
{
  const std::vector<std::string> names{ "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
  const std::vector<std::function<bool(Model*)>> is{ [](Model* m) { return dynamic_cast<GurobiModel*>(m) != nullptr; },
                                                     [](Model* m) { return dynamic_cast<OSQPModel*>(m) != nullptr; },
                                                     [](Model* m) { return dynamic_cast<qpOASESModel*>(m) != nullptr; },
                                                     [](Model* m) { return dynamic_cast<BPMPDModel*>(m) != nullptr; } };
  const auto have = availableSolvers();
  CHECK(have.size() == 4, << have.size() << " back ends of four");
  for (std::size_t i = 0; i < 4; ++i)
    CHECK(std::count(have.begin(), have.end(), ModelType(static_cast<int>(i))) == 1, << names[i] << " is not available");
  const std::size_t asked = g.index(5);
  const int env = g.range(0, 6);  // 5: unset, 6: nonsense
  if (env < 5)
    ::setenv("TRAJOPT_CONVEX_SOLVER", names[static_cast<std::size_t>(env)].c_str(), 1);
  else if (env == 6)
    ::setenv("TRAJOPT_CONVEX_SOLVER", g.pick(std::vector<std::string>{ "", "osqp", "CPLEX", "OSQP " }).c_str(), 1);
  else
    ::unsetenv("TRAJOPT_CONVEX_SOLVER");
  g.log() << "asked for " << names[asked] << ", environment " << env << "\n";
  struct Clean
  {
    ~Clean() { ::unsetenv("TRAJOPT_CONVEX_SOLVER"); }
  } clean;
  const ModelType type = g.boolean() ? ModelType(names[asked]) : ModelType(static_cast<int>(asked));
  if (asked == 4 && env == 6)
  {
    CHECK_THROWS(createModel(type), << "an unknown solver in the environment was accepted");
    return;
  }
  Model::Ptr m = createModel(type);
  CHECK(m != nullptr);
  const int got = static_cast<int>(std::find_if(is.begin(), is.end(), [&](auto& f) { return f(m.get()); }) - is.begin());
  const int want = asked < 4 ? static_cast<int>(asked) : env < 4 ? env : static_cast<int>(have[0]);
  CHECK(got == want, << names[static_cast<std::size_t>(got)] << " was made instead of " << names[static_cast<std::size_t>(want)]);
  if (asked == 4)
    g.nontrivial();
}
