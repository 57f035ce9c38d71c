// The sequential convex optimizer of trajopt_sco, run on random problems over an exact QP solver whose failures are injected;
// the whole run (callbacks, trust boxes, subproblems, results) must be a run of the documented trust-region / penalty machine.
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/optimizers.hpp>

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <chrono>
#include <fstream>
#include <mutex>
#include <thread>

#include "ipm.h"
#include "pbt.h"
#include "smooth.h"

PBT_PROPERTY("C11",
             "Cases: problems of 1..4 variables with 0..3 costs (squared, absolute, hinge) and 0..3 constraints of smooth random "
             "functions, all parameters of the optimizer, injected failures of the QP solver, log files, time limits, single and "
             "multi threaded, up to two consecutive runs. The recorded run is matched against a reference machine that recomputes "
             "every merit from the problem's own functions. Non-trivial: at least three subproblems were solved and a step was "
             "accepted.");
using namespace sco;

namespace
{
struct ExactModel : Model
{
  std::mutex mu;
  VarVector vars;
  DblVec lb, ub;
  CntVector cnts;
  std::vector<AffExpr> exprs;
  std::vector<bool> eq;
  QuadExpr objective;
  DblVec solution;
  std::string fault;
  std::function<CvxOptStatus(ExactModel&)> on_optimize;

  Var addVar(const std::string& name) override { return addVar(name, -INFINITY, INFINITY); }
  Var addVar(const std::string& name, double l, double u) override
  {
    const std::lock_guard<std::mutex> k(mu);
    vars.push_back(Var(std::make_shared<VarRep>(vars.size(), name, this)));
    lb.push_back(l);
    ub.push_back(u);
    return vars.back();
  }
  Cnt add(const AffExpr& e, bool is_eq)
  {
    const std::lock_guard<std::mutex> k(mu);
    cnts.push_back(Cnt(std::make_shared<CntRep>(cnts.size(), this)));
    exprs.push_back(e);
    eq.push_back(is_eq);
    return cnts.back();
  }
  Cnt addEqCnt(const AffExpr& e, const std::string&) override { return add(e, true); }
  Cnt addIneqCnt(const AffExpr& e, const std::string&) override { return add(e, false); }
  Cnt addIneqCnt(const QuadExpr&, const std::string&) override { throw std::runtime_error("not supported"); }
  void removeVars(const VarVector& vs) override
  {
    const std::lock_guard<std::mutex> k(mu);
    for (auto& v : vs)
    {
      if (v.var_rep->removed || v.var_rep->creator != this)
        fault = "a variable is removed that is not in the model";
      v.var_rep->removed = true;
    }
  }
  void removeCnts(const CntVector& cs) override
  {
    const std::lock_guard<std::mutex> k(mu);
    for (auto& c : cs)
    {
      if (c.cnt_rep->removed || c.cnt_rep->creator != this)
        fault = "a constraint is removed that is not in the model";
      c.cnt_rep->removed = true;
    }
  }
  void update() override
  {
    std::size_t n = 0;
    for (std::size_t i = 0; i < vars.size(); ++i)
      if (!vars[i].var_rep->removed)
      {
        vars[n] = vars[i];
        lb[n] = lb[i];
        ub[n] = ub[i];
        vars[n].var_rep->index = n;
        ++n;
      }
    vars.resize(n);
    lb.resize(n);
    ub.resize(n);
    n = 0;
    for (std::size_t i = 0; i < cnts.size(); ++i)
      if (!cnts[i].cnt_rep->removed)
      {
        cnts[n] = cnts[i];
        exprs[n] = exprs[i];
        eq[n] = eq[i];
        cnts[n].cnt_rep->index = n;
        ++n;
      }
    cnts.resize(n);
    exprs.resize(n);
    eq.resize(n);
  }
  using Model::setVarBounds;
  void setVarBounds(const VarVector& vs, const DblVec& l, const DblVec& u) override
  {
    for (std::size_t i = 0; i < vs.size(); ++i)
    {
      lb.at(vs[i].var_rep->index) = l[i];
      ub.at(vs[i].var_rep->index) = u[i];
    }
  }
  DblVec getVarValues(const VarVector& vs) const override
  {
    DblVec out;
    for (auto& v : vs)
      out.push_back(solution.at(v.var_rep->index));
    return out;
  }
  CvxOptStatus optimize() override
  {
    update();
    return on_optimize(*this);
  }
  void setObjective(const AffExpr& e) override { objective = QuadExpr(e); }
  void setObjective(const QuadExpr& e) override { objective = e; }
  void writeToFile(const std::string&) const override {}
  VarVector getVars() const override { return vars; }

  ipm::Problem problem(double& constant)
  {
    const int n = static_cast<int>(vars.size());
    ipm::Problem p(n);
    auto at = [&](const Var& v) {
      if (v.var_rep->removed)
      {
        fault = "an expression uses a variable that was removed";
        return std::size_t(0);
      }
      return static_cast<std::size_t>(v.var_rep->index);
    };
    constant = objective.affexpr.constant;
    for (std::size_t i = 0; i < objective.affexpr.size(); ++i)
      p.c[at(objective.affexpr.vars[i])] += objective.affexpr.coeffs[i];
    for (std::size_t i = 0; i < objective.size(); ++i)
    {
      const auto a = at(objective.vars1[i]), b = at(objective.vars2[i]);
      p.H[a * n + b] += objective.coeffs[i];
      p.H[b * n + a] += objective.coeffs[i];
    }
    p.lb = lb;
    p.ub = ub;
    for (std::size_t r = 0; r < cnts.size(); ++r)
    {
      ipm::Vec row(static_cast<std::size_t>(n), 0.0);
      for (std::size_t i = 0; i < exprs[r].size(); ++i)
        row[at(exprs[r].vars[i])] += exprs[r].coeffs[i];
      (eq[r] ? p.Aeq : p.Ain).push_back(row);
      (eq[r] ? p.beq : p.bin).push_back(-exprs[r].constant);
    }
    return p;
  }
};

struct TestProblem : OptProb
{
  TestProblem(const Model::Ptr& m) : OptProb(ModelType::BPMPD)
  {
    if (m)
      model_ = m;
  }
};

struct Term
{
  bool is_cost;
  PenaltyType pen;      // costs
  ConstraintType type;  // constraints
  Eigen::VectorXd coeffs;
  SmoothVec fn;
  std::vector<std::size_t> at;

  Eigen::VectorXd of(const DblVec& x) const
  {
    Eigen::VectorXd r(static_cast<Eigen::Index>(at.size()));
    for (std::size_t i = 0; i < at.size(); ++i)
      r[static_cast<Eigen::Index>(i)] = x[at[i]];
    return r;
  }
  double measure(const Eigen::VectorXd& e) const
  {
    double s = 0;
    for (Eigen::Index i = 0; i < e.size(); ++i)
    {
      const double k = coeffs.size() ? coeffs[i] : 1.0;
      if (is_cost)
        s += k * (pen == SQUARED ? e[i] * e[i] : pen == ABS ? std::fabs(e[i]) : std::max(e[i], 0.0));
      else
        s += type == EQ ? std::fabs(k * e[i]) : std::max(k * e[i], 0.0);
    }
    return s;
  }
  double exact(const DblVec& x) const { return measure(fn(of(x))); }
  double model(const DblVec& x, const DblVec& z) const
  {
    const Eigen::VectorXd x0 = of(x);
    return measure(fn(x0) + fn.jac(x0) * (of(z) - x0));
  }
};

struct Event
{
  enum Kind
  {
    CALLBACK,
    QP
  } kind;
  OptResults results;  // CALLBACK
  int order{ 0 };
  // QP
  DblVec lo, hi;
  bool solved{ false };
  DblVec z, full;
  ipm::Problem qp;
  double constant{ 0 };
  std::size_t rows{ 0 };
};

struct Run
{
  pbt::Gen& g;
  std::vector<Term> terms;  // costs, then equations, then inequalities
  std::size_t nc{ 0 };      // costs
  DblVec lb, ub;
  std::size_t linear_rows{ 0 };
  BasicTrustRegionSQPParameters par;
  std::vector<Event> ev;
  DblVec start;
  OptStatus returned{ INVALID };
  OptResults final;
  double final_box{ 0 };
  int callbacks{ 1 };
  int sleep_at{ -1 };  // the iteration whose callback outlasts the time limit
  bool timed{ false };
  // outcome of the matching run
  int accepted{ 0 }, rejected{ 0 }, inflations{ 0 }, failures{ 0 };
  std::string reason;
  double end_box{ 0 };
  DblVec end_mu;

  DblVec costs(const DblVec& x) const
  {
    DblVec r;
    for (std::size_t i = 0; i < nc; ++i)
      r.push_back(terms[i].exact(x));
    return r;
  }
  DblVec viols(const DblVec& x) const
  {
    DblVec r;
    for (std::size_t i = nc; i < terms.size(); ++i)
      r.push_back(terms[i].exact(x));
    return r;
  }
  double modelMerit(const DblVec& x, const DblVec& z, const DblVec& mu) const
  {
    double s = 0;
    for (std::size_t i = 0; i < terms.size(); ++i)
      s += terms[i].model(x, z) * (i < nc ? 1.0 : mu[i - nc]);
    return s;
  }

  struct State
  {
    DblVec x, mu, c, v;
    double box;
    int merit{ 0 }, iter{ 1 }, fails{ 0 };
    int evals{ 0 }, qps{ 0 };
    int acc{ 0 }, rej{ 0 }, infl{ 0 }, failed{ 0 };
    int checked{ 0 };
  };
  static std::string vec(const DblVec& v)
  {
    std::ostringstream o;
    o.precision(12);
    o << "(";
    for (std::size_t i = 0; i < v.size(); ++i)
      o << (i ? " " : "") << v[i];
    o << ")";
    return o.str();
  }
  static bool same(const DblVec& a, const DblVec& b, double abs = 1e-9, double rel = 1e-9)
  {
    if (a.size() != b.size())
      return false;
    for (std::size_t i = 0; i < a.size(); ++i)
      if (!pbt::near(a[i], b[i], abs, rel))
        return false;
    return true;
  }
  double merit(const State& s) const
  {
    double m = 0;
    for (double c : s.c)
      m += c;
    for (std::size_t i = 0; i < s.v.size(); ++i)
      m += s.mu[i] * s.v[i];
    return m;
  }

  // the furthest explanation of the mismatch
  std::size_t far{ 0 };
  std::string why;
  bool mismatch(std::size_t i, const std::string& m)
  {
    if (i >= far || why.empty())
    {
      far = i;
      why = "event " + std::to_string(i) + " of " + std::to_string(ev.size()) + ": " + m;
    }
    return false;
  }

  bool finish(const State& s, std::size_t i, const std::vector<OptStatus>& allowed, const std::string& what)
  {
    std::size_t last = i;
    for (int k = 0; k < callbacks; ++k, ++last)
    {
      if (last >= ev.size() || ev[last].kind != Event::CALLBACK)
        return mismatch(i, "the run should have ended (" + what + ") with a last call of the callbacks");
      if (ev[last].order != k)
        return mismatch(last, "callbacks are not called in the order they were added");
      const OptResults& r = ev[last].results;
      if (!same(r.x, s.x) || !same(r.cost_vals, s.c) || !same(r.cnt_viols, s.v))
        return mismatch(last, "the last callback sees x " + vec(r.x) + " costs " + vec(r.cost_vals) + " violations " +
                                  vec(r.cnt_viols) + ", expected x " + vec(s.x) + " costs " + vec(s.c) + " violations " + vec(s.v));
      if (r.status != returned)
        return mismatch(last, "the last callback sees another status than the one returned");
    }
    if (last != ev.size())
      return mismatch(i, "the run should have ended: " + what);
    double worst = 0;
    for (double v : s.v)
      worst = std::max(worst, v);
    std::string names;
    bool ok = false;
    for (OptStatus a : allowed)
    {
      ok = ok || a == returned;
      names += toString(a) + " ";
    }
    if (!ok)
      return mismatch(i, "status " + toString(returned) + ", expected " + names + "(" + what + ", violation " + pbt::str(worst) + ")");
    if (final.status != returned)
      return mismatch(i, "the results have status " + toString(final.status) + " but " + toString(returned) + " was returned");
    if (!same(final.x, s.x) || !same(final.cost_vals, s.c) || !same(final.cnt_viols, s.v))
      return mismatch(i, "results x " + vec(final.x) + " costs " + vec(final.cost_vals) + " violations " + vec(final.cnt_viols) +
                             ", expected x " + vec(s.x) + " costs " + vec(s.c) + " violations " + vec(s.v));
    double total = 0;
    for (double c : s.c)
      total += c;
    if (!pbt::near(final.total_cost, total, 1e-9, 1e-9))
      return mismatch(i, "total cost " + pbt::str(final.total_cost) + ", the costs add up to " + pbt::str(total));
    if (final.n_qp_solves != s.qps)
      return mismatch(i, "counted " + std::to_string(final.n_qp_solves) + " subproblems of " + std::to_string(s.qps));
    if (final.n_func_evals != s.evals)
      return mismatch(i, "counted " + std::to_string(final.n_func_evals) + " evaluations of " + std::to_string(s.evals));
    if (!pbt::near(final_box, s.box, 0, 1e-9))
      return mismatch(i, "trust box " + pbt::str(final_box) + " at the end, expected " + pbt::str(s.box));
    accepted = s.acc;
    rejected = s.rej;
    inflations = s.infl;
    failures = s.failed;
    reason = what;
    end_box = s.box;
    end_mu = s.mu;
    return true;
  }
  // which answers to "are the constraints satisfied" are right
  std::vector<bool> satisfied(const State& s) const
  {
    double worst = 0;
    for (double v : s.v)
      worst = std::max(worst, v);
    if (s.v.empty())
      return { true };
    if (std::fabs(worst - par.cnt_tolerance) <= 1e-9 * (1 + worst))
      return { true, false };
    return { worst < par.cnt_tolerance };
  }

  bool timeLimit(const State& s, std::size_t i)
  {
    for (bool ok : satisfied(s))
      if (finish(s, i, { ok ? OPT_CONVERGED : OPT_TIME_LIMIT }, "time limit"))
        return true;
    return false;
  }
  // start of an iteration
  bool iteration(State s, std::size_t i)
  {
    const bool must = par.max_time < 0 || (sleep_at >= 0 && s.merit + s.iter > 1 && s.evals > 0 && total_iters(s) > sleep_at);
    if (timed)
    {
      State t = s;
      if (t.evals == 0)
      {  // nothing was evaluated yet: the results describe the starting point, or are empty
        t.c = costs(t.x);
        t.v = viols(t.x);
        t.evals = 1;
      }
      if (timeLimit(t, i))
        return true;
      if (must)
        return mismatch(i, "the time limit had passed");
    }
    for (int k = 0; k < callbacks; ++k, ++i)
    {
      if (i >= ev.size() || ev[i].kind != Event::CALLBACK)
        return mismatch(i, "a callback is due before the iteration");
      if (ev[i].order != k)
        return mismatch(i, "callbacks are not called in the order they were added");
      const OptResults& r = ev[i].results;
      if (!same(r.x, s.x))
        return mismatch(i, "the callback sees x " + vec(r.x) + ", the iterate is " + vec(s.x));
      if (!(s.evals == 0 && r.cost_vals.empty() && r.cnt_viols.empty()) &&
          (!same(r.cost_vals, costs(s.x)) || !same(r.cnt_viols, viols(s.x))))
        return mismatch(i, "the callback sees costs " + vec(r.cost_vals) + " violations " + vec(r.cnt_viols) + ", at the iterate they are " +
                               vec(costs(s.x)) + " and " + vec(viols(s.x)));
    }
    if (s.evals == 0)
    {
      s.c = costs(s.x);
      s.v = viols(s.x);
      s.evals = 1;
    }
    s.fails = 0;
    return subproblem(s, i);
  }
  int total_iters(const State& s) const { return s.acc + s.infl; }  // iterations finished

  bool subproblem(State s, std::size_t i)
  {
    if (!(s.box >= par.min_trust_box_size))
      return penalty(s, i, "trust box tiny");
    if (i >= ev.size() || ev[i].kind != Event::QP)
      return mismatch(i, "a subproblem is due, with trust box " + pbt::str(s.box) + " after " + std::to_string(s.qps) + " subproblems");
    const Event& e = ev[i];
    ++s.qps;
    for (std::size_t k = 0; k < s.x.size(); ++k)
    {
      const double c = std::min(std::max(s.x[k], lb[k]), ub[k]);
      const double l = std::max(c - s.box, lb[k]), h = std::min(c + s.box, ub[k]);
      if (!pbt::near(e.lo[k], l, 1e-12, 1e-12) || !pbt::near(e.hi[k], h, 1e-12, 1e-12))
        return mismatch(i, "variable " + std::to_string(k) + " is searched in [" + pbt::str(e.lo[k]) + ", " + pbt::str(e.hi[k]) +
                               "], the trust box around " + pbt::str(s.x[k]) + " is [" + pbt::str(l) + ", " + pbt::str(h) + "]");
    }
    const double old = merit(s);
    double big = 1;
    for (double m : s.mu)
      big = std::max(big, m);
    auto objectiveAt = [&](const DblVec& z, const char* what) {
      const ipm::Answer a = ipm::solveFixed(e.qp, z);
      if (!a.ok)
        return linear_rows > 0 || mismatch(i, std::string("the subproblem has no solution ") + what);
      const double want = modelMerit(s.x, z, s.mu), got = a.value + e.constant;
      if (!pbt::near(got, want, 1e-6 * big, 1e-6))
        return mismatch(i, std::string("the objective of the subproblem ") + what + " is " + pbt::str(got) + ", costs and penalties are " +
                               pbt::str(want));
      return true;
    };
    if (s.fails == 0 && s.checked < 4)
    {
      ++s.checked;
      if (!objectiveAt(s.x, "at the iterate"))
        return false;
      DblVec z(s.x.size());
      for (std::size_t k = 0; k < z.size(); ++k)
      {
        const double l = std::max(e.lo[k], s.x[k] - 10), h = std::min(e.hi[k], s.x[k] + 10);
        z[k] = l + (h - l) * (((i * 7 + k * 3) % 10) / 9.0);
      }
      if (!objectiveAt(z, "inside the trust box"))
        return false;
    }
    if (!e.solved)
    {
      ++s.failed;
      if (s.fails < par.max_qp_solver_failures - 1)
      {
        s.box *= par.trust_shrink_ratio;
        ++s.fails;
        return subproblem(s, i + 1);
      }
      if (s.fails == par.max_qp_solver_failures - 1)
      {
        s.box = par.min_trust_box_size;
        ++s.fails;
        return subproblem(s, i + 1);
      }
      return finish(s, i + 1, { OPT_FAILED }, "QP solver failed");
    }
    const double mm = modelMerit(s.x, e.z, s.mu), at = e.qp.value(e.full) + e.constant;
    if (!pbt::near(mm, at, 1e-5 * big, 1e-5))
      return mismatch(i, "the objective of the subproblem at its solution is " + pbt::str(at) + ", costs and penalties are " + pbt::str(mm));
    State t = s;
    t.x = e.z;
    t.c = costs(t.x);
    t.v = viols(t.x);
    const double now = merit(t), approx = old - mm, exact = old - now;
    s.evals = t.evals = s.evals + 1;
    const double tol = 1e-9 * (1 + std::fabs(old) + std::fabs(now) + big) + 2 * std::fabs(mm - at);
    auto less = [&](double a, double b, double eps) {
      return std::fabs(a - b) <= eps ? std::vector<bool>{ true, false } : std::vector<bool>{ a < b };
    };
    for (const bool small : less(approx, par.min_approx_improve, tol))
    {
      if (small)
      {
        if (penalty(s, i + 1, "small improvement"))
          return true;
        continue;
      }
      std::vector<bool> fracs{ false };
      if (par.min_approx_improve_frac > -1e300)
        fracs = less(approx, par.min_approx_improve_frac * old, tol * (1 + par.min_approx_improve_frac));
      for (const bool frac : fracs)
      {
        if (frac)
        {
          if (penalty(s, i + 1, "small relative improvement"))
            return true;
          continue;
        }
        for (const bool neg : less(exact, 0, tol))
          for (const bool poor : less(exact, par.improve_ratio_threshold * approx, tol * (1 + par.improve_ratio_threshold)))
          {
            if (neg || poor)
            {
              State r = s;
              r.box *= par.trust_shrink_ratio;
              ++r.rej;
              if (subproblem(r, i + 1))
                return true;
            }
            else
            {
              State a = t;
              a.box *= par.trust_expand_ratio;
              ++a.acc;
              if (iterationEnd(a, i + 1))
                return true;
            }
          }
      }
    }
    return false;
  }
  bool iterationEnd(State s, std::size_t i)
  {
    if (s.box < par.min_trust_box_size)  // expanding by less than 1
      return penalty(s, i, "trust box tiny");
    if (s.iter >= par.max_iter)
    {
      for (bool ok : satisfied(s))
        if (finish(s, i, { ok ? OPT_CONVERGED : OPT_SCO_ITERATION_LIMIT }, "iteration limit"))
          return true;
      return false;
    }
    ++s.iter;
    return iteration(s, i);
  }
  bool penalty(State s, std::size_t i, const std::string& what)
  {
    for (bool ok : satisfied(s))
    {
      if (ok)
      {
        if (finish(s, i, { OPT_CONVERGED }, what))
          return true;
        continue;
      }
      // every choice at constraints that lie on the tolerance
      State t = s;
      std::vector<std::size_t> edge;
      for (std::size_t k = 0; k < t.mu.size(); ++k)
      {
        if (!par.inflate_constraints_individually)
          t.mu[k] *= par.merit_coeff_increase_ratio;
        else if (std::fabs(t.v[k] - par.cnt_tolerance) <= 1e-9 * (1 + t.v[k]))
          edge.push_back(k);
        else if (t.v[k] > par.cnt_tolerance)
          t.mu[k] *= par.merit_coeff_increase_ratio;
      }
      t.box = std::max(t.box, par.min_trust_box_size / par.trust_shrink_ratio * 1.5);
      ++t.infl;
      ++t.merit;
      t.iter = 1;
      for (unsigned mask = 0; mask < (1U << edge.size()); ++mask)
      {
        State w = t;
        for (std::size_t k = 0; k < edge.size(); ++k)
          if ((mask >> k) & 1)
            w.mu[edge[k]] *= par.merit_coeff_increase_ratio;
        if (!(w.merit < par.max_merit_coeff_increases))
        {
          if (finish(w, i, { OPT_PENALTY_ITERATION_LIMIT }, "penalty limit"))
            return true;
        }
        else if (iteration(w, i))
          return true;
      }
    }
    return false;
  }
  bool match()
  {
    State s;
    s.x = start;
    s.mu.assign(terms.size() - nc, par.initial_merit_error_coeff);
    s.box = par.trust_box_size;
    return iteration(s, 0);
  }
};

BasicTrustRegionSQPParameters parameters(pbt::Gen& g)
{
  BasicTrustRegionSQPParameters p;
  auto pick = [&](double& v, std::vector<double> other) {
    if (g.boolean())
      v = g.pick(other);
  };
  pick(p.improve_ratio_threshold, { 0.1, 0.5, 0.9, 0, -1 });
  pick(p.min_trust_box_size, { 1e-3, 1e-2 });
  pick(p.min_approx_improve, { 1e-3, 1e-2, 1e-6 });
  if (g.chance(1, 4))
    p.min_approx_improve_frac = g.pick(std::vector<double>{ 1e-3, 1e-2, 0.2 });
  if (g.boolean())
    p.max_iter = g.pick(std::vector<int>{ 1, 2, 5, 10 });
  else
    p.max_iter = 25;
  pick(p.trust_shrink_ratio, { 0.5, 0.25 });
  pick(p.trust_expand_ratio, { 1, 2, 1.1, 3 });
  pick(p.cnt_tolerance, { 1e-3, 1e-2, 1e-1 });
  pick(p.max_merit_coeff_increases, { 1, 2, 3, 2.5 });
  if (g.boolean())
    p.max_qp_solver_failures = g.range(0, 4);
  pick(p.merit_coeff_increase_ratio, { 2, 3, 5 });
  pick(p.initial_merit_error_coeff, { 1, 5, 20, 0.5 });
  p.inflate_constraints_individually = !g.boolean();
  pick(p.trust_box_size, { 1, 1, 2, 5, 0.01, 1e-3, 1e-5 });
  return p;
}

struct Setup
{
  std::vector<Term> terms;
  std::size_t nc;
  int n;
  DblVec lb, ub, x0;
};
Setup generate(pbt::Gen& g, bool linear)
{
  Setup s;
  s.n = g.range(1, 4);
  for (int i = 0; i < s.n; ++i)
  {
    double a = -INFINITY, b = INFINITY;
    switch (g.index(5))
    {
      case 0:
        a = -3, b = 3;
        break;
      case 1:
        a = g.num(3), b = a + std::fabs(g.num(3)) + 0.25;
        break;
      case 2:
        a = g.num(2);
        break;
      case 3:
        b = g.num(2);
        break;
      default:
        if (g.chance(1, 4))
          a = b = g.num(2);
    }
    s.lb.push_back(a);
    s.ub.push_back(b);
    s.x0.push_back(g.num(4));
  }
  DblVec good(s.x0.size());
  for (std::size_t i = 0; i < good.size(); ++i)
    good[i] = std::min(std::max(g.num(3), s.lb[i]), s.ub[i]);
  const int costs = g.range(0, 3), eqs = g.range(0, 2), ins = g.range(costs + eqs == 0 ? 1 : 0, 2);
  s.nc = static_cast<std::size_t>(costs);
  for (int t = 0; t < costs + eqs + ins; ++t)
  {
    Term f;
    f.is_cost = t < costs;
    f.pen = g.pick(std::vector<PenaltyType>{ SQUARED, ABS, HINGE });
    f.type = t < costs + eqs ? EQ : INEQ;
    std::vector<std::size_t> all;
    for (int i = 0; i < s.n; ++i)
      all.push_back(static_cast<std::size_t>(i));
    for (int k = g.range(1, s.n); k > 0; --k)
    {
      const auto j = g.index(all.size());
      f.at.push_back(all[j]);
      all.erase(all.begin() + static_cast<long>(j));
    }
    const int rows = g.range(1, 2);
    f.fn = SmoothVec::make(g, rows, static_cast<int>(f.at.size()), linear || g.chance(1, 3));
    if (!linear && g.boolean())
      for (auto& h : f.fn.f)  // strongly curved
        for (auto& w : h.w)
          w *= 3;
    if (!f.is_cost && g.chance(3, 4))
      for (auto& h : f.fn.f)  // holds at `good`
        h.c -= h(f.of(good)) + (f.type == INEQ ? std::fabs(g.num(1)) : 0.0);
    if (g.boolean())
    {
      f.coeffs.resize(rows);
      for (int r = 0; r < rows; ++r)
        f.coeffs[r] = g.chance(1, 6) ? 0.0 : std::fabs(g.nonzero(4, 0.1));
    }
    s.terms.push_back(f);
  }
  return s;
}
void install(TestProblem& prob, const std::vector<Term>& terms)
{
  // equations and inequalities are listed in that order, whatever the order they are added in
  for (std::size_t t = 0; t < terms.size(); ++t)
  {
    const Term* f = &terms[t];
    VarVector vs;
    for (auto k : f->at)
      vs.push_back(prob.getVars()[k]);
    auto vf = VectorOfVector::construct([f](const Eigen::VectorXd& x) { return f->fn(x); });
    auto mf = MatrixOfVector::construct([f](const Eigen::VectorXd& x) { return f->fn.jac(x); });
    if (f->is_cost)
      prob.addCost(std::make_shared<CostFromErrFunc>(vf, mf, vs, f->coeffs, f->pen, "c" + std::to_string(t)));
    else
      prob.addConstraint(std::make_shared<ConstraintFromErrFunc>(vf, mf, vs, f->coeffs, f->type, "k" + std::to_string(t)));
  }
}
// the least merit over the bounds, for affine functions
ipm::Answer optimum(const Setup& s, const DblVec& mu, double& constant)
{
  int aux = 0;
  for (auto& t : s.terms)
    if (!t.is_cost || t.pen != SQUARED)
      aux += static_cast<int>(t.fn.f.size()) * ((t.is_cost ? t.pen == ABS : t.type == EQ) ? 2 : 1);
  const int N = s.n + aux;
  ipm::Problem p(N);
  constant = 0;
  for (int i = 0; i < s.n; ++i)
  {
    p.lb[i] = s.lb[i];
    p.ub[i] = s.ub[i];
  }
  int k = s.n;
  for (std::size_t ti = 0; ti < s.terms.size(); ++ti)
  {
    const Term& t = s.terms[ti];
    for (std::size_t r = 0; r < t.fn.f.size(); ++r)
    {
      const double w = (t.coeffs.size() ? t.coeffs[static_cast<Eigen::Index>(r)] : 1.0) * (t.is_cost ? 1.0 : mu[ti - s.nc]);
      ipm::Vec row(static_cast<std::size_t>(N), 0.0);
      for (std::size_t j = 0; j < t.at.size(); ++j)
        row[t.at[j]] = t.fn.f[r].b[static_cast<Eigen::Index>(j)];
      const double c = t.fn.f[r].c;
      if (t.is_cost && t.pen == SQUARED)
      {
        for (int a = 0; a < s.n; ++a)
        {
          p.c[a] += 2 * w * c * row[a];
          for (int b = 0; b < s.n; ++b)
            p.H[a * N + b] += 2 * w * row[a] * row[b];
        }
        constant += w * c * c;
      }
      else if (t.is_cost ? t.pen == ABS : t.type == EQ)
      {
        row[k] = 1;
        row[k + 1] = -1;
        p.lb[k] = p.lb[k + 1] = 0;
        p.c[k] = p.c[k + 1] = w;
        p.Aeq.push_back(row);
        p.beq.push_back(-c);
        k += 2;
      }
      else
      {
        row[k] = -1;
        p.lb[k] = 0;
        p.c[k] = w;
        p.Ain.push_back(row);
        p.bin.push_back(-c);
        ++k;
      }
    }
  }
  return ipm::solve(p);
}
std::string scratch()
{
  static std::string dir;
  if (dir.empty())
  {
    const char* base = getenv("PBT_TMP");
    std::string t = std::string(base ? base : "/tmp") + "/c11_XXXXXX";
    dir = mkdtemp(t.data());
  }
  return dir;
}
std::vector<std::vector<std::string>> csv(const std::string& file)
{
  std::ifstream in(file);
  std::vector<std::vector<std::string>> out;
  std::string line;
  while (std::getline(in, line))
  {
    std::vector<std::string> row;
    std::stringstream ss(line);
    std::string f;
    while (std::getline(ss, f, ','))
      row.push_back(f);
    out.push_back(row);
  }
  return out;
}
}  // namespace

PBT_CASES(runs, 12000, 240000)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  const bool linear = g.chance(1, 4);
  Setup s = generate(g, linear);
  auto model = std::make_shared<ExactModel>();
  auto prob = std::make_shared<TestProblem>(model);
  {
    std::vector<std::string> names;
    for (int i = 0; i < s.n; ++i)
      names.push_back("v" + std::to_string(i));
    prob->createVariables(names, s.lb, s.ub);
  }
  install(*prob, s.terms);
  std::size_t linear_rows = 0;
  const int threads = g.chance(1, 5) ? g.range(1, 3) : 0;
  std::shared_ptr<BasicTrustRegionSQP> opt;
  if (threads > 0)
    opt = std::make_shared<BasicTrustRegionSQPMultiThreaded>(prob);
  else if (g.boolean())
    opt = std::make_shared<BasicTrustRegionSQP>(prob);
  else
  {
    opt = std::make_shared<BasicTrustRegionSQP>();
    opt->setProblem(prob);
  }
  BasicTrustRegionSQPParameters par = parameters(g);
  par.num_threads = threads;
  const bool logs = g.chance(1, 24);
  if (logs)
  {
    par.log_results = true;
    par.log_dir = g.chance(1, 3) ? scratch() + "/missing" : scratch();
  }
  const int fail_mode = std::max(2, static_cast<int>(g.index(12)) - 6);  // 2 none, 3 rare, 4 often, 5 a burst
  const bool sloppy = g.chance(1, 12);  // the solver leaves its box
  const int burst = fail_mode == 5 ? g.range(0, 8) : 0, burst_len = fail_mode == 5 ? g.range(1, 6) : 0;
  const int callbacks = g.range(1, 2);
  std::vector<Event>* sink = nullptr;
  int qp_count = 0;
  for (int k = 0; k < callbacks; ++k)
    opt->addCallback([&sink, k](OptProb*, OptResults& r) {
      if (sink)
      {
        Event e;
        e.kind = Event::CALLBACK;
        e.results = r;
        e.order = k;
        sink->push_back(std::move(e));
      }
    });
  model->on_optimize = [&](ExactModel& m) {
    Event e;
    e.kind = Event::QP;
    e.lo.assign(m.lb.begin(), m.lb.begin() + s.n);
    e.hi.assign(m.ub.begin(), m.ub.begin() + s.n);
    e.qp = m.problem(e.constant);
    e.rows = m.cnts.size();
    bool fail = false;
    const int k = qp_count++;
    if (fail_mode == 3)
      fail = g.chance(1, 12);
    else if (fail_mode == 4)
      fail = g.chance(1, 3);
    else if (fail_mode == 5)
      fail = k >= burst && k < burst + burst_len;
    if (sink->size() > 6000)
      throw std::runtime_error("the run does not end");
    if (!fail)
    {
      const ipm::Answer a1 = ipm::solve(e.qp);
      ipm::Answer a2;
      if (a1.ok && sloppy && g.boolean())
      {
        ipm::Vec z(a1.x.begin(), a1.x.begin() + s.n);
        z[g.index(z.size())] += g.pick(std::vector<double>{ 1e-6, 1e-3, 0.3 }) * (g.boolean() ? 1 : -1);
        a2 = ipm::solveFixed(e.qp, z);
      }
      const ipm::Answer& a = a2.ok ? a2 : a1;
      if (a.ok)
      {
        e.solved = true;
        e.full = a.x;
        e.z.assign(a.x.begin(), a.x.begin() + s.n);
        m.solution = a.x;
      }
      else
        g.label("QP not solved");
    }
    if (!e.solved)
      m.solution.assign(m.vars.size(), 1e3);
    const bool ok = e.solved;
    sink->push_back(std::move(e));
    return ok ? CVX_SOLVED : g.boolean() ? CVX_FAILED : CVX_INFEASIBLE;
  };
  g.log() << s.n << " vars lb " << Run::vec(s.lb) << " ub " << Run::vec(s.ub) << " costs " << s.nc << " constraints "
          << s.terms.size() - s.nc << (linear ? " linear" : "") << " threads " << threads << "\n";
  if (sloppy)
    g.label("solver leaves its box");
  const int runs = g.chance(1, 4) ? 2 : 1;
  for (int r = 0; r < runs; ++r)
  {
    if (r > 0)
    {
      if (g.boolean())
      {
        par = parameters(g);
        par.num_threads = threads;
      }
      else
      {
        par = opt->getParameters();
        par.trust_box_size = std::min(par.trust_box_size, 100.0);
      }
      for (auto& v : s.x0)
        v = g.num(4);
    }
    Run run{ g };
    run.callbacks = callbacks;
    const bool timed = g.chance(1, 30);
    if (timed)
      par.max_time = g.boolean() ? -1.0 : 0.0;
    run.timed = timed;
    if (timed && par.max_time >= 0)
      par.max_time = g.pick(std::vector<double>{ 0, 1e-4, 1e-3, 5e-3 });
    if (r > 0 && !timed)
      par.max_time = std::numeric_limits<double>::max();
    opt->setParameters(par);
    run.terms = s.terms;
    run.nc = s.nc;
    run.lb = s.lb;
    run.ub = s.ub;
    run.linear_rows = linear_rows;
    run.par = par;
    sink = &run.ev;
    opt->initialize(s.x0);
    run.start = prob->getClosestFeasiblePoint(s.x0);
    g.log() << "run " << r << " from " << Run::vec(s.x0) << " box " << par.trust_box_size << " min " << par.min_trust_box_size
            << " max_iter " << par.max_iter << " merit " << par.initial_merit_error_coeff << " x" << par.merit_coeff_increase_ratio << " up to "
            << par.max_merit_coeff_increases << " tol " << par.cnt_tolerance << " failures " << par.max_qp_solver_failures << "\n";
    run.returned = opt->optimize();
    sink = nullptr;
    run.final = opt->results();
    run.final_box = opt->getParameters().trust_box_size;
    CHECK(model->fault.empty(), << model->fault);
    CHECK(Run::same(opt->x(), run.final.x, 0, 0));
    if (!run.match())
      g.fail("run " + std::to_string(r) + " (" + toString(run.returned) + "): " + run.why);
    g.log() << "ended: " << run.reason << " " << toString(run.returned) << ", " << run.final.n_qp_solves << " subproblems, " << run.accepted
            << " accepted, " << run.rejected << " rejected, " << run.inflations << " penalty increases, " << run.failures << " failures\n";
    g.label(toString(run.returned) + ": " + run.reason);
    if (run.accepted)
      g.label("accepted steps");
    if (run.rejected)
      g.label("rejected steps");
    if (run.inflations)
      g.label("penalty increases");
    if (run.failures)
      g.label("QP failures");
    if (run.accepted > 0 && run.final.n_qp_solves >= 3)
      g.nontrivial();
    // the plain claims, whatever the path
    double worst = 0;
    for (double v : run.viols(run.final.x))
      worst = std::max(worst, v);
    if (run.returned == OPT_CONVERGED)
      CHECK(worst <= par.cnt_tolerance * (1 + 1e-9), << "converged with violation " << worst);
    for (int i = 0; i < s.n; ++i)
    {
      const auto k = static_cast<std::size_t>(i);
      CHECK(sloppy || run.final.x[k] >= s.lb[k] - 1e-9 && run.final.x[k] <= s.ub[k] + 1e-9, << "variable " << i << " = " << run.final.x[k]);
    }
    // nothing of the run stays in the model
    model->update();
    CHECK(static_cast<int>(model->vars.size()) == s.n && model->cnts.size() == linear_rows,
          << model->vars.size() << " variables and " << model->cnts.size() << " constraints are left in the model");
    // for a convex problem that is its own model, the end point is nearly optimal
    if (linear && !sloppy && run.reason == "small improvement" && par.min_approx_improve_frac < -1e300)
    {
      double constant = 0;
      const ipm::Answer a = optimum(s, run.end_mu, constant);
      if (a.ok)
      {
        double D = 0, big = 1;
        for (int i = 0; i < s.n; ++i)
          D = std::max(D, std::fabs(a.x[static_cast<std::size_t>(i)] - run.final.x[static_cast<std::size_t>(i)]));
        Run::State e;
        e.mu = run.end_mu;
        for (double m : e.mu)
          big = std::max(big, m);
        e.c = run.costs(run.final.x);
        e.v = run.viols(run.final.x);
        const double have = run.merit(e), best = a.value + constant;
        CHECK(have <= best + par.min_approx_improve * std::max(1.0, D / run.end_box) * 1.01 + 1e-6 * big,
              << "ended at merit " << have << " but " << best << " is possible at distance " << D << " with trust box " << run.end_box);
        g.label("compared with the optimum");
      }
    }
    if (logs && r == 0 && par.log_dir == scratch())
    {
      std::vector<const Event*> solved;
      for (auto& e : run.ev)
        if (e.kind == Event::QP && e.solved)
          solved.push_back(&e);
      const auto vs = csv(par.log_dir + "/trajopt_vars.log"), so = csv(par.log_dir + "/trajopt_solver.log"),
                 co = csv(par.log_dir + "/trajopt_costs.log"), cn = csv(par.log_dir + "/trajopt_constraints.log");
      if (!solved.empty())
      {
        CHECK(vs.size() == 1 + solved.size() && so.size() == 1 + solved.size(), << "log of variables has " << vs.size() << " lines for "
                                                                              << solved.size() << " steps");
        CHECK(co.size() == 2 + solved.size() && cn.size() == 2 + solved.size(), << "log of costs has " << co.size() << " lines");
        for (std::size_t k = 0; k < solved.size(); ++k)
        {
          CHECK(static_cast<int>(vs[k + 1].size()) == 1 + s.n);
          for (int i = 0; i < s.n; ++i)
            CHECK_NEAR(std::stod(vs[k + 1][static_cast<std::size_t>(i) + 1]), solved[k]->z[static_cast<std::size_t>(i)], 1e-12, 1e-5, << "logged variable");
          CHECK(co[k + 2].size() == 1 + 4 * s.nc && cn[k + 2].size() == 1 + 4 * (s.terms.size() - s.nc), << "columns of the log of costs");
        }
        for (int i = 0; i < s.n; ++i)
          CHECK(vs[0][static_cast<std::size_t>(i) + 1] == "v" + std::to_string(i));
        g.label("log files");
      }
    }
    if (r == 0 && runs == 2 && par.log_results)
      break;
  }
}

// with the solver that ships with the library
PBT_CASES(bundled_solver, 4000, 40000)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  Setup s = generate(g, g.chance(1, 3));
  auto prob = std::make_shared<TestProblem>(nullptr);
  std::vector<std::string> names;
  for (int i = 0; i < s.n; ++i)
    names.push_back("v" + std::to_string(i));
  prob->createVariables(names, s.lb, s.ub);
  install(*prob, s.terms);
  BasicTrustRegionSQP opt(prob);
  BasicTrustRegionSQPParameters par = parameters(g);
  opt.setParameters(par);
  Run run{ g };
  run.terms = s.terms;
  run.nc = s.nc;
  double last = INFINITY;
  opt.addCallback([&](OptProb* p, OptResults& r) {
    CHECK(p == prob.get());
    if (r.cost_vals.empty() && r.cnt_viols.empty())
      return;
    CHECK(Run::same(r.cost_vals, run.costs(r.x)) && Run::same(r.cnt_viols, run.viols(r.x)), << "results of another point");
    if (s.terms.size() == s.nc)
    {
      double m = 0;
      for (double c : r.cost_vals)
        m += c;
      CHECK(m <= last + 1e-9 * (1 + std::fabs(m)), << "the cost went from " << last << " to " << m);
      last = m;
    }
  });
  opt.initialize(s.x0);
  const OptStatus st = opt.optimize();
  const OptResults& r = opt.results();
  CHECK(st == r.status && st != INVALID);
  CHECK(Run::same(r.cost_vals, run.costs(r.x)) && Run::same(r.cnt_viols, run.viols(r.x)));
  double worst = 0, total = 0;
  for (double v : r.cnt_viols)
    worst = std::max(worst, v);
  for (double c : r.cost_vals)
    total += c;
  CHECK_NEAR(r.total_cost, total, 1e-9, 1e-9);
  if (st == OPT_CONVERGED)
    CHECK(worst <= par.cnt_tolerance * (1 + 1e-9), << "converged with violation " << worst);
  else if (st != OPT_FAILED)
    CHECK(worst >= par.cnt_tolerance * (1 - 1e-9), << toString(st) << " although the constraints hold: " << worst);
  prob->getModel()->update();
  CHECK(static_cast<int>(prob->getModel()->getVars().size()) == s.n, << "variables are left in the model");
  g.label(toString(st));
  if (r.n_qp_solves >= 3)
    g.nontrivial();
}

// what must be refused
PBT_CASES(refusals, 3000, 20000)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  BasicTrustRegionSQP empty;
  CHECK_THROWS(empty.initialize(DblVec(1, 0.0)), << "no problem was set");
  CHECK_THROWS(empty.optimize(), << "no problem was set");
  auto model = std::make_shared<ExactModel>();
  auto prob = std::make_shared<TestProblem>(model);
  const int n = g.range(1, 4);
  std::vector<std::string> names(static_cast<std::size_t>(n), "v");
  prob->createVariables(names);
  BasicTrustRegionSQP opt(prob);
  const int m = g.range(0, 8);
  if (m != n)
  {
    CHECK_THROWS(opt.initialize(DblVec(static_cast<std::size_t>(m), 1.0)), << m << " values for " << n << " variables");
    CHECK_THROWS(opt.optimize(), << "optimized without a starting point");
  }
  else
  {
    const DblVec x(static_cast<std::size_t>(m), g.num(3));
    opt.initialize(x);
    CHECK(opt.x() == x && opt.results().status == INVALID && opt.results().n_qp_solves == 0 && opt.results().n_func_evals == 0 &&
          opt.results().cost_vals.empty() && opt.results().cnt_viols.empty());
  }
  g.nontrivial();
}
