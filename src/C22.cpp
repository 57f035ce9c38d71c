// TrustRegionSQPSolver: whole runs, on a scripted problem and QP solver (every value, failure, refusal of an update and
// callback answer is drawn), matched event by event with a reference machine of the documented method; and runs on real
// convex problems, against the optimum of the penalised problem.
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/qp_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>

#include <chrono>
#include <map>
#include <thread>

#include "ipm.h"
#include "sqp_fixture.h"

using namespace trajopt_sqp;
using trajopt_ifopt::Jacobian;
using Eigen::VectorXd;

PBT_PROPERTY("C22", "the run rejects a step, meets a failure of the QP solver, raises a penalty or is stopped");

namespace
{
using Key = std::vector<double>;
Key key(const VectorXd& v) { return Key(v.data(), v.data() + v.size()); }

struct Script
{
  pbt::Gen& g;
  explicit Script(pbt::Gen& gen) : g(gen) {}
  Eigen::Index nv{ 0 }, nk{ 0 }, nc{ 0 };
  int style{ 0 };
  std::map<Key, std::pair<VectorXd, VectorXd>> exact;                   // point -> costs, violations
  std::map<std::pair<int, Key>, std::pair<VectorXd, VectorXd>> convex;  // model, point -> costs, violations
  std::vector<bool> solve_ok;
  std::vector<VectorXd> solutions;
  std::vector<std::pair<bool, bool>> answers;
  unsigned fail_rate{ 0 }, stop_rate{ 0 };

  VectorXd genCosts()
  {
    VectorXd c(nc);
    for (Eigen::Index i = 0; i < nc; ++i)
      c[i] = g.range(style == 2 ? -16 : 0, style == 1 ? 64 : 16) / 8.0;
    return c;
  }
  VectorXd genViolations()
  {
    VectorXd v(nk);
    for (Eigen::Index i = 0; i < nk; ++i)
      switch (g.range(0, 3))
      {
        case 0:
          v[i] = 0;
          break;
        case 1:
          v[i] = g.range(0, 4) / 1024.0;  // around the tolerance
          break;
        default:
          v[i] = g.range(0, 32) / 8.0;
      }
    return v;
  }
  const std::pair<VectorXd, VectorXd>& exactAt(const VectorXd& x)
  {
    auto it = exact.find(key(x));
    if (it == exact.end())
    {
      VectorXd c = genCosts(), v = genViolations();
      it = exact.emplace(key(x), std::make_pair(c, v)).first;
    }
    return it->second;
  }
  const std::pair<VectorXd, VectorXd>& convexAt(int model, const VectorXd& x)
  {
    auto k = std::make_pair(model, key(x));
    auto it = convex.find(k);
    if (it == convex.end())
    {
      // mostly better than the point it is a model of, often close to the truth
      std::pair<VectorXd, VectorXd> p = exactAt(x);
      switch (g.range(0, 3))
      {
        case 0:
          break;
        case 1:
          p.first = VectorXd::Zero(nc);
          p.second = VectorXd::Zero(nk);
          break;
        case 2:
          p.second /= 2;
          p.first /= 2;
          break;
        default:
          p.first = genCosts();
          p.second = genViolations();
      }
      it = convex.emplace(k, p).first;
    }
    return it->second;
  }
};

struct Event
{
  char what;  // C convexify, S solve, B callback
  VectorXd a, b;
  std::vector<double> n;
  std::string show() const
  {
    std::string s = std::string(1, what) + " " + pbt::mat(a.transpose()) + " " + pbt::mat(b.transpose());
    for (double v : n)
      s += " " + pbt::str(v);
    return s;
  }
  bool operator==(const Event& o) const
  {
    if (what != o.what || a.size() != o.a.size() || b.size() != o.b.size() || n.size() != o.n.size())
      return false;
    for (Eigen::Index i = 0; i < a.size(); ++i)
      if (!pbt::near(a[i], o.a[i], 1e-12, 1e-12))
        return false;
    for (Eigen::Index i = 0; i < b.size(); ++i)
      if (!pbt::near(b[i], o.b[i], 1e-12, 1e-12))
        return false;
    for (std::size_t i = 0; i < n.size(); ++i)
      if (!pbt::near(n[i], o.n[i], 1e-12, 1e-12))
        return false;
    return true;
  }
};

class MockProblem : public QPProblem
{
public:
  Script& s;
  std::vector<Event>& events;
  VectorXd x, box, merit;
  int model{ -1 };
  Eigen::Index slack{ 0 }, nq{ 0 }, nr{ 0 };
  Jacobian H, A;
  VectorXd grad, lo, up;
  std::vector<std::string> cnt_names, cost_names;
  std::vector<std::chrono::steady_clock::time_point> times;

  MockProblem(Script& script, std::vector<Event>& e, VectorXd x0, bool sized) : s(script), events(e), x(std::move(x0))
  {
    merit = VectorXd::Constant(s.nk, 10);
    box = VectorXd::Constant(s.nv, 0.1);
    for (Eigen::Index i = 0; i < s.nk; ++i)
      cnt_names.push_back("cnt" + std::to_string(i));
    for (Eigen::Index i = 0; i < s.nc; ++i)
      cost_names.push_back("cost" + std::to_string(i));
    if (sized)
      size();
  }
  void size()
  {
    nq = s.nv + slack;
    nr = slack + nq;
  }
  void addConstraintSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>, CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double* v) override { x = Eigen::Map<const VectorXd>(v, s.nv); }
  VectorXd getVariableValues() const override { return x; }
  void bounds()
  {
    lo = VectorXd::Zero(nr);
    up = VectorXd::Constant(nr, INFINITY);
    for (Eigen::Index i = 0; i < slack; ++i)
      lo[i] = up[i] = model + i;
    lo.segment(slack, s.nv) = x - box;
    up.segment(slack, s.nv) = x + box;
  }
  void convexify() override
  {
    times.push_back(std::chrono::steady_clock::now());
    ++model;
    if (s.g.chance(1, 4))
      slack = s.g.range(0, 3);
    size();
    events.push_back({ 'C', x, merit, {} });
    // contents that tell the models apart
    H = Jacobian(nq, nq);
    A = Jacobian(nr, nq);
    for (Eigen::Index i = 0; i < s.nv; ++i)
      H.insert(i, i) = 1 + model;
    for (Eigen::Index i = 0; i < nr; ++i)
      A.insert(i, i % nq) = 1 + 100 * model + i;
    H.makeCompressed();
    A.makeCompressed();
    grad = VectorXd::LinSpaced(nq, model, model + 1);
    bounds();
  }
  double evaluateTotalConvexCost(const Eigen::Ref<const VectorXd>& v) const override { return evaluateConvexCosts(v).sum(); }
  VectorXd evaluateConvexCosts(const Eigen::Ref<const VectorXd>& v) const override
  {
    return s.convexAt(model, v.head(s.nv)).first;
  }
  double getTotalExactCost() const override { return getExactCosts().sum(); }
  VectorXd getExactCosts() const override { return s.exactAt(x).first; }
  VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const VectorXd>& v) const override
  {
    return s.convexAt(model, v.head(s.nv)).second;
  }
  VectorXd getExactConstraintViolations() const override { return s.exactAt(x).second; }
  void scaleBoxSize(double& scale) override
  {
    box = box * scale;
    if (model >= 0)
      bounds();
  }
  void setBoxSize(const Eigen::Ref<const VectorXd>& b) override
  {
    box = b;
    if (model >= 0)
      bounds();
  }
  void setConstraintMeritCoeff(const Eigen::Ref<const VectorXd>& m) override { merit = m; }
  void print() const override {}
  Eigen::Index getNumNLPVars() const override { return s.nv; }
  Eigen::Index getNumNLPConstraints() const override { return s.nk; }
  Eigen::Index getNumNLPCosts() const override { return s.nc; }
  Eigen::Index getNumQPVars() const override { return nq; }
  Eigen::Index getNumQPConstraints() const override { return nr; }
  const std::vector<std::string>& getNLPConstraintNames() const override { return cnt_names; }
  const std::vector<std::string>& getNLPCostNames() const override { return cost_names; }
  const VectorXd& getBoxSize() const override { return box; }
  const VectorXd& getConstraintMeritCoeff() const override { return merit; }
  const Jacobian& getHessian() const override { return H; }
  const VectorXd& getGradient() const override { return grad; }
  const Jacobian& getConstraintMatrix() const override { return A; }
  const VectorXd& getBoundsLower() const override { return lo; }
  const VectorXd& getBoundsUpper() const override { return up; }
};

// Keeps what it is told and refuses what does not fit what it was initialised for
class StoringSolver : public QPSolver
{
public:
  QPSolverStatus status{ QPSolverStatus::kUninitialized };
  Eigen::Index nv{ 0 }, nc{ 0 };
  Eigen::MatrixXd H, A;
  VectorXd q, lo, up;
  bool has_H{ false }, has_A{ false }, has_q{ false }, has_b{ false };
  std::function<bool()> refuse = [] { return false; };
  int inits{ 0 };

  bool init(Eigen::Index v, Eigen::Index c) override
  {
    nv = v;
    nc = c;
    ++inits;
    status = QPSolverStatus::kInitialized;
    return true;
  }
  bool clear() override
  {
    has_H = has_A = has_q = has_b = false;
    status = QPSolverStatus::kUninitialized;
    return true;
  }
  bool updateHessianMatrix(const Jacobian& h) override
  {
    if (h.rows() != nv || h.cols() != nv || (has_H && refuse()))
      return false;
    H = Eigen::MatrixXd(h);
    return has_H = true;
  }
  bool updateGradient(const Eigen::Ref<const VectorXd>& v) override
  {
    if (v.size() != nv || (has_q && refuse()))
      return false;
    q = v;
    return has_q = true;
  }
  bool updateLowerBound(const Eigen::Ref<const VectorXd>& v) override
  {
    lo = v;
    return v.size() == nc;
  }
  bool updateUpperBound(const Eigen::Ref<const VectorXd>& v) override
  {
    up = v;
    return v.size() == nc;
  }
  bool updateBounds(const Eigen::Ref<const VectorXd>& l, const Eigen::Ref<const VectorXd>& u) override
  {
    if (l.size() != nc || u.size() != nc)
      return false;
    lo = l;
    up = u;
    return has_b = true;
  }
  bool updateLinearConstraintsMatrix(const Jacobian& a) override
  {
    if (a.rows() != nc || a.cols() != nv || (has_A && refuse()))
      return false;
    A = Eigen::MatrixXd(a);
    return has_A = true;
  }
  bool setWarmStart(const QPProblem&) override { return true; }
  QPSolverStatus getSolverStatus() const override { return status; }
  void checkCurrent(pbt::Gen& g, const QPProblem& p) const
  {
    CHECK(status == QPSolverStatus::kInitialized && has_H && has_A && has_q && has_b, << "the QP was not given completely");
    CHECK(nv == p.getNumQPVars() && nc == p.getNumQPConstraints(), << "the QP is solved in another size");
    CHECK((H - Eigen::MatrixXd(p.getHessian())).isZero(0), << "the QP is solved with another Hessian");
    CHECK((A - Eigen::MatrixXd(p.getConstraintMatrix())).isZero(0), << "the QP is solved with other constraints");
    CHECK(q == p.getGradient(), << "the QP is solved with another gradient");
    CHECK(lo == p.getBoundsLower() && up == p.getBoundsUpper(), << "the QP is solved with other bounds");
  }
};
class MockSolver : public StoringSolver
{
public:
  Script& s;
  std::vector<Event>& events;
  std::shared_ptr<MockProblem> p;
  VectorXd solution;
  MockSolver(Script& script, std::vector<Event>& e) : s(script), events(e) {}
  bool solve() override
  {
    pbt::Gen& g = s.g;
    checkCurrent(g, *p);
    const bool ok = !g.chance(s.fail_rate, 16);
    s.solve_ok.push_back(ok);
    events.push_back({ 'S', p->lo.segment(p->slack, s.nv), p->up.segment(p->slack, s.nv), {} });
    solution = VectorXd::Zero(nv);
    // distinct points, so that the tables can be read again
    for (Eigen::Index i = 0; i < s.nv; ++i)
      solution[i] = p->x[i] + p->box[i] * (g.range(-4, 4) / 4.0) + 1e-3 * static_cast<double>(s.solutions.size() + 1);
    for (Eigen::Index i = s.nv; i < nv; ++i)
      solution[i] = g.range(0, 4);
    s.solutions.push_back(solution.head(s.nv));
    return ok;
  }
  VectorXd getSolution() override { return solution; }
};

struct Recorder : SQPCallback
{
  Script& s;
  std::vector<Event>& events;
  int index;
  double sleep_at{ -1 };
  Recorder(Script& script, std::vector<Event>& e, int i) : s(script), events(e), index(i) {}
  static Event make(int index,
                    const VectorXd& x,
                    const VectorXd& coeffs,
                    double best,
                    double approx,
                    double exact,
                    double dapprox,
                    double dexact,
                    double ratio,
                    int pen,
                    int con,
                    int tr,
                    int all)
  {
    return { 'B', x, coeffs,
             { static_cast<double>(index), best, approx, exact, dapprox, dexact, ratio, static_cast<double>(pen),
               static_cast<double>(con), static_cast<double>(tr), static_cast<double>(all) } };
  }
  bool execute(const QPProblem& p, const SQPResults& r) override
  {
    pbt::Gen& g = s.g;
    CHECK(p.getVariableValues() == r.best_var_vals.head(s.nv), << "at a callback the problem is not at the best values");
    CHECK(r.new_var_vals.head(s.nv) == s.solutions.back());
    CHECK(r.box_size == p.getBoxSize() && r.merit_error_coeffs == p.getConstraintMeritCoeff());
    events.push_back(make(index, r.best_var_vals.head(s.nv), r.merit_error_coeffs, r.best_exact_merit, r.new_approx_merit,
                          r.new_exact_merit, r.approx_merit_improve, r.exact_merit_improve, r.merit_improve_ratio,
                          r.penalty_iteration, r.convexify_iteration, r.trust_region_iteration, r.overall_iteration));
    const bool answer = !g.chance(s.stop_rate, 24);
    if (index == 0)
      s.answers.emplace_back(answer, true);
    else
      s.answers.back().second = answer;
    if (sleep_at >= 0 && static_cast<double>(s.solutions.size()) == sleep_at)
      std::this_thread::sleep_for(std::chrono::milliseconds(120));
    return answer;
  }
};

// The documented method, on what the script recorded
struct Reference
{
  pbt::Gen& g;
  Script& s;
  const SQPParameters& p;
  int callbacks;
  std::vector<Event> events;
  SQPStatus status{ SQPStatus::kRunning };
  VectorXd best_x, best_c, best_v, box, merit, model_c, model_v;
  double model_merit{ 0 };
  bool stepped{ false };
  double best{ 0 };
  int model{ -1 }, solve{ 0 }, answer{ 0 };
  int pen{ 0 }, con{ 0 }, tr{ 0 }, all{ 0 };
  bool rejected{ false }, failed{ false }, raised{ false };
  std::function<bool(int)> late = [](int) { return false; };

  Reference(pbt::Gen& gen, Script& script, const SQPParameters& params, int n) : g(gen), s(script), p(params), callbacks(n) {}

  const std::pair<VectorXd, VectorXd>& exactAt(const VectorXd& x)
  {
    CHECK(s.exact.count(key(x)), << "the costs at " << pbt::mat(x.transpose()) << " were never evaluated");
    return s.exact[key(x)];
  }
  const std::pair<VectorXd, VectorXd>& convexAt(const VectorXd& x)
  {
    auto k = std::make_pair(model, key(x));
    CHECK(s.convex.count(k), << "model " << model << " at " << pbt::mat(x.transpose()) << " was never evaluated");
    return s.convex[k];
  }
  double meritOf(const std::pair<VectorXd, VectorXd>& e) const { return e.first.sum() + e.second.dot(merit); }

  void init(const VectorXd& x0, int model0)
  {
    model = model0;
    best_x = x0;
    merit = VectorXd::Constant(s.nk, p.initial_merit_error_coeff);
    best_c = exactAt(x0).first;
    best_v = exactAt(x0).second;
    box = VectorXd::Constant(s.nv, p.initial_trust_box_size);
    best = meritOf(exactAt(x0));
    pen = con = tr = all = 0;
    stepped = false;
  }
  bool step()
  {
    ++con;
    ++model;
    events.push_back({ 'C', best_x, merit, {} });
    trustRegion();
    if (status == SQPStatus::kConverged)
      return true;
    if (status == SQPStatus::kStoppedByCallback || status == SQPStatus::kQPSolveFailed)
      if (box.maxCoeff() >= p.min_trust_box_size || status == SQPStatus::kStoppedByCallback)
        return true;
    if (box.maxCoeff() < p.min_trust_box_size)
    {
      status = SQPStatus::kConverged;
      return true;
    }
    return false;
  }
  void trustRegion()
  {
    tr = 0;
    int failures = 0;
    while (box.maxCoeff() >= p.min_trust_box_size)
    {
      ++all;
      ++tr;
      CHECK(solve < static_cast<int>(s.solutions.size()), << "the QP should have been solved " << solve + 1 << " times");
      events.push_back({ 'S', best_x - box, best_x + box, {} });
      const VectorXd x = s.solutions[static_cast<std::size_t>(solve)];
      const bool ok = s.solve_ok[static_cast<std::size_t>(solve++)];
      if (!ok)
      {
        failed = true;
        status = SQPStatus::kQPSolveFailed;
        ++failures;
        if (failures < p.max_qp_solver_failures)
          box = box * p.trust_shrink_ratio;
        else if (failures == p.max_qp_solver_failures)
          box = VectorXd::Constant(s.nv, p.min_trust_box_size);
        else
          return;
        continue;
      }
      status = SQPStatus::kRunning;
      const auto now = exactAt(x), app = convexAt(x);
      const double approx = meritOf(app), exact = meritOf(now), da = best - approx, de = best - exact;
      const double ratio = std::fabs(da) < 1e-12 ? 0.0 : de / da;
      for (int c = 0; c < callbacks; ++c)
        events.push_back(Recorder::make(c, best_x, merit, best, approx, exact, da, de, ratio, pen, con, tr, all));
      if (callbacks)
      {
        CHECK(answer < static_cast<int>(s.answers.size()));
        const auto a = s.answers[static_cast<std::size_t>(answer++)];
        if (!a.first || !a.second)
        {
          status = SQPStatus::kStoppedByCallback;
          return;
        }
      }
      if (da < p.min_approx_improve || da / std::max(std::fabs(best), 1e-12) < p.min_approx_improve_frac)
      {
        status = SQPStatus::kConverged;
        return;
      }
      if (de < 0 || ratio < p.improve_ratio_threshold)
      {
        rejected = true;
        box = box * p.trust_shrink_ratio;
        continue;
      }
      best_x = x;
      best = exact;
      best_c = now.first;
      best_v = now.second;
      model_c = app.first;
      model_v = app.second;
      model_merit = approx;
      stepped = true;
      box = box * p.trust_expand_ratio;
      return;
    }
  }
  bool satisfied() const { return s.nk == 0 || best_v.maxCoeff() < p.cnt_tolerance; }
  void adjust()
  {
    raised = true;
    for (Eigen::Index i = 0; i < s.nk; ++i)
      if (!p.inflate_constraints_individually || best_v[i] > p.cnt_tolerance)
        merit[i] *= p.merit_coeff_increase_ratio;
    box = VectorXd::Constant(s.nv, std::max(box[0], p.min_trust_box_size / p.trust_shrink_ratio * 1.5));
    best = best_c.sum() + best_v.dot(merit);
  }
  void run(const VectorXd& x0, int model0)
  {
    status = SQPStatus::kRunning;
    init(x0, model0);
    int steps = 0;
    for (pen = 0; pen < p.max_merit_coeff_increases; ++pen)
    {
      con = 0;
      for (int k = 1; k < 100; ++k)
      {
        if (late(steps))
        {
          status = SQPStatus::kTimeLimit;
          break;
        }
        if (all >= p.max_iterations)
        {
          status = SQPStatus::kIterationLimit;
          break;
        }
        ++steps;
        if (step())
          break;
      }
      if (status == SQPStatus::kStoppedByCallback || status == SQPStatus::kQPSolveFailed)
        return;
      if (satisfied())
      {
        status = SQPStatus::kConverged;
        return;
      }
      if (status == SQPStatus::kIterationLimit || status == SQPStatus::kTimeLimit)
        return;
      status = SQPStatus::kRunning;
      adjust();
    }
    status = SQPStatus::kPenaltyIterationLimit;
  }
};

SQPParameters genParameters(pbt::Gen& g)
{
  SQPParameters p;
  p.improve_ratio_threshold = std::vector<double>{ 0.25, 0.5, 0.125, 0 }[g.index(4)];
  p.min_trust_box_size = std::vector<double>{ 1.0 / 1024, 1.0 / 64, 0.25 }[g.index(3)];
  p.min_approx_improve = std::vector<double>{ 1.0 / 1024, 0.5, 0 }[g.index(3)];
  if (g.chance(1, 3))
    p.min_approx_improve_frac = std::vector<double>{ 1.0 / 64, 0.25, 0 }[g.index(3)];
  p.max_iterations = g.range(0, 1) ? 50 : g.range(0, 12);
  p.trust_shrink_ratio = std::vector<double>{ 0.5, 0.25, 0.125 }[g.index(3)];
  p.trust_expand_ratio = std::vector<double>{ 1.5, 2, 1 }[g.index(3)];
  p.cnt_tolerance = std::vector<double>{ 1.0 / 1024, 2.0 / 1024, 0.5 }[g.index(3)];
  p.max_merit_coeff_increases = g.range(0, 3) ? g.range(1, 5) : 0;
  p.max_qp_solver_failures = g.range(0, 4);
  p.merit_coeff_increase_ratio = std::vector<double>{ 10, 2, 1.5 }[g.index(3)];
  p.initial_merit_error_coeff = std::vector<double>{ 10, 1, 4 }[g.index(3)];
  p.inflate_constraints_individually = g.boolean();
  p.initial_trust_box_size = std::vector<double>{ 0.5, 1, 0.125, 1.0 / 512 }[g.index(4)];
  return p;
}
void logParameters(pbt::Gen& g, const SQPParameters& p)
{
  g.log() << "threshold " << p.improve_ratio_threshold << " min box " << p.min_trust_box_size << " min improve "
          << p.min_approx_improve << " frac " << p.min_approx_improve_frac << " iterations " << p.max_iterations << " shrink "
          << p.trust_shrink_ratio << " expand " << p.trust_expand_ratio << " tolerance " << p.cnt_tolerance << " increases "
          << p.max_merit_coeff_increases << " failures " << p.max_qp_solver_failures << " ratio "
          << p.merit_coeff_increase_ratio << " initial " << p.initial_merit_error_coeff << " individually "
          << p.inflate_constraints_individually << " box " << p.initial_trust_box_size << "\n";
}
void compareEvents(pbt::Gen& g, const std::vector<Event>& got, const std::vector<Event>& want)
{
  for (std::size_t i = 0; i < std::min(got.size(), want.size()); ++i)
    CHECK(got[i] == want[i], << "event " << i << " is " << got[i].show() << " but should be " << want[i].show());
  CHECK(got.size() == want.size(), << got.size() << " events instead of " << want.size() << "; next is "
                                   << (got.size() > want.size() ? got[want.size()] : want[got.size()]).show());
}
void compareState(pbt::Gen& g, TrustRegionSQPSolver& solver, const MockProblem& problem, const Reference& ref)
{
  const SQPResults& r = solver.getResults();
  const Eigen::Index nv = ref.s.nv;
  CHECK(r.best_var_vals.size() >= nv && r.best_var_vals.head(nv) == ref.best_x, << "best values");
  CHECK(problem.x == ref.best_x, << "the problem was not left at the best values");
  CHECK(r.best_costs == ref.best_c && r.best_constraint_violations == ref.best_v);
  CHECK_NEAR(r.best_exact_merit, ref.best, 1e-12, 1e-12);
  if (ref.stepped)
  {
    CHECK(r.best_approx_costs == ref.model_c && r.best_approx_constraint_violations == ref.model_v,
          << "the models of the best step");
    CHECK_NEAR(r.best_approx_merit, ref.model_merit, 1e-12, 1e-12);
  }
  CHECK(r.overall_iteration == ref.all);
  CHECK((r.merit_error_coeffs - ref.merit).isZero(1e-12) && (problem.merit - ref.merit).isZero(1e-12), << "penalties");
  for (Eigen::Index i = 0; i < nv; ++i)
  {
    CHECK_NEAR(r.box_size[i], ref.box[i], 1e-12, 1e-12);
    CHECK_NEAR(problem.box[i], ref.box[i], 1e-12, 1e-12);
  }
}
Script& setUp(pbt::Gen& g, Script& s)
{
  s.nv = g.range(1, 3);
  s.nk = g.range(0, 3);
  s.nc = g.range(0, 3);
  s.style = g.range(0, 2);
  s.fail_rate = g.boolean() ? 0 : (g.boolean() ? 2 : 8);
  s.stop_rate = g.boolean() ? 0 : 1;
  return s;
}
}  // namespace

PBT_CASES(runs, 150000, 3000000)
{
  Script script(g);
  setUp(g, script);
  std::vector<Event> events;
  auto qp_solver = std::make_shared<MockSolver>(script, events);
  const bool refusing = g.chance(1, 3);
  qp_solver->refuse = [&g, refusing] { return refusing && g.chance(1, 4); };
  TrustRegionSQPSolver solver(qp_solver);
  solver.params = genParameters(g);
  const bool no_time = g.chance(1, 16);
  if (no_time)
    solver.params.max_time = -1;
  logParameters(g, solver.params);
  const int callbacks = g.range(0, 2);
  for (int c = 0; c < callbacks; ++c)
    solver.registerCallback(std::make_shared<Recorder>(script, events, c));
  // the same solver object solves problem after problem
  const int runs = g.range(1, 2);
  std::shared_ptr<MockProblem> problem;
  Reference ref(g, script, solver.params, callbacks);
  ref.late = [no_time](int) { return no_time; };
  for (int r = 0; r < runs; ++r)
  {
    VectorXd x0(script.nv);
    for (Eigen::Index i = 0; i < script.nv; ++i)
      x0[i] = g.range(-8, 8) / 4.0;
    if (!problem || g.boolean())
    {
      script.convex.clear();
      problem = std::make_shared<MockProblem>(script, events, x0, g.boolean());
      qp_solver->p = problem;
    }
    else
      x0 = problem->x;
    const int model0 = problem->model;
    events.clear();
    ref.events.clear();
    solver.solve(problem);
    ref.run(x0, model0);
    for (const Event& e : ref.events)
      g.log() << e.show() << "\n";
    compareEvents(g, events, ref.events);
    CHECK(solver.getStatus() == ref.status, << "status " << toString(solver.getStatus()) << " instead of "
                                            << toString(ref.status));
    compareState(g, solver, *problem, ref);
    g.label(toString(ref.status));
  }
  if (ref.rejected)
    g.label("a step was rejected");
  if (ref.failed)
    g.label("the QP solver failed");
  if (ref.raised)
    g.label("penalties were raised");
  if (ref.rejected || ref.failed || ref.raised || ref.status == SQPStatus::kStoppedByCallback)
    g.nontrivial();
}

// The parts an online planner calls itself
PBT_CASES(stepwise, 30000, 600000)
{
  Script script(g);
  setUp(g, script);
  std::vector<Event> events;
  auto qp_solver = std::make_shared<MockSolver>(script, events);
  TrustRegionSQPSolver solver(qp_solver);
  solver.params = genParameters(g);
  logParameters(g, solver.params);
  solver.registerCallback(std::make_shared<Recorder>(script, events, 0));
  VectorXd x0(script.nv);
  for (Eigen::Index i = 0; i < script.nv; ++i)
    x0[i] = g.range(-8, 8) / 4.0;
  auto problem = std::make_shared<MockProblem>(script, events, x0, g.boolean());
  qp_solver->p = problem;
  Reference ref(g, script, solver.params, 1);
  CHECK(solver.init(problem));
  ref.init(x0, -1);
  compareState(g, solver, *problem, ref);
  const int ops = g.range(1, 8);
  for (int o = 0; o < ops; ++o)
  {
    switch (g.range(0, 4))
    {
      case 0:
      case 1:
      {
        g.log() << "step\n";
        const bool done = solver.stepSQPSolver();
        ref.status = SQPStatus::kRunning;
        const bool want = ref.step();
        compareEvents(g, events, ref.events);
        if (ref.status == SQPStatus::kConverged || ref.status == SQPStatus::kRunning)
          CHECK(done == want, << "the step says " << done);
        if (ref.rejected)
          g.nontrivial();
        break;
      }
      case 2:
        CHECK(solver.verifySQPSolverConvergence() == ref.satisfied());
        break;
      case 3:
        g.log() << "adjustPenalty\n";
        solver.adjustPenalty();
        ref.adjust();
        break;
      default:
      {
        const double b = std::vector<double>{ 0.5, 2, 1.0 / 4096 }[g.index(3)];
        g.log() << "setBoxSize " << b << "\n";
        solver.setBoxSize(b);
        ref.box = VectorXd::Constant(script.nv, b);
      }
    }
    compareState(g, solver, *problem, ref);
  }
}

// The time limit is looked at before every convexification
PBT_CASES(time_limit, 60, 300)
{
  Script script(g);
  setUp(g, script);
  script.fail_rate = script.stop_rate = 0;
  std::vector<Event> events;
  auto qp_solver = std::make_shared<MockSolver>(script, events);
  TrustRegionSQPSolver solver(qp_solver);
  solver.params = genParameters(g);
  solver.params.max_time = 0.08;
  logParameters(g, solver.params);
  auto cb = std::make_shared<Recorder>(script, events, 0);
  cb->sleep_at = g.range(1, 4);
  solver.registerCallback(cb);
  const VectorXd x0 = VectorXd::Zero(script.nv);
  auto problem = std::make_shared<MockProblem>(script, events, x0, false);
  qp_solver->p = problem;
  const auto start = std::chrono::steady_clock::now();
  solver.solve(problem);
  // a step that began before the sleep but late, on a busy machine, decides nothing
  Reference ref(g, script, solver.params, 1);
  ref.late = [&](int) { return static_cast<double>(ref.solve) >= cb->sleep_at; };
  for (const auto& t : problem->times)
  {
    const double at = std::chrono::duration<double>(t - start).count();
    if (at > 0.04 && at < 0.12)
      throw pbt::Discard();
  }
  try
  {
    ref.run(x0, -1);
    compareEvents(g, events, ref.events);
  }
  catch (const pbt::Failure&)
  {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > 0.2)
      throw pbt::Discard();
    throw;
  }
  CHECK(solver.getStatus() == ref.status);
  if (solver.getStatus() == SQPStatus::kTimeLimit)
    g.nontrivial();
}

namespace
{
class DenseSolver : public StoringSolver
{
public:
  pbt::Gen& g;
  std::shared_ptr<QPProblem> p;
  VectorXd solution;
  int failures{ 0 }, solves{ 0 };
  explicit DenseSolver(pbt::Gen& gen) : g(gen) {}
  bool solve() override
  {
    checkCurrent(g, *p);
    ++solves;
    ipm::Problem q(static_cast<int>(nv));
    for (Eigen::Index i = 0; i < nv; ++i)
    {
      for (Eigen::Index j = 0; j < nv; ++j)
        q.H[static_cast<std::size_t>(i * nv + j)] = 2 * H(i, j);
      q.c[static_cast<std::size_t>(i)] = this->q[i];
      q.lb[static_cast<std::size_t>(i)] = lo[nc - nv + i];
      q.ub[static_cast<std::size_t>(i)] = up[nc - nv + i];
    }
    for (Eigen::Index r = 0; r < nc - nv; ++r)
    {
      ipm::Vec row(static_cast<std::size_t>(nv)), neg(static_cast<std::size_t>(nv));
      for (Eigen::Index j = 0; j < nv; ++j)
      {
        row[static_cast<std::size_t>(j)] = A(r, j);
        neg[static_cast<std::size_t>(j)] = -A(r, j);
      }
      if (lo[r] == up[r])
      {
        q.Aeq.push_back(row);
        q.beq.push_back(lo[r]);
        continue;
      }
      if (std::isfinite(up[r]))
      {
        q.Ain.push_back(row);
        q.bin.push_back(up[r]);
      }
      if (std::isfinite(lo[r]))
      {
        q.Ain.push_back(neg);
        q.bin.push_back(-lo[r]);
      }
    }
    const ipm::Answer a = ipm::solve(q);
    if (!a.ok)
    {
      ++failures;
      return false;
    }
    solution = Eigen::Map<const VectorXd>(a.x.data(), nv);
    // a solution of the QP is within its bounds; the rest of the digits is the QP solver's business
    for (Eigen::Index i = 0; i < nv; ++i)
      solution[i] = std::max(lo[nc - nv + i], std::min(up[nc - nv + i], solution[i]));
    return true;
  }
  VectorXd getSolution() override { return solution; }
};
}  // namespace

// Real problems: linear terms, so that the penalised problem is convex and its optimum is known
PBT_CASES(convex_problems, 20000, 400000)
{
  using namespace sq;
  Layout l = genVars(g, 2, g.boolean());
  const Eigen::Index nv = l.vars->getRows();
  const bool ifopt = g.chance(1, 4);
  std::shared_ptr<QPProblem> qp;
  if (ifopt)
    qp = std::make_shared<IfoptQPProblem>(l.vars);
  else
    qp = std::make_shared<TrajOptQPProblem>(l.vars);
  std::vector<Term> costs, cnts;
  const int n_costs = g.range(1, 3), n_cnts = g.range(0, 2);
  for (int k = 0; k < n_costs; ++k)
  {
    Term t;
    const int m = g.range(1, 2);
    t.type = ifopt ? CostPenaltyType::kSquared :
                     std::vector<CostPenaltyType>{ CostPenaltyType::kSquared, CostPenaltyType::kHinge,
                                                   CostPenaltyType::kAbsolute }[g.index(3)];
    t.set = std::make_shared<FnSet>("cost" + std::to_string(k), SmoothVec::make(g, m, static_cast<int>(nv), true),
                                    genBoundsFor(g, m, t.type == CostPenaltyType::kHinge ? 1 : 0), genCoeffs(g, m));
    qp->addCostSet(t.set, t.type);
    costs.push_back(t);
  }
  for (int k = 0; k < n_cnts; ++k)
  {
    Term t;
    const int m = g.range(1, 2);
    t.set = std::make_shared<FnSet>("cnt" + std::to_string(k), SmoothVec::make(g, m, static_cast<int>(nv), true),
                                    genBoundsFor(g, m, 2), Eigen::VectorXd::Ones(m));
    qp->addConstraintSet(t.set);
    cnts.push_back(t);
  }
  qp->setup();
  auto qs = std::make_shared<DenseSolver>(g);
  qs->p = qp;
  TrustRegionSQPSolver solver(qs);
  solver.params.max_iterations = 400;
  solver.params.min_approx_improve = 1e-7;
  solver.params.min_trust_box_size = 1e-5;
  solver.params.initial_trust_box_size = g.boolean() ? 0.5 : 4;
  solver.params.max_merit_coeff_increases = 3;
  struct Watch : SQPCallback
  {
    pbt::Gen& g;
    const std::vector<Bounds>& bounds;
    VectorXd coeffs;
    double best{ INFINITY };
    Watch(pbt::Gen& gen, const std::vector<Bounds>& b) : g(gen), bounds(b) {}
    bool execute(const QPProblem& p, const SQPResults& r) override
    {
      if (r.merit_error_coeffs.size() == coeffs.size() && r.merit_error_coeffs == coeffs)
        CHECK(r.best_exact_merit <= best, << "the merit got worse under the same penalties");
      coeffs = r.merit_error_coeffs;
      best = r.best_exact_merit;
      for (std::size_t i = 0; i < bounds.size(); ++i)
        CHECK(r.new_var_vals[static_cast<Eigen::Index>(i)] >= bounds[i].getLower() - 1e-9 &&
                  r.new_var_vals[static_cast<Eigen::Index>(i)] <= bounds[i].getUpper() + 1e-9,
              << "a step leaves the bounds of variable " << i);
      return true;
    }
  };
  auto watch = std::make_shared<Watch>(g, l.bounds);
  solver.registerCallback(watch);
  solver.solve(qp);
  const VectorXd x = qp->getVariableValues();
  const SQPResults& r = solver.getResults();
  if (qs->failures)
    throw pbt::Discard();
  CHECK(r.best_var_vals.head(nv) == x);
  CHECK(solver.getStatus() == SQPStatus::kConverged || solver.getStatus() == SQPStatus::kPenaltyIterationLimit ||
            solver.getStatus() == SQPStatus::kIterationLimit,
        << toString(solver.getStatus()));
  double worst = 0;
  VectorXd v = qp->getExactConstraintViolations();
  for (Eigen::Index i = 0; i < v.size(); ++i)
    worst = std::max(worst, v[i]);
  if (solver.getStatus() == SQPStatus::kConverged)
    CHECK(worst < solver.params.cnt_tolerance, << "converged with a violation of " << worst);
  g.label(toString(solver.getStatus()));
  // the optimum of the penalised problem under the last penalties that a QP was solved with, over the bounds of the variables
  std::vector<std::pair<Eigen::RowVectorXd, double>> rows;
  std::vector<std::pair<Bounds, double>> price;
  ipm::Problem big(0);
  auto add = [&](const Term& t, int i, double w) {
    rows.emplace_back(t.set->f.f[static_cast<std::size_t>(i)].b.transpose(), t.set->f.f[static_cast<std::size_t>(i)].c);
    price.emplace_back(t.set->bounds[static_cast<std::size_t>(i)], w);
  };
  for (const Term& t : costs)
    if (t.type != CostPenaltyType::kSquared)
      for (int i = 0; i < t.set->coeffs.size(); ++i)
        add(t, i, t.set->coeffs[i]);
  Eigen::Index merit_index = 0;
  for (const Term& t : cnts)
    for (int i = 0; i < t.set->coeffs.size(); ++i)
      add(t, i, watch->coeffs[ifopt ? merit_index++ : (i == 0 ? merit_index++ : merit_index - 1)]);
  const int n = static_cast<int>(nv) + static_cast<int>(rows.size());  // one violation variable per row
  big = ipm::Problem(n);
  double constant = 0;
  for (int i = 0; i < nv; ++i)
  {
    // bounded, so that a variable nothing depends on is no trouble
    big.lb[static_cast<std::size_t>(i)] = std::max(l.bounds[static_cast<std::size_t>(i)].getLower(), x[i] - 500);
    big.ub[static_cast<std::size_t>(i)] = std::min(l.bounds[static_cast<std::size_t>(i)].getUpper(), x[i] + 500);
  }
  for (const Term& t : costs)
    if (t.type == CostPenaltyType::kSquared)
      for (int i = 0; i < t.set->coeffs.size(); ++i)
      {
        const VectorXd& b = t.set->f.f[static_cast<std::size_t>(i)].b;
        const double e = t.set->f.f[static_cast<std::size_t>(i)].c - t.set->bounds[static_cast<std::size_t>(i)].getLower();
        const double w = t.set->coeffs[i];
        constant += w * e * e;
        for (int a = 0; a < nv; ++a)
        {
          big.c[static_cast<std::size_t>(a)] += 2 * w * e * b[a];
          for (int c = 0; c < nv; ++c)
            big.H[static_cast<std::size_t>(a * n + c)] += 2 * w * b[a] * b[c];
        }
      }
  for (std::size_t k = 0; k < rows.size(); ++k)
  {
    const std::size_t s = static_cast<std::size_t>(nv) + k;
    big.lb[s] = 0;
    big.ub[s] = INFINITY;
    big.c[s] = price[k].second;
    ipm::Vec up(static_cast<std::size_t>(n)), down(static_cast<std::size_t>(n));
    for (int a = 0; a < nv; ++a)
    {
      up[static_cast<std::size_t>(a)] = rows[k].first[a];
      down[static_cast<std::size_t>(a)] = -rows[k].first[a];
    }
    up[s] = down[s] = -1;
    if (std::isfinite(price[k].first.getUpper()))
    {
      big.Ain.push_back(up);
      big.bin.push_back(price[k].first.getUpper() - rows[k].second);
    }
    if (std::isfinite(price[k].first.getLower()))
    {
      big.Ain.push_back(down);
      big.bin.push_back(rows[k].second - price[k].first.getLower());
    }
  }
  const ipm::Answer best = ipm::solve(big);
  if (!best.ok || !std::isfinite(best.value))
    throw pbt::Discard();
  double merit = 0;
  Eigen::VectorXd sums = qp->getExactCosts();
  CHECK_NEAR(sums.sum() + v.dot(r.merit_error_coeffs), r.best_exact_merit, 1e-9, 1e-9, << "the reported merit is not that of the final values");
  merit = sums.sum() + v.dot(watch->coeffs);
  const double opt = best.value + constant;
  double dist = 1;
  for (Eigen::Index i = 0; i < nv; ++i)
    dist = std::max(dist, std::fabs(x[i] - best.x[static_cast<std::size_t>(i)]));
  g.log() << "merit " << merit << " optimum " << opt << " violation " << worst << " iterations " << r.overall_iteration << "\n";
  g.log() << "x " << pbt::mat(x.transpose()) << " reference " << pbt::mat(Eigen::Map<const Eigen::RowVectorXd>(best.x.data(), n))
          << " penalties " << pbt::mat(r.merit_error_coeffs.transpose()) << " violations " << pbt::mat(v.transpose()) << "\n";
  for (std::size_t k = 0; k < rows.size(); ++k)
    g.log() << "row " << pbt::mat(rows[k].first) << " + " << rows[k].second << " in [" << price[k].first.getLower() << ", "
            << price[k].first.getUpper() << "] at " << price[k].second << "\n";
  CHECK(merit >= opt - 1e-5 * (1 + std::fabs(opt)), << "better than the optimum: the reference is wrong");
  if (solver.getStatus() != SQPStatus::kIterationLimit)
    CHECK(merit <= opt + 1e-3 * (1 + std::fabs(opt)), << "a convex problem was left at " << merit << " above its optimum " << opt);
  if (r.overall_iteration > 2)
    g.nontrivial();
}
