// C18: joint position, velocity, acceleration and jerk terms of the trajectory problem, and the helpers that go between
// trajectories, solution vectors and named joint values
#include <trajopt/trajectory_costs.hpp>
#include <trajopt/utils.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>

#include <algorithm>
#include <set>

#include "local_model.h"
#include "pbt.h"

PBT_PROPERTY("C18",
             "Cases: a trajectory of 1..6 steps and 1..3 joints laid out among other variables, one term of each order and kind over a "
             "part of it, all weights (also zero), targets and tolerances; value and local model are compared with the closed form at "
             "several trajectories. Non-trivial: the term skips a step at the start or the end, or is of order 2 or 3.");

using namespace trajopt;
using sco::DblVec;

namespace
{
struct Layout
{
  sco::OptProb prob;
  VarArray other, traj, last;
  int steps, dof;
  std::size_t size{ 0 };
  Layout(pbt::Gen& g, int s, int d) : prob(sco::ModelType::BPMPD), steps(s), dof(d)
  {
    const bool before = g.boolean(), after = g.boolean();
    if (before)
      AddVarArray(prob, g.range(1, 2), g.range(1, 3), "b", other);
    if (g.boolean())
      AddVarArray(prob, steps, dof, "j", traj);
    else  // two arrays, interleaved step by step
    {
      VarArray aux;
      AddVarArrays(prob, steps, { dof, 1 }, { "j", "aux" }, { &traj, &aux });
    }
    if (after)
      AddVarArray(prob, 1, 2, "a", last);
    size = static_cast<std::size_t>(prob.getNumVars());
  }
};
DblVec genPoint(pbt::Gen& g, std::size_t n)
{
  DblVec x(n);
  for (double& v : x)
    v = g.num(6);
  return x;
}
// the difference of order k that starts at step i
double difference(const DblVec& x, const VarArray& t, int i, int j, int k)
{
  static const double c[4][4] = { { 1, 0, 0, 0 }, { -1, 1, 0, 0 }, { 1, -2, 1, 0 }, { -1, 3, -3, 1 } };
  double d = 0;
  for (int a = 0; a <= k; ++a)
    d += c[k][a] * x[t(i + a, j).var_rep->index];
  return d;
}
void sameSorted(pbt::Gen& g, DblVec got, DblVec want, double scale, const char* what)
{
  CHECK(got.size() == want.size(), << got.size() << " " << what << " instead of " << want.size());
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (std::size_t i = 0; i < got.size(); ++i)
    CHECK_NEAR(got[i], want[i], 1e-9, 1e-9 * scale, << what);
}
template <class EC, class IC, class EK, class IK>
void one(pbt::Gen& g, int order, const char* name)
{
  const int steps = g.range(1, order == 3 ? 6 : 5), dof = g.range(1, 3);
  Layout l(g, steps, dof);
  const int first = g.chance(1, 2) ? 0 : g.range(0, steps - 1), last = g.chance(1, 2) ? steps - 1 : g.range(first, steps - 1);
  Eigen::VectorXd w(dof), t(dof), up(dof), lo(dof);
  for (int j = 0; j < dof; ++j)
  {
    w[j] = g.chance(1, 6) ? 0.0 : std::fabs(g.num(4));
    t[j] = g.boolean() ? 0.0 : g.num(4);
    lo[j] = g.chance(1, 4) ? 0.0 : g.num(4);
    up[j] = lo[j] + (g.chance(1, 4) ? 0.0 : std::fabs(g.num(4)));
  }
  const int kind = g.range(0, 3);
  g.log() << name << " kind " << kind << " steps " << steps << " dof " << dof << " from " << first << " to " << last << " weights "
          << pbt::mat(w.transpose()) << " targets " << pbt::mat(t.transpose()) << " tolerances " << pbt::mat(lo.transpose()) << " .. "
          << pbt::mat(up.transpose()) << "\n";
  sco::Cost::Ptr cost;
  sco::Constraint::Ptr cnt;
  auto make = [&] {
    switch (kind)
    {
      case 0:
        cost = std::make_shared<EC>(l.traj, w, t, first, last);
        break;
      case 1:
        cost = std::make_shared<IC>(l.traj, w, t, up, lo, first, last);
        break;
      case 2:
        cnt = std::make_shared<EK>(l.traj, w, t, first, last);
        break;
      default:
        cnt = std::make_shared<IK>(l.traj, w, t, up, lo, first, last);
    }
  };
  if (last - first < order)
  {
    CHECK_THROWS(make(), << "the trajectory is too short");
    g.label("too short");
    return;
  }
  make();
  // the variables it reports are those of the trajectory
  {
    std::set<std::size_t> want, got;
    for (int i = 0; i < steps; ++i)
      for (int j = 0; j < dof; ++j)
        want.insert(l.traj(i, j).var_rep->index);
    for (const sco::Var& v : cost ? cost->getVars() : cnt->getVars())
      got.insert(v.var_rep->index);
    CHECK(got == want, << "the variables are not those of the trajectory");
  }
  const DblVec about = genPoint(g, l.size);
  for (int p = 0; p < 2; ++p)
  {
    const DblVec x = p == 0 ? about : genPoint(g, l.size);
    double sum = 0, scale = 1;
    DblVec plain, squares, sides;
    for (int i = first; i + order <= last; ++i)
      for (int j = 0; j < dof; ++j)
      {
        const double d = difference(x, l.traj, i, j, order) - t[j];
        scale = std::max({ scale, std::fabs(d) * w[j], d * d * w[j] });
        plain.push_back(w[j] * d);
        squares.push_back(w[j] * d * d);
        sides.push_back(w[j] * (d - up[j]));
        sides.push_back(w[j] * (lo[j] - d));
        if (kind == 0)
          sum += w[j] * d * d;
        if (kind == 1)
          sum += w[j] * (std::max(0.0, d - up[j]) + std::max(0.0, lo[j] - d));
      }
    if (cost)
    {
      CHECK_NEAR(cost->value(x), sum, 1e-9, 1e-9 * scale, << "value");
      CHECK_NEAR(modelAt(g, *cost, about, x), sum, 1e-6, 1e-6 * scale, << "the local model at " << (p ? "another" : "its") << " point");
      continue;
    }
    MockModel m;
    for (std::size_t i = 0; i < x.size(); ++i)
      m.addVar("x" + std::to_string(i));
    sco::ConvexConstraints::Ptr k = cnt->convex(about, &m);
    DblVec eq, ineq;
    for (const auto& e : k->eqs_)
      eq.push_back(e.value(x));
    for (const auto& e : k->ineqs_)
      ineq.push_back(e.value(x));
    if (kind == 2)
    {
      CHECK(cnt->type() == sco::EQ && ineq.empty());
      sameSorted(g, eq, plain, scale, "model rows");
      DblVec got = cnt->value(x), a = got, b = plain;
      CHECK(got.size() == plain.size());
      bool linear = true;
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      for (std::size_t i = 0; i < a.size(); ++i)
        linear = linear && pbt::near(a[i], b[i], 1e-9, 1e-9 * scale);
      if (!linear)
      {
        sameSorted(g, got, squares, scale, "values");
        g.failUnlessKnown("equality-value-squared", "the value of an equality constraint is not what its model says at that point");
      }
      double violation = 0;
      for (double v : got)
        violation += std::fabs(v);
      CHECK_NEAR(cnt->violation(x), violation, 1e-9, 1e-9 * scale);
    }
    else
    {
      CHECK(cnt->type() == sco::INEQ && eq.empty());
      sameSorted(g, ineq, sides, scale, "model rows");
      // a constraint may report how far it is from being violated, or zero
      DblVec got = cnt->value(x), want = sides;
      for (double& v : got)
        v = std::max(v, 0.0);
      for (double& v : want)
        v = std::max(v, 0.0);
      sameSorted(g, got, want, scale, "values");
      double violation = 0;
      for (double v : want)
        violation += v;
      CHECK_NEAR(cnt->violation(x), violation, 1e-9, 1e-9 * scale);
      CHECK_NEAR(k->violation(x), violation, 1e-9, 1e-9 * scale);
    }
  }
  g.label(std::string(name) + (kind == 0 ? " squared" : kind == 1 ? " hinge" : kind == 2 ? " equality" : " inequality"));
  if (first > 0 || last < steps - 1 || order > 1)
    g.nontrivial();
}
}  // namespace

PBT_CASES(terms, 40000, 800000)
{
  switch (g.range(0, 3))
  {
    case 0:
      one<JointPosEqCost, JointPosIneqCost, JointPosEqConstraint, JointPosIneqConstraint>(g, 0, "position");
      break;
    case 1:
      one<JointVelEqCost, JointVelIneqCost, JointVelEqConstraint, JointVelIneqConstraint>(g, 1, "velocity");
      break;
    case 2:
      one<JointAccEqCost, JointAccIneqCost, JointAccEqConstraint, JointAccIneqConstraint>(g, 2, "acceleration");
      break;
    default:
      one<JointJerkEqCost, JointJerkIneqCost, JointJerkEqConstraint, JointJerkIneqConstraint>(g, 3, "jerk");
  }
}

PBT_CASES(arrays, 40000, 400000)
{
  sco::OptProb prob(sco::ModelType::BPMPD);
  if (g.boolean())
    prob.createVariables({ "first" });
  const int before = prob.getNumVars();
  const int rows = g.range(0, 4), n = g.range(1, 3);
  std::vector<int> cols;
  std::vector<std::string> prefix;
  std::vector<VarArray> arrays(static_cast<std::size_t>(n));
  std::vector<VarArray*> out;
  int total = 0;
  for (int k = 0; k < n; ++k)
  {
    cols.push_back(g.range(0, 3));
    total += cols.back();
    prefix.push_back(std::string(1, static_cast<char>('a' + k)));
    out.push_back(&arrays[static_cast<std::size_t>(k)]);
  }
  AddVarArrays(prob, rows, cols, prefix, out);
  CHECK(prob.getNumVars() == before + rows * total);
  const DblVec x = genPoint(g, static_cast<std::size_t>(prob.getNumVars()));
  int index = before;
  for (int i = 0; i < rows; ++i)
    for (int k = 0; k < n; ++k)
      for (int j = 0; j < cols[static_cast<std::size_t>(k)]; ++j)
      {
        const sco::Var& v = arrays[static_cast<std::size_t>(k)](i, j);
        CHECK(v.var_rep == prob.getVars()[static_cast<std::size_t>(index)].var_rep, << "variable " << k << "(" << i << "," << j << ")");
        CHECK(v.var_rep->name == prefix[static_cast<std::size_t>(k)] + "_" + std::to_string(i) + "_" + std::to_string(j));
        ++index;
      }
  for (int k = 0; k < n; ++k)
  {
    const VarArray& a = arrays[static_cast<std::size_t>(k)];
    CHECK(a.rows() == rows && a.cols() == cols[static_cast<std::size_t>(k)]);
    const TrajArray t = getTraj(x, a);
    CHECK(t.rows() == rows && t.cols() == a.cols());
    AffArray e(rows, a.cols());
    TrajArray want(rows, a.cols());
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < a.cols(); ++j)
      {
        CHECK(t(i, j) == x[a(i, j).var_rep->index]);
        const double c = g.num(3), b = g.num(3);
        e(i, j) = sco::exprAdd(sco::exprMult(a(i, j), c), b);
        want(i, j) = c * t(i, j) + b;
      }
    const TrajArray v = getTraj(x, e);
    CHECK(v.rows() == rows && v.cols() == a.cols());
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < a.cols(); ++j)
        CHECK_NEAR(v(i, j), want(i, j), 1e-12, 1e-12);
    const DblVec flat = trajToDblVec(t);
    CHECK(flat.size() == static_cast<std::size_t>(t.size()));
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < a.cols(); ++j)
        CHECK(flat[static_cast<std::size_t>(i * a.cols() + j)] == t(i, j));
  }
  if (rows > 1 && n > 1)
    g.nontrivial();
}

// Values of named joints picked from, and put into, those of a larger set, in any order
PBT_CASES(subsets, 60000, 600000)
{
  std::vector<std::string> all;
  const int n = g.range(0, 5);
  for (int i = 0; i < n; ++i)
    all.push_back("j" + std::to_string(i));
  for (std::size_t i = all.size(); i > 1; --i)
    std::swap(all[i - 1], all[g.index(i)]);
  std::vector<std::string> sub = all;
  for (std::size_t i = sub.size(); i > 1; --i)
    std::swap(sub[i - 1], sub[g.index(i)]);
  sub.resize(static_cast<std::size_t>(g.range(0, n)));
  bool stranger = false;
  if (g.chance(1, 4))
  {
    stranger = true;
    sub.insert(sub.begin() + static_cast<long>(g.index(sub.size() + 1)), "stranger");
  }
  Eigen::VectorXd all_v(n), sub_v(static_cast<Eigen::Index>(sub.size()));
  std::map<std::string, double> value, change;
  for (int i = 0; i < n; ++i)
    value[all[static_cast<std::size_t>(i)]] = all_v[i] = g.num(6);
  for (std::size_t i = 0; i < sub.size(); ++i)
    change[sub[i]] = sub_v[static_cast<Eigen::Index>(i)] = g.num(6);
  CHECK(isSuperset(sub, all) == (!stranger && sub.size() < all.size()), << "isSuperset");
  Eigen::VectorXd got = Eigen::VectorXd::Constant(sub_v.size(), 99);
  CHECK(getSubset(all, all_v, sub, got) == !stranger, << "getSubset");
  for (std::size_t i = 0; i < sub.size(); ++i)
    CHECK(got[static_cast<Eigen::Index>(i)] == (stranger ? 99 : value[sub[i]]), << "joint " << sub[i] << " picked");
  Eigen::VectorXd put = Eigen::VectorXd::Constant(n, 99);
  CHECK(updateFromSubset(all, all_v, sub, sub_v, put) == !stranger, << "updateFromSubset");
  if (!stranger)
    for (int i = 0; i < n; ++i)
    {
      const std::string& j = all[static_cast<std::size_t>(i)];
      CHECK(put[i] == (change.count(j) ? change[j] : value[j]), << "joint " << j << " put");
    }
  if (sub.size() > 1)
    g.nontrivial();
}
