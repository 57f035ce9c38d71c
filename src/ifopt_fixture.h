// Random variable sets and constraint sets for the ifopt and sqp checks
#ifndef VERIF_IFOPT_FIXTURE_H
#define VERIF_IFOPT_FIXTURE_H
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>

#include <console_bridge/console.h>

#include <memory>

#include "pbt.h"
#include "smooth.h"

namespace fx
{
using namespace trajopt_ifopt;

struct Quiet
{
  Quiet() { console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE); }
};
static Quiet quiet;

inline Bounds genBounds(pbt::Gen& g, double mag = 5)
{
  switch (g.range(0, 5))
  {
    case 0:
      return NoBound;
    case 1:
    {
      const double v = g.num(mag);
      return Bounds(v, v);
    }
    case 2:
      return Bounds(g.num(mag), INFINITY);
    case 3:
      return Bounds(-INFINITY, g.num(mag));
    default:
    {
      double a = g.num(mag), b = g.num(mag);
      if (a > b)
        std::swap(a, b);
      if (b - a < 0.1)
        b = a + 0.1 + std::fabs(g.num(2));
      return Bounds(a, b);
    }
  }
}

struct Layout
{
  std::shared_ptr<NodesVariables> vars;
  std::vector<std::shared_ptr<const Var>> all;  // in the order of their first index
  std::vector<Bounds> bounds;
  std::vector<double> initial;  // before clamping
};
// nodes x (one or two variables of 1..3 entries); `plain` gives unbounded variables
inline Layout genVars(pbt::Gen& g, int max_nodes, bool plain)
{
  Layout l;
  std::vector<std::unique_ptr<Node>> nodes;
  const int n = g.range(1, max_nodes);
  for (int i = 0; i < n; ++i)
  {
    auto node = std::make_unique<Node>("node" + std::to_string(i));
    const int k = g.range(1, 2);
    for (int j = 0; j < k; ++j)
    {
      const std::string name = "v" + std::to_string(j);
      if (g.boolean())
      {
        const double v = g.num(6);
        const Bounds b = plain ? NoBound : genBounds(g);
        l.all.push_back(node->addVar(name, v, b));
        l.bounds.push_back(b);
        l.initial.push_back(v);
      }
      else
      {
        const int m = g.range(1, 3);
        std::vector<std::string> names;
        Eigen::VectorXd v(m);
        std::vector<Bounds> b;
        for (int e = 0; e < m; ++e)
        {
          names.push_back(name + "_" + std::to_string(e));
          v[e] = g.num(6);
          b.push_back(plain ? NoBound : genBounds(g));
          l.bounds.push_back(b.back());
          l.initial.push_back(v[e]);
        }
        l.all.push_back(node->addVar(name, names, v, b));
      }
    }
    nodes.push_back(std::move(node));
  }
  l.vars = std::make_shared<NodesVariables>("vars", std::move(nodes));
  return l;
}
// n_steps variables of n_dof entries, one per node
inline Layout trajectory(pbt::Gen& g, int n_steps, int n_dof, double mag = 3)
{
  Layout l;
  std::vector<std::unique_ptr<Node>> nodes;
  for (int i = 0; i < n_steps; ++i)
  {
    auto node = std::make_unique<Node>("step" + std::to_string(i));
    std::vector<std::string> names;
    Eigen::VectorXd v(n_dof);
    for (int e = 0; e < n_dof; ++e)
    {
      names.push_back("j" + std::to_string(e));
      v[e] = g.num(mag);
      l.initial.push_back(v[e]);
    }
    l.all.push_back(node->addVar("pos", names, v, std::vector<Bounds>(static_cast<std::size_t>(n_dof), NoBound)));
    nodes.push_back(std::move(node));
  }
  l.vars = std::make_shared<NodesVariables>("traj", std::move(nodes));
  return l;
}
inline Eigen::VectorXd genPoint(pbt::Gen& g, Eigen::Index n, double mag = 3)
{
  Eigen::VectorXd x(n);
  for (Eigen::Index i = 0; i < n; ++i)
    x[i] = g.num(mag);
  return x;
}

// bounds error of a value: signed distance to the interval
inline double boundsError(double v, const Bounds& b)
{
  if (v < b.getLower())
    return v - b.getLower();
  if (v > b.getUpper())
    return v - b.getUpper();
  return 0;
}

// A constraint set given by a random function of all variables; a dynamic one has as many rows as `rows_at` says for the
// values of the variables when it was last updated.
class FnSet : public ConstraintSet
{
public:
  SmoothVec f;
  std::vector<Bounds> bounds;
  Eigen::VectorXd coeffs;
  bool keep_zero_entries{ false };
  // values and derivatives are those of the variables update() saw last
  bool keeps{ false };
  Eigen::VectorXd seen;
  // the rows of a dynamic set stand for other things at other points: other bounds and coefficients in each place
  bool turns{ false };
  mutable int value_calls{ 0 };
  int updates{ 0 };

  FnSet(std::string name, SmoothVec fn, std::vector<Bounds> b, Eigen::VectorXd c, bool dynamic = false)
    : ConstraintSet(std::move(name), dynamic)
    , f(std::move(fn))
    , bounds(std::move(b))
    , coeffs(std::move(c))
  {
    rows_ = dynamic ? 0 : static_cast<int>(f.f.size());
    non_zeros_ = static_cast<Eigen::Index>(rows_) * 16;
  }
  int rowsAt(const Eigen::VectorXd& x) const
  {
    if (!dynamic_)
      return static_cast<int>(f.f.size());
    const double s = std::fabs(x.size() ? x[0] : 0.0);
    return static_cast<int>(std::floor(s * 1.5)) % (static_cast<int>(f.f.size()) + 1);
  }
  int turnAt(const Eigen::VectorXd& x) const
  {
    return turns && dynamic_ && x.size() ? static_cast<int>(std::floor(std::fabs(x[0]) * 4)) % static_cast<int>(f.f.size()) : 0;
  }
  std::vector<Bounds> boundsAt(const Eigen::VectorXd& x) const
  {
    std::vector<Bounds> b = bounds;
    std::rotate(b.begin(), b.begin() + turnAt(x), b.end());
    return b;
  }
  Eigen::VectorXd coeffsAt(const Eigen::VectorXd& x) const
  {
    Eigen::VectorXd c = coeffs;
    std::rotate(c.data(), c.data() + turnAt(x), c.data() + c.size());
    return c;
  }
  Eigen::VectorXd at() const { return keeps && seen.size() ? seen : variables_->getValues(); }
  int update() override
  {
    ++updates;
    seen = variables_->getValues();
    rows_ = rowsAt(variables_->getValues());
    non_zeros_ = static_cast<Eigen::Index>(rows_) * variables_->getRows();
    return rows_;
  }
  Eigen::VectorXd getValues() const override
  {
    ++value_calls;
    return f(at()).head(rows_);
  }
  std::vector<Bounds> getBounds() const override
  {
    std::vector<Bounds> b = boundsAt(at());
    b.resize(static_cast<std::size_t>(rows_));
    return b;
  }
  Eigen::VectorXd getCoefficients() const override { return coeffsAt(at()).head(rows_); }
  Jacobian getJacobian() const override
  {
    const Eigen::MatrixXd d = f.jac(at()).topRows(rows_);
    Jacobian j(d.rows(), d.cols());
    std::vector<Eigen::Triplet<double>> t;
    for (Eigen::Index r = 0; r < d.rows(); ++r)
      for (Eigen::Index c = 0; c < d.cols(); ++c)
        if (d(r, c) != 0 || keep_zero_entries)
          t.emplace_back(static_cast<int>(r), static_cast<int>(c), d(r, c));
    j.setFromTriplets(t.begin(), t.end());
    return j;
  }
};
inline Eigen::VectorXd genCoeffs(pbt::Gen& g, int m, bool ones = false)
{
  Eigen::VectorXd c = Eigen::VectorXd::Ones(m);
  if (!ones && g.boolean())
    for (int i = 0; i < m; ++i)
      c[i] = std::fabs(g.nonzero(4, 0.1));
  return c;
}
}  // namespace fx
#endif
