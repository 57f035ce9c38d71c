// C27: the collision constraints: rows, values, derivatives and coefficients
#include <trajopt_ifopt/constraints/collision/continuous_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_numerical_constraint.h>

#include <optional>

#include "evaluators.h"
#include "ifopt_fixture.h"

PBT_PROPERTY("C27",
             "Cases: each collision constraint on one state or on two states of a trajectory in a generated world, with one to four rows, "
             "either end fixed, over a history of changes of the variables; its values, derivative, coefficients and bounds are compared "
             "with those of the contacts worked out from the geometry. Non-trivial: there is a contact, and the values were set before.");

using namespace world;
using namespace trajopt_ifopt;

namespace
{
struct Row
{
  double value, coeff;
  Eigen::VectorXd d0, d1;
};
// one row per set of contacts, worst first
std::vector<Row> averaged(const Case& c, const std::vector<Contact>& all, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1)
{
  std::vector<Row> rows;
  for (const Set& s : sets(*c.env, c.s, all))
  {
    Row r;
    r.value = s.error();
    r.coeff = s.coeff;
    r.d0 = r.d1 = Eigen::VectorXd::Zero(q0.size());
    double w0 = 0, w1 = 0;
    for (const Contact& k : s.contacts)
    {
      const Eigen::VectorXd d = slope(*c.env, c.s, k, q0, q1);
      const double w = std::max(0.0, k.margin + c.s.buffer - k.distance);
      const double t = c.s.kind == Kind::single ? 0 : k.time;
      if (k.end != CC::CCType_Time1 && !c.s.fixed0)
      {
        r.d0 += w * (1 - t) * d;
        w0 += w;
      }
      if (k.end != CC::CCType_Time0 && c.s.kind != Kind::single && !c.s.fixed1)
      {
        r.d1 += w * t * d;
        w1 += w;
      }
    }
    if (w0 > 0)
      r.d0 /= w0;
    if (w1 > 0)
      r.d1 /= w1;
    rows.push_back(r);
  }
  return rows;
}
// the derivative of the largest error of each set, where there is one
std::optional<std::vector<Row>> worst(const Case& c, const std::vector<Contact>& all, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1)
{
  std::vector<Row> rows;
  for (const Set& s : sets(*c.env, c.s, all))
  {
    const Contact* k = nullptr;
    double second = -1e300;
    for (const Contact& x : s.contacts)
      if (!k || x.margin - x.distance > k->margin - k->distance)
      {
        if (k)
          second = k->margin - k->distance;
        k = &x;
      }
      else
        second = std::max(second, x.margin - x.distance);
    if (k->margin - k->distance - second < 1e-5)
      return std::nullopt;
    for (const Contact& x : s.contacts)
      if (x.still)
        return std::nullopt;
    const Eigen::VectorXd d = slope(*c.env, c.s, *k, q0, q1);
    const double t = c.s.kind == Kind::single ? 0 : k->time;
    rows.push_back({ k->margin - k->distance, s.coeff, (1 - t) * d, t * d });
  }
  return rows;
}
// every contact is a row
std::vector<Row> each(const Case& c, const std::vector<Contact>& all, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1)
{
  std::vector<Row> rows;
  for (const Contact& k : all)
  {
    if (!k.kept)
      continue;
    const Eigen::VectorXd d = slope(*c.env, c.s, k, q0, q1);
    const double t = c.s.kind == Kind::single ? 0 : k.time;
    rows.push_back({ k.margin - k.distance, c.s.coeffOf(k.links.first, k.links.second), (1 - t) * d, t * d });
    if (c.s.fixed0)
      rows.back().d0.setZero();
    if (c.s.fixed1)
      rows.back().d1.setZero();
  }
  return rows;
}
struct Place
{
  const Var *v0, *v1;
  bool skip0{ false }, skip1{ false };  // columns not judged
};
void compare(pbt::Gen& g, const Case& c, const ConstraintSet& k, std::vector<Row> want, std::size_t max_rows, const Place& at,
             Eigen::Index columns, double tol)
{
  const Eigen::VectorXd values = k.getValues(), coeffs = k.getCoefficients();
  const Eigen::MatrixXd jac = k.getJacobian();
  const auto bounds = k.getBounds();
  const Eigen::Index rows = k.getRows();
  std::sort(want.begin(), want.end(), [](const Row& a, const Row& b) { return a.value > b.value; });
  const bool fixed_size = max_rows > 0;
  const std::size_t cnt = fixed_size ? std::min(max_rows, want.size()) : want.size();
  if (want.size() > cnt)
  {
    if (want[cnt - 1].value - want[cnt].value < 1e-7)
      throw pbt::Discard();
    g.label("more contacts than rows");
  }
  CHECK(rows == static_cast<Eigen::Index>(fixed_size ? max_rows : want.size()), << rows << " rows");
  CHECK(values.size() == rows && coeffs.size() == rows && jac.rows() == rows && jac.cols() == columns &&
        bounds.size() == static_cast<std::size_t>(rows));
  for (const auto& b : bounds)
    CHECK(b.getUpper() == 0 && b.getLower() == -INFINITY, << "bounds " << b.getLower() << " " << b.getUpper());
  const Eigen::Index n = at.v0->size();
  auto block = [&](Eigen::Index row, const Var* v) { return jac.row(row).segment(v->getIndex(), n).transpose().eval(); };
  auto others = [&](Eigen::Index row) {
    Eigen::VectorXd r = jac.row(row).transpose();
    r.segment(at.v0->getIndex(), n).setZero();
    if (at.v1)
      r.segment(at.v1->getIndex(), n).setZero();
    return r;
  };
  std::vector<bool> used(cnt, false);
  for (Eigen::Index i = 0; i < rows; ++i)
  {
    CHECK(others(i).isZero(), << "row " << i << " depends on other variables");
    if (i >= static_cast<Eigen::Index>(cnt))
    {
      CHECK_NEAR(values[i], -c.s.buffer, 1e-12, 0, << "a row without contacts");
      CHECK(jac.row(i).isZero(), << "the derivative of a row without contacts");
      continue;
    }
    std::string why;
    double best = 1;
    std::size_t which = 0;
    for (std::size_t w = 0; w < cnt; ++w)
    {
      const Row& r = want[w];
      if (used[w] || std::fabs(r.value - values[i]) > 1e-8 || coeffs[i] != r.coeff)
        continue;
      const double scale = tol * (1 + r.d0.norm() + r.d1.norm());
      const double e0 = at.skip0 ? 0 : (block(i, at.v0) - r.d0).norm() / scale;
      const double e1 = !at.v1 || at.skip1 ? 0 : (block(i, at.v1) - r.d1).norm() / scale;
      if (e0 > 1)
        why = " derivative " + pbt::mat(block(i, at.v0).transpose()) + " instead of " + pbt::mat(r.d0.transpose());
      if (e1 > 1)
        why = " derivative by the second state " + pbt::mat(block(i, at.v1).transpose()) + " instead of " + pbt::mat(r.d1.transpose());
      if (std::max(e0, e1) < best)
      {
        best = std::max(e0, e1);
        which = w;
      }
    }
    const bool found = best < 1;
    if (found)
      used[which] = true;
    std::string list;
    for (std::size_t w = 0; w < cnt; ++w)
      list += " " + std::to_string(want[w].value) + "*" + std::to_string(want[w].coeff);
    CHECK(found, << "row " << i << " with value " << values[i] << " coefficient " << coeffs[i] << " is none of" << list << why);
  }
}
// Joint values of the states: with few different values, so that some return
struct History
{
  fx::Layout l;
  std::vector<Eigen::VectorXd> pool;
  History(pbt::Gen& g, int steps, int dof) : l(fx::trajectory(g, steps, dof, 2)) {}
  void move(pbt::Gen& g)
  {
    const Eigen::Index n = l.vars->getRows();
    Eigen::VectorXd x;
    if (!pool.empty() && g.chance(1, 3))
      x = pool[g.index(pool.size())];
    else
    {
      x = fx::genPoint(g, n, 2);
      if (!pool.empty() && g.chance(1, 3))
        x.tail(n / 2) = pool.back().tail(n / 2);
      pool.push_back(x);
    }
    l.vars->setVariables(x);
    g.log() << "x " << x.transpose() << "\n";
  }
};
template <class C>
void addSetBounds(pbt::Gen& g, C& k, int rows)
{
  std::vector<Bounds> b;
  for (int i = 0; i < rows; ++i)
    b.push_back(fx::genBounds(g));
  k.setBounds(b);
  const auto got = k.getBounds();
  CHECK(got.size() == b.size());
  for (std::size_t i = 0; i < b.size(); ++i)
    CHECK(got[i].getLower() == b[i].getLower() && got[i].getUpper() == b[i].getUpper());
}
}  // namespace

PBT_CASES(one_state, 8000, 200000)
{
  Case c = genCase(g, Kind::single, 3, false);
  const auto e = discrete(c);
  const int steps = g.range(1, 3), rows = g.range(1, 4);
  History h(g, steps, static_cast<int>(c.env->robot->numJoints()));
  const std::size_t at = g.index(static_cast<std::size_t>(steps));
  const auto v = h.l.all[at];
  const bool sparsity = g.boolean();
  auto k = std::make_shared<DiscreteCollisionConstraint>(e, v, rows, sparsity, "c");
  auto d = std::make_shared<DiscreteCollisionConstraintD>(discrete(c), v, "d");
  auto n = std::make_shared<DiscreteCollisionNumericalConstraint>(discrete(c), v, rows, sparsity, "n");
  CHECK(k->getName() == "c" && d->getName() == "d" && n->getName() == "n");
  CHECK(!k->isDynamic() && d->isDynamic() && !n->isDynamic());
  CHECK(k->getCollisionEvaluator() == e);
  for (ConstraintSet* s : { static_cast<ConstraintSet*>(k.get()), static_cast<ConstraintSet*>(d.get()), static_cast<ConstraintSet*>(n.get()) })
    s->linkWithVariables(h.l.vars);
  for (int i = g.range(1, 4), first = 1; i > 0; --i, first = 0)
  {
    if (!first)
      h.move(g);
    const Eigen::VectorXd q = v->value();
    k->update();
    d->update();
    n->update();
    const auto all = expected(*c.env, c.s, q, q);
    const Place p{ v.get(), nullptr };
    const auto av = averaged(c, all, q, q);
    compare(g, c, *k, av, static_cast<std::size_t>(rows), p, h.l.vars->getRows(), 1e-5);
    compare(g, c, *d, each(c, all, q, q), 0, p, h.l.vars->getRows(), 1e-5);
    if (const auto w = worst(c, all, q, q))
      compare(g, c, *n, *w, static_cast<std::size_t>(rows), p, h.l.vars->getRows(), 1e-4);
    if (!av.empty() && !first)
      g.nontrivial();
  }
  if (g.boolean())
  {
    addSetBounds(g, *k, rows);
    addSetBounds(g, *n, rows);
    addSetBounds(g, *d, d->getRows());
  }
  CHECK_THROWS(DiscreteCollisionConstraint(e, v, g.range(-1, 0)), << "no rows");
  CHECK_THROWS(DiscreteCollisionNumericalConstraint(e, v, g.range(-1, 0)), << "no rows");
}

PBT_CASES(two_states, 8000, 200000)
{
  const Kind kind = g.pick(std::vector<Kind>{ Kind::lvs_discrete, Kind::continuous, Kind::lvs_continuous });
  Case c = genCase(g, kind, 3, kind != Kind::lvs_discrete);
  const int steps = g.range(2, 4), rows = g.range(1, 4);
  History h(g, steps, static_cast<int>(c.env->robot->numJoints()));
  const std::size_t at = g.index(static_cast<std::size_t>(steps - 1));
  const std::size_t to = g.chance(1, 4) ? static_cast<std::size_t>(steps - 1) : at + 1;
  const std::array<std::shared_ptr<const Var>, 2> v{ h.l.all[at], h.l.all[to] };
  const bool sparsity = g.boolean(), f0 = c.s.fixed0, f1 = c.s.fixed1;
  const auto e = continuous(c);
  auto k = std::make_shared<ContinuousCollisionConstraint>(e, v, f0, f1, rows, sparsity, "c");
  auto d = std::make_shared<ContinuousCollisionConstraintD>(continuous(c), v, f0, f1, "d");
  auto n = std::make_shared<ContinuousCollisionNumericalConstraint>(continuous(c), v, f0, f1, rows, sparsity, "n");
  CHECK(k->getName() == "c" && d->getName() == "d" && n->getName() == "n");
  CHECK(!k->isDynamic() && d->isDynamic() && !n->isDynamic());
  CHECK(k->getCollisionEvaluator() == e);
  for (ConstraintSet* s : { static_cast<ConstraintSet*>(k.get()), static_cast<ConstraintSet*>(d.get()), static_cast<ConstraintSet*>(n.get()) })
    s->linkWithVariables(h.l.vars);
  for (int i = g.range(1, 4), first = 1; i > 0; --i, first = 0)
  {
    if (!first)
      h.move(g);
    const Eigen::VectorXd q0 = v[0]->value(), q1 = v[1]->value();
    k->update();
    d->update();
    n->update();
    const auto all = expected(*c.env, c.s, q0, q1);
    Place p{ v[0].get(), v[1].get() };
    const auto av = averaged(c, all, q0, q1);
    compare(g, c, *k, av, static_cast<std::size_t>(rows), p, h.l.vars->getRows(), 1e-5);
    compare(g, c, *d, each(c, all, q0, q1), 0, p, h.l.vars->getRows(), 1e-5);
    // the columns of a fixed state are not asked for
    p.skip0 = f0;
    p.skip1 = f1;
    if (const auto w = worst(c, all, q0, q1))
      compare(g, c, *n, *w, static_cast<std::size_t>(rows), p, h.l.vars->getRows(), 1e-4);
    if (!av.empty() && !first)
      g.nontrivial();
  }
  if (g.boolean())
  {
    addSetBounds(g, *k, rows);
    addSetBounds(g, *n, rows);
    addSetBounds(g, *d, d->getRows());
  }
}

PBT_CASES(refused, 2000, 20000)
{
  Case c = genCase(g, g.pick(std::vector<Kind>{ Kind::lvs_discrete, Kind::continuous, Kind::lvs_continuous }), 2, true);
  History h(g, 3, static_cast<int>(c.env->robot->numJoints()));
  History other(g, 2, static_cast<int>(c.env->robot->numJoints()) + 1);
  const auto e = continuous(c);
  using Vars = std::array<std::shared_ptr<const Var>, 2>;
  const auto a = h.l.all[0], b = h.l.all[1];
  auto refuse = [&](const Vars& v, bool f0, bool f1, int rows, const char* what) {
    CHECK_THROWS(ContinuousCollisionConstraint(e, v, f0, f1, rows), << what);
    CHECK_THROWS(ContinuousCollisionNumericalConstraint(e, v, f0, f1, rows), << what);
    if (rows > 0)
      CHECK_THROWS(ContinuousCollisionConstraintD(e, v, f0, f1), << what);
  };
  switch (g.range(0, 5))
  {
    case 0:
      refuse({ a, b }, true, true, 1, "both ends fixed");
      break;
    case 1:
      refuse({ a, b }, false, false, g.range(-1, 0), "no rows");
      break;
    case 2:
      refuse({ a, nullptr }, false, false, 1, "no second state");
      break;
    case 3:
      refuse({ nullptr, b }, false, false, 1, "no first state");
      break;
    case 4:
      refuse({ nullptr, nullptr }, false, false, 1, "no states");
      break;
    default:
      refuse({ a, other.l.all[0] }, false, false, 1, "states of different size");
  }
  g.nontrivial();
}
