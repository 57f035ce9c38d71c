// C29: the collision costs and constraints of the trajectory problem: values and local models against the geometry
#include <tesseract/visualization/visualization.h>
#include <trajopt/collision_terms.hpp>
#include <trajopt_sco/expr_ops.hpp>

#include <algorithm>
#include <numeric>

#include "collision_case.h"
#include "local_model.h"

PBT_PROPERTY("C29",
             "Cases: a world of spheres on the links of a generated robot, a wall, a floor and a door, with generated margins, "
             "coefficients, buffer and segment length; a cost and a constraint of each kind over variables laid out among others, with "
             "either end fixed; histories of two to four points, some visited again, at which values, expressions and local models are "
             "compared with those worked out from the geometry. Non-trivial: a contact is kept and one is dropped, or the motion is "
             "split.");

using namespace world;
using sco::DblVec;
using Type = trajopt::CollisionExpressionEvaluatorType;

namespace
{
struct Setup
{
  Case c;
  std::shared_ptr<sco::OptProb> prob = std::make_shared<sco::OptProb>(sco::ModelType::BPMPD);
  sco::VarVector v0, v1;
  std::size_t size{ 0 };
  Type type{ Type::SINGLE_TIME_STEP };
};
std::shared_ptr<Setup> genSetup(pbt::Gen& g, Kind kind, bool straight)
{
  auto s = std::make_shared<Setup>();
  s->c = genCase(g, kind, 3, straight);
  if (kind != Kind::single)
    s->c.s.dynamic = false;
  const long n = s->c.env->robot->numJoints();
  const bool two = kind != Kind::single;
  std::vector<std::string> names;
  const long total = (two ? 2 : 1) * n + g.range(0, 3);
  for (long i = 0; i < total; ++i)
    names.push_back("x" + std::to_string(i));
  const sco::VarVector all = s->prob->createVariables(names);
  s->size = all.size();
  std::vector<std::size_t> at(all.size());
  std::iota(at.begin(), at.end(), 0);
  if (g.boolean())
    for (std::size_t i = at.size() - 1; i > 0; --i)
      std::swap(at[i], at[g.index(i + 1)]);
  for (long i = 0; i < n; ++i)
  {
    s->v0.push_back(all[at[static_cast<std::size_t>(i)]]);
    if (two)
      s->v1.push_back(all[at[static_cast<std::size_t>(n + i)]]);
  }
  if (two)
    s->type = s->c.s.fixed0 ? Type::START_FIXED_END_FREE : s->c.s.fixed1 ? Type::START_FREE_END_FIXED : Type::START_FREE_END_FREE;
  return s;
}
Eigen::VectorXd of(const DblVec& x, const sco::VarVector& v)
{
  Eigen::VectorXd q(static_cast<long>(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i)
    q[static_cast<long>(i)] = x[v[i].var_rep->index];
  return q;
}
// a kept contact and how its violation changes with the variables, where that is known
struct Row
{
  Contact c;
  double coeff;
  bool exact;
  Eigen::VectorXd d0, d1;
  double violation() const { return c.margin - c.distance; }
  double at(const Eigen::VectorXd& m0, const Eigen::VectorXd& m1) const { return violation() + d0.dot(m0) + (d1.size() ? d1.dot(m1) : 0); }
};
std::vector<Row> rows(pbt::Gen& g, const Setup& s, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1, bool straight)
{
  const auto all = expected(*s.c.env, s.c.s, q0, q1);
  std::vector<Row> out;
  for (const Contact& k : all)
  {
    if (!k.kept)
      continue;
    Row r;
    r.c = k;
    const auto& b = s.c.env->shapes->balls;
    r.coeff = s.c.s.coeffOf(b[k.a].link, b[k.b].link);
    r.exact = straight || s.c.s.kind == Kind::single || k.end != CC::CCType_Between;
    const Eigen::VectorXd d = slope(*s.c.env, s.c.s, k, q0, q1);
    const double t = s.c.s.kind == Kind::single ? 0 : k.time;
    r.d0 = s.c.s.fixed0 ? Eigen::VectorXd::Zero(d.size()).eval() : ((1 - t) * d).eval();
    if (s.c.s.kind != Kind::single)
      r.d1 = s.c.s.fixed1 ? Eigen::VectorXd::Zero(d.size()).eval() : (t * d).eval();
    out.push_back(r);
  }
  if (!out.empty() && out.size() < all.size())
    g.nontrivial();
  return out;
}
// the row that has this violation; discards when several have
const Row& find(pbt::Gen& g, const std::vector<Row>& rs, double violation, const char* what)
{
  auto is = [&](const Row& r) { return std::fabs(r.violation() - violation) < 1e-8; };
  if (std::count_if(rs.begin(), rs.end(), is) > 1)
    throw pbt::Discard();
  auto it = std::find_if(rs.begin(), rs.end(), is);
  CHECK(it != rs.end(), << what << " of violation " << violation << " belongs to no contact");
  return *it;
}
double pos(double v) { return std::max(v, 0.0); }
struct Drawn : tesseract::visualization::Visualization
{
  std::vector<tesseract::visualization::ContactResultsMarker> results;
  void plotMarker(const tesseract::visualization::Marker& m, const std::string&) override
  {
    if (auto* a = dynamic_cast<const tesseract::visualization::ContactResultsMarker*>(&m))
      results.push_back(*a);
  }
};
struct Terms
{
  std::shared_ptr<trajopt::CollisionEvaluator> evaluator;
  std::shared_ptr<trajopt::CollisionCost> cost;
  std::shared_ptr<trajopt::CollisionConstraint> constraint;
};
Terms make(const Setup& s, Type type)
{
  using namespace trajopt;
  const auto& c = s.c;
  Terms t;
  switch (c.s.kind)
  {
    case Kind::single:
      t.evaluator = std::make_shared<SingleTimestepCollisionEvaluator>(c.env->robot, c.env, c.config, s.v0, type, c.s.dynamic);
      t.cost = std::make_shared<CollisionCost>(c.env->robot, c.env, c.config, s.v0, type);
      t.constraint = std::make_shared<CollisionConstraint>(c.env->robot, c.env, c.config, s.v0, type);
      break;
    case Kind::lvs_discrete:
      t.evaluator = std::make_shared<DiscreteCollisionEvaluator>(c.env->robot, c.env, c.config, s.v0, s.v1, type);
      t.cost = std::make_shared<CollisionCost>(c.env->robot, c.env, c.config, s.v0, s.v1, type, true);
      t.constraint = std::make_shared<CollisionConstraint>(c.env->robot, c.env, c.config, s.v0, s.v1, type, true);
      break;
    default:
      t.evaluator = std::make_shared<CastCollisionEvaluator>(c.env->robot, c.env, c.config, s.v0, s.v1, type);
      t.cost = std::make_shared<CollisionCost>(c.env->robot, c.env, c.config, s.v0, s.v1, type, false);
      t.constraint = std::make_shared<CollisionConstraint>(c.env->robot, c.env, c.config, s.v0, s.v1, type, false);
  }
  return t;
}
void refusals(pbt::Gen& g, const Setup& s)
{
  auto refused = [](auto&& f) {
    try
    {
      f();
    }
    catch (const std::exception&)
    {
      return true;
    }
    return false;
  };
  const Type type = g.pick(std::vector<Type>{ Type::SINGLE_TIME_STEP, Type::START_FIXED_END_FREE, Type::START_FREE_END_FIXED,
                                              Type::START_FREE_END_FREE });
  CHECK(refused([&] { make(s, type); }) == ((type == Type::SINGLE_TIME_STEP) != (s.c.s.kind == Kind::single)),
        << "a term over " << (s.c.s.kind == Kind::single ? "one state" : "two states") << " with the type " << int(type));
  const Kind k = g.pick(std::vector<Kind>{ Kind::single, Kind::lvs_discrete, Kind::continuous, Kind::lvs_continuous });
  auto config = s.c.config;
  config.collision_check_config.type = typeOf(k);
  const auto group = [](Kind a) { return a == Kind::continuous ? Kind::lvs_continuous : a; };
  Setup other;
  other.c = s.c;
  other.c.config = config;
  other.v0 = s.v0;
  other.v1 = s.v1;
  CHECK(refused([&] { make(other, s.type); }) == (group(k) != group(s.c.s.kind)), << "kind " << int(s.c.s.kind) << " configured as " << int(k));
}
void sameVars(pbt::Gen& g, const sco::VarVector& got, const Setup& s, const char* what)
{
  sco::VarVector want = s.v0;
  want.insert(want.end(), s.v1.begin(), s.v1.end());
  CHECK(got.size() == want.size(), << what);
  for (std::size_t i = 0; i < got.size(); ++i)
    CHECK(got[i].var_rep == want[i].var_rep, << what << ": variable " << i);
}
void one(pbt::Gen& g, Kind kind, bool straight)
{
  const auto s = genSetup(g, kind, straight);
  refusals(g, *s);
  Terms t = make(*s, s->type);
  const bool two = kind != Kind::single;
  sameVars(g, t.cost->getVars(), *s, "the cost's variables");
  sameVars(g, t.constraint->getVars(), *s, "the constraint's variables");
  CHECK(t.constraint->type() == sco::INEQ);
  std::vector<DblVec> pool;
  for (int n = g.range(2, 4); n > 0; --n)
  {
    DblVec x(s->size);
    const bool again = !pool.empty() && g.chance(1, 3);
    if (again)
      x = pool[g.index(pool.size())];
    else
      for (double& v : x)
        v = g.num(2);
    if (again && g.boolean())  // the same motion with other values elsewhere, or one joint elsewhere
      x[g.index(x.size())] = g.num(2);
    if (two && g.chance(1, 8))  // no motion at all
      for (std::size_t i = 0; i < s->v0.size(); ++i)
        x[s->v1[i].var_rep->index] = x[s->v0[i].var_rep->index];
    if (s->c.s.dynamic && std::find(pool.begin(), pool.end(), x) == pool.end() && g.chance(1, 3))
    {
      // the door moves; the evaluator starts anew, as results are kept by joint values
      s->c.env->door = robot::genPose(g, 2);
      t.evaluator = make(*s, s->type).evaluator;
    }
    pool.push_back(x);
    const Eigen::VectorXd q0 = of(x, s->v0), q1 = two ? of(x, s->v1) : q0;
    g.log() << "from " << q0.transpose() << " to " << q1.transpose() << "\n";
    Setup plain = *s;  // terms take the door as it was
    plain.c.s.dynamic = false;
    const std::vector<Row> rs = rows(g, *s, q0, q1, straight), ts = s->c.s.dynamic ? rows(g, plain, q0, q1, straight) : rs;
    if (two && kind != Kind::continuous && (q1 - q0).norm() > s->c.s.lvs)
      g.nontrivial();
    // ---- the evaluator
    DblVec dists;
    t.evaluator->CalcDists(x, dists);
    const auto list = t.evaluator->GetContactResultVectorCached(x);
    const auto map = t.evaluator->GetContactResultMapCached(x);
    CHECK(dists.size() == rs.size() && list->size() == rs.size() && map->count() == static_cast<long>(rs.size()),
          << dists.size() << " distances, " << list->size() << " and " << map->count() << " contacts instead of " << rs.size());
    sco::AffExprVector exprs;
    DblVec margins, coeffs;
    t.evaluator->CalcDistExpressions(x, exprs, margins, coeffs);
    CHECK(exprs.size() == rs.size() && margins.size() == rs.size() && coeffs.size() == rs.size());
    const auto& balls = s->c.env->shapes->balls;
    std::vector<const Row*> used;
    DblVec y = x;
    for (double& v : y)
      v += g.num(0.5);
    const Eigen::VectorXd m0 = of(y, s->v0) - q0, m1 = two ? (of(y, s->v1) - q1).eval() : m0;
    for (std::size_t i = 0; i < rs.size(); ++i)
    {
      const auto& r = (*list)[i].get();
      CHECK(dists[i] == r.distance, << "distance " << i << " is not that of contact " << i);
      const Row& row = find(g, rs, margins[i] - dists[i], "a distance");
      CHECK(std::find(used.begin(), used.end(), &row) == used.end(), << "a contact twice");
      used.push_back(&row);
      CHECK(r.link_names[0] == balls[row.c.a].link && r.link_names[1] == balls[row.c.b].link);
      CHECK(r.shape_id[0] == balls[row.c.a].shape && r.shape_id[1] == balls[row.c.b].shape);
      CHECK_NEAR(dists[i], row.c.distance, 1e-8, 1e-8);
      CHECK_NEAR(margins[i], row.c.margin, 1e-12, 1e-12, << "margin");
      CHECK(coeffs[i] == row.coeff, << "coefficient " << coeffs[i] << " instead of " << row.coeff);
      CHECK(r.cc_type == row.c.type, << "where on the motion: " << int(r.cc_type[0]) << int(r.cc_type[1]) << " instead of " << int(row.c.type[0])
                                     << int(row.c.type[1]));
      for (std::size_t e = 0; e < 2; ++e)
        CHECK_NEAR(r.cc_time[e], row.c.cc_time[e], 1e-7, 1e-7, << "when");
      CHECK_NEAR(exprs[i].value(x), row.c.distance, 1e-8, 1e-8, << "the expression at its own point");
      for (const sco::Var& v : exprs[i].vars)
      {
        auto in = [&](const sco::VarVector& vs) {
          return std::any_of(vs.begin(), vs.end(), [&](const sco::Var& o) { return o.var_rep == v.var_rep; });
        };
        CHECK((in(s->v0) && !s->c.s.fixed0) || (two && in(s->v1) && !s->c.s.fixed1), << "the expression varies with " << v.var_rep->name);
      }
      if (row.exact)
        CHECK_NEAR(row.c.margin - exprs[i].value(y), row.at(m0, m1), 1e-4, 1e-5, << "the expression at another point");
      // the gradients one by one
      for (int end = 0; end < (two ? 2 : 1); ++end)
      {
        const auto gr = t.evaluator->GetGradient(end ? q1 : q0, r, end == 1);
        CHECK(gr.margin == margins[i] && gr.coeff == coeffs[i]);
        const Eigen::VectorXd d = slope(*s->c.env, s->c.s, row.c, q0, q1);
        Eigen::VectorXd sum = Eigen::VectorXd::Zero(d.size());
        for (std::size_t e = 0; e < 2; ++e)
        {
          CHECK(gr.gradients[e].has_gradient == s->c.env->robot->isActiveLinkName(r.link_names[e]));
          if (gr.gradients[e].has_gradient)
            sum -= gr.gradients[e].scale * gr.gradients[e].gradient;
        }
        const double weight = !two ? 1 : end ? row.c.time : 1 - row.c.time;
        if (row.exact)
          for (long j = 0; j < d.size(); ++j)
            CHECK_NEAR(sum[j], weight * d[j], 1e-5, 1e-5, << "gradient of state " << end << " by joint " << j);
        if (kind == Kind::lvs_discrete)
        {
          const auto g2 = t.evaluator->GetGradient(q0, q1, r, end == 1);
          CHECK(g2.margin == margins[i] && g2.coeff == coeffs[i]);
          sum.setZero();
          for (std::size_t e = 0; e < 2; ++e)
            if (g2.gradients[e].has_gradient)
              sum -= g2.gradients[e].scale * g2.gradients[e].gradient;
          for (long j = 0; j < d.size(); ++j)
            CHECK_NEAR(sum[j], weight * d[j], 1e-5, 1e-5, << "gradient of state " << end << " by joint " << j << ", from both states");
        }
      }
    }
    auto drawn = std::make_shared<Drawn>();
    t.evaluator->Plot(drawn, x);
    CHECK(drawn->results.size() == 1 && drawn->results[0].results.size() == rs.size());
    for (std::size_t i = 0; i < rs.size(); ++i)
    {
      const auto& r = drawn->results[0].results[i];
      CHECK(r.distance == dists[i] && drawn->results[0].margin(r.link_names[0], r.link_names[1]) == margins[i]);
    }
    // ---- the cost
    double sum = 0, model = 0, scale = 1;
    bool exact = true;
    for (const Row& r : ts)
    {
      sum += r.coeff * pos(r.violation());
      model += r.coeff * pos(r.at(m0, m1));
      scale += r.coeff;
      exact &= r.exact;
    }
    CHECK_NEAR(t.cost->value(x), sum, 1e-8 * scale, 1e-8, << "the cost");
    if (g.chance(1, 3))
    {
      CHECK_NEAR(modelAt(g, *t.cost, x, x), sum, 1e-6 * scale, 1e-6, << "the local model of the cost at its own point");
      if (exact)
        CHECK_NEAR(modelAt(g, *t.cost, x, y), model, 1e-4 * scale, 1e-5, << "the local model of the cost at another point");
    }
    // ---- the constraint
    const DblVec value = t.constraint->value(x);
    CHECK(value.size() == ts.size(), << value.size() << " values instead of " << ts.size());
    MockModel m;
    for (std::size_t i = 0; i < x.size(); ++i)
      m.addVar("x" + std::to_string(i));
    const auto k = t.constraint->convex(x, &m);
    CHECK(k->eqs_.empty() && k->ineqs_.size() == ts.size(), << k->eqs_.size() << " and " << k->ineqs_.size() << " instead of 0 and " << ts.size());
    used.clear();
    DblVec got, want;
    for (std::size_t i = 0; i < ts.size(); ++i)
    {
      const double v = k->ineqs_[i].value(x);
      CHECK_NEAR(value[i], pos(v), 1e-8 * scale, 1e-8, << "value " << i << " and the local model of it at the same point");
      got.push_back(v);
      want.push_back(ts[i].coeff * ts[i].violation());
    }
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    for (std::size_t i = 0; i < got.size(); ++i)
      CHECK_NEAR(got[i], want[i], 1e-8 * scale, 1e-8, << "row " << i << " of the constraint");
    if (exact)
    {
      got.clear();
      want.clear();
      for (std::size_t i = 0; i < ts.size(); ++i)
      {
        got.push_back(k->ineqs_[i].value(y));
        want.push_back(ts[i].coeff * ts[i].at(m0, m1));
      }
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      for (std::size_t i = 0; i < got.size(); ++i)
        CHECK_NEAR(got[i], want[i], 1e-4 * scale, 1e-5, << "row " << i << " of the constraint's local model");
    }
    double violation = 0;
    for (double v : value)
      violation += v;
    CHECK_NEAR(t.constraint->violation(x), violation, 1e-9, 1e-9);
  }
}
}  // namespace

PBT_CASES(one_state, 5000, 100000) { one(g, Kind::single, g.chance(1, 4)); }
PBT_CASES(motions, 9000, 180000)
{
  const Kind kind = g.pick(std::vector<Kind>{ Kind::lvs_discrete, Kind::continuous, Kind::lvs_continuous });
  one(g, kind, g.boolean());
}
