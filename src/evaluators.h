// The collision evaluators of generated configurations
#ifndef VERIF_EVALUATORS_H
#define VERIF_EVALUATORS_H
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>

#include "collision_case.h"

namespace world
{
inline std::shared_ptr<trajopt_ifopt::DiscreteCollisionEvaluator> discrete(const Case& c)
{
  return std::make_shared<trajopt_ifopt::SingleTimestepCollisionEvaluator>(c.env->robot, c.env, c.config, c.s.dynamic);
}
inline std::shared_ptr<trajopt_ifopt::ContinuousCollisionEvaluator> continuous(const Case& c)
{
  if (c.s.kind == Kind::lvs_discrete)
    return std::make_shared<trajopt_ifopt::LVSDiscreteCollisionEvaluator>(c.env->robot, c.env, c.config, c.s.dynamic);
  return std::make_shared<trajopt_ifopt::LVSContinuousCollisionEvaluator>(c.env->robot, c.env, c.config, c.s.dynamic);
}
// The contacts a set of gradients is made of: those of one pair of links and one pair of shapes
struct Set
{
  tesseract::common::LinkNamesPair key;
  std::array<std::pair<int, int>, 2> shapes;
  double coeff;
  std::vector<Contact> contacts;
  double error() const
  {
    double e = -1e300;
    for (const auto& c : contacts)
      e = std::max(e, c.margin - c.distance);
    return e;
  }
};
inline std::vector<Set> sets(const Env& env, const Setting& s, const std::vector<Contact>& contacts)
{
  std::map<std::pair<tesseract::common::LinkNamesPair, std::array<std::pair<int, int>, 2>>, Set> m;
  for (const auto& c : contacts)
  {
    if (!c.kept)
      continue;
    const Ball &a = env.shapes->balls[c.a], &b = env.shapes->balls[c.b];
    const std::array<std::pair<int, int>, 2> shapes{ std::make_pair(a.shape, a.subshape), std::make_pair(b.shape, b.subshape) };
    Set& x = m[{ c.key, shapes }];
    x.key = c.key;
    x.shapes = shapes;
    x.coeff = s.coeffOf(a.link, b.link);
    x.contacts.push_back(c);
  }
  std::vector<Set> out;
  for (auto& kv : m)
    out.push_back(kv.second);
  return out;
}
}  // namespace world
#endif
