// Generated configurations of the collision evaluators
#ifndef VERIF_COLLISION_CASE_H
#define VERIF_COLLISION_CASE_H
#include <trajopt_common/collision_types.h>
#include <trajopt_common/collision_utils.h>

#include "world.h"

namespace world
{
inline tc::CollisionEvaluatorType typeOf(Kind k)
{
  switch (k)
  {
    case Kind::single:
      return tc::CollisionEvaluatorType::DISCRETE;
    case Kind::lvs_discrete:
      return tc::CollisionEvaluatorType::LVS_DISCRETE;
    case Kind::continuous:
      return tc::CollisionEvaluatorType::CONTINUOUS;
    default:
      return tc::CollisionEvaluatorType::LVS_CONTINUOUS;
  }
}
struct Case
{
  std::shared_ptr<Env> env;
  Setting s;
  trajopt_common::TrajOptCollisionConfig config;
};
inline Case genCase(pbt::Gen& g, Kind kind, int max_joints, bool straight)
{
  Case c;
  c.env = generate(g, max_joints, straight);
  Setting& s = c.s;
  s.kind = kind;
  s.lvs = g.pick(std::vector<double>{ 0.35, 0.8, 2, 5, 50 });
  if (kind != Kind::single)
  {
    const int f = g.range(0, 3);
    s.fixed0 = f == 1;
    s.fixed1 = f == 2;
  }
  s.dynamic = g.chance(1, 3);
  s.margin = g.pick(std::vector<double>{ 0.0, 0.3, 1.0, 2.5 }) + g.real(0.0, 0.2);
  s.buffer = g.pick(std::vector<double>{ 0.0, 0.05, 0.5 });
  s.first_door = c.env->door;
  s.coeff = g.chance(1, 8) ? 0 : g.real(0.1, 30.0);
  std::vector<std::string> links = c.env->robot->getActiveLinkNames();
  for (const char* n : { "wall", "door", "floor" })
    links.push_back(n);
  auto& k = c.config;
  k.contact_manager_config = tc::ContactManagerConfig(s.margin);
  for (int n = g.range(0, 2); n > 0; --n)
  {
    const std::string a = g.pick(links), b = g.pick(links);
    const double m = g.num(2);
    s.margins[{ a, b }] = m;
    k.contact_manager_config.pair_margin_data.margins[tesseract::common::makeOrderedLinkPair(a, b)] = m;
  }
  k.collision_coeff_data.setDefaultCollisionCoeff(s.coeff);
  for (int n = g.range(0, 3); n > 0; --n)
  {
    const std::string a = g.pick(links), b = g.pick(links);
    const double v = g.chance(1, 3) ? 0 : g.real(0.1, 30.0);
    s.coeffs[{ a, b }] = v;
    k.collision_coeff_data.setCollisionCoeff(a, b, v);
  }
  k.collision_margin_buffer = s.buffer;
  k.collision_check_config = tc::CollisionCheckConfig(tc::ContactRequest(), typeOf(kind), s.lvs);
  {
    g.log() << "kind " << int(kind) << " lvs " << s.lvs << " fixed " << s.fixed0 << s.fixed1 << " dynamic " << s.dynamic << " margin "
            << s.margin << " buffer " << s.buffer << " coeff " << s.coeff << "\n";
    for (const auto& b : c.env->shapes->balls)
      g.log() << "ball on " << b.link << " shape " << b.shape << "/" << b.subshape << " at " << b.at.transpose() << " radius " << b.radius
              << "\n";
    for (const auto& m : s.margins)
      g.log() << "margin " << *m.first.begin() << "," << *m.first.rbegin() << " " << m.second << "\n";
    for (const auto& m : s.coeffs)
      g.log() << "coeff " << *m.first.begin() << "," << *m.first.rbegin() << " " << m.second << "\n";
  }
  return c;
}
}  // namespace world
#endif
