// C26: the collision evaluators: which contacts they report for a state or a motion between two states
#include "evaluators.h"
#include "ifopt_fixture.h"

PBT_PROPERTY("C26",
             "Cases: a world of spheres on the links of a generated robot, a wall, a floor and a door that the environment moves, with "
             "generated margins, coefficients, buffer and segment length; histories of two to four evaluations of one evaluator of each "
             "kind, with either end fixed, compared with the contacts worked out from the geometry. Non-trivial: a contact is kept and "
             "one is dropped, or the motion is split.");

using namespace world;
using trajopt_common::CollisionCacheData;
using trajopt_common::GradientResultsSet;

namespace
{
struct Seen
{
  tesseract::common::LinkNamesPair key;
  std::array<std::string, 2> links;
  std::array<int, 2> shape, subshape;
  double distance;
  std::array<double, 2> time;
  std::array<CC, 2> type;
};
std::string show(const Seen& s)
{
  std::ostringstream o;
  o << s.links[0] << "(" << s.shape[0] << "/" << s.subshape[0] << ") " << s.links[1] << "(" << s.shape[1] << "/" << s.subshape[1]
    << ") distance " << s.distance << " times " << s.time[0] << "," << s.time[1] << " types " << int(s.type[0]) << int(s.type[1]);
  return o.str();
}
bool same(const Seen& a, const Seen& b)
{
  return a.key == b.key && a.links == b.links && a.shape == b.shape && a.subshape == b.subshape && a.type == b.type &&
         std::fabs(a.distance - b.distance) < 1e-8 && std::fabs(a.time[0] - b.time[0]) < 1e-7 && std::fabs(a.time[1] - b.time[1]) < 1e-7;
}
// The two lists hold the same elements, in any order
void matchContacts(pbt::Gen& g, std::vector<Seen> got, const std::vector<Seen>& want)
{
  for (const auto& w : want)
  {
    auto it = std::find_if(got.begin(), got.end(), [&](const Seen& s) { return same(s, w); });
    CHECK(it != got.end(), << "a contact is missing: " << show(w));
    got.erase(it);
  }
  CHECK(got.empty(), << "a contact too many: " << show(got[0]));
}
void check(pbt::Gen& g, const Case& c, const CollisionCacheData& data, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1,
           std::size_t max_allowed, bool exact)
{
  const auto all = expected(*c.env, c.s, q0, q1);
  const auto& balls = c.env->shapes->balls;
  std::vector<Seen> want, got;
  for (const auto& k : all)
    if (k.kept)
    {
      const Ball &a = balls[k.a], &b = balls[k.b];
      want.push_back({ k.key, { a.link, b.link }, { a.shape, b.shape }, { a.subshape, b.subshape }, k.distance, k.cc_time, k.type });
    }
  for (const auto& pair : data.contact_results_map)
    for (const auto& r : pair.second)
      got.push_back({ pair.first, r.link_names, r.shape_id, r.subshape_id, r.distance, r.cc_time, r.cc_type });
  matchContacts(g, got, want);
  CHECK(data.contact_results_map.count() == static_cast<long>(want.size()), << "the number of contacts");
  if (!want.empty() && want.size() < all.size())
    g.nontrivial();

  if (max_allowed == 0)
  {
    CHECK(data.gradient_results_sets.empty(), << "gradients were not asked for");
    return;
  }
  auto ws = sets(*c.env, c.s, all);
  CHECK(data.gradient_results_sets.size() == ws.size(),
        << data.gradient_results_sets.size() << " sets of gradients instead of " << ws.size());
  std::vector<double> order;
  for (const GradientResultsSet& r : data.gradient_results_sets)
  {
    CHECK(!r.results.empty());
    // which set is it: the one with the same contacts
    auto is = [&](const Set& s) {
      return s.key == r.key && s.contacts.size() == r.results.size() && std::fabs(s.error() - r.getMaxError()) < 1e-8;
    };
    if (std::count_if(ws.begin(), ws.end(), is) > 1)
      throw pbt::Discard();
    auto it = std::find_if(ws.begin(), ws.end(), is);
    CHECK(it != ws.end(), << "a set of " << r.results.size() << " contacts of " << r.key.first << " and " << r.key.second
                          << " with largest error " << r.getMaxError() << " is not one of the pairs of shapes");
    CHECK(r.coeff == it->coeff, << "coefficient " << r.coeff << " instead of " << it->coeff);
    CHECK(r.is_continuous == (c.s.kind != Kind::single));
    order.push_back(it->error());
    auto contacts = it->contacts;
    for (const auto& x : r.results)
    {
      auto at = [&](const Contact& k) { return std::fabs(k.margin - k.distance - x.error) < 1e-8; };
      if (std::count_if(contacts.begin(), contacts.end(), at) > 1)
        throw pbt::Discard();
      auto k = std::find_if(contacts.begin(), contacts.end(), at);
      CHECK(k != contacts.end(), << "an error of " << x.error);
      CHECK_NEAR(x.error_with_buffer, x.error + c.s.buffer, 1e-9, 1e-9, << "error with buffer");
      // moving both links along their gradients changes the distance by its derivative
      Eigen::VectorXd d0 = Eigen::VectorXd::Zero(q0.size()), d1 = d0;
      for (std::size_t i = 0; i < 2; ++i)
      {
        const bool active = c.env->robot->isActiveLinkName(i == 0 ? k->links.first : k->links.second);
        CHECK(x.gradients[i].has_gradient == active, << "gradient of a link that " << (active ? "moves" : "stands still"));
        CHECK(x.cc_gradients[i].has_gradient == (active && c.s.kind != Kind::single));
        if (x.gradients[i].has_gradient)
          d0 -= x.gradients[i].scale * x.gradients[i].gradient;
        if (x.cc_gradients[i].has_gradient)
          d1 -= x.cc_gradients[i].scale * x.cc_gradients[i].gradient;
      }
      if (exact)
      {
        const Eigen::VectorXd d = slope(*c.env, c.s, *k, q0, q1);
        const double t = c.s.kind == Kind::single ? 0 : k->time;
        for (long j = 0; j < d.size(); ++j)
        {
          CHECK_NEAR(d0[j], (1 - t) * d[j], 1e-5, 1e-5, << "gradient of the first state by joint " << j);
          CHECK_NEAR(d1[j], t * d[j], 1e-5, 1e-5, << "gradient of the second state by joint " << j);
        }
      }
      contacts.erase(k);
    }
    ws.erase(it);
  }
  if (order.size() > max_allowed)
  {
    g.label("more sets than allowed");
    for (std::size_t i = 1; i < order.size(); ++i)
      CHECK(order[i - 1] >= order[i] - 1e-9, << "not the worst first: " << order[i - 1] << " before " << order[i]);
  }
}
Eigen::VectorXd from(pbt::Gen& g, const std::vector<Eigen::VectorXd>& pool, long n)
{
  if (!pool.empty() && g.chance(1, 3))
    return pool[g.index(pool.size())];
  return robot::genJoints(g, n, 2);
}
void wrongType(pbt::Gen& g, const Case& c)
{
  Case w = c;
  Setting& s = w.s;
  const Kind k = g.pick(std::vector<Kind>{ Kind::single, Kind::lvs_discrete, Kind::continuous, Kind::lvs_continuous });
  w.config.collision_check_config.type = typeOf(k);
  const bool is_single = k == Kind::single, is_lvs = k == Kind::lvs_discrete;
  s.dynamic = false;
  auto throws = [](auto&& f) {
    try
    {
      f();
    }
    catch (const std::exception&)
    {
      return true;
    }
    return false;
  };
  using namespace trajopt_ifopt;
  CHECK(throws([&] { SingleTimestepCollisionEvaluator(w.env->robot, w.env, w.config); }) == !is_single, << "discrete of one state");
  CHECK(throws([&] { LVSDiscreteCollisionEvaluator(w.env->robot, w.env, w.config); }) == !is_lvs, << "discrete of a motion");
  CHECK(throws([&] { LVSContinuousCollisionEvaluator(w.env->robot, w.env, w.config); }) == (is_single || is_lvs), << "continuous");
}
template <class E>
void accessors(pbt::Gen& g, const Case& c, const E& e)
{
  CHECK(e.getCollisionMarginBuffer() == c.s.buffer);
  CHECK(&e.getJointGroup() == c.env->robot.get());
  std::vector<std::string> links = c.env->robot->getActiveLinkNames();
  links.push_back("wall");
  links.push_back("door");
  for (const auto& a : links)
    for (const auto& b : links)
    {
      CHECK(e.getCollisionMarginData().getCollisionMargin(a, b) == c.s.marginOf(a, b), << "margin of " << a << " and " << b);
      CHECK(e.getCollisionCoeffData().getCollisionCoeff(a, b) == c.s.coeffOf(a, b), << "coefficient of " << a << " and " << b);
    }
}
}  // namespace

PBT_CASES(one_state, 6000, 120000)
{
  Case c = genCase(g, Kind::single, 4, false);
  wrongType(g, c);
  const auto e = discrete(c);
  accessors(g, c, *e);
  CollisionCacheData data;
  std::vector<Eigen::VectorXd> pool;
  for (int n = g.range(2, 4); n > 0; --n)
  {
    if (g.chance(1, 3))
      c.env->door = robot::genPose(g, 2);
    const Eigen::VectorXd q = from(g, pool, c.env->robot->numJoints());
    pool.push_back(q);
    const std::size_t max = static_cast<std::size_t>(g.range(0, 3));
    g.log() << "q " << q.transpose() << " at most " << max << "\n";
    e->calcCollisions(data, q, max);
    check(g, c, data, q, q, max, true);
  }
}

PBT_CASES(motions, 10000, 200000)
{
  const Kind kind = g.pick(std::vector<Kind>{ Kind::lvs_discrete, Kind::continuous, Kind::lvs_continuous });
  const bool straight = g.boolean();
  Case c = genCase(g, kind, 3, straight);
  const auto e = continuous(c);
  accessors(g, c, *e);
  CollisionCacheData data;
  std::vector<Eigen::VectorXd> pool;
  for (int n = g.range(1, 3); n > 0; --n)
  {
    if (g.chance(1, 3))
      c.env->door = robot::genPose(g, 2);
    const Eigen::VectorXd q0 = from(g, pool, c.env->robot->numJoints()), q1 = from(g, pool, c.env->robot->numJoints());
    pool.push_back(q0);
    pool.push_back(q1);
    const std::size_t max = static_cast<std::size_t>(g.range(0, 3));
    g.log() << "from " << q0.transpose() << " to " << q1.transpose() << " at most " << max << "\n";
    e->calcCollisionData(data, q0, q1, c.s.fixed0, c.s.fixed1, max);
    check(g, c, data, q0, q1, max, straight || kind == Kind::lvs_discrete);
    if ((q1 - q0).norm() > c.s.lvs && kind != Kind::continuous)
      g.nontrivial();
  }
}
