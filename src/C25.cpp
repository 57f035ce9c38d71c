// C25: the bookkeeping of contacts: coefficients of link pairs, largest errors of a set of contacts, which contacts count, and
// their gradients
#include <trajopt_common/collision_types.h>
#include <trajopt_common/collision_utils.h>
#include <trajopt_ifopt/constraints/collision/weighted_average_methods.h>

#include <map>
#include <set>

#include "pbt.h"
#include "robot.h"

PBT_PROPERTY("C25",
             "Cases: histories of coefficient changes over a few link names compared with a table; sets of contacts of every kind with "
             "their largest errors and weighted gradients by definition; contacts filtered by distance and fixed state; gradients of "
             "contacts of a generated robot compared with differences of the distance. Non-trivial: a pair is set more than once, a "
             "set holds contacts at both ends, a contact is removed and one kept, the robot turns.");

using namespace trajopt_common;
using tesseract::collision::ContactResult;
using CC = tesseract::collision::ContinuousCollisionType;
static const std::vector<CC> all_cc{ CC::CCType_None, CC::CCType_Time0, CC::CCType_Time1, CC::CCType_Between };

PBT_CASES(coefficients, 40000, 600000)
{
  double df = g.boolean() ? 1.0 : g.num(5);
  CollisionCoeffData c(df);
  if (df == 1.0 && g.boolean())
    c = CollisionCoeffData();
  std::map<std::set<std::string>, double> want;
  static const std::vector<std::string> names{ "a", "b", "ab", "", "B" };
  for (int n = g.range(0, 10); n > 0; --n)
  {
    const std::string a = g.pick(names), b = g.pick(names);
    switch (g.range(0, 3))
    {
      case 0:
        df = g.chance(1, 4) ? 0 : g.num(5);
        c.setDefaultCollisionCoeff(df);
        break;
      case 1:
      case 2:
      {
        const double v = g.chance(1, 3) ? 0 : g.nonzero(5);
        if (want.count({ a, b }))
          g.nontrivial();
        c.setCollisionCoeff(a, b, v);
        want[{ a, b }] = v;
        g.log() << "set " << a << " " << b << " " << v << "\n";
        break;
      }
      default:
        c = CollisionCoeffData(c);
    }
    CHECK(c.getDefaultCollisionCoeff() == df);
    for (const auto& x : names)
      for (const auto& y : names)
      {
        auto it = want.find({ x, y });
        CHECK(c.getCollisionCoeff(x, y) == (it == want.end() ? df : it->second), << "the coefficient of " << x << " and " << y);
      }
    std::set<std::set<std::string>> zero, got;
    for (const auto& kv : want)
      if (kv.second == 0)
        zero.insert(kv.first);
    for (const auto& p : c.getPairsWithZeroCoeff())
      CHECK(got.insert({ p.first, p.second }).second);
    CHECK(got == zero, << "the pairs with coefficient zero");
    std::map<std::set<std::string>, double> table;
    for (const auto& kv : c.getCollisionCoeffPairData())
      CHECK(table.insert({ { kv.first.first, kv.first.second }, kv.second }).second);
    CHECK(table == want, << "the table of pairs");
  }
}

namespace
{
template <class F>
void largest(pbt::Gen& g, F&& get, bool any, double want, const char* what)
{
  if (any)
    CHECK(get() == want, << what << " is not the largest: " << get() << " instead of " << want);
  else
    CHECK_THROWS(get(), << what << " of no contact");
}
}  // namespace

PBT_CASES(result_sets, 60000, 1000000)
{
  GradientResultsSet s = g.boolean() ? GradientResultsSet(3) : GradientResultsSet();
  const long dof = g.range(1, 3);
  struct Seen
  {
    std::array<bool, 2> has;
    std::array<CC, 2> cc;
    double error, buffered;
  };
  std::vector<Seen> seen;
  const int n = g.range(0, 5);
  bool zero = false, one = false;
  for (int k = 0; k < n; ++k)
  {
    GradientResults r;
    Seen w{};
    w.error = r.error = g.num(2);
    w.buffered = r.error_with_buffer = r.error + (g.boolean() ? 0.1 : std::fabs(g.num(1)));
    for (std::size_t i = 0; i < 2; ++i)
    {
      w.has[i] = g.chance(2, 3);
      w.cc[i] = g.pick(all_cc);
      auto fill = [&](LinkGradientResults& l, double scale) {
        l.has_gradient = w.has[i];
        l.cc_type = w.cc[i];
        l.scale = scale;
        l.gradient = robot::genJoints(g, dof, 3);
      };
      const double t = g.real(0, 1);
      fill(r.gradients[i], 1 - t);
      fill(r.cc_gradients[i], t);
      zero |= w.has[i] && w.cc[i] == CC::CCType_Time0;
      one |= w.has[i] && w.cc[i] == CC::CCType_Time1;
    }
    g.log() << "error " << w.error << " with buffer " << w.buffered << " link A " << w.has[0] << " " << int(w.cc[0]) << " link B "
            << w.has[1] << " " << int(w.cc[1]) << "\n";
    seen.push_back(w);
    s.add(r);
    CHECK(s.results.size() == seen.size() && s.results.back().error == w.error);
  }
  // by definition: over links that move, and contacts that are not at the other end
  auto over = [&](int link, int end, bool buffered) {
    std::pair<bool, double> m{ false, 0 };
    for (const auto& w : seen)
      for (int i = 0; i < 2; ++i)
      {
        if (!w.has[static_cast<std::size_t>(i)] || (link >= 0 && link != i))
          continue;
        const CC c = w.cc[static_cast<std::size_t>(i)];
        if ((end == 0 && c == CC::CCType_Time1) || (end == 1 && c == CC::CCType_Time0))
          continue;
        const double e = buffered ? w.buffered : w.error;
        m.second = m.first ? std::max(m.second, e) : e;
        m.first = true;
      }
    return m;
  };
  auto both = [&](int link, bool b, auto&& get, const char* what) {
    const auto m = over(link, -1, b);
    largest(g, get, m.first, m.second, what);
  };
  both(-1, false, [&] { return s.getMaxError(); }, "getMaxError");
  both(-1, true, [&] { return s.getMaxErrorWithBuffer(); }, "getMaxErrorWithBuffer");
  for (int i = 0; i < 2; ++i)
  {
    const LinkMaxError& l = s.max_error[static_cast<std::size_t>(i)];
    both(i, false, [&] { return l.getMaxError(); }, "the link's getMaxError");
    both(i, true, [&] { return l.getMaxErrorWithBuffer(); }, "the link's getMaxErrorWithBuffer");
    for (int e = 0; e < 2; ++e)
    {
      const auto m = over(i, e, false), b = over(i, e, true);
      CHECK(l.has_error[static_cast<std::size_t>(e)] == m.first);
      if (m.first)
        CHECK(l.error[static_cast<std::size_t>(e)] == m.second && l.error_with_buffer[static_cast<std::size_t>(e)] == b.second);
    }
  }
  auto m = over(-1, 0, false);
  largest(g, [&] { return s.getMaxErrorT0(); }, m.first, m.second, "getMaxErrorT0");
  m = over(-1, 1, false);
  largest(g, [&] { return s.getMaxErrorT1(); }, m.first, m.second, "getMaxErrorT1");
  const auto b0 = over(-1, 0, true), b1 = over(-1, 1, true);
  largest(g, [&] { return s.getMaxErrorWithBufferT0(); }, b0.first, b0.second, "getMaxErrorWithBufferT0");
  largest(g, [&] { return s.getMaxErrorWithBufferT1(); }, b1.first, b1.second, "getMaxErrorWithBufferT1");
  // the gradient of a set is the mean of the gradients of its contacts, both links together, weighted by how deep each is
  for (int e = 0; e < 2; ++e)
  {
    const auto& big = e == 0 ? b0 : b1;
    if (!big.first || big.second <= 1e-3)
      continue;
    Eigen::VectorXd sum = Eigen::VectorXd::Zero(dof);
    double weight = 0;
    for (const auto& r : s.results)
    {
      const double w = std::max(r.error_with_buffer, 0.0);
      bool counts = false;
      for (std::size_t i = 0; i < 2; ++i)
      {
        const LinkGradientResults& l = e == 0 ? r.gradients[i] : r.cc_gradients[i];
        if (!l.has_gradient || l.cc_type == (e == 0 ? CC::CCType_Time1 : CC::CCType_Time0))
          continue;
        counts = true;
        sum += w * l.scale * l.gradient;
      }
      if (counts)
        weight += w;
    }
    const Eigen::VectorXd got = e == 0 ? trajopt_ifopt::getWeightedAvgGradientT0(s, big.second, dof) :
                                         trajopt_ifopt::getWeightedAvgGradientT1(s, big.second, dof);
    CHECK(got.size() == dof);
    for (long i = 0; i < dof; ++i)
      CHECK_NEAR(got[i], sum[i] / weight, 1e-9, 1e-9, << "weighted gradient at end " << e);
    g.label("weighted gradient");
  }
  GradientResults cleared = s.results.empty() ? GradientResults() : s.results[0];
  cleared.clear();
  CHECK(cleared.error == 0 && cleared.error_with_buffer == 0);
  for (std::size_t i = 0; i < 2; ++i)
    for (const LinkGradientResults* l : { &cleared.gradients[i], &cleared.cc_gradients[i] })
      CHECK(!l->has_gradient && l->scale == 1 && l->cc_type == CC::CCType_None, << "clear");
  if (zero && one)
    g.nontrivial();
}

// A contact counts when it is near enough and some state that can move can change it
PBT_CASES(filter, 40000, 600000)
{
  const double margin = g.num(1), buffer = std::fabs(g.num(1));
  const int fixed = g.range(0, 2);  // neither, the first, the second
  tesseract::collision::ContactResultVector v;
  std::vector<int> want;
  const int n = g.range(0, 6);
  for (int k = 0; k < n; ++k)
  {
    ContactResult r;
    r.type_id = { k, k };
    r.cc_type = { g.pick(all_cc), g.pick(all_cc) };
    double d = g.num(2);
    if (std::fabs(d - (margin + buffer)) < 1e-9)
      d -= 1e-3;
    r.distance = d;
    bool keep = d < margin + buffer;
    if (fixed)
    {
      const CC at = fixed == 1 ? CC::CCType_Time0 : CC::CCType_Time1;
      bool movable = false;
      for (CC c : r.cc_type)
        movable |= c != CC::CCType_None && c != at;
      keep = keep && movable;
    }
    if (keep)
      want.push_back(k);
    v.push_back(r);
  }
  removeInvalidContactResults(v, margin, buffer, fixed == 1, fixed == 2);
  std::vector<int> got;
  for (const auto& r : v)
    got.push_back(r.type_id[0]);
  CHECK(got == want, << "margin " << margin << " buffer " << buffer << " fixed " << fixed);
  if (!want.empty() && static_cast<int>(want.size()) < n)
    g.nontrivial();
}

PBT_CASES(hashes, 40000, 400000)
{
  // shape keys: different shapes have different keys
  const int top = g.pick(std::vector<int>{ 3, 50, 1000, 100000 });
  const int a = g.range(0, top), b = g.range(0, top), c = g.range(0, top), d = g.range(0, top);
  CHECK((cantorHash(a, b) == cantorHash(c, d)) == (a == c && b == d), << a << "," << b << " and " << c << "," << d);
  CHECK((cantorHash(a, -1) == cantorHash(c, -1)) == (a == c), << a << " and " << c);
  // joint values: the same values have the same key, and other values, or another owner, another one
  const long n = g.range(1, 4);
  Eigen::VectorXd q0 = robot::genJoints(g, n), q1 = robot::genJoints(g, n);
  int o1 = 0, o2 = 0;
  const Eigen::VectorXd p0 = q0, p1 = q1;
  CHECK(getHash(&o1, q0) == getHash(&o1, p0) && getHash(&o1, q0, q1) == getHash(&o1, p0, p1));
  CHECK(getHash(&o1, q0) != getHash(&o2, q0) && getHash(&o1, q0, q1) != getHash(&o2, q0, q1), << "owners");
  Eigen::VectorXd r0 = q0;
  r0[static_cast<long>(g.index(static_cast<std::size_t>(n)))] += g.pick(std::vector<double>{ 1e-12, 1e-6, 0.5, -1 });
  if (r0 != q0)
    CHECK(getHash(&o1, q0) != getHash(&o1, r0) && getHash(&o1, q0, q1) != getHash(&o1, r0, q1) &&
              getHash(&o1, q1, q0) != getHash(&o1, q1, r0),
          << "values " << pbt::mat(q0.transpose()) << " and " << pbt::mat(r0.transpose()));
  if (q0 != q1)
    CHECK(getHash(&o1, q0, q1) != getHash(&o1, q1, q0), << "order");
  if (n > 1)
    g.nontrivial();
}

namespace
{
// the derivative of direction . (the link's point) with respect to the joints, by central differences
Eigen::VectorXd slope(const robot::Chain<>& r, const Eigen::VectorXd& q, const std::string& link, const Eigen::Vector3d& local,
                      const Eigen::Vector3d& direction)
{
  Eigen::VectorXd s(q.size());
  const double h = 1e-5;
  for (long i = 0; i < q.size(); ++i)
  {
    Eigen::VectorXd a = q, b = q;
    a[i] -= h;
    b[i] += h;
    const tesseract::kinematics::JointGroup& k = r;
    s[i] = direction.dot(k.calcFwdKin(b).at(link) * local - k.calcFwdKin(a).at(link) * local) / (2 * h);
  }
  return s;
}
ContactResult contact(pbt::Gen& g, const robot::Chain<>& r)
{
  ContactResult c;
  c.distance = g.num(1);
  std::vector<std::string> links = r.getActiveLinkNames();
  links.push_back("wall");
  for (std::size_t i = 0; i < 2; ++i)
  {
    c.link_names[i] = g.pick(links);
    c.nearest_points_local[i] = Eigen::Vector3d(g.num(1), g.num(1), g.num(1));
  }
  c.normal = Eigen::Vector3d(g.num(1), g.num(1), g.num(1));
  if (c.normal.norm() < 1e-3)
    c.normal = Eigen::Vector3d::UnitX();
  c.normal.normalize();
  return c;
}
}  // namespace

PBT_CASES(gradient_of_one_state, 20000, 300000)
{
  robot::Chain<> r(robot::Chain<>::generate(g, 4));
  r.wall = robot::genPose(g);
  const tesseract::kinematics::JointGroup& k = r;
  const Eigen::VectorXd q = robot::genJoints(g, r.numJoints());
  ContactResult c = contact(g, r);
  const auto poses = k.calcFwdKin(q);
  for (std::size_t i = 0; i < 2; ++i)
    c.transform[i] = poses.at(c.link_names[i]);
  const double margin = g.num(1), buffer = std::fabs(g.num(1));
  GradientResults out;
  getGradient(out, q, c, margin, buffer, r);
  CHECK_NEAR(out.error, margin - c.distance, 1e-12, 1e-12, << "error");
  CHECK_NEAR(out.error_with_buffer, margin + buffer - c.distance, 1e-12, 1e-12, << "error with buffer");
  // moving link A along its gradient takes it away from B
  for (std::size_t i = 0; i < 2; ++i)
  {
    CHECK(out.gradients[i].has_gradient == (c.link_names[i] != "wall"));
    CHECK(!out.cc_gradients[i].has_gradient);
    if (!out.gradients[i].has_gradient)
      continue;
    const Eigen::VectorXd want = slope(r, q, c.link_names[i], c.nearest_points_local[i], (i == 0 ? -1 : 1) * c.normal);
    CHECK(out.gradients[i].gradient.size() == q.size() && out.gradients[i].scale == 1);
    for (long j = 0; j < q.size(); ++j)
      CHECK_NEAR(out.gradients[i].gradient[j], want[j], 1e-7, 1e-7, << "gradient of link " << i << " with respect to joint " << j);
    g.nontrivial();
  }
}

PBT_CASES(gradient_of_two_states, 20000, 300000)
{
  robot::Chain<> r(robot::Chain<>::generate(g, 4));
  r.wall = robot::genPose(g);
  const tesseract::kinematics::JointGroup& k = r;
  const Eigen::VectorXd q0 = robot::genJoints(g, r.numJoints()), q1 = g.chance(1, 8) ? q0 : robot::genJoints(g, r.numJoints());
  ContactResult c = contact(g, r);
  // contacts found at an interpolated state, at time t
  const int where = g.range(0, 2);
  const double t = where == 0 ? 0 : where == 1 ? 1 : g.real(0.0, 1.0);
  const CC cc = where == 0 ? CC::CCType_Time0 : where == 1 ? CC::CCType_Time1 : CC::CCType_Between;
  const Eigen::VectorXd q = q0 + (q1 - q0) * t;
  const auto poses = k.calcFwdKin(q), poses0 = k.calcFwdKin(q0), poses1 = k.calcFwdKin(q1);
  const bool sweep = g.boolean();
  for (std::size_t i = 0; i < 2; ++i)
  {
    // a sweeping checker gives the poses at the two ends, one of interpolated states that of the state
    c.transform[i] = sweep ? poses0.at(c.link_names[i]) : poses.at(c.link_names[i]);
    c.cc_transform[i] = sweep ? poses1.at(c.link_names[i]) : poses.at(c.link_names[i]);
    if (r.isActiveLinkName(c.link_names[i]))
    {
      c.cc_time[i] = t;
      c.cc_type[i] = cc;
    }
  }
  const double margin = g.num(1), buffer = std::fabs(g.num(1));
  GradientResults out;
  getGradient(out, q0, q1, c, margin, buffer, r);
  CHECK_NEAR(out.error, margin - c.distance, 1e-12, 1e-12, << "error");
  CHECK_NEAR(out.error_with_buffer, margin + buffer - c.distance, 1e-12, 1e-12, << "error with buffer");
  for (std::size_t i = 0; i < 2; ++i)
  {
    const bool moves = c.link_names[i] != "wall";
    CHECK(out.gradients[i].has_gradient == moves && out.cc_gradients[i].has_gradient == moves);
    if (!moves)
      continue;
    // how the distance changes with the joints of either end of the motion
    auto at = [&](const Eigen::Isometry3d& pose) {
      const Eigen::Vector3d offset = pose.linear() * c.nearest_points_local[i];
      const Eigen::Vector3d local = poses.at(c.link_names[i]).linear().transpose() * offset;
      return slope(r, q, c.link_names[i], local, (i == 0 ? -1 : 1) * c.normal);
    };
    const Eigen::VectorXd at0 = at(c.transform[i]), at1 = at(c.cc_transform[i]);
    const LinkGradientResults &a = out.gradients[i], &b = out.cc_gradients[i];
    CHECK(a.cc_type == cc && b.cc_type == cc);
    for (long j = 0; j < q.size(); ++j)
    {
      CHECK_NEAR(a.scale * a.gradient[j], (1 - t) * at0[j], 1e-7, 1e-7, << "link " << i << " joint " << j << " of the first state");
      CHECK_NEAR(b.scale * b.gradient[j], t * at1[j], 1e-7, 1e-7, << "link " << i << " joint " << j << " of the second state");
    }
    g.nontrivial();
  }
}
