// C24: configurations: comparison, and writing and reading them back
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/xml.hpp>
#include <trajopt_common/cereal_serialization.h>
#include <trajopt_common/collision_types.h>
#include <trajopt_common/yaml_extensions.h>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt_sqp/types.h>

#include <set>

#include "pbt.h"

PBT_PROPERTY("C24",
             "Cases: a configuration with every field set at random, its copy, and the copy with fields changed one at a time; the "
             "configuration written and read as YAML, JSON, XML and binary. Non-trivial: a field is "
             "changed, or there are pair coefficients.");

using trajopt_common::CollisionCoeffData;
using trajopt_common::TrajOptCollisionConfig;

namespace
{
double genValue(pbt::Gen& g)
{
  static const std::vector<double> special{ std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), 0.0, 1e-4 };
  return g.chance(1, 6) ? g.pick(special) : g.num(100);
}
void change(pbt::Gen& g, double& v)
{
  const double old = v;
  switch (g.range(0, 2))
  {
    case 0:
      v += (g.boolean() ? 1 : -1) * g.pick(std::vector<double>{ 0.001, 0.25, 1, 50 });
      break;
    case 1:
      v = -v;
      break;
    default:
      v = genValue(g);
  }
  if (std::fabs(v - old) < 5e-4 || (std::fabs(old) > 1e6 && std::fabs(v - old) < 1e290))
    v = std::fabs(old) > 1e6 ? 1.0 : old + 1;
}
void change(pbt::Gen& g, int& v)
{
  v += g.boolean() ? 1 : -g.range(1, 3);
}
void change(pbt::Gen&, bool& v) { v = !v; }
void change(pbt::Gen& g, std::string& v)
{
  if (!v.empty() && g.boolean())
    v[g.index(v.size())] ^= 1;
  else
    v += "x";
}
template <class T>
void compare(pbt::Gen& g, const T& a, const T& b, bool equal, const char* what)
{
  CHECK((a == b) == equal, << what << (equal ? ": equal configurations compare unequal" : ": a difference is not seen"));
  CHECK((b == a) == equal, << what << ", the other way");
  CHECK((a != b) == !equal && (b != a) == !equal, << what << ": != is not the opposite of ==");
}

template <class P>
struct Fields
{
  std::vector<std::pair<const char*, double P::*>> d;
  std::vector<std::pair<const char*, int P::*>> i;
  std::vector<std::pair<const char*, bool P::*>> b;
  std::vector<std::pair<const char*, std::string P::*>> s;
};
template <class P>
void parameters(pbt::Gen& g, const Fields<P>& f)
{
  P a;
  auto fill = [&](P& p) {
    for (auto& x : f.d)
      p.*x.second = genValue(g);
    for (auto& x : f.i)
      p.*x.second = g.range(-3, 100);
    for (auto& x : f.b)
      p.*x.second = g.boolean();
    for (auto& x : f.s)
      p.*x.second = "/tmp/" + g.name(4);
  };
  if (g.chance(3, 4))
    fill(a);
  P b = a;
  compare(g, a, a, true, "itself");
  compare(g, a, b, true, "a copy");
  const std::size_t n = f.d.size() + f.i.size() + f.b.size() + f.s.size();
  const int changes = g.chance(3, 4) ? 1 : g.range(2, 4);
  std::set<std::size_t> which;
  while (which.size() < static_cast<std::size_t>(changes))
    which.insert(which.size() + 4 < n ? g.index(n) : which.size());
  std::string names;
  for (std::size_t k : which)
  {
    if (k < f.d.size())
    {
      change(g, b.*f.d[k].second);
      names += f.d[k].first;
    }
    else if ((k -= f.d.size()) < f.i.size())
    {
      change(g, b.*f.i[k].second);
      names += f.i[k].first;
    }
    else if ((k -= f.i.size()) < f.b.size())
    {
      change(g, b.*f.b[k].second);
      names += f.b[k].first;
    }
    else
    {
      k -= f.b.size();
      change(g, b.*f.s[k].second);
      names += f.s[k].first;
    }
    names += " ";
  }
  compare(g, a, b, false, names.c_str());
  b = a;
  compare(g, a, b, true, "assigned");
  if (changes == 1)
    g.label(names);
  g.nontrivial();
}
#define D(P, x) { #x, &P::x }

CollisionCoeffData genCoeff(pbt::Gen& g)
{
  CollisionCoeffData c;
  if (g.boolean())
    c = CollisionCoeffData(g.num(50));
  if (g.boolean())
    c.setDefaultCollisionCoeff(g.num(50));
  static const std::vector<std::string> links{ "a", "b", "link 1", "tool0", "", "x: y", "12", "#", "~", "[z]" };
  for (int n = g.range(0, 4); n > 0; --n)
    c.setCollisionCoeff(g.pick(links), g.pick(links), g.chance(1, 3) ? 0 : g.nonzero(50));
  if (!c.getCollisionCoeffPairData().empty())
    g.nontrivial();
  return c;
}
TrajOptCollisionConfig genConfig(pbt::Gen& g)
{
  using namespace tesseract::collision;
  ContactRequest r;
  r.type = g.range(0, 3);
  r.calculate_distance = g.boolean();
  const auto type = static_cast<CollisionEvaluatorType>(g.range(0, 4));
  const auto mode = static_cast<CollisionCheckProgramType>(g.range(0, 5));
  const double margin = g.num(2), coeff = g.num(50), lvs = std::fabs(g.num(3));
  TrajOptCollisionConfig c;
  switch (g.range(0, 2))
  {
    case 0:
      break;
    case 1:
      c = TrajOptCollisionConfig(margin, coeff);
      CHECK(c.contact_manager_config.default_margin == margin && c.collision_coeff_data.getDefaultCollisionCoeff() == coeff);
      break;
    default:
      c = TrajOptCollisionConfig(margin, coeff, r, type, lvs, mode);
      CHECK(c.contact_manager_config.default_margin == margin && c.collision_coeff_data.getDefaultCollisionCoeff() == coeff);
      CHECK(c.collision_check_config.contact_request == r && c.collision_check_config.type == type);
      CHECK(c.collision_check_config.longest_valid_segment_length == lvs && c.collision_check_config.check_program_mode == mode);
  }
  if (g.boolean())
    c.collision_coeff_data = genCoeff(g);
  if (g.boolean())
    c.contact_manager_config.pair_margin_data.margins[{ "a", "b" }] = g.num(2);
  c.enabled = g.boolean();
  c.collision_margin_buffer = g.boolean() ? 0.01 : g.num(2);
  c.max_num_cnt = g.range(0, 9);
  return c;
}
// exactly the same contents
bool same(const CollisionCoeffData& a, const CollisionCoeffData& b)
{
  return a.getDefaultCollisionCoeff() == b.getDefaultCollisionCoeff() &&
         a.getCollisionCoeffPairData() == b.getCollisionCoeffPairData() && a.getPairsWithZeroCoeff() == b.getPairsWithZeroCoeff();
}
bool same(const TrajOptCollisionConfig& a, const TrajOptCollisionConfig& b)
{
  return a.enabled == b.enabled && a.contact_manager_config == b.contact_manager_config &&
         a.collision_check_config == b.collision_check_config && same(a.collision_coeff_data, b.collision_coeff_data) &&
         a.collision_margin_buffer == b.collision_margin_buffer && a.max_num_cnt == b.max_num_cnt;
}
template <class Out, class In, class T>
T through(const T& t)
{
  std::stringstream s;
  {
    Out o(s);
    o(cereal::make_nvp("value", const_cast<T&>(t)));
  }
  T r;
  {
    In i(s);
    i(cereal::make_nvp("value", r));
  }
  return r;
}
template <class T>
void roundTrips(pbt::Gen& g, const T& t)
{
  CHECK(same(t, through<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>(t)), << "binary");
  CHECK(same(t, through<cereal::JSONOutputArchive, cereal::JSONInputArchive>(t)), << "JSON");
  CHECK(same(t, through<cereal::XMLOutputArchive, cereal::XMLInputArchive>(t)), << "XML");
  YAML::Node n;
  n = t;
  CHECK(same(t, n.as<T>()), << "YAML node");
  const std::string text = YAML::Dump(n);
  g.log() << text << "\n";
  CHECK(same(t, YAML::Load(text).as<T>()), << "YAML text");
}
}  // namespace

PBT_CASES(sco_parameters, 60000, 600000)
{
  using P = sco::BasicTrustRegionSQPParameters;
  static const Fields<P> f{ { D(P, improve_ratio_threshold), D(P, min_trust_box_size), D(P, min_approx_improve),
                              D(P, min_approx_improve_frac), D(P, trust_shrink_ratio), D(P, trust_expand_ratio), D(P, cnt_tolerance),
                              D(P, max_merit_coeff_increases), D(P, merit_coeff_increase_ratio), D(P, max_time),
                              D(P, initial_merit_error_coeff), D(P, trust_box_size) },
                            { D(P, max_iter), D(P, max_qp_solver_failures), D(P, num_threads) },
                            { D(P, inflate_constraints_individually), D(P, log_results) },
                            { D(P, log_dir) } };
  parameters(g, f);
}
PBT_CASES(sqp_parameters, 60000, 600000)
{
  using P = trajopt_sqp::SQPParameters;
  static const Fields<P> f{ { D(P, improve_ratio_threshold), D(P, min_trust_box_size), D(P, min_approx_improve),
                              D(P, min_approx_improve_frac), D(P, trust_shrink_ratio), D(P, trust_expand_ratio), D(P, cnt_tolerance),
                              D(P, max_merit_coeff_increases), D(P, merit_coeff_increase_ratio), D(P, max_time),
                              D(P, initial_merit_error_coeff), D(P, initial_trust_box_size) },
                            { D(P, max_iterations), D(P, max_qp_solver_failures) },
                            { D(P, inflate_constraints_individually), D(P, log_results) },
                            { D(P, log_dir) } };
  parameters(g, f);
}

PBT_CASES(collision_config, 60000, 600000)
{
  const TrajOptCollisionConfig a = genConfig(g);
  TrajOptCollisionConfig b = a;
  compare(g, a, a, true, "itself");
  compare(g, a, b, true, "a copy");
  const int which = g.range(0, 7);
  static const char* const names[] = { "enabled",        "margins",        "check config",          "default coefficient",
                                       "a coefficient",  "margin buffer",  "number of constraints", "a coefficient that became zero" };
  switch (which)
  {
    case 0:
      change(g, b.enabled);
      break;
    case 1:
      if (g.boolean())
        b.contact_manager_config.default_margin = a.contact_manager_config.default_margin.value_or(0) + 1;
      else
        b.contact_manager_config.pair_margin_data.margins[{ "a", "c" }] = 1;
      break;
    case 2:
      if (g.boolean())
        b.collision_check_config.longest_valid_segment_length += 1;
      else
        change(g, b.collision_check_config.contact_request.calculate_distance);
      break;
    case 3:
    {
      double d = b.collision_coeff_data.getDefaultCollisionCoeff();
      change(g, d);
      b.collision_coeff_data.setDefaultCollisionCoeff(d);
      break;
    }
    case 4:
    {
      const auto& pairs = a.collision_coeff_data.getCollisionCoeffPairData();
      if (pairs.empty() || g.boolean())
        b.collision_coeff_data.setCollisionCoeff("new", "b", g.num(9));
      else
      {
        std::vector<tesseract::common::LinkNamesPair> keys;
        for (const auto& kv : pairs)
          keys.push_back(kv.first);
        std::sort(keys.begin(), keys.end());
        const auto& k = g.pick(keys);
        double d = pairs.at(k);
        change(g, d);
        b.collision_coeff_data.setCollisionCoeff(k.first, k.second, d);
      }
      break;
    }
    case 5:
      change(g, b.collision_margin_buffer);
      break;
    case 6:
      change(g, b.max_num_cnt);
      break;
    default:
      b.collision_coeff_data.setCollisionCoeff("one", "two", 0);
  }
  compare(g, a, b, false, names[which]);
  compare(g, a.collision_coeff_data, b.collision_coeff_data, !(which == 3 || which == 4 || which == 7), names[which]);
  g.label(names[which]);
  g.nontrivial();
}

PBT_CASES(coefficients_round_trip, 6000, 60000) { roundTrips(g, genCoeff(g)); }
PBT_CASES(config_round_trip, 6000, 60000)
{
  const TrajOptCollisionConfig c = genConfig(g);
  roundTrips(g, c);
  g.nontrivial();
}

// What the file says replaces the default, and what it does not say stays
PBT_CASES(partial_yaml, 20000, 200000)
{
  YAML::Node n(YAML::NodeType::Map);
  TrajOptCollisionConfig want;
  n["unrelated"] = 1;
  if (g.boolean())
    n["enabled"] = want.enabled = g.boolean();
  if (g.boolean())
    n["collision_margin_buffer"] = want.collision_margin_buffer = g.num(3);
  if (g.boolean())
    n["max_num_cnt"] = want.max_num_cnt = g.range(0, 9);
  if (g.boolean())
  {
    if (g.boolean())
    {
      const double d = g.num(9);
      n["collision_coeff_data"]["default_coeff"] = d;
      want.collision_coeff_data.setDefaultCollisionCoeff(d);
    }
    if (g.boolean())
    {
      const double d = g.boolean() ? 0 : g.num(9);
      YAML::Node key(YAML::NodeType::Sequence), pairs(YAML::NodeType::Map);
      key.push_back("b");
      key.push_back("a");
      pairs[key] = d;
      n["collision_coeff_data"]["pair_coeff_data"] = pairs;
      want.collision_coeff_data.setCollisionCoeff("a", "b", d);
    }
  }
  if (g.boolean())
  {
    const double d = g.num(3);
    n["contact_manager_config"]["default_margin"] = d;
    want.contact_manager_config.default_margin = d;
    if (g.boolean())
    {
      const double f = g.num(3);
      n["scale_margins"] = f;
      want.contact_manager_config.default_margin = d * f;
    }
  }
  const std::string text = YAML::Dump(n);
  g.log() << text << "\n";
  const auto got = YAML::Load(text).as<TrajOptCollisionConfig>();
  CHECK(same(got, want));
  g.nontrivial();
}

PBT_FIXED(status_names)
{
  std::set<std::string> seen;
  const std::vector<std::pair<trajopt_sqp::SQPStatus, std::string>> sqp{
    { trajopt_sqp::SQPStatus::kRunning, "RUNNING" },
    { trajopt_sqp::SQPStatus::kConverged, "CONVERGED" },
    { trajopt_sqp::SQPStatus::kIterationLimit, "ITERATION_LIMIT" },
    { trajopt_sqp::SQPStatus::kPenaltyIterationLimit, "PENALTY_ITERATION_LIMIT" },
    { trajopt_sqp::SQPStatus::kTimeLimit, "TIME_LIMIT" },
    { trajopt_sqp::SQPStatus::kQPSolveFailed, "FAILED" },
    { trajopt_sqp::SQPStatus::kStoppedByCallback, "STOPPED_BY_CALLBACK" }
  };
  for (const auto& s : sqp)
  {
    const std::string t = trajopt_sqp::toString(s.first);
    CHECK(seen.insert(t).second, << t << " names two statuses");
    CHECK(t.find(s.second) != std::string::npos, << t << " does not say " << s.second);
  }
  seen.clear();
  const std::vector<std::pair<sco::OptStatus, std::string>> opt{
    { sco::OPT_CONVERGED, "CONVERGED" },         { sco::OPT_SCO_ITERATION_LIMIT, "SCO_ITERATION_LIMIT" },
    { sco::OPT_PENALTY_ITERATION_LIMIT, "PENALTY_ITERATION_LIMIT" }, { sco::OPT_TIME_LIMIT, "TIME_LIMIT" },
    { sco::OPT_FAILED, "FAILED" },               { sco::INVALID, "INVALID" }
  };
  for (const auto& s : opt)
  {
    const std::string t = sco::toString(s.first);
    CHECK(seen.insert(t).second, << t << " names two statuses");
    CHECK(t.find(s.second) != std::string::npos, << t << " does not say " << s.second);
  }
}

// What is not such a document is refused
PBT_CASES(refused_yaml, 10000, 100000)
{
  static const std::vector<std::string> pairs{ "[a]: 2", "[a, b, c]: 2", "[]: 2", "a: 2", "{a: b}: 2", "{a: b, c: d}: 2", "[a, b]: x",
                                               "[a, b]: [1]" };
  static const std::vector<std::string> whole{ "[1, 2]", "5", "text", "[]", "[default_coeff, 3]" };
  std::string text = "{default_coeff: 3, pair_coeff_data: {";
  for (int n = g.range(0, 2); n > 0; --n)
    text += "[l" + std::to_string(n) + ", m]: " + std::to_string(g.range(0, 9)) + ", ";
  text += g.pick(pairs) + "}}";
  if (g.chance(1, 3))
    text = g.pick(whole);
  g.log() << text << "\n";
  CHECK_THROWS(YAML::Load(text).as<CollisionCoeffData>(), << text);
  if (text[0] != '{')
    CHECK_THROWS(YAML::Load(text).as<TrajOptCollisionConfig>(), << text);
  CHECK_THROWS(YAML::Load("{collision_coeff_data: " + text + "}").as<TrajOptCollisionConfig>(), << text << " as a member");
  g.nontrivial();
}

// New results are of the sizes of the problem, and nothing has been found yet
PBT_CASES(new_results, 2000, 20000)
{
  const int nv = g.range(0, 6), nc = g.range(0, 6), ns = g.range(0, 6);
  const trajopt_sqp::SQPResults r(nv, nc, ns);
  auto is = [&](const Eigen::VectorXd& v, int n, double value, const char* what) {
    CHECK(v.size() == n && (v.array() == value).all(), << what << " of " << nv << " variables, " << nc << " constraints, " << ns << " costs");
  };
  is(r.best_var_vals, nv, 0, "best_var_vals");
  is(r.new_var_vals, nv, 0, "new_var_vals");
  is(r.box_size, nv, 1, "box_size");
  is(r.merit_error_coeffs, nc, 1, "merit_error_coeffs");
  is(r.best_constraint_violations, nc, 0, "best_constraint_violations");
  is(r.new_constraint_violations, nc, 0, "new_constraint_violations");
  is(r.best_approx_constraint_violations, nc, 0, "best_approx_constraint_violations");
  is(r.new_approx_constraint_violations, nc, 0, "new_approx_constraint_violations");
  is(r.best_costs, ns, 0, "best_costs");
  is(r.new_costs, ns, 0, "new_costs");
  is(r.best_approx_costs, ns, 0, "best_approx_costs");
  is(r.new_approx_costs, ns, 0, "new_approx_costs");
  CHECK(r.best_exact_merit == std::numeric_limits<double>::max() && r.overall_iteration == 0 && r.penalty_iteration == 0);
  g.nontrivial();
}
