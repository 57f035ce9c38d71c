// C12: every way to name a solver selects that solver
#include <json/json.h>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/solver_interface.hpp>

#include <cstdlib>
#include <set>

#include "pbt.h"

PBT_PROPERTY("C12",
             "Cases: the solver types with their names through text, JSON, streams and integers and back (all of them), random names "
             "that are none, and random combinations of requested type and environment variable for creating a model, judged against "
             "the selection rule. Non-trivial: a name that is a solver's, or an environment variable that is set.");

using namespace sco;

namespace
{
const std::vector<std::pair<std::string, ModelType::Value>>& table()
{
  static const std::vector<std::pair<std::string, ModelType::Value>> t{ { "GUROBI", ModelType::GUROBI },
                                                                        { "OSQP", ModelType::OSQP },
                                                                        { "QPOASES", ModelType::QPOASES },
                                                                        { "BPMPD", ModelType::BPMPD },
                                                                        { "AUTO_SOLVER", ModelType::AUTO_SOLVER } };
  return t;
}
}  // namespace

PBT_FIXED(names)
{
  for (auto& e : table())
  {
    const ModelType v(e.second);
    CHECK(static_cast<int>(v) == static_cast<int>(e.second));
    CHECK(pbt::str(v) == e.first, << "the solver " << e.first << " prints as " << v);
    const ModelType s(e.first);
    CHECK(s == e.second && s == v && !(s != v), << "the name " << e.first << " gives solver number " << static_cast<int>(s));
    ModelType j;
    CHECK(j == ModelType::AUTO_SOLVER);
    j.fromJson(Json::Value(e.first));
    CHECK(j == e.second, << "the JSON name " << e.first << " gives " << j);
    CHECK(ModelType(static_cast<int>(e.second)) == e.second);
    for (auto& f : table())
      CHECK((ModelType(e.first) == ModelType(f.first)) == (e.second == f.second) &&
            (ModelType(e.first) != ModelType(f.first)) == (e.second != f.second));
  }
  CHECK(ModelType::MODEL_NAMES_.size() == table().size());
  const auto avail = availableSolvers();
  CHECK(!avail.empty());
  std::set<int> once;
  for (auto& a : avail)
  {
    CHECK(once.insert(static_cast<int>(a)).second && !(a == ModelType::AUTO_SOLVER));
    CHECK(createModel(a) != nullptr);
  }
  for (auto& e : table())
    if (e.second != ModelType::AUTO_SOLVER && once.count(static_cast<int>(e.second)) == 0)
      CHECK_THROWS(createModel(e.second), << e.first << " is not available");
}

PBT_CASES(text, 1500000, 6000000)
{
  std::string s;
  if (g.boolean())
  {
    s = g.pick(table()).first;
    const int edits = g.range(0, 2);
    for (int i = 0; i < edits && !s.empty(); ++i)
      switch (g.range(0, 3))
      {
        case 0:
          s.erase(g.index(s.size()), 1);
          break;
        case 1:
          s.insert(g.index(s.size() + 1), 1, static_cast<char>('A' + g.range(0, 25)));
          break;
        case 2:
          s[g.index(s.size())] ^= 32;
          break;
        default:
          s += " ";
      }
  }
  else
    s = g.name(12);
  g.log() << '"' << s << '"';
  const std::pair<std::string, ModelType::Value>* hit = nullptr;
  for (auto& e : table())
    if (e.first == s)
      hit = &e;
  if (hit)
  {
    g.nontrivial();
    CHECK(ModelType(s) == hit->second);
    ModelType m(g.pick(table()).second);
    m.fromJson(Json::Value(s));
    CHECK(m == hit->second);
  }
  else
  {
    CHECK_THROWS(ModelType(s), << "not a solver");
    const auto before = g.pick(table()).second;
    ModelType m(before);
    CHECK_THROWS(m.fromJson(Json::Value(s)), << "not a solver");
    CHECK(m == before, << "a failed assignment changes the type");
  }
}

PBT_CASES(number_out_of_range, 100, 100)
{
  const int v = g.range(5, 255);
  const ModelType m(v);
  g.log() << v;
  g.nontrivial();
  std::ostringstream o;
  CHECK_THROWS(o << m, << "printed as " << o.str());
}

PBT_CASES(selection, 500000, 2000000)
{
  const auto& want = g.pick(table());
  std::string env;
  const int mode = g.range(0, 3);
  if (mode == 0)
    unsetenv("TRAJOPT_CONVEX_SOLVER");
  else
  {
    env = mode == 1 ? g.name(6) : g.pick(table()).first;
    setenv("TRAJOPT_CONVEX_SOLVER", env.c_str(), 1);
    g.nontrivial();
  }
  g.log() << "request " << want.first << " environment " << (mode ? env : "unset");
  // the rule: an explicit request wins; else the environment; else the first available solver
  std::string name = want.first;
  bool bad = false;
  if (name == "AUTO_SOLVER")
  {
    if (mode == 0 || env == "AUTO_SOLVER")
      name = pbt::str(availableSolvers()[0]);
    else
    {
      name = env;
      bad = true;
      for (auto& e : table())
        bad = bad && e.first != env;
    }
  }
  bool have = false;
  for (auto& a : availableSolvers())
    have = have || pbt::str(a) == name;
  if (bad || !have)
  {
    CHECK_THROWS(createModel(want.second), << "solver " << name << " cannot be made");
    if (want.second != ModelType::AUTO_SOLVER || g.boolean())
      CHECK_THROWS(OptProb(want.second));
  }
  else
  {
    Model::Ptr m = createModel(want.second);
    CHECK(m != nullptr);
    CHECK((dynamic_cast<BPMPDModel*>(m.get()) != nullptr) == (name == "BPMPD"), << "the wrong solver");
  }
  unsetenv("TRAJOPT_CONVEX_SOLVER");
}
