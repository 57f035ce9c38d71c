// C14: a variable set is one vector, seen whole, per node and per variable
#include <set>

#include "ifopt_fixture.h"
#include <trajopt_ifopt/variable_sets/nodes_observer.h>

PBT_PROPERTY("C14",
             "Cases: random variable sets (1..4 nodes of 1..2 variables of 1..3 entries, every kind of bound, initial values inside and "
             "outside) and histories of up to 8 value changes; whole vector, nodes, variables, bounds, names and hash compared with a "
             "plain vector after every change. Non-trivial: at least three variables and a clamped initial value, or at least two "
             "changes.");

using namespace fx;

PBT_CASES(histories, 400000, 2000000)
{
  Layout l = genVars(g, 4, g.chance(1, 4));
  auto& v = *l.vars;
  const Eigen::Index n = static_cast<Eigen::Index>(l.initial.size());
  CHECK(v.getRows() == n && v.getDim() == n && v.getName() == "vars");
  Eigen::VectorXd want(n);
  bool clamped = false;
  for (Eigen::Index i = 0; i < n; ++i)
  {
    const double x = l.initial[static_cast<std::size_t>(i)];
    const Bounds& b = l.bounds[static_cast<std::size_t>(i)];
    want[i] = std::min(std::max(x, b.getLower()), b.getUpper());
    clamped = clamped || want[i] != x;
    g.log() << x << " in [" << b.getLower() << "," << b.getUpper() << "] ";
  }
  const auto vb = v.getBounds();
  CHECK(static_cast<Eigen::Index>(vb.size()) == n);
  for (std::size_t i = 0; i < vb.size(); ++i)
    CHECK(vb[i].getLower() == l.bounds[i].getLower() && vb[i].getUpper() == l.bounds[i].getUpper() && vb[i].getType() == l.bounds[i].getType(),
          << "bounds of entry " << i);

  auto check = [&](const char* what) {
    CHECK(v.getValues() == want, << what << ": " << pbt::mat(v.getValues()) << " instead of " << pbt::mat(want));
    Eigen::Index k = 0;
    std::size_t var = 0;
    const auto nodes = v.getNodes();
    for (std::size_t i = 0; i < nodes.size(); ++i)
    {
      CHECK(v.getNode(i) == nodes[i] && nodes[i]->getParent() == &v && nodes[i]->getName() == "node" + std::to_string(i));
      CHECK(nodes[i]->getValues() == want.segment(k, nodes[i]->size()), << what << ": node " << i);
      CHECK(static_cast<Eigen::Index>(nodes[i]->getBounds().size()) == nodes[i]->size());
      Eigen::Index end = k + nodes[i]->size();
      int in_node = 0;
      while (k < end)
      {
        CHECK(var < l.all.size());
        const auto& x = l.all[var++];
        CHECK(x->getIndex() == k, << what << ": variable " << var - 1 << " starts at " << x->getIndex() << " instead of " << k);
        CHECK(x->value() == want.segment(k, x->size()), << what << ": variable " << var - 1);
        CHECK(x->getParent() == nodes[i].get());
        CHECK(x->name().size() == static_cast<std::size_t>(x->size()) && x->bounds().size() == x->name().size());
        for (Eigen::Index e = 0; e < x->size(); ++e)
          CHECK(x->bounds()[static_cast<std::size_t>(e)].getLower() == l.bounds[static_cast<std::size_t>(k + e)].getLower());
        const std::string id = "v" + std::to_string(in_node++);
        CHECK(x->getIdentifier() == id && nodes[i]->hasVar(id) && nodes[i]->getVar(id) == x);
        k += x->size();
      }
      CHECK(!nodes[i]->hasVar("w"));
      CHECK_THROWS(nodes[i]->getVar("w"));
    }
    CHECK(k == n && var == l.all.size());
  };
  check("initially");
  std::vector<std::pair<Eigen::VectorXd, std::size_t>> seen{ { want, v.getHash() } };
  const int steps = g.count(0, 8, 30);
  for (int s = 0; s < steps; ++s)
  {
    switch (g.range(0, 3))
    {
      case 0:
        want = g.pick(seen).first;
        break;
      case 1:
        want[static_cast<Eigen::Index>(g.index(static_cast<std::size_t>(n)))] = g.num(9);
        break;
      case 2:
        if (n > 1)
          std::swap(want[static_cast<Eigen::Index>(g.index(static_cast<std::size_t>(n)))],
                    want[static_cast<Eigen::Index>(g.index(static_cast<std::size_t>(n)))]);
        break;
      default:
        want = genPoint(g, n, 9);
    }
    // the values set are kept as they are, bounds or not
    v.setVariables(want);
    check("after setting values");
    const std::size_t h = v.getHash();
    for (auto& e : seen)
    {
      // +0 and -0 hash differently; both answers are right
      if (e.first == want && (e.first.array() != 0).all())
        CHECK(e.second == h, << "the same values give two hashes");
      if (e.first != want)
        CHECK(e.second != h, << "different values give one hash: " << pbt::mat(e.first) << " and " << pbt::mat(want));
    }
    seen.emplace_back(want, h);
  }
  if ((l.all.size() >= 3 && clamped) || steps >= 2)
    g.nontrivial();
  if (clamped)
    g.label("clamped");
}

PBT_CASES(mismatched_sizes, 120000, 600000)
{
  Node node("n");
  const int a = g.count(1, 4, 15), b = g.count(1, 4, 15), c = g.count(1, 4, 15);
  std::vector<std::string> names(static_cast<std::size_t>(a), "x");
  const Eigen::VectorXd values = genPoint(g, b);
  std::vector<Bounds> bounds(static_cast<std::size_t>(c), NoBound);
  g.log() << a << " names " << b << " values " << c << " bounds";
  if (a == b && b == c)
  {
    node.addVar("v", names, values, bounds);
    CHECK(node.size() == a && node.getValues() == values);
  }
  else
  {
    g.nontrivial();
    CHECK_THROWS(node.addVar("v", names, values, bounds));
  }
}
