// C06: a convex model may be filled from several threads
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/solver_interface.hpp>

#include <atomic>
#include <set>
#include <thread>

#include "pbt.h"

PBT_PROPERTY("C06",
             "Cases: 2 to 6 threads that add variables (with and without bounds) and constraints and remove some of their own, in a "
             "random interleaving of yields, on one model; the program is built with ThreadSanitizer, which reports two accesses "
             "that no lock orders whatever the schedule was, and the final model is compared with the union of what the threads did. "
             "Non-trivial: at least two threads add a variable each, and something is removed.");

using namespace sco;

PBT_CASES(concurrent_edits, 30000, 500000)
{
  const int threads = g.range(2, 6);
  struct Step
  {
    int op;
    int arg;
    double lo, hi;
    int yields;
  };
  std::vector<std::vector<Step>> plan(static_cast<std::size_t>(threads));
  bool removes = false;
  int adders = 0;
  for (auto& p : plan)
  {
    const int k = g.range(1, 8);
    bool adds = false;
    for (int i = 0; i < k; ++i)
    {
      Step s;
      s.op = g.range(0, 5);
      s.arg = g.range(0, 7);
      s.lo = g.range(-8, 8) / 2.0;
      s.hi = s.lo + g.range(0, 4);
      s.yields = g.range(0, 3);
      adds = adds || s.op <= 1;
      removes = removes || s.op >= 4;
      p.push_back(s);
    }
    adders += adds ? 1 : 0;
  }
  if (adders >= 2 && removes)
    g.nontrivial();
  Model::Ptr model = createModel(ModelType(ModelType::BPMPD));
  const Var base = model->addVar("base", 0, 1);
  model->update();
  struct Mine
  {
    std::vector<std::pair<Var, std::pair<double, double>>> vars;
    std::vector<Cnt> cnts;
    std::size_t removed_cnts{ 0 };
  };
  std::vector<Mine> mine(plan.size());
  std::atomic<int> ready{ 0 };
  std::vector<std::thread> pool;
  for (std::size_t t = 0; t < plan.size(); ++t)
    pool.emplace_back([&, t]() {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < threads)
        std::this_thread::yield();
      Mine& m = mine[t];
      for (auto& s : plan[t])
      {
        for (int y = 0; y < s.yields; ++y)
          std::this_thread::yield();
        const std::string name = "t" + std::to_string(t) + "_" + std::to_string(m.vars.size());
        switch (s.op)
        {
          case 0:
            m.vars.emplace_back(model->addVar(name, s.lo, s.hi), std::make_pair(s.lo, s.hi));
            break;
          case 1:
            m.vars.emplace_back(model->addVar(name), std::make_pair(-1e30, 1e30));
            break;
          case 2:
            m.cnts.push_back(model->addIneqCnt(base - (5.0 + s.arg), name));
            break;
          case 3:
            m.cnts.push_back(model->addEqCnt(base - 0.25, name));
            break;
          case 4:
            if (!m.vars.empty())
            {
              model->removeVar(m.vars.back().first);
              m.vars.pop_back();
            }
            break;
          default:
            if (!m.cnts.empty())
            {
              model->removeCnt(m.cnts.back());
              m.cnts.pop_back();
            }
        }
      }
    });
  for (auto& t : pool)
    t.join();
  model->update();
  // every variable is there once, at the index it has been given
  const VarVector all = model->getVars();
  std::set<VarRep*> seen;
  for (std::size_t i = 0; i < all.size(); ++i)
  {
    CHECK(all[i].var_rep != nullptr && all[i].var_rep->index == i);
    CHECK(seen.insert(all[i].var_rep.get()).second);
  }
  std::size_t want = 1;
  CHECK(seen.count(base.var_rep.get()));
  for (std::size_t t = 0; t < mine.size(); ++t)
    for (std::size_t i = 0; i < mine[t].vars.size(); ++i)
    {
      CHECK(seen.count(mine[t].vars[i].first.var_rep.get()), << "variable " << i << " of thread " << t << " is missing");
      ++want;
    }
  CHECK(all.size() == want, << "the model has " << all.size() << " variables, not " << want);
  std::set<std::size_t> idx;
  bool eq = false;
  for (auto& m : mine)
    for (auto& c : m.cnts)
      CHECK(idx.insert(c.cnt_rep->index).second, << "two constraints have the index " << c.cnt_rep->index);
  if (!idx.empty())
    CHECK(*idx.rbegin() + 1 == idx.size(), << "constraint indices have gaps");
  // the bounds are those of the variable: pull every variable towards a point of its own
  QuadExpr obj;
  std::vector<std::pair<Var, double>> expect;
  for (auto& m : mine)
    for (auto& v : m.vars)
    {
      const double target = expect.size() % 2 ? 20.0 : -20.0;
      exprInc(obj, exprSquare(v.first - target));
      expect.emplace_back(v.first, std::min(std::max(target, v.second.first), v.second.second));
    }
  exprInc(obj, exprSquare(base - 0.25));
  model->setObjective(obj);
  CHECK(model->optimize() == CVX_SOLVED);
  for (auto& e : expect)
    CHECK_NEAR(model->getVarValue(e.first), e.second, 0.05, 0.01, << "variable " << e.first);
}
