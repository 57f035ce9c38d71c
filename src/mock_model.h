// A convex model that records what it is given (no solver behind it)
#ifndef VERIF_MOCK_MODEL_H
#define VERIF_MOCK_MODEL_H
#include <trajopt_sco/solver_interface.hpp>

#include <map>
#include <vector>

#include "qp_reference.h"

struct MockModel : sco::Model
{
  struct V
  {
    sco::Var v;
    double lb, ub;
    bool live;
  };
  struct C
  {
    sco::Cnt c;
    sco::AffExpr e;
    bool eq;
    bool live;
  };
  std::vector<V> vars;
  std::vector<C> cnts;
  sco::QuadExpr objective;
  int unknown{ 0 };  // removals of something that is not there

  sco::Var addVar(const std::string& name) override
  {
    vars.push_back({ sco::Var(std::make_shared<sco::VarRep>(vars.size(), name, this)), -INFINITY, INFINITY, true });
    return vars.back().v;
  }
  using sco::Model::addVar;
  sco::Cnt addEqCnt(const sco::AffExpr& e, const std::string&) override { return add(e, true); }
  sco::Cnt addIneqCnt(const sco::AffExpr& e, const std::string&) override { return add(e, false); }
  sco::Cnt addIneqCnt(const sco::QuadExpr&, const std::string&) override { throw std::runtime_error("not supported"); }
  void removeVars(const sco::VarVector& vs) override
  {
    for (auto& v : vs)
    {
      bool found = false;
      for (auto& e : vars)
        if (e.live && e.v.var_rep == v.var_rep)
        {
          e.live = false;
          found = true;
        }
      unknown += found ? 0 : 1;
    }
  }
  void removeCnts(const sco::CntVector& cs) override
  {
    for (auto& c : cs)
    {
      bool found = false;
      for (auto& e : cnts)
        if (e.live && e.c.cnt_rep == c.cnt_rep)
        {
          e.live = false;
          found = true;
        }
      unknown += found ? 0 : 1;
    }
  }
  void update() override {}
  void setVarBounds(const sco::VarVector& vs, const sco::DblVec& lo, const sco::DblVec& hi) override
  {
    for (std::size_t i = 0; i < vs.size(); ++i)
    {
      vars[vs[i].var_rep->index].lb = lo[i];
      vars[vs[i].var_rep->index].ub = hi[i];
    }
  }
  sco::DblVec getVarValues(const sco::VarVector&) const override { throw std::runtime_error("not supported"); }
  sco::CvxOptStatus optimize() override { return sco::CVX_FAILED; }
  void setObjective(const sco::AffExpr& e) override { objective = sco::QuadExpr(e); }
  void setObjective(const sco::QuadExpr& e) override { objective = e; }
  void writeToFile(const std::string&) const override {}
  sco::VarVector getVars() const override
  {
    sco::VarVector out;
    for (auto& v : vars)
      if (v.live)
        out.push_back(v.v);
    return out;
  }
  std::size_t liveVars() const
  {
    std::size_t n = 0;
    for (auto& v : vars)
      n += v.live ? 1 : 0;
    return n;
  }
  std::size_t liveCnts() const
  {
    std::size_t n = 0;
    for (auto& c : cnts)
      n += c.live ? 1 : 0;
    return n;
  }
  // min over the other live variables of `obj` under the live constraints, with the first `x.size()` variables fixed at x
  qpref::Answer minimum(const sco::QuadExpr& obj, const std::vector<double>& x, double& constant) const
  {
    return qpref::solve(restricted(obj, x, constant));
  }
  qpref::QP restricted(const sco::QuadExpr& obj, const std::vector<double>& x, double& constant) const
  {
    std::vector<std::size_t> aux;
    std::map<std::size_t, Eigen::Index> at;
    for (std::size_t i = x.size(); i < vars.size(); ++i)
      if (vars[i].live)
      {
        at[i] = static_cast<Eigen::Index>(aux.size());
        aux.push_back(i);
      }
    const auto n = static_cast<Eigen::Index>(aux.size());
    qpref::QP q;
    q.H = Eigen::MatrixXd::Zero(n, n);
    q.c = Eigen::VectorXd::Zero(n);
    q.lb.resize(n);
    q.ub.resize(n);
    for (Eigen::Index i = 0; i < n; ++i)
    {
      q.lb[i] = vars[aux[static_cast<std::size_t>(i)]].lb;
      q.ub[i] = vars[aux[static_cast<std::size_t>(i)]].ub;
    }
    auto index = [&](const sco::Var& v) -> Eigen::Index {
      if (v.var_rep->index < x.size())
        return -1;
      auto it = at.find(v.var_rep->index);
      if (it == at.end())
        throw std::runtime_error("an expression uses variable " + v.var_rep->name + " that is not in the model");
      return it->second;
    };
    constant = obj.affexpr.constant;
    auto lin = [&](const sco::AffExpr& e, auto row, double& c) {
      for (std::size_t i = 0; i < e.size(); ++i)
      {
        const auto k = index(e.vars[i]);
        if (k < 0)
          c += e.coeffs[i] * x[e.vars[i].var_rep->index];
        else
          row[k] += e.coeffs[i];
      }
    };
    lin(obj.affexpr, q.c.data(), constant);
    for (std::size_t i = 0; i < obj.size(); ++i)
    {
      const auto a = index(obj.vars1[i]), b = index(obj.vars2[i]);
      const double va = a < 0 ? x[obj.vars1[i].var_rep->index] : 0, vb = b < 0 ? x[obj.vars2[i].var_rep->index] : 0;
      if (a < 0 && b < 0)
        constant += obj.coeffs[i] * va * vb;
      else if (a < 0)
        q.c[b] += obj.coeffs[i] * va;
      else if (b < 0)
        q.c[a] += obj.coeffs[i] * vb;
      else
      {
        q.H(a, b) += obj.coeffs[i];
        q.H(b, a) += obj.coeffs[i];
      }
    }
    Eigen::Index me = 0, mi = 0;
    for (auto& c : cnts)
      if (c.live)
        (c.eq ? me : mi)++;
    q.Aeq = Eigen::MatrixXd::Zero(me, n);
    q.beq = Eigen::VectorXd::Zero(me);
    q.Ain = Eigen::MatrixXd::Zero(mi, n);
    q.bin = Eigen::VectorXd::Zero(mi);
    Eigen::Index ie = 0, ii = 0;
    for (auto& c : cnts)
      if (c.live)
      {
        Eigen::VectorXd row = Eigen::VectorXd::Zero(n);
        double k = c.e.constant;
        lin(c.e, row.data(), k);
        if (c.eq)
        {
          q.Aeq.row(ie) = row.transpose();
          q.beq[ie++] = -k;
        }
        else
        {
          q.Ain.row(ii) = row.transpose();
          q.bin[ii++] = -k;
        }
      }
    return q;
  }

private:
  sco::Cnt add(const sco::AffExpr& e, bool eq)
  {
    cnts.push_back({ sco::Cnt(std::make_shared<sco::CntRep>(cnts.size(), this)), e, eq, true });
    return cnts.back().c;
  }
};
#endif
