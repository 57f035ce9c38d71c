// The value of the local model of a cost at a point: the least value over the variables the model adds
#ifndef VERIF_LOCAL_MODEL_H
#define VERIF_LOCAL_MODEL_H
#include <trajopt_sco/modeling.hpp>

#include "ipm.h"
#include "mock_model.h"
#include "pbt.h"

inline double modelAt(pbt::Gen& g, sco::Cost& cost, const sco::DblVec& about, const sco::DblVec& x)
{
  MockModel m;
  for (std::size_t i = 0; i < x.size(); ++i)
    m.addVar("x" + std::to_string(i));
  sco::ConvexObjective::Ptr o = cost.convex(about, &m);
  o->addConstraintsToModel();
  double constant = 0;
  const qpref::QP q = m.restricted(o->quad_, x, constant);
  o->removeFromModel();
  const int n = static_cast<int>(q.c.size());
  if (n == 0)
    return constant;
  ipm::Problem p(n);
  for (int i = 0; i < n; ++i)
  {
    p.c[static_cast<std::size_t>(i)] = q.c[i];
    p.lb[static_cast<std::size_t>(i)] = q.lb[i];
    p.ub[static_cast<std::size_t>(i)] = q.ub[i];
    for (int j = 0; j < n; ++j)
      p.H[static_cast<std::size_t>(i * n + j)] = q.H(i, j);
  }
  auto rows = [n](const Eigen::MatrixXd& A, std::vector<ipm::Vec>& out) {
    for (Eigen::Index r = 0; r < A.rows(); ++r)
    {
      ipm::Vec v(static_cast<std::size_t>(n));
      for (int j = 0; j < n; ++j)
        v[static_cast<std::size_t>(j)] = A(r, j);
      out.push_back(v);
    }
  };
  rows(q.Aeq, p.Aeq);
  rows(q.Ain, p.Ain);
  for (Eigen::Index r = 0; r < q.beq.size(); ++r)
    p.beq.push_back(q.beq[r]);
  for (Eigen::Index r = 0; r < q.bin.size(); ++r)
    p.bin.push_back(q.bin[r]);
  const ipm::Answer a = ipm::solve(p);
  CHECK(a.ok, << "the local model of the cost has no minimum");
  return constant + a.value;
}
#endif
