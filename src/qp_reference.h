// Reference solution of   min 1/2 x'Hx + c'x   s.t.  lb <= x <= ub,  A_eq x = b_eq,  A_in x <= b_in
// by enumeration of the active sets of a small convex problem (every finite bound, every inequality). The minimum is
// attained on a face with a non-singular KKT system when H is positive definite or every bound is finite.
#ifndef VERIF_QP_REFERENCE_H
#define VERIF_QP_REFERENCE_H
#include <Eigen/Dense>

#include <cmath>
#include <limits>
#include <vector>

namespace qpref
{
struct QP
{
  Eigen::MatrixXd H;
  Eigen::VectorXd c;
  Eigen::VectorXd lb, ub;
  Eigen::MatrixXd Aeq, Ain;
  Eigen::VectorXd beq, bin;
  double value(const Eigen::VectorXd& x) const { return 0.5 * x.dot(H * x) + c.dot(x); }
  // largest violation of a bound or constraint
  double violation(const Eigen::VectorXd& x) const
  {
    double v = 0;
    for (Eigen::Index i = 0; i < x.size(); ++i)
      v = std::max({ v, lb[i] - x[i], x[i] - ub[i] });
    if (beq.size() > 0)
      v = std::max(v, (Aeq * x - beq).cwiseAbs().maxCoeff());
    if (bin.size() > 0)
      v = std::max(v, (Ain * x - bin).maxCoeff());
    return v;
  }
};
struct Answer
{
  bool feasible{ false };
  double value{ std::numeric_limits<double>::infinity() };
  Eigen::VectorXd x;
};
inline Answer solve(const QP& q, double tol = 1e-7)
{
  Answer best;
  const Eigen::Index n = q.c.size(), me = q.beq.size(), mi = q.bin.size();
  std::vector<int> side(static_cast<std::size_t>(n), 0);  // 0 free, 1 at lb, 2 at ub
  while (true)
  {
    std::vector<Eigen::Index> fr;
    Eigen::VectorXd x0 = Eigen::VectorXd::Zero(n);
    bool ok = true;
    for (Eigen::Index i = 0; i < n; ++i)
    {
      const int s = side[static_cast<std::size_t>(i)];
      if (s == 0)
        fr.push_back(i);
      else
      {
        x0[i] = s == 1 ? q.lb[i] : q.ub[i];
        ok = ok && std::fabs(x0[i]) < 1e10 && !(s == 2 && q.lb[i] == q.ub[i]);
      }
    }
    const auto nf = static_cast<Eigen::Index>(fr.size());
    if (ok)
      for (long mask = 0; mask < (1L << mi); ++mask)
      {
        const Eigen::Index ma = __builtin_popcountl(static_cast<unsigned long>(mask));
        if (ma > nf)
          continue;
        const Eigen::Index k = nf + me + ma;
        Eigen::VectorXd x = x0;
        if (nf > 0)
        {
          Eigen::MatrixXd K = Eigen::MatrixXd::Zero(k, k);
          Eigen::VectorXd r = Eigen::VectorXd::Zero(k);
          const Eigen::VectorXd g0 = q.H * x0 + q.c;
          for (Eigen::Index i = 0; i < nf; ++i)
          {
            r[i] = -g0[fr[static_cast<std::size_t>(i)]];
            for (Eigen::Index j = 0; j < nf; ++j)
              K(i, j) = q.H(fr[static_cast<std::size_t>(i)], fr[static_cast<std::size_t>(j)]);
          }
          Eigen::Index row = nf;
          auto put = [&](const Eigen::MatrixXd& A, Eigen::Index a, double b) {
            for (Eigen::Index j = 0; j < nf; ++j)
              K(row, j) = K(j, row) = A(a, fr[static_cast<std::size_t>(j)]);
            r[row] = b - A.row(a).dot(x0);
            ++row;
          };
          for (Eigen::Index e = 0; e < me; ++e)
            put(q.Aeq, e, q.beq[e]);
          for (Eigen::Index e = 0; e < mi; ++e)
            if ((mask >> e) & 1)
              put(q.Ain, e, q.bin[e]);
          // rank revealing: dependent equality rows are fine as long as the system is consistent
          Eigen::FullPivLU<Eigen::MatrixXd> lu(K);
          const Eigen::VectorXd s = lu.solve(r);
          if (!s.allFinite() || (K * s - r).cwiseAbs().maxCoeff() > 1e-8 * (1 + r.cwiseAbs().maxCoeff()))
            continue;
          for (Eigen::Index i = 0; i < nf; ++i)
            x[fr[static_cast<std::size_t>(i)]] = s[i];
        }
        if (q.violation(x) > tol)
          continue;
        const double v = q.value(x);
        if (!best.feasible || v < best.value)
          best = { true, v, x };
      }
    std::size_t i = 0;
    while (i < side.size() && ++side[i] == 3)
      side[i++] = 0;
    if (i == side.size())
      break;
  }
  return best;
}
}  // namespace qpref
#endif
