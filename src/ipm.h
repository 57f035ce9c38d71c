// A dense primal-dual interior-point solver (Mehrotra) of
//   min 1/2 x'Hx + c'x   s.t.  lb <= x <= ub,  A_eq x = b_eq,  A_in x <= b_in
// Plain arrays; compiled without instrumentation (ipm.cpp).
#ifndef VERIF_IPM_H
#define VERIF_IPM_H
#include <vector>

namespace ipm
{
using Vec = std::vector<double>;
struct Problem
{
  int n{ 0 };
  Vec H;  // n x n, row major
  Vec c, lb, ub;
  std::vector<Vec> Aeq, Ain;
  Vec beq, bin;
  explicit Problem(int n_ = 0);
  double value(const Vec& x) const;
  double violation(const Vec& x) const;
};
struct Answer
{
  bool ok{ false };
  double value{ 0 };
  double gap{ 0 };
  Vec x;
  int iterations{ 0 };
};
Answer solve(const Problem& p);
// the same problem with x[i] = v[i] for i < v.size()
Answer solveFixed(const Problem& p, const Vec& v);
}  // namespace ipm
#endif
