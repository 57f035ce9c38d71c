// The SQP solver's local models: AffExprs and QuadExprs against dense closed forms, with the containers used again and again
// for problems of other sizes (they keep buffers).
#include "pbt.h"

#include <Eigen/Dense>
#include <trajopt_sqp/expressions.h>

using trajopt_ifopt::Jacobian;
using trajopt_sqp::AffExprs;
using trajopt_sqp::QuadExprs;

PBT_PROPERTY("C19", "a container is used again for a problem of another size, or a model mixes rows with and without curvature");

namespace
{
Eigen::VectorXd vec(pbt::Gen& g, Eigen::Index n, double mag)
{
  Eigen::VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v[i] = g.num(mag);
  return v;
}
// A sparse matrix with a random pattern; entries of value zero may be stored
Jacobian sparse(pbt::Gen& g, const Eigen::MatrixXd& d, bool store_zeros)
{
  Jacobian s(d.rows(), d.cols());
  std::vector<Eigen::Triplet<double>> t;
  for (Eigen::Index r = 0; r < d.rows(); ++r)
    for (Eigen::Index c = 0; c < d.cols(); ++c)
      if (d(r, c) != 0 || store_zeros)
        t.emplace_back(static_cast<int>(r), static_cast<int>(c), d(r, c));
  s.setFromTriplets(t.begin(), t.end());
  if (g.chance(1, 4))
    s.uncompress();
  return s;
}
Eigen::MatrixXd matrix(pbt::Gen& g, Eigen::Index m, Eigen::Index n)
{
  Eigen::MatrixXd d = Eigen::MatrixXd::Zero(m, n);
  for (Eigen::Index r = 0; r < m; ++r)
    if (!g.chance(1, 5))  // an empty row
      for (Eigen::Index c = 0; c < n; ++c)
        d(r, c) = g.num(4);
  return d;
}
bool sameMatrix(const Jacobian& s, const Eigen::MatrixXd& d, double tol)
{
  return s.rows() == d.rows() && s.cols() == d.cols() && (Eigen::MatrixXd(s) - d).cwiseAbs().sum() <= tol;
}
}  // namespace

PBT_CASES(affine_models, 100000, 2000000)
{
  AffExprs aff;
  QuadExprs quad = g.boolean() ? QuadExprs() : QuadExprs(g.range(0, 3), g.range(1, 4));
  Eigen::Index last_m = -1, last_n = -1;
  const int rounds = g.range(1, 4);
  for (int k = 0; k < rounds; ++k)
  {
    const Eigen::Index m = g.count(0, 5, 30), n = g.count(1, 6, 20);
    const Eigen::VectorXd e = vec(g, m, 8), x0 = vec(g, n, 4);
    const Eigen::MatrixXd J = matrix(g, m, n);
    const bool zeros = g.chance(1, 4);
    const Jacobian Js = sparse(g, J, zeros);
    g.log() << "e " << pbt::mat(e) << " J " << pbt::mat(J) << " at " << pbt::mat(x0) << "\n";
    aff.create(e, Js, x0);
    CHECK(sameMatrix(aff.linear_coeffs, J, 0), << "the linear part is the Jacobian");
    CHECK(aff.constants.size() == m);
    const double tol = 1e-10 * (1 + J.cwiseAbs().sum()) * 64;
    Eigen::VectorXd weights(m);
    for (Eigen::Index i = 0; i < m; ++i)
      weights[i] = g.chance(1, 5) ? 0.0 : std::fabs(g.num(5));
    const Eigen::VectorXd c0 = aff.constants;
    aff.square(quad, weights);
    CHECK(aff.constants == c0 && sameMatrix(aff.linear_coeffs, J, 0), << "squaring changed the expressions it squares");
    CHECK(quad.constants.size() == m && static_cast<Eigen::Index>(quad.quadratic_coeffs.size()) == m);
    CHECK(quad.objective_linear_coeffs.size() == n);
    for (int p = 0; p < 3; ++p)
    {
      const Eigen::VectorXd x = p == 0 ? x0 : vec(g, n, 6);
      Eigen::VectorXd got(m), sq(m);
      aff.values(got, x);
      const Eigen::VectorXd want = e + J * (x - x0);
      for (Eigen::Index i = 0; i < m; ++i)
        CHECK_NEAR(got[i], want[i], tol, 1e-10, << "row " << i << " at " << pbt::mat(x));
      quad.values(sq, x);
      for (Eigen::Index i = 0; i < m; ++i)
        CHECK_NEAR(sq[i], weights[i] * want[i] * want[i], 1e-7, 1e-9, << "squared row " << i << " at " << pbt::mat(x));
      const Eigen::MatrixXd H(quad.objective_quadratic_coeffs);
      CHECK(H.rows() == n && H.cols() == n);
      CHECK_NEAR(quad.constants.sum() + quad.objective_linear_coeffs.dot(x) + x.dot(H * x),
                 (weights.array() * want.array().square()).sum(), 1e-6, 1e-9,
                 << "the sum of the squares as one objective at " << pbt::mat(x));
    }
    if (last_m >= 0 && (m != last_m || n != last_n) && m > 0)
      g.nontrivial();
    last_m = m;
    last_n = n;
  }
}

PBT_CASES(quadratic_models, 100000, 2000000)
{
  QuadExprs quad = g.boolean() ? QuadExprs() : QuadExprs(g.range(0, 3), g.range(1, 4));
  const int rounds = g.range(1, 3);
  for (int k = 0; k < rounds; ++k)
  {
    const Eigen::Index m = g.count(0, 4, 20), n = g.count(1, 4, 14);
    if (g.chance(1, 4))
    {
      // what the container held before: a square of affine expressions
      AffExprs aff;
      const Eigen::Index ma = g.count(0, 4, 20), na = g.count(1, 4, 14);
      aff.create(vec(g, ma, 3), sparse(g, matrix(g, ma, na), false), vec(g, na, 3));
      aff.square(quad, Eigen::VectorXd::Ones(ma));
    }
    const Eigen::VectorXd e = vec(g, m, 8), x0 = vec(g, n, 4);
    const Eigen::MatrixXd J = matrix(g, m, n);
    std::vector<Eigen::MatrixXd> H;
    std::vector<Jacobian> Hs;
    bool curved = false, flat = false;
    for (Eigen::Index i = 0; i < m; ++i)
    {
      Eigen::MatrixXd h = matrix(g, n, n);
      h = (h + h.transpose()).eval() / 2;
      if (g.chance(1, 3))
        h.setZero();
      (h.isZero(0) ? flat : curved) = true;
      H.push_back(h);
      Hs.push_back(sparse(g, h, g.chance(1, 4)));
      g.log() << "H " << pbt::mat(h) << "\n";
    }
    g.log() << "e " << pbt::mat(e) << " J " << pbt::mat(J) << " at " << pbt::mat(x0) << "\n";
    quad.create(e, sparse(g, J, g.chance(1, 4)), Hs, x0);
    CHECK(quad.constants.size() == m && static_cast<Eigen::Index>(quad.quadratic_coeffs.size()) == m);
    CHECK(quad.linear_coeffs.rows() == m && quad.linear_coeffs.cols() == n);
    for (Eigen::Index i = 0; i < m; ++i)
    {
      const Jacobian& Q = quad.quadratic_coeffs[static_cast<std::size_t>(i)];
      CHECK(H[i].isZero(0) ? (Q.nonZeros() == 0 || Eigen::MatrixXd(Q).isZero(0)) : sameMatrix(Q, 0.5 * H[i], 1e-12),
            << "half the Hessian of row " << i);
    }
    for (int p = 0; p < 4; ++p)
    {
      const Eigen::VectorXd d = p == 0 ? Eigen::VectorXd(Eigen::VectorXd::Zero(n)) : vec(g, n, 5);
      Eigen::VectorXd got(m);
      quad.values(got, x0 + d);
      for (Eigen::Index i = 0; i < m; ++i)
        CHECK_NEAR(got[i], e[i] + J.row(i).dot(d) + 0.5 * d.dot(H[static_cast<std::size_t>(i)] * d), 1e-8, 1e-9,
                   << "row " << i << " at distance " << pbt::mat(d.transpose()));
    }
    if (curved && (flat || k))
      g.nontrivial();
  }
}
