// Random smooth functions with exact derivatives
#ifndef VERIF_SMOOTH_H
#define VERIF_SMOOTH_H
#include <Eigen/Dense>

#include <cmath>

#include "pbt.h"

// c + b.x + 1/2 x'Ax + sum_k a_k sin(w_k.x + p_k)
struct Smooth
{
  double c{ 0 };
  Eigen::VectorXd b;
  Eigen::MatrixXd A;
  std::vector<double> amp, phase;
  std::vector<Eigen::VectorXd> w;

  static Smooth make(pbt::Gen& g, int n, bool linear = false)
  {
    Smooth s;
    s.c = g.num(3);
    s.b.resize(n);
    s.A = Eigen::MatrixXd::Zero(n, n);
    for (int i = 0; i < n; ++i)
      s.b[i] = g.num(3);
    if (linear)
      return s;
    if (g.boolean())
      for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j)
          s.A(i, j) = s.A(j, i) = g.num(2);
    const int k = g.range(0, 2);
    for (int t = 0; t < k; ++t)
    {
      s.amp.push_back(g.num(2));
      s.phase.push_back(g.num(3));
      Eigen::VectorXd w(n);
      for (int i = 0; i < n; ++i)
        w[i] = g.num(1.5);
      s.w.push_back(w);
    }
    return s;
  }
  double operator()(const Eigen::VectorXd& x) const
  {
    double v = c + b.dot(x) + 0.5 * x.dot(A * x);
    for (std::size_t k = 0; k < amp.size(); ++k)
      v += amp[k] * std::sin(w[k].dot(x) + phase[k]);
    return v;
  }
  Eigen::VectorXd grad(const Eigen::VectorXd& x) const
  {
    Eigen::VectorXd r = b + A * x;
    for (std::size_t k = 0; k < amp.size(); ++k)
      r += amp[k] * std::cos(w[k].dot(x) + phase[k]) * w[k];
    return r;
  }
  Eigen::MatrixXd hess(const Eigen::VectorXd& x) const
  {
    Eigen::MatrixXd r = A;
    for (std::size_t k = 0; k < amp.size(); ++k)
      r -= amp[k] * std::sin(w[k].dot(x) + phase[k]) * w[k] * w[k].transpose();
    return r;
  }
};
struct SmoothVec
{
  std::vector<Smooth> f;
  static SmoothVec make(pbt::Gen& g, int m, int n, bool linear = false)
  {
    SmoothVec v;
    for (int i = 0; i < m; ++i)
      v.f.push_back(Smooth::make(g, n, linear));
    return v;
  }
  Eigen::VectorXd operator()(const Eigen::VectorXd& x) const
  {
    Eigen::VectorXd r(static_cast<Eigen::Index>(f.size()));
    for (std::size_t i = 0; i < f.size(); ++i)
      r[static_cast<Eigen::Index>(i)] = f[i](x);
    return r;
  }
  Eigen::MatrixXd jac(const Eigen::VectorXd& x) const
  {
    Eigen::MatrixXd r(static_cast<Eigen::Index>(f.size()), x.size());
    for (std::size_t i = 0; i < f.size(); ++i)
      r.row(static_cast<Eigen::Index>(i)) = f[i].grad(x).transpose();
    return r;
  }
};
#endif
