#include "ipm.h"

#include <algorithm>
#include <cmath>

namespace ipm
{
Problem::Problem(int n_)
  : n(n_), H(static_cast<std::size_t>(n_) * n_, 0.0), c(n_, 0.0), lb(n_, -INFINITY), ub(n_, INFINITY)
{
}
double Problem::value(const Vec& x) const
{
  double v = 0;
  for (int i = 0; i < n; ++i)
  {
    double r = 0;
    for (int j = 0; j < n; ++j)
      r += H[i * n + j] * x[j];
    v += x[i] * (0.5 * r + c[i]);
  }
  return v;
}
double Problem::violation(const Vec& x) const
{
  double v = 0;
  for (int i = 0; i < n; ++i)
    v = std::max({ v, lb[i] - x[i], x[i] - ub[i] });
  for (std::size_t r = 0; r < Aeq.size(); ++r)
  {
    double s = -beq[r];
    for (int j = 0; j < n; ++j)
      s += Aeq[r][j] * x[j];
    v = std::max(v, std::fabs(s));
  }
  for (std::size_t r = 0; r < Ain.size(); ++r)
  {
    double s = -bin[r];
    for (int j = 0; j < n; ++j)
      s += Ain[r][j] * x[j];
    v = std::max(v, s);
  }
  return v;
}

namespace
{
// LU with partial pivoting, in place; K is m x m
struct LU
{
  int m{ 0 };
  Vec a;
  std::vector<int> p;
  bool factor(Vec k, int m_)
  {
    m = m_;
    a.swap(k);
    p.resize(m);
    for (int c = 0; c < m; ++c)
    {
      int b = c;
      for (int r = c + 1; r < m; ++r)
        if (std::fabs(a[r * m + c]) > std::fabs(a[b * m + c]))
          b = r;
      p[c] = b;
      if (!(std::fabs(a[b * m + c]) > 1e-300))
        return false;
      if (b != c)
        for (int j = 0; j < m; ++j)
          std::swap(a[b * m + j], a[c * m + j]);
      const double d = 1 / a[c * m + c];
      for (int r = c + 1; r < m; ++r)
      {
        const double f = a[r * m + c] * d;
        if (f == 0)
          continue;
        a[r * m + c] = f;
        for (int j = c + 1; j < m; ++j)
          a[r * m + j] -= f * a[c * m + j];
      }
    }
    return true;
  }
  void solve(Vec& b) const
  {
    for (int c = 0; c < m; ++c)
      std::swap(b[c], b[p[c]]);
    for (int r = 0; r < m; ++r)
      for (int j = 0; j < r; ++j)
        b[r] -= a[r * m + j] * b[j];
    for (int r = m - 1; r >= 0; --r)
    {
      for (int j = r + 1; j < m; ++j)
        b[r] -= a[r * m + j] * b[j];
      b[r] /= a[r * m + r];
    }
  }
};
double dot(const Vec& a, const Vec& b)
{
  double s = 0;
  for (std::size_t i = 0; i < a.size(); ++i)
    s += a[i] * b[i];
  return s;
}
double amax(const Vec& a)
{
  double s = 0;
  for (double v : a)
    if (!(std::fabs(v) <= s))
      s = std::fabs(v);  // keeps a NaN
  return s;
}

Answer solveFree(const Problem& p)
{
  const int n = p.n, me = static_cast<int>(p.Aeq.size());
  Answer out;
  // origin of the bounded variables: the middle of their range (or the finite bound)
  Vec o(n, 0.0);
  for (int i = 0; i < n; ++i)
  {
    if (std::isfinite(p.lb[i]) && std::isfinite(p.ub[i]))
      o[i] = 0.5 * (p.lb[i] + p.ub[i]);
    else if (std::isfinite(p.lb[i]))
      o[i] = p.lb[i];
    else if (std::isfinite(p.ub[i]))
      o[i] = p.ub[i];
  }
  Vec c = p.c;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      c[i] += p.H[i * n + j] * o[j];
  Vec H = p.H;
  const double scale = 1 / std::max({ 1.0, amax(c), amax(H) });
  for (double& v : c)
    v *= scale;
  for (double& v : H)
    v *= scale;
  Vec beq = p.beq;
  for (int r = 0; r < me; ++r)
    beq[r] -= dot(p.Aeq[r], o);
  // all inequalities  G y <= h
  std::vector<Vec> G;
  Vec h, width;
  for (int i = 0; i < n; ++i)
  {
    const double w = p.ub[i] - p.lb[i];
    if (std::isfinite(p.lb[i]))
    {
      Vec row(n, 0.0);
      row[i] = -1;
      G.push_back(row);
      h.push_back(o[i] - p.lb[i]);
      width.push_back(std::isfinite(w) ? w / 2 : 1);
    }
    if (std::isfinite(p.ub[i]))
    {
      Vec row(n, 0.0);
      row[i] = 1;
      G.push_back(row);
      h.push_back(p.ub[i] - o[i]);
      width.push_back(std::isfinite(w) ? w / 2 : 1);
    }
  }
  for (std::size_t r = 0; r < p.Ain.size(); ++r)
  {
    G.push_back(p.Ain[r]);
    h.push_back(p.bin[r] - dot(p.Ain[r], o));
    width.push_back(1);
  }
  const int m = static_cast<int>(G.size());
  Vec y(n, 0.0), s(m), z(m), u(me, 0.0);
  for (int i = 0; i < m; ++i)
  {
    s[i] = std::max(h[i], width[i]);
    z[i] = 1;
  }
  const int N = n + me;
  Vec rd(n), re(me), rg(m), best;
  double best_score = INFINITY;
  for (int it = 0; it < 100; ++it)
  {
    out.iterations = it;
    for (int i = 0; i < n; ++i)
    {
      double v = c[i];
      for (int j = 0; j < n; ++j)
        v += H[i * n + j] * y[j];
      for (int r = 0; r < me; ++r)
        v += p.Aeq[r][i] * u[r];
      for (int r = 0; r < m; ++r)
        v += G[r][i] * z[r];
      rd[i] = v;
    }
    for (int r = 0; r < me; ++r)
      re[r] = dot(p.Aeq[r], y) - beq[r];
    for (int r = 0; r < m; ++r)
      rg[r] = dot(G[r], y) + s[r] - h[r];
    const double gap = dot(s, z);
    const double prim = std::max(amax(re), amax(rg)), dual = amax(rd);
    const double yscale = 1 + amax(y);
    const double score = std::max({ prim / (1e-11 * yscale), dual / 1e-9, gap / 1e-11 });
    if (!std::isfinite(score))
      break;
    if (score < best_score)
    {
      best_score = score;
      best = y;
      out.gap = gap / scale;
    }
    if (score <= 1)
      break;
    // reduced system
    Vec K(static_cast<std::size_t>(N) * N, 0.0);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        K[i * N + j] = H[i * n + j];
    for (int r = 0; r < m; ++r)
    {
      const double w = z[r] / s[r];
      for (int i = 0; i < n; ++i)
        if (G[r][i] != 0)
          for (int j = 0; j < n; ++j)
            K[i * N + j] += w * G[r][i] * G[r][j];
    }
    for (int i = 0; i < n; ++i)
      K[i * N + i] += 1e-13;
    for (int r = 0; r < me; ++r)
    {
      for (int i = 0; i < n; ++i)
        K[i * N + n + r] = K[(n + r) * N + i] = p.Aeq[r][i];
      K[(n + r) * N + n + r] = -1e-13;
    }
    LU lu;
    if (!lu.factor(K, N))
      break;
    auto direction = [&](const Vec& rc, Vec& dy, Vec& du, Vec& ds, Vec& dz) {
      // rc: target of s dz + z ds = rc
      Vec b(N);
      for (int i = 0; i < n; ++i)
      {
        double v = -rd[i];
        for (int r = 0; r < m; ++r)
          if (G[r][i] != 0)
            v -= G[r][i] * (rc[r] + z[r] * rg[r]) / s[r];
        b[i] = v;
      }
      for (int r = 0; r < me; ++r)
        b[n + r] = -re[r];
      const Vec b0 = b;
      lu.solve(b);
      // one step of iterative refinement
      Vec res = b0;
      for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
          res[i] -= K[i * N + j] * b[j];
      lu.solve(res);
      for (int i = 0; i < N; ++i)
        b[i] += res[i];
      dy.assign(b.begin(), b.begin() + n);
      du.assign(b.begin() + n, b.end());
      ds.resize(m);
      dz.resize(m);
      for (int r = 0; r < m; ++r)
      {
        ds[r] = -rg[r] - dot(G[r], dy);
        dz[r] = (rc[r] - z[r] * ds[r]) / s[r];
      }
    };
    auto step = [&](const Vec& v, const Vec& d) {
      double a = 1;
      for (std::size_t i = 0; i < v.size(); ++i)
        if (d[i] < 0)
          a = std::min(a, -v[i] / d[i]);
      return a;
    };
    Vec dy, du, ds, dz, rc(m);
    const double mu = m > 0 ? gap / m : 0;
    for (int r = 0; r < m; ++r)
      rc[r] = -s[r] * z[r];
    direction(rc, dy, du, ds, dz);
    if (m > 0)
    {
      const double ap = step(s, ds), ad = step(z, dz);
      double g2 = 0;
      for (int r = 0; r < m; ++r)
        g2 += (s[r] + ap * ds[r]) * (z[r] + ad * dz[r]);
      const double sigma = std::pow(g2 / gap, 3);
      for (int r = 0; r < m; ++r)
        rc[r] = -s[r] * z[r] - ds[r] * dz[r] + sigma * mu;
      direction(rc, dy, du, ds, dz);
    }
    // one step length for the primal and the dual (H couples them)
    const double a = std::min(1.0, 0.99 * std::min(step(s, ds), step(z, dz)));
    for (int i = 0; i < n; ++i)
      y[i] += a * dy[i];
    for (int r = 0; r < me; ++r)
      u[r] += a * du[r];
    for (int r = 0; r < m; ++r)
    {
      s[r] = std::max(s[r] + a * ds[r], 1e-300);
      z[r] = std::max(z[r] + a * dz[r], 1e-300);
    }
  }
  if (best.empty())
    return out;
  out.ok = best_score <= 100 && amax(best) < 1e5;
  out.x.resize(n);
  for (int i = 0; i < n; ++i)
    out.x[i] = std::min(std::max(best[i] + o[i], p.lb[i]), p.ub[i]);
  out.value = p.value(out.x);
  return out;
}

Answer solveMasked(const Problem& p, const Vec& v, std::vector<char> fixed)
{
  const int n = p.n;
  for (int i = 0; i < n; ++i)
    if (p.lb[i] > p.ub[i])
      return {};
  std::vector<int> fr;
  for (int i = 0; i < n; ++i)
    if (!fixed[i])
      fr.push_back(i);
  Problem q(static_cast<int>(fr.size()));
  for (int a = 0; a < q.n; ++a)
  {
    q.lb[a] = p.lb[fr[a]];
    q.ub[a] = p.ub[fr[a]];
    q.c[a] = p.c[fr[a]];
    for (int j = 0; j < n; ++j)
      if (fixed[j])
        q.c[a] += p.H[fr[a] * n + j] * v[j];
    for (int b = 0; b < q.n; ++b)
      q.H[a * q.n + b] = p.H[fr[a] * n + fr[b]];
  }
  auto rows = [&](const std::vector<Vec>& A, const Vec& b, std::vector<Vec>& A2, Vec& b2, bool eq) {
    for (std::size_t r = 0; r < A.size(); ++r)
    {
      Vec row(q.n);
      double k = b[r], big = 0;
      for (int a = 0; a < q.n; ++a)
      {
        row[a] = A[r][fr[a]];
        big = std::max(big, std::fabs(row[a]));
      }
      for (int j = 0; j < n; ++j)
        if (fixed[j])
          k -= A[r][j] * v[j];
      if (big == 0)
      {
        if (eq ? std::fabs(k) > 1e-7 : k < -1e-7)
          return false;
        continue;
      }
      A2.push_back(row);
      b2.push_back(k);
    }
    return true;
  };
  Answer out;
  if (!rows(p.Aeq, p.beq, q.Aeq, q.beq, true) || !rows(p.Ain, p.bin, q.Ain, q.bin, false))
    return out;
  Answer a;
  if (q.n > 0)
    a = solveFree(q);
  else
    a.ok = true;
  if (!a.ok)
    return a;
  out = a;
  out.x.assign(n, 0.0);
  for (int j = 0; j < n; ++j)
    if (fixed[j])
      out.x[j] = v[j];
  for (int k = 0; k < q.n; ++k)
    out.x[fr[k]] = a.x[k];
  out.value = p.value(out.x);
  return out;
}
}  // namespace

Answer solve(const Problem& p)
{
  std::vector<char> fixed(p.n, 0);
  Vec v(p.n, 0.0);
  for (int i = 0; i < p.n; ++i)
    if (p.ub[i] - p.lb[i] <= 1e-12)
    {
      fixed[i] = 1;
      v[i] = 0.5 * (p.lb[i] + p.ub[i]);
    }
  return solveMasked(p, v, fixed);
}
Answer solveFixed(const Problem& p, const Vec& w)
{
  std::vector<char> fixed(p.n, 0);
  Vec v(p.n, 0.0);
  for (std::size_t i = 0; i < w.size(); ++i)
  {
    fixed[i] = 1;
    v[i] = w[i];
  }
  return solveMasked(p, v, fixed);
}
}  // namespace ipm
