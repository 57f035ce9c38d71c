// C03: symbolic expressions are a faithful algebra of affine and quadratic polynomials
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/expr_vec_ops.hpp>
#include <trajopt_sco/solver_interface.hpp>

#include <algorithm>

#include "pbt.h"

PBT_PROPERTY("C03",
             "Cases: straight-line programs of up to 14 operations over a pool of variables, affine and quadratic expressions "
             "(every operator overload and every in-place operation), each result compared with a dense reference polynomial "
             "coefficient by coefficient and, through value(), at random points; operands are compared with copies taken before "
             "the operation. Non-trivial: a program with at least three operations of which one multiplies two expressions or "
             "subtracts, over at least two variables.");

using namespace sco;

namespace
{
// dense reference polynomial of degree two
struct Poly
{
  double c{ 0 };
  std::vector<double> l;
  std::vector<std::vector<double>> q;  // upper triangular: q[i][j], i <= j, is the coefficient of x_i x_j
  double scale{ 0 };                   // a bound on the size of the numbers that went in, for tolerances
  explicit Poly(std::size_t n = 0) : l(n, 0.0), q(n, std::vector<double>(n, 0.0)) {}
  std::size_t n() const { return l.size(); }
  double value(const std::vector<double>& x) const
  {
    double v = c;
    for (std::size_t i = 0; i < n(); ++i)
    {
      v += l[i] * x[i];
      for (std::size_t j = i; j < n(); ++j)
        v += q[i][j] * x[i] * x[j];
    }
    return v;
  }
};
Poly comb(const Poly& a, double s, const Poly& b)
{
  Poly r(a.n());
  r.c = a.c + s * b.c;
  for (std::size_t i = 0; i < a.n(); ++i)
  {
    r.l[i] = a.l[i] + s * b.l[i];
    for (std::size_t j = 0; j < a.n(); ++j)
      r.q[i][j] = a.q[i][j] + s * b.q[i][j];
  }
  r.scale = a.scale + std::fabs(s) * b.scale;
  return r;
}
Poly times(const Poly& a, double s)
{
  return comb(Poly(a.n()), s, a);
}
Poly mul(const Poly& a, const Poly& b)  // both affine
{
  Poly r(a.n());
  r.c = a.c * b.c;
  for (std::size_t i = 0; i < a.n(); ++i)
  {
    r.l[i] = a.l[i] * b.c + a.c * b.l[i];
    for (std::size_t j = 0; j < a.n(); ++j)
      r.q[std::min(i, j)][std::max(i, j)] += a.l[i] * b.l[j];
  }
  r.scale = 4 * (a.scale + 1) * (b.scale + 1);
  return r;
}

enum Kind
{
  VAR,
  AFF,
  QUAD
};
struct Item
{
  Kind kind;
  Var v;
  AffExpr a;
  QuadExpr q;
  Poly p;
  int degree;
};

Poly read(const AffExpr& e, std::size_t n)
{
  Poly p(n);
  p.c = e.constant;
  if (e.coeffs.size() != e.vars.size())
    throw pbt::Failure("an affine expression has " + std::to_string(e.coeffs.size()) + " coefficients for " +
                       std::to_string(e.vars.size()) + " variables");
  for (std::size_t i = 0; i < e.coeffs.size(); ++i)
    p.l[e.vars[i].var_rep->index] += e.coeffs[i];
  return p;
}
Poly read(const QuadExpr& e, std::size_t n)
{
  Poly p = read(e.affexpr, n);
  if (e.coeffs.size() != e.vars1.size() || e.coeffs.size() != e.vars2.size())
    throw pbt::Failure("a quadratic expression has lists of different lengths");
  for (std::size_t i = 0; i < e.coeffs.size(); ++i)
  {
    const std::size_t a = e.vars1[i].var_rep->index, b = e.vars2[i].var_rep->index;
    p.q[std::min(a, b)][std::max(a, b)] += e.coeffs[i];
  }
  return p;
}
void same(pbt::Gen& g, const Poly& got, const Poly& want, const std::string& what)
{
  const double tol = 1e-9 * (1 + want.scale);
  CHECK_NEAR(got.c, want.c, tol, 0, << what << ": constant");
  for (std::size_t i = 0; i < want.n(); ++i)
  {
    CHECK_NEAR(got.l[i], want.l[i], tol, 0, << what << ": coefficient of x" << i);
    for (std::size_t j = i; j < want.n(); ++j)
      CHECK_NEAR(got.q[i][j], want.q[i][j], tol, 0, << what << ": coefficient of x" << i << "*x" << j);
  }
}
std::string show(const Item& it)
{
  return it.kind == VAR ? pbt::str(it.v) : it.kind == AFF ? pbt::str(it.a) : pbt::str(it.q);
}
}  // namespace

PBT_CASES(programs, 400000, 4000000)
{
  const std::size_t n = static_cast<std::size_t>(g.count(1, 5, 20));
  VarVector vars;
  for (std::size_t i = 0; i < n; ++i)
    vars.emplace_back(std::make_shared<VarRep>(i, "x" + std::to_string(i), nullptr));
  std::vector<double> x(n);
  for (auto& v : x)
    v = g.num(4);
  std::vector<Item> pool;
  auto check = [&](const Item& it, const std::string& what) {
    if (it.kind == AFF)
      same(g, read(it.a, n), it.p, what);
    else if (it.kind == QUAD)
      same(g, read(it.q, n), it.p, what);
    const double want = it.p.value(x), tol = 1e-9 * (1 + it.p.scale) * 40 * static_cast<double>(n * n);
    const double got = it.kind == VAR ? it.v.value(x) : it.kind == AFF ? it.a.value(x) : it.q.value(x);
    const double got2 = it.kind == VAR ? it.v.value(x.data()) : it.kind == AFF ? it.a.value(x.data()) : it.q.value(x.data());
    CHECK_NEAR(got, want, tol, 0, << what << ": value of " << show(it));
    CHECK_NEAR(got2, want, tol, 0, << what << ": value (pointer form)");
  };
  auto add = [&](Item it, const std::string& what) {
    g.log() << what << " -> " << show(it) << "\n";
    check(it, what);
    pool.push_back(std::move(it));
  };
  auto var = [&]() {
    Item it{ VAR, g.pick(vars), {}, {}, Poly(n), 1 };
    it.p.l[it.v.var_rep->index] = 1;
    it.p.scale = 1;
    return it;
  };
  auto poly_const = [&](double c) {
    Poly p(n);
    p.c = c;
    p.scale = std::fabs(c);
    return p;
  };
  // leaves
  const int leaves = g.count(1, 4, 12);
  for (int i = 0; i < leaves; ++i)
  {
    Item it = var();
    switch (g.range(0, 7))
    {
      case 0:
        break;
      case 1:
        it.kind = AFF;
        it.a = AffExpr(it.v);
        break;
      case 2:
      {
        const double c = g.num(10);
        it.kind = AFF;
        it.a = AffExpr(c);
        it.p = poly_const(c);
        it.degree = 0;
        break;
      }
      case 3:
        it.kind = QUAD;
        it.q = QuadExpr(it.v);
        break;
      case 4:
      {
        const double c = g.num(10);
        it.kind = QUAD;
        it.q = QuadExpr(c);
        it.p = poly_const(c);
        it.degree = 0;
        break;
      }
      case 5:
        it.kind = QUAD;
        it.q = exprSquare(it.v);
        it.p = mul(it.p, it.p);
        it.degree = 2;
        break;
      case 6:
      {  // x . v over a list with repetitions
        const int k = g.count(0, 4, 20);
        Eigen::VectorXd d(k);
        VarVector list;
        it.p = Poly(n);
        for (int j = 0; j < k; ++j)
        {
          d[j] = g.num(5);
          list.push_back(g.pick(vars));
          it.p.l[list.back().var_rep->index] += d[j];
          it.p.scale += std::fabs(d[j]);
        }
        it.kind = AFF;
        it.a = varDot(d, list);
        break;
      }
      default:
      {
        AffExpr a;
        it.p = Poly(n);
        a.constant = it.p.c = g.num(10);
        it.p.scale = std::fabs(a.constant);
        const int k = g.count(0, 5, 20);
        for (int j = 0; j < k; ++j)
        {
          const Var& v = g.pick(vars);
          const double c = g.num(5);
          a.vars.push_back(v);
          a.coeffs.push_back(c);
          it.p.l[v.var_rep->index] += c;
          it.p.scale += std::fabs(c);
        }
        it.kind = AFF;
        it.a = a;
      }
    }
    add(it, "leaf");
  }
  int special = 0;
  const int ops = g.count(1, 14, 30);
  for (int o = 0; o < ops; ++o)
  {
    const Item l = pool[g.index(pool.size())];
    const Item r = pool[g.index(pool.size())];
    const double s = g.num(3);
    Item out{ QUAD, {}, {}, {}, Poly(n), 2 };
    std::string what;
    auto aff = [&](AffExpr e) {
      out.kind = AFF;
      out.a = std::move(e);
    };
    auto quad = [&](QuadExpr e) {
      out.kind = QUAD;
      out.q = std::move(e);
    };
    switch (g.range(0, 10))
    {
      case 0:  // +
        what = "sum";
        out.p = comb(l.p, 1, r.p);
        if (l.kind == VAR && r.kind == VAR)
          aff(l.v + r.v);
        else if (l.kind == VAR && r.kind == AFF)
          aff(l.v + r.a);
        else if (l.kind == VAR && r.kind == QUAD)
          quad(l.v + r.q);
        else if (l.kind == AFF && r.kind == VAR)
          aff(l.a + r.v);
        else if (l.kind == AFF && r.kind == AFF)
          aff(l.a + r.a);
        else if (l.kind == AFF && r.kind == QUAD)
          quad(l.a + r.q);
        else if (l.kind == QUAD && r.kind == VAR)
          quad(l.q + r.v);
        else if (l.kind == QUAD && r.kind == AFF)
          quad(l.q + r.a);
        else
          quad(l.q + r.q);
        break;
      case 1:  // -
        what = "difference";
        ++special;
        out.p = comb(l.p, -1, r.p);
        if (l.kind == VAR && r.kind == VAR)
          aff(l.v - r.v);
        else if (l.kind == VAR && r.kind == AFF)
          aff(l.v - r.a);
        else if (l.kind == VAR && r.kind == QUAD)
          quad(l.v - r.q);
        else if (l.kind == AFF && r.kind == VAR)
          aff(l.a - r.v);
        else if (l.kind == AFF && r.kind == AFF)
          aff(l.a - r.a);
        else if (l.kind == AFF && r.kind == QUAD)
          quad(l.a - r.q);
        else if (l.kind == QUAD && r.kind == VAR)
          quad(l.q - r.v);
        else if (l.kind == QUAD && r.kind == AFF)
          quad(l.q - r.a);
        else
          quad(l.q - r.q);
        break;
      case 2:  // scalar added or subtracted
      {
        const bool minus = g.boolean();
        what = minus ? "minus a number" : "plus a number";
        out.p = comb(l.p, minus ? -1 : 1, poly_const(s));
        if (l.kind == VAR)
          aff(minus ? l.v - s : l.v + s);
        else if (l.kind == AFF)
          aff(minus ? l.a - s : l.a + s);
        else
          quad(minus ? l.q - s : l.q + s);
        break;
      }
      case 3:
      {
        const bool left = g.boolean();
        what = "scaled";
        out.p = times(l.p, s);
        if (l.kind == VAR)
          aff(left ? s * l.v : l.v * s);
        else if (l.kind == AFF)
          aff(left ? s * l.a : l.a * s);
        else
          quad(left ? s * l.q : l.q * s);
        break;
      }
      case 4:
        what = "negated";
        if (l.kind == QUAD)
          continue;
        ++special;
        out.p = times(l.p, -1);
        aff(l.kind == VAR ? -l.v : -l.a);
        break;
      case 5:
        what = "product";
        if (l.kind == QUAD || r.kind == QUAD)
          continue;
        if (l.p.scale > 1e4 || r.p.scale > 1e4)
          continue;
        ++special;
        out.p = mul(l.p, r.p);
        quad(exprMult(l.kind == VAR ? AffExpr(l.v) : l.a, r.kind == VAR ? AffExpr(r.v) : r.a));
        break;
      case 6:
        what = "square";
        if (l.kind == QUAD || l.p.scale > 1e4)
          continue;
        ++special;
        out.p = mul(l.p, l.p);
        quad(l.kind == VAR ? exprSquare(l.v) : exprSquare(l.a));
        break;
      case 7:  // in-place increment
      case 8:  // in-place decrement
      {
        const bool inc = g.boolean();
        what = inc ? "incremented" : "decremented";
        if (!inc)
          ++special;
        const double sg = inc ? 1 : -1;
        if (l.kind == VAR)
          continue;
        out = l;
        const int how = g.range(0, 2);
        if (how == 0)
        {
          out.p = comb(l.p, sg, poly_const(s));
          if (l.kind == AFF)
            inc ? exprInc(out.a, s) : exprDec(out.a, s);
          else
            inc ? exprInc(out.q, s) : exprDec(out.q, s);
          break;
        }
        if (l.kind == AFF && r.kind == QUAD)
          continue;
        out.p = comb(l.p, sg, r.p);
        const bool moved = how == 2;
        Item tmp = r;
        if (l.kind == AFF)
        {
          if (r.kind == VAR)
            inc ? exprInc(out.a, r.v) : exprDec(out.a, r.v);
          else if (moved)
            inc ? exprInc(out.a, std::move(tmp.a)) : exprDec(out.a, std::move(tmp.a));
          else
            inc ? exprInc(out.a, tmp.a) : exprDec(out.a, tmp.a);
        }
        else
        {
          if (r.kind == VAR)
            inc ? exprInc(out.q, r.v) : exprDec(out.q, r.v);
          else if (r.kind == AFF && moved)
            inc ? exprInc(out.q, std::move(tmp.a)) : exprDec(out.q, std::move(tmp.a));
          else if (r.kind == AFF)
            inc ? exprInc(out.q, tmp.a) : exprDec(out.q, tmp.a);
          else if (moved)
            inc ? exprInc(out.q, std::move(tmp.q)) : exprDec(out.q, std::move(tmp.q));
          else
            inc ? exprInc(out.q, tmp.q) : exprDec(out.q, tmp.q);
        }
        if (!moved)
          check(tmp, "operand after use");
        break;
      }
      case 9:
        what = "scaled in place";
        if (l.kind == VAR)
          continue;
        out = l;
        out.p = times(l.p, s);
        if (l.kind == AFF)
          exprScale(out.a, s);
        else
          exprScale(out.q, s);
        break;
      default:
        what = "cleaned up";
        if (l.kind != AFF)
          continue;
        {
          AffExpr in = l.a;
          const double tiny = g.pick(std::vector<double>{ 0.0, 1e-12, -1e-9 });
          in.vars.push_back(g.pick(vars));
          in.coeffs.push_back(tiny);
          out.p = l.p;
          out.p.scale += 1;
          aff(cleanupAff(in));
          for (double c : out.a.coeffs)
            CHECK(c != 0.0, << "cleaning up keeps a zero coefficient");
        }
        // the dropped coefficients may be as large as 1e-7 each
        for (std::size_t k = 0; k < l.a.size(); ++k)
          out.p.scale += std::fabs(l.a.coeffs[k]) <= 1e-7 ? 200 : 0;
    }
    if (out.p.scale > 1e7)
      continue;
    out.degree = 2;
    check(l, "left operand after " + what);
    check(r, "right operand after " + what);
    add(out, what);
  }
  if (ops >= 3 && special > 0 && n >= 2)
    g.nontrivial();
}

// The reductions of sco_common are sums and maxima of what they are given
PBT_CASES(reductions, 200000, 1000000)
{
  const int n = g.count(1, 8, 40);
  std::vector<double> a, b;
  double sum = 0, abs = 0, hinge = 0, dot = 0, mx = -1e300;
  for (int i = 0; i < n; ++i)
  {
    a.push_back(g.num(10));
    b.push_back(g.num(10));
    sum += a.back();
    abs += std::fabs(a.back());
    hinge += std::max(a.back(), 0.0);
    dot += a.back() * b.back();
    mx = std::max(mx, a.back());
    CHECK(pospart(a.back()) == std::max(a.back(), 0.0));
    CHECK_NEAR(sq(a.back()), a.back() * a.back(), 0, 1e-15);
  }
  if (n > 1)
    g.nontrivial();
  CHECK_NEAR(vecSum(a), sum, 1e-10, 0);
  CHECK_NEAR(vecAbsSum(a), abs, 1e-10, 0);
  CHECK_NEAR(vecHingeSum(a), hinge, 1e-10, 0);
  CHECK_NEAR(vecDot(a, b), dot, 1e-9, 0);
  CHECK(vecMax(a) == mx);
}
