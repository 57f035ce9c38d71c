// C04: the matrix form of expressions, and the sparse formats, carry the same polynomial
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/solver_interface.hpp>
#include <trajopt_sco/solver_utils.hpp>

#include <algorithm>
#include <cmath>
#include <map>

#include "pbt.h"

PBT_PROPERTY("C04",
             "Cases: random affine / quadratic expressions with repeated variables, zero coefficients and coefficients that cancel, "
             "over up to 6 variables with unused ones, converted to vectors and matrices and compared with dense accumulation and "
             "with the expression's own value at random points; random sparse matrices through triplets and compressed columns and "
             "back; random index/value lists through the duplicate-summing reduction. Non-trivial: at least two terms, of which two "
             "fall on the same entry.");

using namespace sco;

namespace
{
struct Space
{
  VarVector vars;
  std::size_t n;
  double unit = 1;  // of all coefficients; a power of two: nothing is too small or large to count
};
double unitOf(pbt::Gen& g)
{
  return g.chance(1, 4) ? std::ldexp(1.0, g.range(-70, 40)) : 1.0;
}
Space space(pbt::Gen& g)
{
  Space s;
  s.n = static_cast<std::size_t>(g.count(1, 6, 40));
  s.unit = unitOf(g);
  for (std::size_t i = 0; i < s.n; ++i)
    s.vars.emplace_back(std::make_shared<VarRep>(i, "x" + std::to_string(i), nullptr));
  return s;
}
AffExpr affine(pbt::Gen& g, const Space& s)
{
  AffExpr a(s.unit * g.num(10));
  const int k = g.count(0, 7, 60);
  for (int i = 0; i < k; ++i)
  {
    a.vars.push_back(g.pick(s.vars));
    a.coeffs.push_back(s.unit * g.num(5));
  }
  return a;
}
bool repeats(const VarVector& v)
{
  for (std::size_t i = 0; i < v.size(); ++i)
    for (std::size_t j = 0; j < i; ++j)
      if (v[i].var_rep->index == v[j].var_rep->index)
        return true;
  return false;
}
Eigen::VectorXd point(pbt::Gen& g, std::size_t n)
{
  Eigen::VectorXd x(static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < x.size(); ++i)
    x[i] = g.num(3);
  return x;
}
}  // namespace

PBT_CASES(affine_vector, 300000, 3000000)
{
  const Space s = space(g);
  const AffExpr a = affine(g, s);
  g.log() << a;
  Eigen::VectorXd want = Eigen::VectorXd::Zero(static_cast<Eigen::Index>(s.n));
  std::size_t top = 0;
  for (std::size_t i = 0; i < a.size(); ++i)
  {
    want[static_cast<Eigen::Index>(a.vars[i].var_rep->index)] += a.coeffs[i];
    top = std::max(top, a.vars[i].var_rep->index + 1);
  }
  Eigen::SparseVector<double> v;
  if (g.boolean())
  {  // the output need not be empty
    v.resize(3);
    v.coeffRef(1) = 7;
  }
  const bool small = top > 0 && g.chance(1, 6);
  const Eigen::Index size = small ? g.range(0, static_cast<int>(top) - 1) : static_cast<Eigen::Index>(s.n);
  if (small)
  {
    CHECK_THROWS(exprToEigen(a, v, size), << "a variable beyond the vector of " << size);
    g.label("too small");
    return;
  }
  exprToEigen(a, v, size);
  CHECK(v.size() == size);
  const Eigen::VectorXd d = v;
  CHECK((d - want).cwiseAbs().maxCoeff() <= 1e-11 * s.unit, << "got " << pbt::mat(d.transpose()) << " want " << pbt::mat(want.transpose()));
  const Eigen::VectorXd x = point(g, s.n);
  CHECK_NEAR(d.dot(x) + a.constant, a.value(x.data()), 1e-9 * s.unit, 1e-9);
  if (repeats(a.vars))
    g.nontrivial();
}

PBT_CASES(quadratic_matrix, 200000, 2000000)
{
  const Space s = space(g);
  const auto n = static_cast<Eigen::Index>(s.n);
  QuadExpr q(affine(g, s));
  const int k = g.count(0, 8, 60);
  Eigen::MatrixXd want = Eigen::MatrixXd::Zero(n, n);
  bool dup = false;
  for (int i = 0; i < k; ++i)
  {
    const Var &a = g.pick(s.vars), &b = g.pick(s.vars);
    const double c = s.unit * g.num(5);
    q.vars1.push_back(a);
    q.vars2.push_back(b);
    q.coeffs.push_back(c);
    const auto ia = static_cast<Eigen::Index>(a.var_rep->index), ib = static_cast<Eigen::Index>(b.var_rep->index);
    dup = dup || want(ia, ib) != 0;
    want(ia, ib) += 0.5 * c;
    want(ib, ia) += 0.5 * c;
  }
  const bool halved = g.boolean(), diagonal = g.boolean();
  if (halved)
    want *= 2;
  g.log() << q << " halved " << halved << " diagonal " << diagonal;
  Eigen::SparseMatrix<double> m;
  Eigen::VectorXd v;
  exprToEigen(q, m, v, n, halved, diagonal);
  CHECK(m.rows() == n && m.cols() == n && v.size() == n);
  const Eigen::MatrixXd d = m;
  CHECK((d - want).cwiseAbs().maxCoeff() <= 1e-11 * s.unit, << "got " << pbt::mat(d) << " want " << pbt::mat(want));
  if (diagonal)
    for (Eigen::Index i = 0; i < n; ++i)
    {
      bool stored = false;
      for (Eigen::SparseMatrix<double>::InnerIterator it(m, i); it; ++it)
        stored = stored || it.row() == i;
      CHECK(stored, << "diagonal entry " << i << " is not stored");
    }
  const Eigen::VectorXd x = point(g, s.n);
  const double quad = x.dot(d * x) * (halved ? 0.5 : 1.0);
  CHECK_NEAR(quad + v.dot(x) + q.affexpr.constant, q.value(x.data()), 1e-8 * s.unit, 1e-9);
  if (dup && k >= 2)
    g.nontrivial();
}

PBT_CASES(affine_rows, 200000, 2000000)
{
  const Space s = space(g);
  const auto n = static_cast<Eigen::Index>(s.n);
  AffExprVector e;
  const int rows = g.count(0, 5, 30);
  bool dup = false;
  std::size_t top = 0;
  for (int i = 0; i < rows; ++i)
  {
    e.push_back(affine(g, s));
    dup = dup || repeats(e.back().vars);
    for (const auto& v : e.back().vars)
      top = std::max(top, v.var_rep->index + 1);
    g.log() << e.back() << "; ";
  }
  Eigen::SparseMatrix<double> m;
  Eigen::VectorXd b;
  if (top > 0 && g.chance(1, 6))
  {
    CHECK_THROWS(exprToEigen(e, m, b, static_cast<Eigen::Index>(g.range(0, static_cast<int>(top) - 1))));
    g.label("too small");
    return;
  }
  exprToEigen(e, m, b, n);
  CHECK(m.rows() == rows && m.cols() == n && b.size() == rows);
  const Eigen::VectorXd x = point(g, s.n);
  const Eigen::VectorXd y = m * x - b;
  for (int i = 0; i < rows; ++i)
    CHECK_NEAR(y[i], e[static_cast<std::size_t>(i)].value(x.data()), 1e-9 * s.unit, 1e-9, << "row " << i);
  Eigen::MatrixXd want = Eigen::MatrixXd::Zero(rows, n);
  for (int i = 0; i < rows; ++i)
    for (std::size_t j = 0; j < e[static_cast<std::size_t>(i)].size(); ++j)
      want(i, static_cast<Eigen::Index>(e[static_cast<std::size_t>(i)].vars[j].var_rep->index)) +=
          e[static_cast<std::size_t>(i)].coeffs[j];
  if (rows > 0)
    CHECK((Eigen::MatrixXd(m) - want).cwiseAbs().maxCoeff() <= 1e-11 * s.unit);
  if (dup && rows > 0)
    g.nontrivial();
}

PBT_CASES(sparse_formats, 200000, 2000000)
{
  const double unit = unitOf(g);
  const int r = g.count(1, 7, 30), c = g.count(1, 7, 30), k = g.count(0, 20, 120);
  IntVec ri, ci;
  DblVec v;
  Eigen::MatrixXd want = Eigen::MatrixXd::Zero(r, c);
  bool dup = false;
  for (int i = 0; i < k; ++i)
  {
    ri.push_back(g.range(0, r - 1));
    ci.push_back(g.range(0, c - 1));
    v.push_back(unit * g.num(9));
    dup = dup || want(ri.back(), ci.back()) != 0;
    want(ri.back(), ci.back()) += v.back();
  }
  if (dup)
    g.nontrivial();
  g.log() << r << "x" << c << " " << pbt::mat(want);
  Eigen::SparseMatrix<double> m(r, c);
  tripletsToEigen(ri, ci, v, m);
  CHECK(m.rows() == r && m.cols() == c);
  CHECK((Eigen::MatrixXd(m) - want).cwiseAbs().maxCoeff() <= 1e-11 * unit, << "triplets give " << pbt::mat(Eigen::MatrixXd(m)));
  // and back: the lists are appended to
  IntVec ri2, ci2;
  DblVec v2;
  eigenToTriplets(m, ri2, ci2, v2);
  CHECK(ri2.size() == ci2.size() && ri2.size() == v2.size());
  std::map<std::pair<int, int>, double> seen;
  for (std::size_t i = 0; i < ri2.size(); ++i)
    CHECK(seen.emplace(std::make_pair(ri2[i], ci2[i]), v2[i]).second, << "entry listed twice");
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j)
      CHECK_NEAR((seen.count({ i, j }) ? seen[{ i, j }] : 0.0), want(i, j), 1e-11, 0, << "entry " << i << "," << j);
  // compressed columns
  auto csc = [&](auto zero, int uplo) {
    using T = decltype(zero);
    std::vector<T> rows{ 1, 2, 3 }, cols{ 4 };
    DblVec vals{ 5 };
    Eigen::SparseMatrix<double> in = m;
    Eigen::MatrixXd ref = want;
    if (uplo == 1)
    {
      eigenToCSC<Eigen::Upper>(in, rows, cols, vals);
      for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j)
          if (i > j)
            ref(i, j) = 0;
    }
    else if (uplo == 2)
    {
      eigenToCSC<Eigen::Lower>(in, rows, cols, vals);
      for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j)
          if (i < j)
            ref(i, j) = 0;
    }
    else
      eigenToCSC(in, rows, cols, vals);
    CHECK(cols.size() == static_cast<std::size_t>(c) + 1, << "one column pointer per column and the end");
    CHECK(static_cast<long>(cols[0]) == 0 && static_cast<std::size_t>(cols.back()) == vals.size() && rows.size() == vals.size());
    Eigen::MatrixXd got = Eigen::MatrixXd::Zero(r, c);
    for (int j = 0; j < c; ++j)
    {
      CHECK(cols[static_cast<std::size_t>(j)] <= cols[static_cast<std::size_t>(j) + 1]);
      long last = -1;
      for (auto p = static_cast<std::size_t>(cols[static_cast<std::size_t>(j)]);
           p < static_cast<std::size_t>(cols[static_cast<std::size_t>(j) + 1]); ++p)
      {
        CHECK(static_cast<long>(rows[p]) > last && static_cast<long>(rows[p]) < r, << "rows of a column ascend");
        last = static_cast<long>(rows[p]);
        got(last, j) = vals[p];
      }
    }
    CHECK((got - ref).cwiseAbs().maxCoeff() <= 1e-11 * unit, << "compressed columns give " << pbt::mat(got) << " want " << pbt::mat(ref));
    CHECK((Eigen::MatrixXd(in) - want).cwiseAbs().maxCoeff() <= 1e-11 * unit, << "the input matrix keeps its entries");
  };
  const int uplo = g.range(0, 2);
  if (g.boolean())
    csc(0, uplo);
  else
    csc(0LL, uplo);
}

PBT_CASES(duplicate_reduction, 300000, 3000000)
{
  const int k = g.count(0, 10, 60);
  IntVec inds;
  DblVec vals;
  std::map<int, double> want;
  std::map<int, bool> touched;
  bool dup = false;
  const double unit = unitOf(g);
  for (int i = 0; i < k; ++i)
  {
    inds.push_back(g.range(0, 6));
    vals.push_back(unit * g.num(4));
    if (vals.back() != 0)
    {
      dup = dup || touched.count(inds.back());
      touched[inds.back()] = true;
      want[inds.back()] += vals.back();
    }
    g.log() << inds.back() << ":" << vals.back() << " ";
  }
  simplify2(inds, vals);
  CHECK(inds.size() == vals.size());
  for (std::size_t i = 1; i < inds.size(); ++i)
    CHECK(inds[i - 1] < inds[i], << "indices ascend, each once");
  std::map<int, double> got;
  for (std::size_t i = 0; i < inds.size(); ++i)
  {
    CHECK(vals[i] != 0.0, << "a zero is kept for " << inds[i]);
    got[inds[i]] = vals[i];
  }
  for (int i = 0; i <= 6; ++i)
    CHECK_NEAR((got.count(i) ? got[i] : 0.0), (want.count(i) ? want[i] : 0.0), 1e-12 * unit, 1e-12, << "entry " << i);
  for (auto& e : got)
    CHECK(touched.count(e.first), << "entry " << e.first << " comes from nowhere");
  if (dup)
    g.nontrivial();
}

PBT_CASES(index_lists, 100000, 1000000)
{
  VarVector vars;
  CntVector cnts;
  std::vector<std::size_t> want;
  const int k = g.count(0, 8, 60);
  for (int i = 0; i < k; ++i)
  {
    want.push_back(static_cast<std::size_t>(g.range(0, 1000)));
    vars.emplace_back(std::make_shared<VarRep>(want.back(), "v", nullptr));
    cnts.emplace_back(std::make_shared<CntRep>(want.back(), nullptr));
  }
  if (k > 1)
    g.nontrivial();
  SizeTVec s{ 9, 9 }, t{ 1 };
  IntVec si{ 9, 9, 9 }, ti;
  vars2inds(vars, s);
  vars2inds(vars, si);
  cnts2inds(cnts, t);
  cnts2inds(cnts, ti);
  CHECK(s.size() == want.size() && si.size() == want.size() && t.size() == want.size() && ti.size() == want.size());
  for (std::size_t i = 0; i < want.size(); ++i)
    CHECK(s[i] == want[i] && t[i] == want[i] && si[i] == static_cast<int>(want[i]) && ti[i] == static_cast<int>(want[i]));
}
