// C35: what is printed about expressions, models, problems and runs is what they are
#include <trajopt_common/logging.hpp>
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>

#include <sys/mman.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <map>

#include "sqp_fixture.h"

PBT_PROPERTY("C35",
             "Cases: expressions and constraints written and read back; histories of an OSQP model written to a file that is read back as the "
             "LP format it is in; printed ifopt problems; printed quadratic programs of both kinds of SQP problem; result structures of both "
             "optimizers filled with drawn numbers, printed, logged and read back. Non-trivial: quadratic terms with a coefficient, a removed "
             "variable or constraint, a problem with several sets and a violated bound, a report with costs and constraints.");

using Eigen::VectorXd;

namespace
{
// What f writes to standard output
template <class F>
std::string printed(F f)
{
  std::cout.copyfmt(std::ios(nullptr));
  std::cout.flush();
  std::fflush(stdout);
  const int keep = dup(1), fd = memfd_create("out", 0);
  if (keep < 0 || fd < 0)
    throw std::runtime_error("no file for the output");
  dup2(fd, 1);
  auto restore = [&] {
    std::cout.flush();
    std::fflush(stdout);
    dup2(keep, 1);
    close(keep);
  };
  try
  {
    f();
  }
  catch (...)
  {
    restore();
    close(fd);
    throw;
  }
  restore();
  std::string s;
  char buf[4096];
  lseek(fd, 0, SEEK_SET);
  for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;)
    s.append(buf, static_cast<std::size_t>(n));
  close(fd);
  std::cout.copyfmt(std::ios(nullptr));
  return s;
}
template <class F>
std::string filed(F f)
{
  char* p = nullptr;
  std::size_t n = 0;
  std::FILE* s = open_memstream(&p, &n);
  f(s);
  std::fclose(s);
  std::string out(p, n);
  std::free(p);
  return out;
}
std::vector<std::string> split(const std::string& s, const std::string& sep)
{
  std::vector<std::string> out;
  std::size_t at = 0;
  for (;;)
  {
    const std::size_t e = s.find(sep, at);
    out.push_back(s.substr(at, e == std::string::npos ? e : e - at));
    if (e == std::string::npos)
      return out;
    at = e + sep.size();
  }
}
std::vector<std::string> lines(const std::string& s)
{
  std::vector<std::string> out;
  for (const std::string& l : split(s, "\n"))
    out.push_back(l);
  return out;
}
std::vector<std::string> words(const std::string& s)
{
  std::istringstream in(s);
  std::vector<std::string> w;
  for (std::string t; in >> t;)
    w.push_back(t);
  return w;
}
std::string trim(const std::string& s)
{
  const auto b = s.find_first_not_of(' '), e = s.find_last_not_of(' ');
  return b == std::string::npos ? "" : s.substr(b, e - b + 1);
}
bool number(const std::string& s, double& v)
{
  char* end = nullptr;
  v = std::strtod(s.c_str(), &end);
  return !s.empty() && *end == 0;
}
// as a number printed with `digits` significant digits
bool shows(const std::string& s, double want, int digits)
{
  double v = 0;
  if (!number(s, v))
    return false;
  if (std::isnan(want))
    return std::isnan(v);
  if (v == want)
    return true;
  return std::isfinite(want) && std::fabs(v - want) <= 0.51 * std::pow(10.0, 1 - digits) * std::fabs(want) * 1.0001 + 1e-300;
}

// A polynomial of degree two in named variables
struct Poly
{
  double c = 0;
  std::map<std::string, double> lin;
  std::map<std::pair<std::string, std::string>, double> quad;
  void addLin(const std::string& v, double k)
  {
    if ((lin[v] += k) == 0)
      lin.erase(v);
  }
  void addQuad(std::string a, std::string b, double k)
  {
    if (b < a)
      std::swap(a, b);
    if ((quad[{ a, b }] += k) == 0)
      quad.erase({ a, b });
  }
  bool operator==(const Poly& o) const { return c == o.c && lin == o.lin && quad == o.quad; }
  std::string str() const
  {
    std::ostringstream s;
    s << c;
    for (const auto& [v, k] : lin)
      s << " + " << k << " " << v;
    for (const auto& [p, k] : quad)
      s << " + " << k << " " << p.first << "*" << p.second;
    return s.str();
  }
};
// text: terms separated by " + ": a number, a name, a number and a name
void readLinear(pbt::Gen& g, const std::string& text, Poly& p)
{
  if (trim(text).empty())
    return;
  for (const std::string& t : split(text, " + "))
  {
    const auto w = words(t);
    double v = 0;
    if (w.size() == 1 && number(w[0], v))
      p.c += v;
    else if (w.size() == 1)
      p.addLin(w[0], 1);
    else
    {
      CHECK(w.size() == 2 && number(w[0], v), << "term '" << t << "' of '" << text << "'");
      p.addLin(w[1], v);
    }
  }
}
// LP format: a linear part, then [ terms ] /2
Poly readQuadratic(pbt::Gen& g, const std::string& text)
{
  Poly p;
  const auto open = text.find('['), close = text.find(']');
  if (open == std::string::npos)
  {
    readLinear(g, text, p);
    return p;
  }
  CHECK(close != std::string::npos && close > open, << text);
  std::string head = trim(text.substr(0, open));
  CHECK(!head.empty() && head.back() == '+', << "nothing joins the quadratic part of '" << text << "'");
  head.pop_back();
  readLinear(g, trim(head), p);
  const std::string rest = trim(split(text.substr(close + 1), "\n")[0]);
  double f = 1;
  if (rest == "/2" || rest == "/ 2")
    f = 0.5;
  else
    CHECK(rest.empty(), << "'" << rest << "' after the quadratic part");
  const std::string in = trim(text.substr(open + 1, close - open - 1));
  if (in.empty())
    return p;
  for (const std::string& t : split(in, " + "))
  {
    auto w = words(t);
    double v = 1;
    if (!w.empty() && number(w[0], v))
      w.erase(w.begin());
    else
      v = 1;
    CHECK(w.size() == 3 && ((w[1] == "^" && w[2] == "2") || w[1] == "*"), << "term '" << t << "' of '" << text << "'");
    p.addQuad(w[0], w[1] == "^" ? w[0] : w[2], v * f);
  }
  return p;
}

double coefficient(pbt::Gen& g)
{
  if (g.chance(1, 4))
    return g.range(-1, 1);
  return g.range(-4000, 4000) / 8.0 / (g.boolean() ? 8 : 1);
}
sco::AffExpr affine(pbt::Gen& g, const sco::VarVector& vars, Poly& p, double scale = 1)
{
  sco::AffExpr e(std::round(coefficient(g) * scale * 8) / 8);
  p.c = e.constant;
  const int n = vars.empty() ? 0 : g.range(0, 4);
  for (int i = 0; i < n; ++i)
  {
    const sco::Var& v = g.pick(vars);
    const double c = std::round(coefficient(g) * 8) / 8;
    e.coeffs.push_back(c);
    e.vars.push_back(v);
    p.addLin(v.var_rep->name, c);
  }
  return e;
}
sco::QuadExpr quadratic(pbt::Gen& g, const sco::VarVector& vars, Poly& p)
{
  sco::QuadExpr q(affine(g, vars, p));
  const int n = vars.empty() ? 0 : g.range(0, 4);
  for (int i = 0; i < n; ++i)
  {
    const sco::Var a = g.pick(vars), b = g.chance(1, 3) ? a : g.pick(vars);
    const double c = std::round(coefficient(g) * 8) / 8;
    q.coeffs.push_back(c);
    q.vars1.push_back(a);
    q.vars2.push_back(b);
    p.addQuad(a.var_rep->name, b.var_rep->name, c);
    if (c != 0 && c != 1)
      g.nontrivial();
  }
  return q;
}
std::string text(const auto& e)
{
  std::ostringstream o;
  o << e;
  return o.str();
}
std::string varName(pbt::Gen& g, int k)
{
  static const std::vector<std::string> base{ "x", "j_a", "t", "slack_", "e", "inf", "nan", "joint" };
  return g.pick(base) + "_" + std::to_string(k);
}
}  // namespace

PBT_CASES(expressions, 60000, 1200000)
{
  std::vector<std::unique_ptr<sco::VarRep>> reps;
  sco::VarVector vars;
  const int n = g.range(1, 4);
  for (int i = 0; i < n; ++i)
  {
    reps.push_back(std::make_unique<sco::VarRep>(static_cast<std::size_t>(i), varName(g, i), nullptr));
    sco::Var v;
    v.var_rep = std::shared_ptr<sco::VarRep>(reps.back().get(), [](sco::VarRep*) {});
    vars.push_back(v);
    CHECK(text(v) == reps.back()->name);
  }
  {
    Poly p, q, r;
    const sco::AffExpr e = affine(g, vars, p);
    const std::string s = text(e);
    readLinear(g, s, q);
    CHECK(p == q, << "'" << s << "' for " << p.str());
    // 3*x + 2.5*y + 1
    const std::string t = sco::AffExprToString(e);
    for (const std::string& w : split(t, " + "))
    {
      if (trim(w).empty())
        continue;
      const auto f = split(w, "*");
      double v = 0;
      CHECK(number(f[0], v), << "'" << t << "'");
      if (f.size() == 1)
        r.c += v;
      else
        r.addLin(f[1], v);
    }
    CHECK(p == r, << "'" << t << "' for " << p.str());
    sco::Cnt c;
    const bool eq = g.boolean();
    auto rep = std::make_shared<sco::CntRep>(0, nullptr);
    rep->expr = s;
    rep->type = eq ? sco::EQ : sco::INEQ;
    c.cnt_rep = rep;
    const std::string k = text(c), end = eq ? " == 0" : " <= 0";
    CHECK(k.size() >= end.size() && k.compare(k.size() - end.size(), end.size(), end) == 0, << k);
    Poly u;
    readLinear(g, k.substr(0, k.size() - end.size()), u);
    CHECK(p == u, << "'" << k << "' for " << p.str());
  }
  {
    Poly p;
    const sco::QuadExpr e = quadratic(g, vars, p);
    const std::string s = text(e);
    const Poly q = readQuadratic(g, s);
    CHECK(p == q, << "'" << s << "' reads as " << q.str() << " but is " << p.str());
  }
}

// A file written by the model, read back as what it says
PBT_CASES(model_file, 4000, 60000)
{
  sco::OSQPModel m;
  struct V
  {
    sco::Var v;
    std::string name;
    double lo, up;
  };
  struct C
  {
    sco::Cnt c;
    Poly p;
    bool eq;
    std::vector<std::string> uses;
  };
  std::vector<V> vs;
  std::vector<C> cs;
  int made = 0;
  bool removed = false;
  sco::Model& model = m;
  auto vars = [&] {
    sco::VarVector out;
    for (const V& v : vs)
      out.push_back(v.v);
    return out;
  };
  const int steps = g.range(1, 16);
  for (int k = 0; k < steps; ++k)
  {
    switch (vs.empty() ? 0 : g.range(0, 6))
    {
      case 0:
      case 1:
      {
        const std::string name = varName(g, made++);
        double lo = g.boolean() ? -INFINITY : g.range(-400, 0) / 8.0, up = g.boolean() ? INFINITY : g.range(0, 400) / 8.0;
        vs.push_back({ model.addVar(name, lo, up), name, lo, up });
        break;
      }
      case 2:
      {
        V& v = vs[g.index(vs.size())];
        v.lo = g.range(-400, 0) / 8.0;
        v.up = g.range(0, 400) / 8.0;
        model.setVarBounds(v.v, v.lo, v.up);
        break;
      }
      case 3:
      case 4:
      {
        C c;
        const sco::AffExpr e = affine(g, vars(), c.p);
        for (const sco::Var& v : e.vars)
          c.uses.push_back(v.var_rep->name);
        c.eq = g.boolean();
        c.c = c.eq ? model.addEqCnt(e, "c") : model.addIneqCnt(e, "c");
        cs.push_back(c);
        break;
      }
      case 5:
        if (!cs.empty())
        {
          const std::size_t i = g.index(cs.size());
          model.removeCnt(cs[i].c);
          cs.erase(cs.begin() + static_cast<long>(i));
          removed = true;
        }
        break;
      default:
      {
        const std::size_t i = g.index(vs.size());
        bool used = false;
        for (const C& c : cs)
          for (const std::string& u : c.uses)
            used |= u == vs[i].name;
        if (used)
          break;
        model.removeVar(vs[i].v);
        vs.erase(vs.begin() + static_cast<long>(i));
        removed = true;
      }
    }
    model.update();
  }
  Poly obj;
  model.setObjective(quadratic(g, vars(), obj));
  model.update();
  if (removed)
    g.nontrivial();

  char path[] = "/tmp/pbt_lp_XXXXXX";
  const int fd = mkstemp(path);
  CHECK(fd >= 0);
  close(fd);
  model.writeToFile(path);
  std::ifstream in(path);
  std::stringstream ss;
  ss << in.rdbuf();
  in.close();
  unlink(path);
  const std::string all = ss.str();
  g.log() << all << "\n";

  std::string section, objective;
  std::size_t nc = 0, nb = 0;
  for (const std::string& raw : lines(all))
  {
    const std::string l = trim(raw);
    if (l.empty() || l[0] == '\\')
      continue;
    if (l == "Minimize" || l == "Subject To" || l == "Bounds" || l == "End")
    {
      section = l;
      continue;
    }
    if (section == "Minimize")
      objective += " " + l;
    else if (section == "Subject To")
    {
      CHECK(nc < cs.size(), << "more rows than constraints: " << l);
      const bool le = raw.find("<=") != std::string::npos;
      const auto sides = split(raw, le ? "<=" : "=");
      CHECK(sides.size() == 2 && trim(sides[1]) == "0", << l);
      Poly p;
      readLinear(g, trim(sides[0]), p);
      CHECK(p == cs[nc].p, << "row " << nc << ": '" << l << "' for " << cs[nc].p.str());
      CHECK(le != cs[nc].eq, << "row " << nc << ": '" << l << "'");
      ++nc;
    }
    else
    {
      CHECK(section == "Bounds", << "'" << l << "' in section '" << section << "'");
      const auto s = split(l, "<=");
      CHECK(s.size() == 3 && nb < vs.size(), << l);
      double lo = 0, up = 0;
      CHECK(number(trim(s[0]), lo) && number(trim(s[2]), up), << l);
      CHECK(trim(s[1]) == vs[nb].name, << "bounds of " << s[1] << " where those of " << vs[nb].name << " are due");
      CHECK((std::isinf(vs[nb].lo) ? lo <= -1e20 : lo == vs[nb].lo) && (std::isinf(vs[nb].up) ? up >= 1e20 : up == vs[nb].up),
            << l << " for " << vs[nb].lo << ".." << vs[nb].up);
      ++nb;
    }
  }
  CHECK(section == "End" && nc == cs.size() && nb == vs.size(), << nc << " rows, " << nb << " bounds, ends in " << section);
  const Poly q = readQuadratic(g, objective);
  CHECK(q == obj, << "the objective reads as " << q.str() << " but is " << obj.str());
}

// --- ifopt ---------------------------------------------------------------------------------------------------------
namespace
{
class FnCost : public trajopt_ifopt::CostTerm
{
public:
  double value;
  FnCost(const std::string& name, double v) : CostTerm(name), value(v) { non_zeros_ = 0; }
  double getCost() const override { return value; }
  int update() override { return rows_; }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(1); }
  trajopt_ifopt::Jacobian getJacobian() const override { return { 1, variables_->getRows() }; }
};
std::string plain(const std::string& s)
{
  std::string out;
  for (std::size_t i = 0; i < s.size(); ++i)
  {
    if (s[i] == '\033')
    {
      while (i < s.size() && s[i] != 'm')
        ++i;
      continue;
    }
    out += s[i];
  }
  return out;
}
struct PrintedSet
{
  std::string name;
  int rows, first, last;
  std::string value;
};
// "name   3   0......2    1"
bool readSet(const std::string& line, PrintedSet& s)
{
  const auto w = words(line);
  if (w.size() < 4)
    return false;
  s.name = w[0];
  s.value = w.back();
  double v = 0;
  if (!number(w[1], v))
    return false;
  s.rows = static_cast<int>(v);
  std::string range;
  for (std::size_t i = 2; i + 1 < w.size(); ++i)
    range += w[i];
  const auto d = range.find("..");
  const auto e = range.find_last_of('.');
  if (d == std::string::npos || e < d)
    return false;
  s.first = std::atoi(range.substr(0, d).c_str());
  s.last = std::atoi(range.substr(e + 1).c_str());
  return true;
}
}  // namespace

PBT_CASES(ifopt_problem, 20000, 400000)
{
  using namespace fx;
  Layout l = genVars(g, 3, g.chance(1, 3));
  const int nv = static_cast<int>(l.vars->getRows());
  trajopt_ifopt::Problem nlp(l.vars);
  struct Want
  {
    std::string name;
    int rows;
    std::string value;
    double cost;
  };
  std::vector<Want> cnts, costs;
  const Eigen::VectorXd x = genPoint(g, nv, 6);
  const int nc = g.range(0, 3), nk = g.range(0, 3);
  std::vector<std::shared_ptr<FnSet>> sets;
  for (int i = 0; i < nc; ++i)
  {
    const int m = g.range(1, 12);
    std::vector<Bounds> b;
    for (int r = 0; r < m; ++r)
      b.push_back(genBounds(g));
    auto s = std::make_shared<FnSet>("cnt" + std::to_string(i), SmoothVec::make(g, m, nv), b, genCoeffs(g, m));
    nlp.addConstraintSet(s);
    sets.push_back(s);
  }
  for (int i = 0; i < nk; ++i)
  {
    auto c = std::make_shared<FnCost>("cost" + std::to_string(i), g.range(-20000, 20000) / 16.0);
    nlp.addCostSet(c);
    costs.push_back({ "cost" + std::to_string(i), 1, "", c->value });
  }
  nlp.setVariables(x.data());
  const Eigen::VectorXd at = nlp.getVariableValues();
  auto violated = [&](double v, const Bounds& b) {
    const double e = std::fabs(boundsError(v, b));
    if (std::fabs(e - 0.001) < 1e-9)
      throw pbt::Discard();
    return e > 0.001;
  };
  int vbad = 0;
  for (int i = 0; i < nv; ++i)
    vbad += violated(at[i], l.bounds[static_cast<std::size_t>(i)]);
  bool bad = false;
  for (int i = 0; i < nc; ++i)
  {
    const Eigen::VectorXd v = sets[static_cast<std::size_t>(i)]->getValues();
    int n = 0;
    for (Eigen::Index r = 0; r < v.size(); ++r)
      n += violated(v[r], sets[static_cast<std::size_t>(i)]->bounds[static_cast<std::size_t>(r)]);
    bad |= n > 0;
    cnts.push_back({ "cnt" + std::to_string(i), static_cast<int>(v.size()), std::to_string(n), 0 });
  }
  if (nc + nk > 2 && bad)
    g.nontrivial();
  const std::string out = plain(printed([&] { nlp.printCurrent(); }));
  g.log() << out << "\n";
  CHECK(nlp.getVariableValues() == at, << "printing moves the point");
  std::vector<PrintedSet> got;
  for (const std::string& s : lines(out))
  {
    PrintedSet p;
    if (readSet(s, p))
      got.push_back(p);
  }
  std::vector<Want> want{ { "vars", nv, std::to_string(vbad), 0 } };
  want.insert(want.end(), cnts.begin(), cnts.end());
  want.insert(want.end(), costs.begin(), costs.end());
  CHECK(got.size() == want.size(), << got.size() << " sets are listed, " << want.size() << " are there");
  int index = 0;
  for (std::size_t i = 0; i < got.size(); ++i)
  {
    const Want& w = want[i];
    const PrintedSet& p = got[i];
    if (i == 1 || i == 1 + cnts.size())
      index = 0;
    CHECK(p.name == w.name && p.rows == w.rows, << p.name << " of " << p.rows << " where " << w.name << " of " << w.rows << " is due");
    CHECK(p.first == index && p.last == index + w.rows - 1, << p.name << ": indices " << p.first << ".." << p.last << " instead of " << index
                                                            << ".." << index + w.rows - 1);
    index += w.rows;
    if (w.value.empty())
    {
      double v = 0;
      CHECK(number(p.value, v) && std::fabs(v - w.cost) <= 0.00501, << p.name << " " << p.value << " instead of " << w.cost);
    }
    else
      CHECK(p.value == w.value, << p.name << ": " << p.value << " violated bounds, " << w.value << " expected");
  }
}

// --- quadratic programs and results --------------------------------------------------------------------------------
namespace
{
// "label: numbers", or the lines after "label:" up to the next label
struct Listing
{
  std::map<std::string, std::vector<std::string>> of;
  explicit Listing(const std::string& s)
  {
    std::string label;
    for (const std::string& l : lines(s))
    {
      const auto c = l.find(':');
      if (c != std::string::npos && l.find("::") == std::string::npos)
      {
        label = l.substr(0, c);
        of[label].clear();
        for (const auto& w : words(l.substr(c + 1)))
          of[label].push_back(w);
      }
      else if (!label.empty())
        for (const auto& w : words(l))
          of[label].push_back(w);
    }
  }
};
double coarse(pbt::Gen& g)
{
  if (g.chance(1, 12))
    return g.boolean() ? INFINITY : -INFINITY;
  const double v = g.num(5);
  return g.chance(1, 4) ? v * std::pow(10.0, g.range(-9, 9)) : v;
}
VectorXd coarseVec(pbt::Gen& g, int n)
{
  VectorXd v(n);
  for (int i = 0; i < n; ++i)
    v[i] = coarse(g);
  return v;
}
void checkNumbers(pbt::Gen& g, const Listing& l, const std::string& label, const VectorXd& v, int digits = 3)
{
  const auto it = l.of.find(label);
  CHECK(it != l.of.end(), << "no line '" << label << "'");
  CHECK(it->second.size() == static_cast<std::size_t>(v.size()), << "'" << label << "' shows " << it->second.size() << " numbers of " << v.size());
  for (Eigen::Index i = 0; i < v.size(); ++i)
    CHECK(shows(it->second[static_cast<std::size_t>(i)], v[i], digits), << "'" << label << "' number " << i << ": " << it->second[static_cast<std::size_t>(i)] << " for " << v[i]);
}
VectorXd one(double v) { return VectorXd::Constant(1, v); }
VectorXd rowMajor(const Eigen::MatrixXd& m)
{
  VectorXd v(m.size());
  Eigen::Index k = 0;
  for (Eigen::Index r = 0; r < m.rows(); ++r)
    for (Eigen::Index c = 0; c < m.cols(); ++c)
      v[k++] = m(r, c);
  return v;
}
}  // namespace

PBT_CASES(qp_problems, 6000, 100000)
{
  using namespace sq;
  Layout l = genVars(g, 2, g.chance(1, 3));
  const Eigen::Index nv = l.vars->getRows();
  std::shared_ptr<trajopt_sqp::QPProblem> qp;
  const bool ifopt = g.boolean();
  if (ifopt)
    qp = std::make_shared<trajopt_sqp::IfoptQPProblem>(l.vars);
  else
    qp = std::make_shared<trajopt_sqp::TrajOptQPProblem>(l.vars);
  const int n_costs = g.range(0, 2), n_cnts = g.range(0, 2);
  for (int k = 0; k < n_costs; ++k)
  {
    const int m = g.range(1, 2);
    auto s = std::make_shared<FnSet>("cost" + std::to_string(k), SmoothVec::make(g, m, static_cast<int>(nv)), genBoundsFor(g, m, 0), genCoeffs(g, m));
    qp->addCostSet(s, CostPenaltyType::kSquared);
  }
  for (int k = 0; k < n_cnts; ++k)
  {
    const int m = g.range(1, 2);
    auto s = std::make_shared<FnSet>("cnt" + std::to_string(k), SmoothVec::make(g, m, static_cast<int>(nv)), genBoundsFor(g, m, 2), genCoeffs(g, m));
    qp->addConstraintSet(s);
  }
  qp->setup();
  if (g.boolean())
    qp->setBoxSize(VectorXd::Constant(nv, std::fabs(g.nonzero(3))));
  if (g.boolean())
  {
    VectorXd m(qp->getNumNLPConstraints());
    for (Eigen::Index i = 0; i < m.size(); ++i)
      m[i] = 1 + std::fabs(g.num(50));
    qp->setConstraintMeritCoeff(m);
  }
  qp->setVariables(genX(g, l.bounds).eval().data());
  qp->convexify();
  if (n_costs && n_cnts)
    g.nontrivial();
  const VectorXd x = qp->getVariableValues();
  const std::string s = printed([&] { qp->print(); });
  g.log() << s << "\n";
  CHECK(qp->getVariableValues() == x, << "printing moves the point");
  const Listing p(s);
  checkNumbers(g, p, "Num NLP Vars", one(static_cast<double>(qp->getNumNLPVars())), 9);
  checkNumbers(g, p, "Num QP Vars", one(static_cast<double>(qp->getNumQPVars())), 9);
  if (p.of.count("Num NLP Constraints"))
    checkNumbers(g, p, "Num NLP Constraints", one(static_cast<double>(qp->getNumNLPConstraints())), 9);
  if (p.of.count("Num QP Constraints"))
    checkNumbers(g, p, "Num QP Constraints", one(static_cast<double>(qp->getNumQPConstraints())), 9);
  checkNumbers(g, p, ifopt ? "box_size_" : "Box Size", qp->getBoxSize());
  checkNumbers(g, p, ifopt ? "constraint_merit_coeff_" : "Constraint Merit Coeff", qp->getConstraintMeritCoeff());
  checkNumbers(g, p, "Hessian", rowMajor(Eigen::MatrixXd(qp->getHessian())));
  checkNumbers(g, p, "Gradient", qp->getGradient());
  checkNumbers(g, p, "Constraint Matrix", rowMajor(Eigen::MatrixXd(qp->getConstraintMatrix())));
  checkNumbers(g, p, "NLP values", x);
  const VectorXd& lo = qp->getBoundsLower();
  const VectorXd& up = qp->getBoundsUpper();
  checkNumbers(g, p, ifopt ? "bounds_lower" : "All Lower Bounds", lo);
  checkNumbers(g, p, ifopt ? "bounds_upper" : "All Upper Bounds", up);
  if (!ifopt)
  {
    const Eigen::Index m = lo.size() - qp->getNumQPVars();
    checkNumbers(g, p, "Constraint Lower Bounds", lo.head(m));
    checkNumbers(g, p, "Constraint Upper Bounds", up.head(m));
    checkNumbers(g, p, "Variable Lower Bounds", lo.tail(lo.size() - m));
    checkNumbers(g, p, "Variable Upper Bounds", up.tail(up.size() - m));
  }
}

namespace
{
trajopt_sqp::SQPResults drawResults(pbt::Gen& g, int n, int nc, int nk)
{
  trajopt_sqp::SQPResults r;
  auto some = [&](int k) {
    VectorXd v = coarseVec(g, k);
    return VectorXd(v.array().isFinite().select(v, 7));
  };
  for (double* d : { &r.best_exact_merit, &r.new_exact_merit, &r.best_approx_merit, &r.new_approx_merit, &r.approx_merit_improve,
                     &r.exact_merit_improve, &r.merit_improve_ratio })
    *d = some(1)[0];
  r.best_var_vals = some(n);
  r.new_var_vals = some(n);
  r.box_size = some(n).cwiseAbs();
  r.merit_error_coeffs = some(nc);
  for (VectorXd* v : { &r.best_constraint_violations, &r.new_constraint_violations, &r.best_approx_constraint_violations, &r.new_approx_constraint_violations })
    *v = some(nc);
  for (VectorXd* v : { &r.best_costs, &r.new_costs, &r.best_approx_costs, &r.new_approx_costs })
    *v = some(nk);
  // nothing changes in some of them
  for (int i = 0; i < nc; ++i)
    if (g.chance(1, 4))
      r.new_approx_constraint_violations[i] = r.best_constraint_violations[i];
  for (int i = 0; i < nk; ++i)
    if (g.chance(1, 4))
      r.new_approx_costs[i] = r.best_costs[i];
  for (int* d : { &r.penalty_iteration, &r.convexify_iteration, &r.trust_region_iteration, &r.overall_iteration })
    *d = g.range(0, 99);
  return r;
}
// cells of the rows of numbers in a table "| a | b | ... | name"
struct Table
{
  std::vector<std::vector<std::string>> rows;
  explicit Table(const std::string& s)
  {
    for (const std::string& l : lines(s))
    {
      if (l.empty() || l[0] != '|')
        continue;
      std::vector<std::string> c;
      for (const std::string& f : split(l.substr(1), "|"))
        c.push_back(trim(f));
      if (c.size() == 8)
        rows.push_back(c);
    }
  }
};
bool dashes(const std::string& s)
{
  for (char c : s)
    if (c != '-' && c != ' ')
      return false;
  return true;
}
struct Cell
{
  bool dash = false;
  double v = 0;
  double slack = 0;  // of a sum or difference that cancels
  Cell() : dash(true) {}
  Cell(double v, double slack = 0) : v(v), slack(slack) {}
};
void checkRow(pbt::Gen& g, const std::vector<std::string>& row, const std::vector<Cell>& want, const std::string& name)
{
  for (std::size_t i = 0; i < 7; ++i)
  {
    const Cell& w = want[i];
    const std::string& s = row[i];
    if (w.dash)
    {
      CHECK(dashes(s), << "column " << i << " of '" << row[7] << "': " << s);
      continue;
    }
    double v = 0;
    CHECK(number(s, v), << "column " << i << " of '" << row[7] << "': " << s);
    CHECK(shows(s, w.v, 4) || std::fabs(v - w.v) <= w.slack, << "column " << i << " of '" << row[7] << "': " << s << " for " << w.v);
  }
  CHECK(row[7].compare(0, name.size(), name) == 0, << "'" << row[7] << "' where '" << name << "' is due");
}
// rows of a table of costs or constraints; `merit` empty for costs
void checkTable(pbt::Gen& g,
                const Table& t,
                std::size_t& at,
                const std::vector<std::string>& names,
                const VectorXd& merit,
                const VectorXd& old,
                const VectorXd& now,
                const VectorXd& model)
{
  for (std::size_t i = 0; i < names.size(); ++i)
  {
    const auto k = static_cast<Eigen::Index>(i);
    const double w = merit.size() ? merit[k] : 1, da = old[k] - model[k], de = old[k] - now[k];
    const double e = 1e-9 * std::fabs(w);
    CHECK(at < t.rows.size(), << "a row for " << names[i] << " is missing");
    std::vector<Cell> want{ merit.size() ? Cell(w) : Cell(), w * old[k], w * now[k], w * model[k], { w * da, e }, { w * de, e } };
    want.push_back(std::fabs(da) > 1e-8 ? Cell(de / da, 1e-9) : Cell());
    checkRow(g, t.rows[at++], want, names[i]);
  }
}
void checkTotals(pbt::Gen& g, const Table& t, std::size_t& at, const VectorXd& old, const VectorXd& now, const VectorXd& model, const std::string& name)
{
  CHECK(at < t.rows.size(), << "no row " << name);
  auto sum = [](const VectorXd& v) { return Cell(v.sum(), 1e-12 * v.cwiseAbs().sum()); };
  checkRow(g, t.rows[at++], { Cell(), sum(old), sum(now), sum(model), Cell(), Cell(), Cell() }, name);
}
std::vector<std::string> names(pbt::Gen& g, const std::string& base, int n)
{
  std::vector<std::string> out;
  for (int i = 0; i < n; ++i)
    out.push_back(base + std::to_string(i) + (g.chance(1, 6) ? "_a_name_longer_than_its_column" : ""));
  return out;
}
class OpenSolver : public trajopt_sqp::TrustRegionSQPSolver
{
public:
  OpenSolver() : TrustRegionSQPSolver(nullptr) {}
  using TrustRegionSQPSolver::results_;
};
}  // namespace

PBT_CASES(sqp_results, 20000, 300000)
{
  const int n = g.range(1, 5), nc = g.range(0, 4), nk = g.range(0, 4);
  const trajopt_sqp::SQPResults r = drawResults(g, n, nc, nk);
  const std::string s = printed([&] { r.print(); });
  const Listing p(s);
#define ONE(f) checkNumbers(g, p, #f, one(static_cast<double>(r.f)), 6)
#define VEC(f) checkNumbers(g, p, #f, r.f)
  ONE(best_exact_merit);
  ONE(new_exact_merit);
  ONE(best_approx_merit);
  ONE(new_approx_merit);
  ONE(approx_merit_improve);
  ONE(exact_merit_improve);
  ONE(merit_improve_ratio);
  ONE(penalty_iteration);
  ONE(convexify_iteration);
  ONE(trust_region_iteration);
  ONE(overall_iteration);
  VEC(best_var_vals);
  VEC(new_var_vals);
  VEC(box_size);
  VEC(merit_error_coeffs);
  VEC(best_constraint_violations);
  VEC(new_constraint_violations);
  VEC(best_approx_constraint_violations);
  VEC(new_approx_constraint_violations);
  VEC(best_costs);
  VEC(new_costs);
  VEC(best_approx_costs);
  VEC(new_approx_costs);
#undef ONE
#undef VEC
  if (nc && nk)
    g.nontrivial();

  // the report on a step
  sq::Layout l = sq::trajectory(g, 1, 1);
  auto qp = std::make_shared<trajopt_sqp::IfoptQPProblem>(l.vars);
  const auto cost_names = names(g, "cost", nk), cnt_names = names(g, "cnt", nc);
  for (const std::string& c : cost_names)
    qp->addCostSet(std::make_shared<sq::FnSet>(c, SmoothVec::make(g, 1, 1), sq::genBoundsFor(g, 1, 0), VectorXd::Ones(1)),
                   trajopt_sqp::CostPenaltyType::kSquared);
  for (const std::string& c : cnt_names)
    qp->addConstraintSet(std::make_shared<sq::FnSet>(c, SmoothVec::make(g, 1, 1), sq::genBoundsFor(g, 1, 0), VectorXd::Ones(1)));
  qp->setup();
  OpenSolver solver;
  solver.qp_problem = qp;
  solver.results_ = r;
  solver.params.cnt_tolerance = std::pow(10.0, g.range(-6, 1));
  const std::string step = printed([&] { solver.printStepInfo(); });
  g.log() << step << "\n";
  double box = 0;
  const auto b = step.find("Box Size: ");
  CHECK(b != std::string::npos);
  box = std::strtod(step.c_str() + b + 10, nullptr);
  CHECK_NEAR(box, r.box_size[0], 1e-9, 1e-9, << "box size");
  for (const auto& [label, v] : std::map<std::string, int>{ { "Overall", r.overall_iteration }, { "Convexify", r.convexify_iteration },
                                                            { "Trust Region", r.trust_region_iteration }, { "Penalty", r.penalty_iteration } })
  {
    const auto at = step.find(label + ":");
    CHECK(at != std::string::npos && std::atoi(step.c_str() + at + label.size() + 1) == v, << label << " iteration is " << v);
  }
  const Table t(step);
  std::size_t at = 1;  // after the header
  CHECK(!t.rows.empty() && t.rows[0][1] == "oldexact");
  checkTable(g, t, at, qp->getNLPCostNames(), VectorXd(), r.best_costs, r.new_costs, r.new_approx_costs);
  checkTotals(g, t, at, r.best_costs, r.new_costs, r.new_approx_costs, "SUM COSTS");
  checkTable(g, t, at, qp->getNLPConstraintNames(), r.merit_error_coeffs, r.best_constraint_violations, r.new_constraint_violations, r.new_approx_constraint_violations);
  bool ok = true;
  for (int i = 0; i < nc; ++i)
    ok &= r.new_constraint_violations[i] < solver.params.cnt_tolerance;
  CHECK(at < t.rows.size());
  const std::string& cell = t.rows[at][7];
  CHECK((cell.find("(True)") != std::string::npos) == ok && (cell.find("(False)") != std::string::npos) == !ok, << cell);
  checkTotals(g, t, at, r.best_constraint_violations, r.new_constraint_violations, r.new_approx_constraint_violations, "SUM CONSTRAINTS");
  CHECK(at + 1 == t.rows.size());
  checkRow(g, t.rows[at], { Cell(), r.best_exact_merit, r.new_exact_merit, Cell(), r.approx_merit_improve, r.exact_merit_improve, r.merit_improve_ratio }, "TOTAL");
}

PBT_CASES(sco_results, 20000, 300000)
{
  const int n = g.range(1, 5), nc = g.range(0, 4), nk = g.range(0, 4);
  const trajopt_sqp::SQPResults d = drawResults(g, n, nc, nk);
  auto vec = [](const VectorXd& v) { return sco::DblVec(v.data(), v.data() + v.size()); };
  const auto var_names = names(g, "v", n), cost_names = names(g, "cost", nk), cnt_names = names(g, "cnt", nc);
  sco::BasicTrustRegionSQP opt;
  sco::BasicTrustRegionSQPResults r(var_names, cost_names, cnt_names, opt);
  r.model_var_vals = vec(d.best_var_vals);
  r.new_x = vec(d.new_var_vals);
  r.old_cost_vals = vec(d.best_costs);
  r.new_cost_vals = vec(d.new_costs);
  r.model_cost_vals = vec(d.new_approx_costs);
  r.old_cnt_viols = vec(d.best_constraint_violations);
  r.new_cnt_viols = vec(d.new_constraint_violations);
  r.model_cnt_viols = vec(d.new_approx_constraint_violations);
  r.merit_error_coeffs = vec(d.merit_error_coeffs);
  r.old_merit = d.best_exact_merit;
  r.new_merit = d.new_exact_merit;
  r.model_merit = d.new_approx_merit;
  r.approx_merit_improve = d.approx_merit_improve;
  r.exact_merit_improve = d.exact_merit_improve;
  r.merit_improve_ratio = d.merit_improve_ratio;
  if (nc && nk)
    g.nontrivial();
  {
    const std::string s = printed([&] { r.print(); });
    g.log() << s << "\n";
    const Table t(s);
    std::size_t at = 1;
    CHECK(!t.rows.empty() && t.rows[0][1] == "oldexact");
    checkTable(g, t, at, cost_names, VectorXd(), d.best_costs, d.new_costs, d.new_approx_costs);
    checkTotals(g, t, at, d.best_costs, d.new_costs, d.new_approx_costs, "SUM COSTS");
    checkTable(g, t, at, cnt_names, d.merit_error_coeffs, d.best_constraint_violations, d.new_constraint_violations, d.new_approx_constraint_violations);
    checkTotals(g, t, at, d.best_constraint_violations, d.new_constraint_violations, d.new_approx_constraint_violations, "SUM CONSTRAINTS");
    CHECK(at + 1 == t.rows.size());
    checkRow(g, t.rows[at], { Cell(), r.old_merit, r.new_merit, Cell(), r.approx_merit_improve, r.exact_merit_improve, r.merit_improve_ratio }, "TOTAL");
  }
  {
    const std::string s = printed([&] { r.printRaw(); });
    std::map<std::string, std::vector<std::string>> of;
    for (const std::string& l : lines(s))
    {
      const auto c = l.find(':');
      if (c == std::string::npos)
        continue;
      for (const std::string& w : split(l.substr(c + 1), ","))
        if (!trim(w).empty())
          of[l.substr(0, c)].push_back(trim(w));
    }
    auto same = [&](const std::string& label, const sco::DblVec& v) {
      CHECK(of[label].size() == v.size(), << label << " in\n" << s);
      for (std::size_t i = 0; i < v.size(); ++i)
        CHECK(shows(of[label][i], v[i], 6), << label << " " << i << ": " << of[label][i] << " for " << v[i]);
    };
    same("model_var_vals", r.model_var_vals);
    same("model_cost_vals", r.model_cost_vals);
    same("model_cnt_viols", r.model_cnt_viols);
    same("new_x", r.new_x);
    same("new_cost_vals", r.new_cost_vals);
    same("old_cost_vals", r.old_cost_vals);
    same("new_cnt_viols", r.new_cnt_viols);
    same("old_cnt_viols", r.old_cnt_viols);
    same("old_merit", { r.old_merit });
    same("model_merit", { r.model_merit });
    same("new_merit", { r.new_merit });
    same("approx_merit_improve", { r.approx_merit_improve });
    same("exact_merit_improve", { r.exact_merit_improve });
    same("merit_improve_ratio", { r.merit_improve_ratio });
    same("merit_error_coeffs", r.merit_error_coeffs);
    CHECK(of["var_names"] == var_names && of["cost_names"] == cost_names && of["cnt_names"] == cnt_names, << s);
  }
  const bool header = g.boolean();
  auto csv = [&](const std::string& s) {
    std::vector<std::vector<std::string>> rows;
    for (const std::string& l : lines(s))
      if (!l.empty())
        rows.push_back(split(l, ","));
    return rows;
  };
  auto nums = [&](const std::vector<std::string>& row, const std::vector<Cell>& want, int digits) {
    CHECK(row.size() == want.size() + 1, << row.size() << " columns of " << want.size() + 1);
    for (std::size_t i = 0; i < want.size(); ++i)
    {
      double v = 0;
      CHECK(number(trim(row[i + 1]), v), << row[i + 1]);
      CHECK((std::isnan(v) && want[i].dash) || shows(trim(row[i + 1]), want[i].v, digits) || std::fabs(v - want[i].v) <= want[i].slack,
            << row[0] << " column " << i << ": " << row[i + 1] << " for " << want[i].v);
    }
  };
  {
    const auto f = csv(filed([&](std::FILE* o) { r.writeSolver(o, header); }));
    CHECK(f.size() == (header ? 2 : 1));
    if (header)
      CHECK(f[0] == (std::vector<std::string>{ "DESCRIPTION", "oldexact", "new_exact", "dapprox", "dexact", "ratio" }));
    nums(f.back(), { r.old_merit, r.new_merit, r.approx_merit_improve, r.exact_merit_improve, r.merit_improve_ratio }, 4);
  }
  {
    const auto f = csv(filed([&](std::FILE* o) { r.writeVars(o, header); }));
    CHECK(f.size() == (header ? 2 : 1));
    if (header)
      CHECK(std::vector<std::string>(f[0].begin() + 1, f[0].end()) == var_names);
    std::vector<Cell> w;
    for (double v : r.new_x)
      w.emplace_back(v);
    nums(f.back(), w, 7);
  }
  auto terms = [&](const std::string& text, const std::vector<std::string>& nm, const VectorXd& merit, const VectorXd& old, const VectorXd& now, const VectorXd& model) {
    const auto f = csv(text);
    CHECK(f.size() == (header ? 3 : 1));
    const std::vector<std::string> cols{ "oldexact", "dapprox", "dexact", "ratio" };
    std::vector<Cell> w;
    for (std::size_t i = 0; i < nm.size(); ++i)
    {
      const auto k = static_cast<Eigen::Index>(i);
      const double m = merit.size() ? merit[k] : 1, da = old[k] - model[k], de = old[k] - now[k], e = 1e-9 * std::fabs(m);
      w.emplace_back(m * old[k]);
      w.emplace_back(m * da, e);
      w.emplace_back(m * de, e);
      w.push_back(std::fabs(da) > 1e-8 ? Cell(de / da, 1e-9) : Cell());
      if (header)
        for (std::size_t c = 0; c < 4; ++c)
          CHECK(f[0].at(1 + 4 * i + c) == nm[i] && f[1].at(1 + 4 * i + c) == cols[c]);
    }
    if (header)
      CHECK(f[0].size() == 1 + 4 * nm.size() && f[1].size() == f[0].size());
    nums(f.back(), w, 7);
  };
  terms(filed([&](std::FILE* o) { r.writeCosts(o, header); }), cost_names, VectorXd(), d.best_costs, d.new_costs, d.new_approx_costs);
  terms(filed([&](std::FILE* o) { r.writeConstraints(o, header); }), cnt_names, d.merit_error_coeffs, d.best_constraint_violations, d.new_constraint_violations, d.new_approx_constraint_violations);

  // the summary of a run
  sco::OptResults o;
  o.clear();
  o.status = g.pick(std::vector<sco::OptStatus>{ sco::OPT_CONVERGED, sco::OPT_SCO_ITERATION_LIMIT, sco::OPT_PENALTY_ITERATION_LIMIT, sco::OPT_TIME_LIMIT,
                                                 sco::OPT_FAILED, sco::INVALID });
  o.cost_vals = r.new_cost_vals;
  o.cnt_viols = r.new_cnt_viols;
  o.n_func_evals = g.range(0, 999);
  o.n_qp_solves = g.range(0, 999);
  const std::string s = text(o);
  auto after = [&](const std::string& label) {
    const auto at = s.find(label + ": ");
    CHECK(at != std::string::npos, << "no '" << label << "' in\n" << s);
    return split(s.substr(at + label.size() + 2), "\n")[0];
  };
  auto list = [&](const std::string& label, const sco::DblVec& v) {
    const std::string a = after(label);
    CHECK(a.size() >= 2 && a.front() == '(' && a.back() == ')', << a);
    std::vector<std::string> w;
    for (const std::string& c : split(a.substr(1, a.size() - 2), ","))
      if (!trim(c).empty())
        w.push_back(trim(c));
    CHECK(w.size() == v.size(), << a);
    for (std::size_t i = 0; i < v.size(); ++i)
      CHECK(shows(w[i], v[i], 6), << label << " " << i << ": " << w[i] << " for " << v[i]);
  };
  CHECK(after("status") == sco::toString(o.status));
  list("cost values", o.cost_vals);
  list("constraint violations", o.cnt_viols);
  CHECK(after("n func evals") == std::to_string(o.n_func_evals) && after("n qp solves") == std::to_string(o.n_qp_solves), << s);
}
