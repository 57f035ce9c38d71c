// A small property-based testing engine: every random decision of a case is one entry of a choice sequence, so a case is
// replayed from, and shrunk as, that sequence (no knowledge of what it builds is needed). Cases run in forked workers:
// an abort, a signal, a sanitizer report or a hang of the code under test is a failure of that case, not of the run.
//
//   PBT_PROPERTY("C01", "rule text");                                     once per program
//   PBT_CASES(lru_history, 20000, 400000) { ... pbt::Gen& g ... }         generated check; cases in quick / thorough
//   PBT_FIXED(all_names) { ... pbt::Gen& g ... }                          finite enumeration, run in both tiers
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
struct Failure : std::exception
{
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
// A failure with an identity, so that it can be looked up among the known findings.
struct KeyedFailure : Failure
{
  std::string key;
  KeyedFailure(std::string k, std::string m) : Failure(std::move(m)), key(std::move(k)) {}
};
struct Discard
{
};

// Choice source of one case
class Gen
{
public:
  explicit Gen(uint64_t seed) : state_(seed) {}
  explicit Gen(const std::vector<uint64_t>* replay) : replay_(replay) {}

  // uniform in [0, bound); smaller is simpler
  uint64_t draw(uint64_t bound);

  bool boolean() { return draw(2) == 1; }
  // true with probability num/den; false is simpler
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  // a count that is small nearly always and up to big now and then
  int count(int lo, int hi, int big) { return draw(24) == 23 ? range(lo, big) : range(lo, hi); }
  int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
  std::size_t index(std::size_t n) { return static_cast<std::size_t>(draw(n)); }
  template <class T>
  const T& pick(const std::vector<T>& v)
  {
    return v[index(v.size())];
  }
  // A number in [lo, hi]: the simplest grid points first, then arbitrary reals
  double real(double lo, double hi);
  // A number with |x| <= mag: zero, small integers, eighths or arbitrary reals
  double num(double mag);
  // As num, never within tol of zero
  double nonzero(double mag, double tol = 1e-2);
  std::string name(int max_len = 8);

  // classification and reporting
  void label(const std::string& l);
  void nontrivial() { nontrivial_ = true; }
  bool isNontrivial() const { return nontrivial_; }
  std::ostream& log() { return log_; }
  const std::string& logText() const { return log_buf_.text; }
  [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
  [[noreturn]] void failKeyed(const std::string& key, const std::string& m) { throw KeyedFailure(key, m); }
  // The failure `key` of this property is a listed finding: count it, and let the case go on. Otherwise fail.
  void failUnlessKnown(const std::string& key, const std::string& m);

  // for the engine
  const std::vector<uint64_t>& choices() const { return choices_; }
  void setSink(volatile uint64_t* sink, std::size_t cap)
  {
    sink_ = sink;
    sink_cap_ = cap;
  }

private:
  uint64_t rnd();
  uint64_t state_{ 0 };
  const std::vector<uint64_t>* replay_{ nullptr };
  std::size_t pos_{ 0 };
  std::vector<uint64_t> choices_;
  // the log goes to the shared page as it is written, so that a crashing case has one too
  struct LogBuf : std::streambuf
  {
    std::string text;
    int overflow(int c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    void put(const char* s, std::size_t n);
  };
  LogBuf log_buf_;
  std::ostream log_{ &log_buf_ };
  bool nontrivial_{ false };
  volatile uint64_t* sink_{ nullptr };
  std::size_t sink_cap_{ 0 };
};

using CaseFn = void (*)(Gen&);
struct Reg
{
  Reg(const char* name, CaseFn fn, long quick, long thorough, bool fixed = false, bool schedules = false);
};
struct PropertyReg
{
  PropertyReg(const char* id, const char* rule);
};

// seconds a single case may take before it counts as a hang (default 60)
void setCaseTimeout(double s);

template <class T>
std::string str(const T& v)
{
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
template <class M>
std::string mat(const M& m)
{
  std::ostringstream o;
  o.precision(9);
  o << "[";
  for (long r = 0; r < m.rows(); ++r)
  {
    if (r)
      o << "; ";
    for (long c = 0; c < m.cols(); ++c)
      o << (c ? " " : "") << m(r, c);
  }
  o << "]";
  return o.str();
}
// |a-b| within abs + rel*max(|a|,|b|); infinities of one sign are equal
inline bool near(double a, double b, double abs_tol, double rel_tol)
{
  if (a == b)
    return true;
  if (!std::isfinite(a) || !std::isfinite(b))
    return false;
  return std::fabs(a - b) <= abs_tol + rel_tol * std::max(std::fabs(a), std::fabs(b));
}
}  // namespace pbt

#define PBT_PROPERTY(id, rule) static pbt::PropertyReg pbt_property_reg(id, rule)
#define PBT_CASES(name, quick, thorough)                                                                               \
  static void pbt_case_##name(pbt::Gen& g);                                                                            \
  static pbt::Reg pbt_reg_##name(#name, pbt_case_##name, quick, thorough);                                             \
  static void pbt_case_##name([[maybe_unused]] pbt::Gen& g)
// cases whose outcome depends on how threads are scheduled: a failure counts when it shows again in one of several runs
#define PBT_SCHEDULES(name, quick, thorough)                                                                           \
  static void pbt_case_##name(pbt::Gen& g);                                                                            \
  static pbt::Reg pbt_reg_##name(#name, pbt_case_##name, quick, thorough, false, true);                                \
  static void pbt_case_##name([[maybe_unused]] pbt::Gen& g)
#define PBT_FIXED(name)                                                                                                \
  static void pbt_case_##name(pbt::Gen& g);                                                                            \
  static pbt::Reg pbt_reg_##name(#name, pbt_case_##name, 1, 1, true);                                                  \
  static void pbt_case_##name([[maybe_unused]] pbt::Gen& g)

#define CHECK(cond, ...)                                                                                               \
  do                                                                                                                   \
  {                                                                                                                    \
    if (!(cond))                                                                                                       \
    {                                                                                                                  \
      std::ostringstream pbt_o;                                                                                        \
      pbt_o.precision(17);                                                                                             \
      pbt_o << #cond << " (line " << __LINE__ << ") ";                                                                 \
      (void)(pbt_o << "" __VA_ARGS__);                                                                                 \
      g.fail(pbt_o.str());                                                                                             \
    }                                                                                                                  \
  } while (0)
#define CHECK_NEAR(a, b, abs_tol, rel_tol, ...)                                                                        \
  do                                                                                                                   \
  {                                                                                                                    \
    const double pbt_a = (a), pbt_b = (b);                                                                             \
    if (!pbt::near(pbt_a, pbt_b, abs_tol, rel_tol))                                                                    \
    {                                                                                                                  \
      std::ostringstream pbt_o;                                                                                        \
      pbt_o.precision(17);                                                                                             \
      pbt_o << #a << " = " << pbt_a << " but " << #b << " = " << pbt_b << " (line " << __LINE__ << ") ";               \
      (void)(pbt_o << "" __VA_ARGS__);                                                                                 \
      g.fail(pbt_o.str());                                                                                             \
    }                                                                                                                  \
  } while (0)
#define CHECK_THROWS(expr, ...)                                                                                        \
  do                                                                                                                   \
  {                                                                                                                    \
    bool pbt_thrown = false;                                                                                           \
    try                                                                                                                \
    {                                                                                                                  \
      (void)(expr);                                                                                                    \
    }                                                                                                                  \
    catch (const pbt::Failure&)                                                                                        \
    {                                                                                                                  \
      throw;                                                                                                           \
    }                                                                                                                  \
    catch (const std::exception&)                                                                                      \
    {                                                                                                                  \
      pbt_thrown = true;                                                                                               \
    }                                                                                                                  \
    if (!pbt_thrown)                                                                                                   \
    {                                                                                                                  \
      std::ostringstream pbt_o;                                                                                        \
      pbt_o << #expr << " did not report an error (line " << __LINE__ << ") ";                                         \
      (void)(pbt_o << "" __VA_ARGS__);                                                                                 \
      g.fail(pbt_o.str());                                                                                             \
    }                                                                                                                  \
  } while (0)
#endif
