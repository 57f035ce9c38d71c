#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
namespace
{
struct CaseDef
{
  std::string name;
  CaseFn fn;
  long quick, thorough;
  bool fixed;
  bool schedules;
};
std::vector<CaseDef>& defs()
{
  static std::vector<CaseDef> d;
  return d;
}
std::string g_id, g_rule;  // set in main
const char* g_id_c = "";
const char* g_rule_c = "";
double g_case_timeout = 60;

uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return h;
}
double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

constexpr int MAX_LABELS = 160;
constexpr std::size_t MAX_CHOICES = 200000;
constexpr std::size_t MSG = 6000;
constexpr int MAX_SAMPLES = 3;
constexpr int MAX_KNOWN = 24;

enum Outcome : int
{
  kNone = 0,
  kPass = 1,
  kFail = 2,
  kDiscard = 3
};

struct Shared  // one per worker
{
  volatile long case_index;  // being run
  volatile double case_start;
  volatile uint64_t n_choices;
  uint64_t choices[MAX_CHOICES];
  volatile int outcome;
  char msg[MSG];
  char text[MSG];
  volatile long done, discarded, nontrivial;
  struct
  {
    char name[56];
    long n;
  } labels[MAX_LABELS];
  char samples[MAX_SAMPLES][MSG];
  volatile int n_samples;
  struct
  {
    char key[80];
    char msg[400];
    long n;
  } known[MAX_KNOWN];
};
Shared* g_sh = nullptr;

std::map<std::string, std::string> g_known;  // key -> description, of this property

void copyStr(char* dst, std::size_t cap, const std::string& s)
{
  const std::size_t n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

// runs one case in this process
int runCase(const CaseDef& d, Gen& g, Shared* sh, std::string& msg)
{
  g_sh = sh;
  sh->n_choices = 0;
  g.setSink(sh->choices, MAX_CHOICES);
  try
  {
    d.fn(g);
    return kPass;
  }
  catch (const Discard&)
  {
    return kDiscard;
  }
  catch (const KeyedFailure& f)
  {
    try
    {
      g.failUnlessKnown(f.key, f.msg);
      return kPass;
    }
    catch (const Failure& f2)
    {
      msg = f2.msg;
    }
  }
  catch (const Failure& f)
  {
    msg = f.msg;
  }
  catch (const std::exception& e)
  {
    msg = std::string("unexpected exception: ") + e.what();
  }
  catch (...)
  {
    msg = "unexpected exception of unknown type";
  }
  return kFail;
}

template <class T>
T* sharedAlloc(std::size_t n)
{
  void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
  {
    perror("mmap");
    exit(2);
  }
  return static_cast<T*>(p);
}

void childSetup(const std::string& errfile)
{
  // the code under test may print; keep stdout for the verdict
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0)
    fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
  struct rlimit rl = { 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);
}

std::string tailOf(const std::string& path, std::size_t n)
{
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  // keep a sanitizer's headline
  auto p = s.find("ERROR: AddressSanitizer");
  if (p != std::string::npos)
    return s.substr(p, n);
  p = s.rfind("Assertion");
  if (p != std::string::npos)
    return s.substr(p > 200 ? p - 200 : 0, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}

std::string g_tmp;
double g_deadline = 0;

std::string describeEnd(int status, const std::string& errfile, bool timed_out)
{
  std::ostringstream o;
  if (timed_out)
    o << "the case did not finish within " << g_case_timeout << " s";
  else if (WIFSIGNALED(status))
    o << "the process was killed by signal " << WTERMSIG(status);
  else
    o << "the process ended with exit status " << WEXITSTATUS(status);
  const std::string t = tailOf(errfile, 1200);
  if (!t.empty())
    o << ": " << t;
  return o.str();
}

// one case from a recorded choice sequence, in a child of its own
int runIsolated(const CaseDef& d, const std::vector<uint64_t>& choices, Shared* sh, std::string& msg, std::string& text)
{
  sh->outcome = kNone;
  sh->msg[0] = sh->text[0] = 0;
  const std::string err = g_tmp + "/iso.err";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    childSetup(err);
    Gen g(&choices);
    std::string m;
    int r = runCase(d, g, sh, m);
    copyStr(sh->msg, MSG, m);
    sh->outcome = r;
    _exit(0);
  }
  int status = 0;
  const double t0 = now();
  bool timed_out = false;
  while (waitpid(pid, &status, WNOHANG) == 0)
  {
    const double el = now() - t0;
    if (el > g_case_timeout)
    {
      timed_out = true;
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(el < 0.02 ? 300 : 5000);
  }
  text = sh->text;
  if (sh->outcome == kNone || timed_out)
  {
    msg = describeEnd(status, err, timed_out);
    return kFail;
  }
  msg = sh->msg;
  return sh->outcome;
}

// A failure that needs the cases that ran before it in the same process: cases first, first+stride, ..., last
struct Sequence
{
  bool used{ false };
  uint64_t base{ 0 };
  long first{ 0 }, last{ 0 }, stride{ 1 };
};
bool runSequence(const CaseDef& d, const Sequence& q, Shared* sh, std::string& msg, std::string& text)
{
  sh->outcome = kNone;
  sh->msg[0] = sh->text[0] = 0;
  sh->case_index = -1;
  const std::string err = g_tmp + "/iso.err";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    childSetup(err);
    for (long i = q.first; i <= q.last; i += q.stride)
    {
      sh->case_index = i;
      Gen g(mix(q.base + static_cast<uint64_t>(i)));
      std::string m;
      if (runCase(d, g, sh, m) == kFail)
      {
        copyStr(sh->msg, MSG, m);
        sh->outcome = kFail;
        _exit(0);
      }
    }
    sh->outcome = kPass;
    _exit(0);
  }
  int status = 0;
  const double t0 = now();
  bool timed_out = false;
  while (waitpid(pid, &status, WNOHANG) == 0)
  {
    if (now() - t0 > g_case_timeout)
    {
      timed_out = true;
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    usleep(2000);
  }
  text = sh->text;
  if (timed_out)
    return false;
  if (sh->outcome == kNone)
  {
    msg = describeEnd(status, err, false);
    return true;
  }
  msg = sh->msg;
  return sh->outcome == kFail;
}

std::string jsonStr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += static_cast<char>(c);
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += static_cast<char>(c);
  }
  return o + "\"";
}

struct Found
{
  bool have{ false };
  std::size_t def{ 0 };
  long index{ -1 };
  std::vector<uint64_t> choices;
  std::string msg;
  int worker{ 0 };
  Sequence seq;
};

void loadKnown(const std::string& path)
{
  // finding: property=<id> key=<key> <description>
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line))
  {
    if (line.rfind("finding: ", 0) != 0)
      continue;
    std::istringstream is(line.substr(9));
    std::string p, k;
    is >> p >> k;
    if (p != "property=" + g_id || k.rfind("key=", 0) != 0)
      continue;
    std::string rest;
    std::getline(is, rest);
    g_known[k.substr(4)] = rest.empty() ? "" : rest.substr(1);
  }
}
}  // namespace

void setCaseTimeout(double s) { g_case_timeout = s; }

Reg::Reg(const char* name, CaseFn fn, long quick, long thorough, bool fixed, bool schedules)
{
  defs().push_back({ name, fn, quick, thorough, fixed, schedules });
}
PropertyReg::PropertyReg(const char* id, const char* rule)
{
  g_id_c = id;
  g_rule_c = rule;
}

int Gen::LogBuf::overflow(int c)
{
  if (c != EOF)
  {
    const char ch = static_cast<char>(c);
    put(&ch, 1);
  }
  return c;
}
std::streamsize Gen::LogBuf::xsputn(const char* s, std::streamsize n)
{
  put(s, static_cast<std::size_t>(n));
  return n;
}
void Gen::LogBuf::put(const char* s, std::size_t n)
{
  if (g_sh != nullptr && text.size() + n + 1 < MSG)
  {
    memcpy(g_sh->text + text.size(), s, n);
    g_sh->text[text.size() + n] = 0;
  }
  if (text.size() < MSG)
    text.append(s, n);
}

uint64_t Gen::rnd()
{
  state_ += 0x9e3779b97f4a7c15ULL;
  return mix(state_);
}
uint64_t Gen::draw(uint64_t bound)
{
  if (bound == 0)
    bound = 1;
  uint64_t v = 0;
  if (replay_ != nullptr)
  {
    if (pos_ < replay_->size())
      v = std::min((*replay_)[pos_], bound - 1);
    ++pos_;
  }
  else
    v = rnd() % bound;
  choices_.push_back(v);
  if (sink_ != nullptr && g_sh != nullptr)
  {
    const uint64_t n = g_sh->n_choices;
    if (n < sink_cap_)
    {
      sink_[n] = v;
      g_sh->n_choices = n + 1;
    }
  }
  if (choices_.size() > MAX_CHOICES)
    throw Discard();
  return v;
}
double Gen::real(double lo, double hi)
{
  const uint64_t kind = draw(4);
  if (kind == 0)
  {
    // integers in range, the nearest to zero first
    const double a = std::ceil(lo), b = std::floor(hi);
    if (a <= b)
    {
      const double start = std::min(std::max(0.0, a), b);
      const uint64_t n = static_cast<uint64_t>(std::min(b - a + 1, 64.0));
      const uint64_t k = draw(n);
      double v = start;
      // alternate around start
      const double step = static_cast<double>((k + 1) / 2);
      v += (k % 2 == 1) ? step : -step;
      if (v < a)
        v = a + std::fmod(a - v, b - a + 1);
      if (v > b)
        v = b - std::fmod(v - b, b - a + 1);
      return std::min(std::max(v, a), b);
    }
    return lo + (hi - lo) * static_cast<double>(draw(5)) / 4.0;
  }
  if (kind == 1)
    return lo + (hi - lo) * static_cast<double>(draw(17)) / 16.0;
  return lo + (hi - lo) * static_cast<double>(draw(1ULL << 40)) / static_cast<double>((1ULL << 40) - 1);
}
double Gen::num(double mag)
{
  const uint64_t kind = draw(6);
  if (kind == 0)
    return 0;
  if (kind <= 2)
  {
    const double lim = std::min(mag, 5.0);
    const uint64_t k = draw(2 * static_cast<uint64_t>(lim) + 1);
    const double v = static_cast<double>((k + 1) / 2);
    return (k % 2 == 1) ? v : -v;
  }
  if (kind == 3)
  {
    const uint64_t k = draw(2 * static_cast<uint64_t>(std::min(mag, 16.0) * 8) + 1);
    const double v = static_cast<double>((k + 1) / 2) / 8.0;
    return (k % 2 == 1) ? v : -v;
  }
  const double u = static_cast<double>(draw(1ULL << 40)) / static_cast<double>((1ULL << 40) - 1);
  const bool neg = boolean();
  // kind 4: around one; kind 5: full magnitude
  const double v = kind == 4 ? u * std::min(mag, 2.0) : u * mag;
  return neg ? -v : v;
}
double Gen::nonzero(double mag, double tol)
{
  double v = num(mag);
  if (std::fabs(v) < tol)
    v = (v < 0) ? -1.0 * std::min(1.0, mag) : std::min(1.0, mag);
  return v;
}
std::string Gen::name(int max_len)
{
  const int n = range(1, max_len);
  std::string s;
  for (int i = 0; i < n; ++i)
    s += "abcdefghijklmnopqrstuvwxyz_0123456789"[draw(37)];
  return s;
}
void Gen::label(const std::string& l)
{
  if (g_sh == nullptr)
    return;
  for (auto& e : g_sh->labels)
  {
    if (e.n == 0)
    {
      copyStr(e.name, sizeof e.name, l);
      e.n = 1;
      return;
    }
    if (strncmp(e.name, l.c_str(), sizeof e.name - 1) == 0)
    {
      ++e.n;
      return;
    }
  }
}
void Gen::failUnlessKnown(const std::string& key, const std::string& m)
{
  if (g_known.count(key) == 0 || g_sh == nullptr)
    throw Failure("[" + key + "] " + m);
  for (auto& e : g_sh->known)
  {
    if (e.n == 0)
    {
      copyStr(e.key, sizeof e.key, key);
      copyStr(e.msg, sizeof e.msg, m);
      e.n = 1;
      return;
    }
    if (key == e.key)
    {
      ++e.n;
      return;
    }
  }
}

static int replayFile(const std::string& path)
{
  std::ifstream f(path);
  if (!f)
  {
    std::cerr << "cannot read " << path << "\n";
    return 2;
  }
  std::string line, name;
  std::vector<uint64_t> choices;
  Sequence seq;
  while (std::getline(f, line))
  {
    if (line.rfind("case: ", 0) == 0)
      name = line.substr(6);
    else if (line.rfind("sequence: ", 0) == 0)
    {
      std::istringstream is(line.substr(10));
      is >> seq.base >> seq.first >> seq.last >> seq.stride;
      seq.used = true;
    }
    else if (line.rfind("choices:", 0) == 0)
    {
      std::istringstream is(line.substr(8));
      uint64_t v;
      while (is >> v)
        choices.push_back(v);
    }
  }
  for (const auto& d : defs())
    if (d.name == name)
    {
      Shared* sh = sharedAlloc<Shared>(1);
      std::string msg, text;
      int r = kPass;
      for (int k = 0; k < (d.schedules ? 20 : 1) && r != kFail; ++k)
        r = seq.used ? (runSequence(d, seq, sh, msg, text) ? kFail : kPass) : runIsolated(d, choices, sh, msg, text);
      std::cout << text << "\n" << (r == kFail ? "FAILED: " + msg : std::string("passed")) << "\n";
      return r == kFail ? 1 : 0;
    }
  std::cerr << "no case named " << name << "\n";
  return 2;
}

static std::vector<uint64_t> shrink(const CaseDef& d, std::vector<uint64_t> best, Shared* sh, double budget_s)
{
  const double end = now() + budget_s;
  int tries = 0;
  auto fails = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>& got) {
    if (now() > end || tries > 3000)
      return false;
    ++tries;
    std::string m, t;
    if (runIsolated(d, c, sh, m, t) != kFail)
      return false;
    got.assign(sh->choices, sh->choices + std::min<uint64_t>(+sh->n_choices, MAX_CHOICES));
    if (got.size() > c.size())
      got.resize(c.size());
    return true;
  };
  auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    return a.size() != b.size() ? a.size() < b.size() : a < b;
  };
  bool progress = true;
  while (progress && now() < end)
  {
    progress = false;
    for (std::size_t len : { 64UL, 32UL, 16UL, 8UL, 4UL, 3UL, 2UL, 1UL })
    {
      for (std::size_t i = best.size() >= len ? best.size() - len + 1 : 0; i-- > 0 && now() < end;)
      {
        if (i + len > best.size())
          continue;
        std::vector<uint64_t> c(best), got;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
        if (fails(c, got) && smaller(got, best))
        {
          best = got;
          progress = true;
        }
      }
    }
    for (std::size_t i = 0; i < best.size() && now() < end; ++i)
    {
      if (best[i] == 0)
        continue;
      std::vector<uint64_t> got, c(best);
      c[i] = 0;
      if (fails(c, got) && smaller(got, best))
      {
        best = got;
        progress = true;
        continue;
      }
      uint64_t lo = 0;
      while (i < best.size() && best[i] - lo > 1 && now() < end)
      {
        c = best;
        c[i] = lo + (best[i] - lo) / 2;
        if (fails(c, got) && smaller(got, best))
        {
          best = got;
          progress = true;
        }
        else
          lo = c[i];
      }
    }
  }
  return best;
}

static int runAll(const std::string& verif, const std::string& tier, uint64_t seed)
{
  const double t0 = now();
  const bool thorough = tier == "thorough";
  loadKnown(verif + "/known_findings.txt");
  char tmpl[] = "/tmp/pbt_XXXXXX";
  const char* td = mkdtemp(tmpl);
  g_tmp = td ? td : "/tmp";
  setenv("PBT_TMP", g_tmp.c_str(), 1);

  int nw = 8;
  if (const char* e = getenv("PBT_JOBS"))
    nw = std::max(1, atoi(e));
  const double cap = getenv("PBT_CAP_S") ? atof(getenv("PBT_CAP_S")) : (thorough ? 800.0 : 420.0);
  std::vector<Shared*> sh;
  for (int i = 0; i < nw; ++i)
    sh.push_back(sharedAlloc<Shared>(1));
  Shared* iso = sharedAlloc<Shared>(1);

  const char* only = getenv("PBT_ONLY");
  const double scale = getenv("PBT_SCALE") ? atof(getenv("PBT_SCALE")) : 1.0;
  long evaluations = 0, discarded = 0, distinct = 0, unreproduced = 0;
  bool capped = false;
  std::map<std::string, long> labels;
  std::map<std::string, std::pair<std::string, long>> known;
  std::vector<std::string> samples;
  std::ostringstream per_case;
  Found found;
  std::string verdict_text, verdict_msg;

  for (std::size_t di = 0; di < defs().size() && !found.have; ++di)
  {
    const CaseDef& d = defs()[di];
    if (only && d.name.find(only) == std::string::npos)
      continue;
    const double tc = now();
    long n = d.fixed ? 1 : static_cast<long>(static_cast<double>(thorough ? d.thorough : d.quick) * scale);
    n = std::max(1L, n);
    const uint64_t base = mix(seed * 0x9e3779b97f4a7c15ULL + hashStr(g_id + "/" + d.name));
    // hashes of the non-trivial cases, for counting the distinct ones
    uint64_t* hashes = sharedAlloc<uint64_t>(static_cast<std::size_t>(n));
    std::atomic<long>* stop = reinterpret_cast<std::atomic<long>*>(sharedAlloc<long>(1));
    const int workers = d.fixed ? 1 : static_cast<int>(std::min<long>(nw, n));

    auto startWorker = [&](int w, long first) -> pid_t {
      fflush(nullptr);
      pid_t pid = fork();
      if (pid != 0)
        return pid;
      setpgid(0, 0);
      const std::string err = g_tmp + "/w" + std::to_string(w) + ".err";
      childSetup(err);
      Shared* s = sh[static_cast<std::size_t>(w)];
      long k = 0;
      for (long i = first; i < n; i += workers, ++k)
      {
        if (stop->load() != 0)
          break;
        if (k % 256 == 255)
        {
          if (ftruncate(1, 0) != 0)
          {
          }
        }
        s->case_start = now();
        s->case_index = i;
        Gen g(mix(base + static_cast<uint64_t>(i)));
        std::string m;
        int r = runCase(d, g, s, m);
        if (r == kFail)
        {
          copyStr(s->msg, MSG, m);
          s->outcome = kFail;
          _exit(3);
        }
        if (r == kDiscard)
          s->discarded = s->discarded + 1;
        else
        {
          s->done = s->done + 1;
          if (g.isNontrivial() || d.fixed)
          {
            uint64_t h = 1469598103934665603ULL;
            for (uint64_t c : g.choices())
              h = mix(h ^ c);
            hashes[i] = h | 1;
            if (s->n_samples < 1 && (g.choices().size() > 3 || d.fixed) && !g.logText().empty())
            {
              copyStr(s->samples[s->n_samples], MSG, g.logText());
              s->n_samples = s->n_samples + 1;
            }
          }
        }
      }
      s->case_index = -1;
      s->outcome = kPass;
      _exit(0);
    };

    std::vector<pid_t> pid(static_cast<std::size_t>(workers), 0);
    for (int w = 0; w < workers; ++w)
    {
      memset(static_cast<void*>(sh[static_cast<std::size_t>(w)]), 0, sizeof(Shared));
      sh[static_cast<std::size_t>(w)]->case_start = now();
      pid[static_cast<std::size_t>(w)] = startWorker(w, w);
    }
    int live = workers;
    std::vector<Found> cands;
    while (live > 0)
    {
      bool any = false;
      for (int w = 0; w < workers; ++w)
      {
        auto& p = pid[static_cast<std::size_t>(w)];
        if (p == 0)
          continue;
        int st = 0;
        Shared* s = sh[static_cast<std::size_t>(w)];
        pid_t r = waitpid(p, &st, WNOHANG);
        bool timed_out = false;
        if (r == 0)
        {
          if (now() - s->case_start > g_case_timeout)
          {
            timed_out = true;
            kill(-p, SIGKILL);
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
          }
          else
            continue;
        }
        any = true;
        p = 0;
        --live;
        if (s->outcome == kPass)
          continue;
        Found f;
        f.have = true;
        f.def = di;
        f.index = s->case_index;
        f.worker = w;
        f.choices.assign(s->choices, s->choices + std::min<uint64_t>(+s->n_choices, MAX_CHOICES));
        f.msg = s->outcome == kFail ? std::string(s->msg) :
                                      describeEnd(st, g_tmp + "/w" + std::to_string(w) + ".err", timed_out);
        cands.push_back(f);
        stop->store(1);
      }
      if (now() - t0 > cap && stop->load() == 0)
      {
        capped = true;
        stop->store(1);
      }
      if (!any)
        usleep(2000);
    }
    long c_eval = 0, c_disc = 0;
    for (int w = 0; w < workers; ++w)
    {
      Shared* s = sh[static_cast<std::size_t>(w)];
      c_eval += s->done;
      c_disc += s->discarded;
      for (auto& l : s->labels)
        if (l.n)
          labels[d.name + ": " + l.name] += l.n;
      for (auto& k : s->known)
        if (k.n)
        {
          auto& e = known[k.key];
          e.first = k.msg;
          e.second += k.n;
        }
      if (w == 0)
        for (int i = 0; i < s->n_samples; ++i)
          samples.push_back(d.name + ": " + s->samples[i]);
    }
    std::unordered_set<uint64_t> uniq;
    for (long i = 0; i < n; ++i)
      if (hashes[i])
        uniq.insert(hashes[i]);
    distinct += static_cast<long>(uniq.size());
    evaluations += c_eval;
    discarded += c_disc;
    per_case << (per_case.tellp() > 0 ? ", " : "") << jsonStr(d.name) << ": {\"evaluations\": " << c_eval
             << ", \"distinct_nontrivial\": " << uniq.size() << ", \"discarded\": " << c_disc
             << ", \"wall_s\": " << (now() - tc) << "}";
    munmap(hashes, static_cast<std::size_t>(n) * sizeof(uint64_t));
    std::cerr << g_id << "/" << d.name << ": " << c_eval << " cases, " << uniq.size() << " distinct non-trivial, " << c_disc
              << " discarded, " << (now() - tc) << " s\n";

    std::sort(cands.begin(), cands.end(), [](const Found& a, const Found& b) { return a.index < b.index; });
    for (auto& f : cands)
    {
      // The failure has to reproduce on its own, in a process of its own
      std::string m, t;
      bool ok = true;
      if (d.schedules)
      {
        ok = false;
        const double t1 = now();
        for (int k = 0; k < 20 && !ok && now() - t1 < 150; ++k)
          ok = runIsolated(d, f.choices, iso, m, t) == kFail;
        if (ok)
        {
          verdict_msg = m;
          verdict_text = t;
          found = f;
          break;
        }
      }
      for (int k = 0; k < 2 && ok; ++k)
        ok = runIsolated(d, f.choices, iso, m, t) == kFail;
      if (!ok)
      {
        // the code may carry state from case to case: run the cases of that worker again, in one process
        Sequence q{ true, base, f.worker, f.index, workers };
        if (f.index >= 0 && !d.schedules && runSequence(d, q, iso, m, t))
        {
          for (long back = 1; q.last - back * q.stride > q.first; back *= 2)
          {
            Sequence r = q;
            r.first = q.last - back * q.stride;
            if (runSequence(d, r, iso, m, t))
            {
              q = r;
              break;
            }
          }
          int reps = 0;
          for (int k = 0; k < 3; ++k)
            reps += runSequence(d, q, iso, m, t) ? 1 : 0;
          if (reps == 3)
          {
            verdict_msg = m;
            verdict_text = t;
            f.seq = q;
            found = f;
            break;
          }
        }
        std::cerr << g_id << "/" << d.name << ": case " << f.index << " failed but does not reproduce alone: " << f.msg
                  << "\n";
        ++unreproduced;
        continue;
      }
      f.choices = shrink(d, f.choices, iso, 45);
      int reps = 0;
      for (int k = 0; k < 3; ++k)
        reps += runIsolated(d, f.choices, iso, m, t) == kFail ? 1 : 0;
      if (reps != 3)
      {
        ++unreproduced;
        continue;
      }
      verdict_msg = m;
      verdict_text = t;
      found = f;
      break;
    }
  }

  std::string replay;
  if (found.have)
  {
    const CaseDef& d = defs()[found.def];
    const std::string dir = verif + "/replays";
    mkdir(dir.c_str(), 0755);
    uint64_t h = hashStr(d.name);
    for (auto c : found.choices)
      h = mix(h ^ c);
    char hb[20];
    snprintf(hb, sizeof hb, "%08x", static_cast<unsigned>(h));
    replay = dir + "/" + g_id + "_" + d.name + "_" + hb + ".txt";
    std::ofstream f(replay);
    f << "property: " << g_id << "\ncase: " << d.name << "\nseed: " << seed << "\n";
    if (found.seq.used)
      f << "sequence: " << found.seq.base << " " << found.seq.first << " " << found.seq.last << " " << found.seq.stride;
    else
    {
      f << "choices:";
      for (auto c : found.choices)
        f << " " << c;
    }
    f << "\nreplay with: ./check.sh " << g_id << " replay " << replay << "\nfailure: " << verdict_msg << "\n--- case ---\n"
      << verdict_text << "\n";
  }

  for (const auto& k : known)
    std::cout << "KNOWN-FINDING: property=" << g_id << " [" << k.first << "] " << g_known[k.first] << " (" << k.second.second
              << " cases)\n";

  // evidence
  const std::string out = verif + "/evidence/" + g_id + ".json";
  mkdir((verif + "/evidence").c_str(), 0755);
  std::ofstream e(out);
  e << "{\"property\": " << jsonStr(g_id) << ", \"tier\": " << jsonStr(tier) << ", \"seed\": " << seed
    << ", \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": " << evaluations
    << ", \"distinct_nontrivial\": " << distinct << ", \"discarded\": " << discarded
    << ", \"unreproduced\": " << unreproduced << ", \"stopped_by_time_cap\": " << (capped ? "true" : "false")
    << ",\n \"rule\": " << jsonStr(g_rule) << ",\n \"checks\": {" << per_case.str() << "},\n \"labels\": {";
  bool first = true;
  for (const auto& l : labels)
  {
    e << (first ? "" : ", ") << jsonStr(l.first) << ": " << l.second;
    first = false;
  }
  e << "},\n \"known_findings_hit\": {";
  first = true;
  for (const auto& k : known)
  {
    e << (first ? "" : ", ") << jsonStr(k.first) << ": " << k.second.second;
    first = false;
  }
  e << "},\n \"samples\": [";
  first = true;
  for (const auto& s : samples)
  {
    e << (first ? "" : ",\n  ") << jsonStr(s.substr(0, 1500));
    first = false;
  }
  e << "]},\n \"wall_s\": " << (now() - t0) << ", \"violations\": " << (found.have ? 1 : 0) << "}\n";
  e.close();

  // the scratch directory, made above, holds the workers' output files and what the cases wrote
  if (td)
  {
    std::error_code ec;
    std::filesystem::remove_all(g_tmp, ec);
  }

  if (found.have)
  {
    std::cerr << "failure: " << verdict_msg << "\n" << verdict_text << "\n";
    std::cout << "VIOLATION property=" << g_id << " replay=" << replay << std::endl;
    return 1;
  }
  std::cout << g_id << ": held on " << evaluations << " cases (" << distinct << " distinct non-trivial), " << tier
            << ", seed " << seed << ", " << static_cast<int>(now() - t0) << " s" << std::endl;
  return 0;
}
}  // namespace pbt

int main(int argc, char** argv)
{
  setvbuf(stdout, nullptr, _IOLBF, 0);
  pbt::g_id = pbt::g_id_c;
  pbt::g_rule = pbt::g_rule_c;
  const char* v = getenv("VERIF_ROOT");
  const std::string verif = v ? v : "/verif";
  std::string tier = argc > 1 ? argv[1] : "quick";
  if (tier == "replay")
  {
    if (argc < 3)
      return 2;
    char tmpl[] = "/tmp/pbt_XXXXXX";
    const char* td = mkdtemp(tmpl);
    pbt::g_tmp = td ? td : "/tmp";
    setenv("PBT_TMP", pbt::g_tmp.c_str(), 1);
    const int rc = pbt::replayFile(argv[2]);
    if (td)
    {
      std::error_code ec;
      std::filesystem::remove_all(pbt::g_tmp, ec);
    }
    return rc;
  }
  uint64_t seed = 1;
  if (const char* s = getenv("VERIF_SEED"))
    seed = strtoull(s, nullptr, 10);
  return pbt::runAll(verif, tier, seed);
}
