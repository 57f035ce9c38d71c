// C36: VHACD decomposes a solid into convex hulls that cover it and stay with it
#include "vhacd_solids.h"

PBT_PROPERTY("C36",
             "Cases: decompositions of generated closed meshes (boxes, thin and with equal sides, L shapes, pieces apart, prisms, "
             "pyramids, star-shaped surfaces, rings; rotated, scaled, moved) under drawn parameters, again with other thread counts, "
             "reused objects and single precision; histories of the asynchronous interface; what is left of more hulls than allowed "
             "against a merging of the harness' own. Non-trivial: more than one hull, hulls that had to be merged, a computation that "
             "was interrupted.");

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace
{
struct Setting
{
  IVHACD::Parameters p;
  bool covers;  // hulls are not simplified
};
Setting setting(pbt::Gen& g)
{
  Setting s;
  s.p.m_resolution = static_cast<uint32_t>(g.pick(std::vector<int>{ 400, 4000, 1000, 8000, 400, 200 }));
  s.p.m_pca = g.chance(1, 3) ? 1 : 0;
  s.p.m_maxConvexHulls = static_cast<uint32_t>(g.pick(std::vector<int>{ 8, 1, 2, 3, 5, 16, 64 }));
  s.p.m_concavity = g.pick(std::vector<double>{ 0.001, 0.0025, 0.02, 0.1 });
  s.p.m_planeDownsampling = static_cast<uint32_t>(g.pick(std::vector<int>{ 4, 1, 2, 8 }));
  s.p.m_convexhullDownsampling = static_cast<uint32_t>(g.pick(std::vector<int>{ 4, 1, 2, 8 }));
  s.p.m_alpha = g.pick(std::vector<double>{ 0.05, 0, 0.5 });
  s.p.m_beta = g.pick(std::vector<double>{ 0.05, 0, 0.5 });
  s.p.m_convexhullApproximation = g.boolean() ? 1 : 0;
  const int simpl = g.range(0, 2);
  s.covers = false;
  if (simpl == 0)  // the default
  {
    s.p.m_maxNumVerticesPerCH = static_cast<uint32_t>(g.pick(std::vector<int>{ 64, 5, 8, 12, 16, 32 }));
    s.p.m_minVolumePerCH = g.pick(std::vector<double>{ 0.0001, 0, 0.001, 0.01 });
    s.p.m_projectHullVertices = !g.chance(1, 3);
  }
  else
  {
    s.covers = true;
    s.p.m_maxNumVerticesPerCH = simpl == 1 ? 3 : 4096;
    s.p.m_minVolumePerCH = 0;
    s.p.m_projectHullVertices = simpl == 1 && g.boolean();
  }
  g.log() << "resolution " << s.p.m_resolution << " pca " << s.p.m_pca << " max hulls " << s.p.m_maxConvexHulls << " concavity " << s.p.m_concavity
          << " downsampling " << s.p.m_planeDownsampling << " " << s.p.m_convexhullDownsampling << " alpha " << s.p.m_alpha << " beta " << s.p.m_beta
          << " approximation " << s.p.m_convexhullApproximation << " max vertices " << s.p.m_maxNumVerticesPerCH << " min volume "
          << s.p.m_minVolumePerCH << " project " << s.p.m_projectHullVertices << "\n";
  return s;
}
struct Recorder : IVHACD::IUserCallback, IVHACD::IUserLogger
{
  std::thread::id owner = std::this_thread::get_id();
  std::vector<double> overall;
  bool elsewhere{ false }, outOfRange{ false };
  long logs{ 0 };
  std::function<void()> hook;
  void Update(const double o, const double s, const double p, const char* const stage, const char* const op) override
  {
    elsewhere = elsewhere || std::this_thread::get_id() != owner;
    overall.push_back(o);
    outOfRange = outOfRange || !(o >= 0 && o <= 100) || !(p >= 0 && p <= 100.0 + 1e-9) || !std::isfinite(s) || !stage || !op;
    if (hook)
      hook();
  }
  void Log(const char* const msg) override
  {
    elsewhere = elsewhere || std::this_thread::get_id() != owner;
    logs += msg != nullptr;
  }
};
struct Api
{
  IVHACD* v;
  bool clean{ true };
  explicit Api(bool async = false) : v(async ? VHACD::CreateVHACD_ASYNC() : VHACD::CreateVHACD()) {}
  ~Api()
  {
    if (clean)
      v->Clean();
    v->Release();
  }
  Api(const Api&) = delete;
  IVHACD* operator->() const { return v; }
};
bool compute(IVHACD& v, const Solid& s, const IVHACD::Parameters& p)
{
  const auto c = coords<double>(s);
  const auto k = indices(s);
  return v.Compute(c.data(), static_cast<uint32_t>(s.p.size()), k.data(), static_cast<uint32_t>(s.t.size()), p);
}
// how far a voxel's corner may be from the solid
double slack(const Solid& s, const IVHACD::Parameters& p)
{
  V3 lo, hi;
  s.bounds(lo, hi);
  const double e = p.m_pca ? (hi - lo).norm() : (hi - lo).maxCoeff();
  const double dim = std::floor(std::min(p.m_pca ? 1e9 : 64.0, std::cbrt(static_cast<double>(p.m_resolution)) + 0.5));
  return std::sqrt(3.0) * e / (dim - 1);
}
void checkResult(pbt::Gen& g, const Solid& s, const Setting& set, const IVHACD& v, const std::vector<Hull>& r)
{
  const double e = s.extent();
  const double near = slack(s, set.p) + 2e-3 * e;
  CHECK(!r.empty() && r.size() <= set.p.m_maxConvexHulls, << r.size() << " hulls");
  double sum = 0;
  V3 com = V3::Zero();
  for (const Hull& h : r)
  {
    sum += h.volume;
    com += h.volume * h.centre;
    checkConvex(g, h.s, 1e-3 * e);
    if (set.p.m_maxNumVerticesPerCH > 4)
      CHECK(h.s.p.size() <= set.p.m_maxNumVerticesPerCH, << h.s.p.size() << " vertices");
    const double vol = h.s.volume();
    CHECK(vol > 0, << "volume " << vol);
    CHECK_NEAR(h.volume, vol, 1e-9 * e * e * e, 1e-6, << "");
    CHECK(outsideConvex(h.s, h.centre) <= 1e-6 * e, << "centre " << h.centre.transpose() << " outside");
    for (const V3& x : h.s.p)
    {
      const double d = outside(s, x);
      CHECK(d <= near, << "vertex " << x.transpose() << " is " << d << " away from the solid (allowed " << near << ")");
    }
  }
  double c[3];
  CHECK(v.ComputeCenterOfMass(c), << "");
  CHECK((V3(c[0], c[1], c[2]) - com / sum).norm() <= 1e-6 * e, << "centre of mass " << c[0] << " " << c[1] << " " << c[2] << " instead of " << (com / sum).transpose());
  if (set.covers)
  {
    for (int i = 0; i < 12; ++i)
    {
      const V3 x = i < 4 ? s.p[g.index(s.p.size())] : pointOn(g, s);
      double d = INFINITY;
      for (const Hull& h : r)
        d = std::min(d, outsideConvex(h.s, x));
      CHECK(d <= 2e-3 * e, << "point " << x.transpose() << " of the solid is " << d << " outside every hull");
    }
  }
}

PBT_CASES(decompose, 150, 6000)
{
  pbt::setCaseTimeout(150);
  const Solid s = solid(g);
  const Setting set = setting(g);
  {
    Api v;
    Recorder rec;
    IVHACD::Parameters p = set.p;
    if (g.boolean())
      p.m_callback = &rec;
    if (g.boolean())
      p.m_logger = &rec;
    CHECK(v->IsReady(), << "");
    omp_set_num_threads(g.range(1, 3));
    CHECK(compute(*v.v, s, p), << "refused");
    CHECK(!rec.outOfRange && std::is_sorted(rec.overall.begin(), rec.overall.end()), << "progress");
    CHECK(rec.overall.empty() || rec.overall.back() == 100 || set.p.m_maxNumVerticesPerCH < 4, << "progress ends at " << rec.overall.back());
    const auto r = hulls(*v.v);
    g.label(r.size() == 1 ? "one hull" : r.size() < 5 ? "2-4 hulls" : "5+ hulls");
    g.log() << r.size() << " hulls\n";
    checkResult(g, s, set, *v.v, r);
    if (r.size() > 1)
      g.nontrivial();
  }
}

// small and fast: for histories
Solid smallSolid(pbt::Gen& g, IVHACD::Parameters& p)
{
  Solid s = solid(g);
  p.m_resolution = static_cast<uint32_t>(g.pick(std::vector<int>{ 400, 1000, 2000 }));
  p.m_pca = g.chance(1, 3) ? 1 : 0;
  p.m_maxConvexHulls = static_cast<uint32_t>(g.pick(std::vector<int>{ 4, 1, 2, 8 }));
  p.m_convexhullApproximation = g.boolean() ? 1 : 0;
  p.m_planeDownsampling = static_cast<uint32_t>(g.range(p.m_resolution > 400 ? 3 : 2, 5));
  p.m_projectHullVertices = g.boolean();
  p.m_maxNumVerticesPerCH = static_cast<uint32_t>(g.pick(std::vector<int>{ 64, 8, 16 }));
  g.log() << "resolution " << p.m_resolution << " pca " << p.m_pca << " max hulls " << p.m_maxConvexHulls << " approximation "
          << p.m_convexhullApproximation << " downsampling " << p.m_planeDownsampling << " project " << p.m_projectHullVertices
          << " max vertices " << p.m_maxNumVerticesPerCH << "\n";
  return s;
}
void checkSame(pbt::Gen& g, const std::vector<Hull>& a, const std::vector<Hull>& b, const char* what)
{
  CHECK(a.size() == b.size(), << what << ": " << a.size() << " hulls instead of " << b.size());
  for (size_t i = 0; i < a.size(); ++i)
    CHECK(a[i] == b[i], << what << ": hull " << i << " is another one (volume " << a[i].volume << " instead of " << b[i].volume << ")");
}

PBT_CASES(again, 50, 3000)
{
  pbt::setCaseTimeout(150);
  IVHACD::Parameters p;
  Solid s = smallSolid(g, p);
  for (V3& x : s.p)
    x = x.cast<float>().cast<double>();
  std::vector<Hull> ref;
  {
    Api v;
    omp_set_num_threads(1);
    CHECK(compute(*v.v, s, p), << "refused");
    ref = hulls(*v.v);
  }
  CHECK(!ref.empty(), << "no hulls");
  for (const Hull& h : ref)
    checkConvex(g, h.s, 1e-3 * s.extent());
  for (int round = 0; round < 2; ++round)
  {
    Api v;
    omp_set_num_threads(round ? g.range(1, 3) : 3);
    const int n = round ? g.range(1, 3) : 1;
    for (int i = 0; i < n; ++i)
    {
      Recorder rec;
      IVHACD::Parameters q = p;
      switch (g.range(0, 4))
      {
        case 0:
          break;
        case 1:
          v->Clean();
          g.log() << "clean\n";
          CHECK(v->GetNConvexHulls() == 0, << "hulls after Clean");
          break;
        case 2:
        {
          IVHACD::Parameters o;
          const Solid other = smallSolid(g, o);
          g.log() << "another solid\n";
          CHECK(compute(*v.v, other, o), << "refused");
          break;
        }
        case 3:
          v->Cancel();  // nothing is running
          g.log() << "cancel\n";
          break;
        default:
        {
          g.nontrivial();
          long left = g.range(0, 60);
          std::atomic<long> count{ left };
          q.m_callback = &rec;
          rec.hook = [&] {
            if (count-- == 0)
              v->Cancel();
          };
          g.log() << "cancelled in update " << left << "\n";
          const bool done = compute(*v.v, s, q);
          const auto r = hulls(*v.v);
          g.label(done ? "not cancelled" : "cancelled");
          CHECK(done == (count >= 0), << "Compute returned " << done << " although it was " << (count < 0 ? "" : "not ") << "cancelled");
          if (done)
            checkSame(g, r, ref, "not cancelled");
          else
            CHECK(r.empty(), << r.size() << " hulls after it was cancelled");
          q.m_callback = nullptr;
          double c[3];
          CHECK(v->ComputeCenterOfMass(c) == done, << "centre of mass");
        }
      }
      if (g.boolean())
      {
        CHECK(compute(*v.v, s, q), << "refused");
      }
      else
      {
        const auto c = coords<float>(s);
        const auto k = indices(s);
        g.log() << "float\n";
        CHECK(v->Compute(c.data(), static_cast<uint32_t>(s.p.size()), k.data(), static_cast<uint32_t>(s.t.size()), q), << "refused");
      }
      checkSame(g, hulls(*v.v), ref, "again");
    }
  }
  if (ref.size() > 1)
    g.nontrivial();
}

PBT_CASES(memory, 30, 1000)
{
  pbt::setCaseTimeout(150);
  IVHACD::Parameters p;
  const Solid s = smallSolid(g, p);
  omp_set_num_threads(1);
  const bool async = g.boolean();
  const int n = g.range(1, 3);
  std::vector<int> between;
  for (int i = 0; i < n; ++i)
    between.push_back(g.range(0, 3));
  const auto c = coords<double>(s);
  const auto k = indices(s);
  auto run = [&] {
    Api v(async);
    for (int i = 0; i < n; ++i)
    {
      v->Compute(c.data(), static_cast<uint32_t>(s.p.size()), k.data(), static_cast<uint32_t>(s.t.size()), p);
      if (between[static_cast<size_t>(i)] > 0)
        while (!v->IsReady())
          usleep(200);
      if (between[static_cast<size_t>(i)] == 1)
        v->Clean();
    }
  };
  run();
  const std::size_t before = __sanitizer_get_current_allocated_bytes();
  run();
  const std::size_t once = __sanitizer_get_current_allocated_bytes();
  run();
  const std::size_t twice = __sanitizer_get_current_allocated_bytes();
  g.log() << before << " " << once << " " << twice << " bytes" << (async ? " async" : "") << "\n";
  CHECK(!(once > before && twice > once), << "after Clean and Release " << once - before << " and then " << twice - once << " bytes more are in use");
  if (n > 1)
    g.nontrivial();
}

// the asynchronous interface under any history of calls
PBT_SCHEDULES(history, 100, 4000)
{
  pbt::setCaseTimeout(150);
  struct Job
  {
    Solid s;
    IVHACD::Parameters p;
    std::vector<Hull> ref;
    V3 com;
    std::vector<double> points;
    std::vector<uint32_t> triangles;
  };
  std::vector<Job> jobs(static_cast<size_t>(g.range(1, 2)));
  omp_set_num_threads(1);
  for (Job& j : jobs)
  {
    j.s = smallSolid(g, j.p);
    Api v;
    omp_set_num_threads(1);
    CHECK(compute(*v.v, j.s, j.p), << "refused");
    j.ref = hulls(*v.v);
    double c[3];
    CHECK(v->ComputeCenterOfMass(c), << "");
    j.com = V3(c[0], c[1], c[2]);
  }
  Recorder rec;
  {
    Api v(true);
    v.clean = g.boolean();
    Job* job = nullptr;      // what was asked for last
    bool finished = true;    // known to be
    bool stopped = false;    // cancelled before it was known to be finished
    bool interrupted = false;
    bool recorded = false;
    auto check = [&](const char* what) {
      const auto r = hulls(*v.v);
      if (!job)
      {
        CHECK(r.empty(), << what << ": hulls without a computation");
        return;
      }
      if (r.empty() && (!finished || stopped))
        return;
      checkSame(g, r, job->ref, what);
    };
    CHECK(v->IsReady() && v->GetNConvexHulls() == 0, << "a new object has work");
    const int n = g.range(1, 8);
    for (int i = 0; i < n; ++i)
    {
      const int op = g.range(0, 7);
      switch (op)
      {
        case 0:
        case 1:
        {
          interrupted = interrupted || (job && !finished);
          job = &jobs[g.index(jobs.size())];
          IVHACD::Parameters p = job->p;
          if (g.boolean())
            p.m_callback = &rec;
          if (g.boolean())
            p.m_logger = &rec;
          recorded = recorded || p.m_callback || p.m_logger;
          g.log() << "compute\n";
          finished = stopped = false;
          {
            // the caller's arrays may go away at once
            auto c = coords<double>(job->s);
            auto k = indices(job->s);
            CHECK(v->Compute(c.data(), static_cast<uint32_t>(job->s.p.size()), k.data(), static_cast<uint32_t>(job->s.t.size()), p), << "refused");
          }
          break;
        }
        case 2:
          g.log() << "wait\n";
          while (!v->IsReady())
            usleep(200);
          finished = true;
          check("when ready");
          break;
        case 3:
          usleep(static_cast<useconds_t>(g.range(0, 30) * 300));
          if (v->IsReady())
            finished = true;
          g.log() << "poll " << finished << "\n";
          check("on the way");
          break;
        case 4:
          g.log() << "cancel\n";
          interrupted = interrupted || (job && !finished);
          v->Cancel();
          CHECK(v->IsReady(), << "not ready after Cancel");
          stopped = stopped || !finished;
          finished = true;
          check("after Cancel");
          break;
        case 5:
          g.log() << "clean\n";
          interrupted = interrupted || (job && !finished);
          v->Clean();
          job = nullptr;
          finished = true;
          stopped = false;
          CHECK(v->IsReady() && v->GetNConvexHulls() == 0, << "something is left after Clean");
          break;
        case 6:
        {
          double c[3] = { 1, 1, 1 };
          const bool ready = v->IsReady();
          finished = finished || ready;
          const bool ok = v->ComputeCenterOfMass(c);
          if (ready && job && !stopped)
          {
            CHECK(ok && V3(c[0], c[1], c[2]) == job->com, << "centre of mass " << ok << " " << c[0] << " " << c[1] << " " << c[2] << " instead of " << job->com.transpose());
          }
          else if (!job)
          {
            CHECK(!ok, << "a centre of mass of nothing");
          }
          break;
        }
        default:
        {
          const int what = g.range(0, 1);
          g.log() << "cancel or poll from inside a callback " << what << "\n";
          auto self = v.v;
          bool in = false;
          rec.hook = [self, what, &in] {
            if (in)
              return;
            in = true;
            if (what)
              self->Cancel();
            else
              self->GetNConvexHulls();
          };
          const bool before = finished;
          usleep(1000);
          const bool ready = v->IsReady();
          rec.hook = nullptr;
          if (in && what)
          {
            interrupted = interrupted || !before;
            stopped = stopped || !before;
            finished = true;
            g.label("cancelled from a callback");
          }
          finished = finished || ready;
          check("after a callback");
        }
      }
    }
    if (interrupted)
      g.nontrivial();
    g.label(interrupted ? "interrupted" : "not interrupted");
    g.label(finished ? "released when ready" : "released while computing");
    if (recorded)
      g.label("with callbacks");
  }
  CHECK(!rec.elsewhere, << "a callback ran in another thread");
  CHECK(!rec.outOfRange, << "progress out of range");
}

// the geometric parts
// merging takes the pair of hulls that leaves the least empty space, again and again
PBT_CASES(merging, 150, 3000)
{
  pbt::setCaseTimeout(150);
  const Solid s = g.chance(1, 3) ? solid(g) : [&] {
    // uneven, so that no two pairs are alike
    Solid r = g.boolean() ? ring(g.range(7, 12), g.range(4, 6), 1, g.real(0.15, 0.4)) :
                            star(g.range(8, 14), g.range(5, 8), [&](double ph, double th) { return 1 + 0.5 * std::cos(3 * ph + th) * std::sin(th); });
    for (V3& x : r.p)
      x += V3(g.real(-0.1, 0.1), g.real(-0.1, 0.1), g.real(-0.1, 0.1));
    return r;
  }();
  IVHACD::Parameters p;
  p.m_resolution = static_cast<uint32_t>(g.pick(std::vector<int>{ 1500, 800, 4000 }));
  p.m_concavity = g.pick(std::vector<double>{ 0.00001, 0.0001 });
  p.m_planeDownsampling = static_cast<uint32_t>(g.range(2, 4));
  p.m_maxNumVerticesPerCH = 3;
  p.m_minVolumePerCH = 0;
  p.m_projectHullVertices = false;
  p.m_maxConvexHulls = g.chance(2, 3) ? 4 : 8;
  Api v;
  omp_set_num_threads(1);
  CHECK(compute(*v.v, s, p), << "refused");
  std::vector<Solid> h;
  for (const Hull& x : hulls(*v.v))
    h.push_back(x.s);
  const size_t parts = h.size();
  const auto left = static_cast<size_t>(g.range(static_cast<int>(p.m_maxConvexHulls) / 2 + 1, static_cast<int>(p.m_maxConvexHulls) - 1));
  p.m_maxConvexHulls = static_cast<uint32_t>(left);
  if (g.boolean())
    v->Clean();
  CHECK(compute(*v.v, s, p), << "refused");
  const auto r = hulls(*v.v);
  g.log() << parts << " parts, at most " << left << "\n";
  if (parts > left)
    g.nontrivial();
  CHECK(r.size() == std::min(parts, left), << r.size() << " hulls");
  auto both = [&](size_t a, size_t b) {
    Solid u = h[a];
    u.add(h[b]);
    const auto c = coords<double>(u);
    VHACD::Mesh m;
    m.ComputeConvexHull(c.data(), u.p.size());
    return fromMesh(m);
  };
  // greatest index last: the result does not depend on the order
  while (h.size() > left)
  {
    double best = INFINITY, second = INFINITY, all = 0;
    size_t ba = 0, bb = 0;
    for (size_t a = 0; a < h.size(); ++a)
    {
      all += h[a].volume();
      for (size_t b = 0; b < a; ++b)
      {
        const double cost = std::fabs(both(a, b).volume() - h[a].volume() - h[b].volume());
        if (cost < best)
        {
          second = best;
          best = cost;
          ba = a;
          bb = b;
        }
        else
          second = std::min(second, cost);
      }
    }
    if (second - best < 1e-3 * best + 1e-6 * all)
      throw pbt::Discard();
    h[bb] = both(ba, bb);
    h.erase(h.begin() + static_cast<long>(ba));
  }
  std::vector<double> got, want;
  for (const Hull& x : r)
    got.push_back(x.volume);
  for (const Solid& x : h)
    want.push_back(x.volume());
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (size_t i = 0; i < got.size(); ++i)
    CHECK_NEAR(got[i], want[i], 1e-9, 1e-3, << "volume " << i << " of the " << got.size() << " hulls left of " << parts);
}
}  // namespace
