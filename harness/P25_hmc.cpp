// P25: Hamiltonian dynamics.
// OXV_NEEDS_ROOT: the sampler draws from Rand
#include "recstat.h"
#include <LeapFrog.h>
#include <Gradient.h>
#include <HMCEnergy.h>
#include <HamiltonianSampler.h>
#include <Rand.h>
#include <SigmoidBoundary.h>
using namespace oxv;
PLAN("P25", 12000, 300000,
     "Trajectories in 1..5 parameters with random masses, step sizes, step counts, potentials (free, harmonic, coupled, "
     "quartic, double well) and boxes from tight to wide, starting inside, on walls and in corners. Positions and momenta "
     "are compared with an independent integrator (walls by unfolding), the harmonic shadow energy, closed-form free "
     "flight and the reversed trajectory; sampler draws with momenta recovered from where they ended. Distinct = "
     "(potential, dimensions, reflections seen, kind of start).")

typedef std::vector<double> Vec;
struct Potential
{
  int kind = 0; // 0 free, 1 harmonic, 2 coupled, 3 quartic, 4 double well
  Vec k, c;
  double couple = 0;
  double U(const Vec &q) const
  {
    double u = 0;
    for (size_t i = 0; i < q.size(); ++i)
    {
      double x = q[i] - c[i];
      if (kind == 1 || kind == 2)
        u += k[i] * x * x / 2;
      else if (kind == 3)
        u += k[i] * x * x * x * x / 4;
      else if (kind == 4)
        u += k[i] * (x * x - 1) * (x * x - 1) / 4;
      if (kind == 2)
        u += couple * x * (q[(i + 1) % q.size()] - c[(i + 1) % q.size()]);
    }
    return u;
  }
  Vec grad(const Vec &q) const
  {
    size_t n = q.size();
    Vec g(n, 0);
    for (size_t i = 0; i < n; ++i)
    {
      double x = q[i] - c[i];
      if (kind == 1 || kind == 2)
        g[i] += k[i] * x;
      else if (kind == 3)
        g[i] += k[i] * x * x * x;
      else if (kind == 4)
        g[i] += k[i] * x * (x * x - 1);
      if (kind == 2)
      {
        size_t j = (i + 1) % n;
        g[i] += couple * (q[j] - c[j]);
        g[j] += couple * x;
      }
    }
    return g;
  }
};
struct System
{
  std::vector<std::string> names; // sorted
  Potential pot;
  Vec mass;
  double eps = 0.1;
  int steps = 1;
  Vec q, p, lo, hi;
  ParameterDict dict(const Vec &v) const
  {
    ParameterDict d;
    for (size_t i = 0; i < names.size(); ++i)
      d[names[i]] = v[i];
    return d;
  }
  Vec vec(const ParameterDict &d) const
  {
    check(d.size() == names.size(), "names", "trajectory has ", d.size(), " parameters, want ", names.size());
    Vec v;
    for (auto &n : names)
      v.push_back(d.at(n));
    return v;
  }
};
struct Differ
{
  const System &s;
  size_t calls = 0;
  ParameterDict operator()(const ParameterDict &q)
  {
    ++calls;
    return s.dict(s.pot.grad(s.vec(q)));
  }
};
static System genSystem(Case &c, int maxDims = 5)
{
  Rng &r = c.r;
  System s;
  int n = int(r.few(1, maxDims, 3 * maxDims, 0.03));
  s.names = genNames(r, n);
  std::sort(s.names.begin(), s.names.end());
  s.pot.kind = int(r.ri(0, 4));
  s.pot.couple = r.uni(-0.4, 0.4);
  s.eps = r.uni(0.01, 0.15);
  s.steps = int(r.ri(1, c.thorough ? 60 : 25));
  if (r.coin(0.05)) // a long one, in a potential that keeps errors small
    s.pot.kind = int(r.ri(0, 1)), s.steps = int(r.ri(60, 400));
  for (int i = 0; i < n; ++i)
  {
    s.pot.k.push_back(r.uni(0.3, 2)), s.pot.c.push_back(r.coin(0.3) ? 0 : r.uni(-1, 1));
    s.mass.push_back(r.coin(0.3) ? 1 : r.uni(0.3, 4));
    s.q.push_back(s.pot.c.back() + r.uni(-1.5, 1.5)), s.p.push_back(r.uni(-2, 2));
  }
  return s;
}
// the textbook: kick, drift, kick
static void leap(const System &s, Vec &q, Vec &p)
{
  Vec g = s.pot.grad(q);
  for (size_t i = 0; i < q.size(); ++i)
  {
    p[i] -= s.eps / 2 * g[i];
    q[i] += s.eps * p[i] / s.mass[i];
  }
  g = s.pot.grad(q);
  for (size_t i = 0; i < q.size(); ++i)
    p[i] -= s.eps / 2 * g[i];
}
// where x ends in [lo, hi] with mirrors at both ends; sign of the final velocity, and how close to a mirror it ended
static double fold(double x, double lo, double hi, bool &flip, double &margin, int &hits)
{
  double L = hi - lo, t = (x - lo) / L;
  double k = std::floor(t);
  double f = t - k;
  flip = std::fmod(std::fabs(k), 2) == 1;
  hits += int(std::fabs(k));
  margin = std::min(margin, std::min(f, 1 - f) * L);
  return lo + (flip ? 1 - f : f) * L;
}

SCENARIO(trajectory, 3)
{
  Rng &r = c.r;
  System s = genSystem(c);
  ParameterDict q = s.dict(s.q), p = s.dict(s.p), m = s.dict(s.mass);
  Differ d{s};
  Vec rq = s.q, rp = s.p;
  bool one = r.coin(0.4);
  if (one)
    for (int i = 0; i < s.steps; ++i)
      LeapFrog::Hamiltonian(q, p, m, s.eps, d);
  else
    LeapFrog::Hamiltonian(q, p, m, s.eps, d, s.steps);
  for (int i = 0; i < s.steps; ++i)
    leap(s, rq, rp);
  LOG << "pot " << s.pot.kind << " dims " << s.names.size() << " steps " << s.steps << (one ? " singly" : " at once");
  nearv(s.vec(q), rq, "position", 1e-9, 5, "position after ", s.steps, " steps, ", one ? "one by one" : "at once");
  nearv(s.vec(p), rp, "momentum", 1e-9, 5, "momentum after ", s.steps, " steps");
  check(m == s.dict(s.mass), "masses", "the masses changed");
  if (s.pot.kind == 1)
    for (size_t i = 0; i < s.names.size(); ++i)
    {
      // leap frog conserves this one exactly: the harmonic energy up to second order in the step
      auto shadow = [&](double x, double y) {
        x -= s.pot.c[i];
        double k = s.pot.k[i], ms = s.mass[i];
        return y * y / 2 / ms + k * x * x / 2 * (1 - s.eps * s.eps * k / ms / 4);
      };
      near(shadow(q[s.names[i]], p[s.names[i]]), shadow(s.q[i], s.p[i]), "energy", 1e-9, 1, "conserved energy of ", s.names[i]);
    }
  // backwards
  for (auto &x : p)
    x.second *= -1;
  LeapFrog::Hamiltonian(q, p, m, s.eps, d, s.steps);
  for (auto &x : p)
    x.second *= -1;
  nearv(s.vec(q), s.q, "reversible", 1e-7, 5, "position after going back");
  nearv(s.vec(p), s.p, "reversible", 1e-7, 5, "momentum after going back");
  c.count("steps", uint64_t(2 * s.steps));
  c.sig(cat("t", s.pot.kind, s.names.size(), one, s.steps));
}

SCENARIO(walls, 4)
{
  Rng &r = c.r;
  System s = genSystem(c);
  for (size_t i = 0; i < s.names.size(); ++i)
  {
    double w = r.coin(0.3) ? r.uni(0.05, 0.3) : r.uni(0.3, 4);
    s.lo.push_back(s.q[i] - r.uni(0.02, 0.98) * w);
    s.hi.push_back(s.lo[i] + w);
  }
  ParameterDict q = s.dict(s.q), p = s.dict(s.p), m = s.dict(s.mass), lo = s.dict(s.lo), hi = s.dict(s.hi);
  Differ d{s};
  Vec rq = s.q, rp = s.p;
  int hits = 0;
  double margin = 1;
  for (int st = 0; st < s.steps; ++st)
  {
    Vec g = s.pot.grad(rq);
    for (size_t i = 0; i < rq.size(); ++i)
    {
      bool flip;
      rp[i] -= s.eps / 2 * g[i];
      rq[i] = fold(rq[i] + s.eps * rp[i] / s.mass[i], s.lo[i], s.hi[i], flip, margin, hits);
      if (flip)
        rp[i] *= -1;
    }
    g = s.pot.grad(rq);
    for (size_t i = 0; i < rq.size(); ++i)
      rp[i] -= s.eps / 2 * g[i];
  }
  bool one = r.coin();
  if (one)
    for (int i = 0; i < s.steps; ++i)
    {
      LeapFrog::Hamiltonian(q, p, m, s.eps, d, 1, lo, hi);
      for (size_t j = 0; j < s.names.size(); ++j)
      {
        double x = q.at(s.names[j]), tol = 1e-9 * (std::fabs(s.lo[j]) + std::fabs(s.hi[j]) + 1);
        check(x >= s.lo[j] - tol && x <= s.hi[j] + tol, "outside", s.names[j], " at ", x, " outside ", s.lo[j], " to ", s.hi[j]);
      }
    }
  else
    LeapFrog::Hamiltonian(q, p, m, s.eps, d, s.steps, lo, hi);
  LOG << "pot " << s.pot.kind << " dims " << s.names.size() << " steps " << s.steps << " reflections " << hits << " closest " << margin;
  for (size_t j = 0; j < s.names.size(); ++j)
  {
    double x = q.at(s.names[j]), tol = 1e-9 * (std::fabs(s.lo[j]) + std::fabs(s.hi[j]) + 1);
    check(x >= s.lo[j] - tol && x <= s.hi[j] + tol, "outside", s.names[j], " at ", x, " outside ", s.lo[j], " to ", s.hi[j]);
  }
  check(m == s.dict(s.mass) && lo == s.dict(s.lo) && hi == s.dict(s.hi), "masses", "masses or walls changed");
  c.count("reflections", uint64_t(hits));
  c.sig(cat("w", s.pot.kind, s.names.size(), hits));
  if (margin < 1e-6) // which side of a wall it ended on is a matter of rounding
  {
    c.count("ended on a wall");
    return;
  }
  nearv(s.vec(q), rq, "wall-position", 1e-7, 5, "position after ", hits, " reflections");
  nearv(s.vec(p), rp, "wall-momentum", 1e-7, 5, "momentum after ", hits, " reflections");
  for (auto &x : p)
    x.second *= -1;
  LeapFrog::Hamiltonian(q, p, m, s.eps, d, s.steps, lo, hi);
  for (auto &x : p)
    x.second *= -1;
  nearv(s.vec(q), s.q, "wall-reversible", 1e-5, 5, "position after going back over ", hits, " reflections");
  nearv(s.vec(p), s.p, "wall-reversible", 1e-5, 5, "momentum after going back over ", hits, " reflections");
}

// everything exactly representable: starts on walls and in corners, several walls at once
SCENARIO(corners, 2)
{
  Rng &r = c.r;
  System s = genSystem(c, 4);
  s.pot.kind = 0;
  s.eps = r.pick<double>({0.25, 0.5, 1});
  bool same = r.coin(0.5);
  for (size_t i = 0; i < s.names.size(); ++i)
  {
    s.mass[i] = r.pick<double>({1, 2, 0.5});
    s.lo.push_back(double(r.ri(-4, 2)));
    s.hi.push_back(s.lo[i] + r.pick<double>({1, 2, 4}));
    s.q[i] = s.lo[i] + (s.hi[i] - s.lo[i]) * double(r.ri(0, 4)) / 4;
    s.p[i] = double(r.ri(-8, 8)) / 2;
    if (same && i)
      s.mass[i] = s.mass[0], s.lo[i] = s.lo[0], s.hi[i] = s.hi[0], s.q[i] = s.q[0], s.p[i] = s.p[0];
  }
  ParameterDict q = s.dict(s.q), p = s.dict(s.p), m = s.dict(s.mass), lo = s.dict(s.lo), hi = s.dict(s.hi);
  Differ d{s};
  int walls = 0;
  for (int st = 1; st <= s.steps; ++st)
  {
    LeapFrog::Hamiltonian(q, p, m, s.eps, d, 1, lo, hi);
    for (size_t i = 0; i < s.names.size(); ++i)
    {
      bool flip;
      double margin = 1;
      int hits = 0;
      double want = fold(s.q[i] + st * s.eps * s.p[i] / s.mass[i], s.lo[i], s.hi[i], flip, margin, hits);
      near(q.at(s.names[i]), want, "corner-position", 1e-12, 10, s.names[i], " after ", st, " steps from ", s.q[i], " momentum ", s.p[i], " in ", s.lo[i], " to ", s.hi[i]);
      near(std::fabs(p.at(s.names[i])), std::fabs(s.p[i]), "corner-momentum", 0, 0, "size of the momentum of ", s.names[i]);
      if (margin > 0 && s.p[i] != 0)
        near(p.at(s.names[i]), flip ? -s.p[i] : s.p[i], "corner-momentum", 0, 0, "momentum of ", s.names[i], " after ", st, " steps");
      walls += margin == 0;
    }
  }
  c.count("steps ending on a wall", uint64_t(walls));
  c.sig(cat("c", s.names.size(), same, walls));
}

SCENARIO(firstwall, 1)
{
  Rng &r = c.r;
  System s = genSystem(c);
  double best = -1;
  std::string dim;
  double eps = r.uni(0.1, 3);
  bool near2 = false;
  for (size_t i = 0; i < s.names.size(); ++i)
  {
    s.lo.push_back(s.q[i] - r.uni(0.1, 3)), s.hi.push_back(s.q[i] + r.uni(0.1, 3));
    double v = s.p[i] / s.mass[i];
    double t = (v > 0 ? s.hi[i] - s.q[i] : s.lo[i] - s.q[i]) / v;
    near(LeapFrog::IntersectionTime(s.hi[i], s.q[i], v), (s.hi[i] - s.q[i]) / v, "intersection", 1e-14, 0, "time to a wall");
    near2 |= std::fabs(t - eps) < 1e-9 || (best >= 0 && std::fabs(t - best) < 1e-9);
    if (t < eps && (best < 0 || t < best))
      best = t, dim = s.names[i];
  }
  std::string d;
  double t;
  LeapFrog::FirstIntersectionTime(s.dict(s.q), s.dict(s.p), s.dict(s.mass), s.dict(s.lo), s.dict(s.hi), eps, d, t);
  if (near2)
    return;
  check(d == dim, "first-wall", "first wall is ", d, " want ", dim);
  if (dim.size())
    near(t, best, "first-time", 1e-12, 0, "time of the first crossing");
  c.sig("f" + dim);
}

SCENARIO(gradient, 1)
{
  Rng &r = c.r;
  System s = genSystem(c);
  RecStat t(s.names, [&](const ParameterDict &p) { return s.pot.U(s.vec(p)) + 3; });
  double e = r.pick<double>({0.005, 0.03, 0.25});
  Gradient<RecStat> g(t, e);
  for (int k = 0; k < 3; ++k)
  {
    Vec x = s.q;
    for (auto &v : x)
      v += r.uni(-1, 1);
    t.evals.clear();
    ParameterDict at = s.dict(x);
    Vec got = s.vec(g(at));
    check(at == s.dict(x), "gradient-point", "the point changed");
    // only central differences are taken
    for (auto &ev : t.evals)
    {
      int moved = 0;
      for (size_t i = 0; i < x.size(); ++i)
        if (std::fabs(ev.first.at(s.names[i]) - x[i]) > e / 2)
        {
          ++moved;
          near(std::fabs(ev.first.at(s.names[i]) - x[i]), e, "gradient-step", 1e-9, 1, "step along ", s.names[i]);
        }
      check(moved <= 1, "gradient-step", "moved along several directions at once");
    }
    for (size_t i = 0; i < x.size(); ++i)
    {
      Vec a = x, b = x;
      a[i] += e, b[i] -= e;
      double want = (s.pot.U(a) - s.pot.U(b)) / 2 / e;
      near(got[i], want, "gradient", 1e-8, 10, "derivative along ", s.names[i]);
      if (s.pot.kind <= 2) // central differences are exact for these
        near(got[i], s.pot.grad(x)[i], "true-gradient", 1e-8, 10, "derivative along ", s.names[i]);
    }
  }
  c.sig(cat("g", s.pot.kind, s.names.size(), e));
}

SCENARIO(energy, 1)
{
  Rng &r = c.r;
  System s = genSystem(c);
  RecStat t(s.names, [&](const ParameterDict &p) { return -s.pot.U(s.vec(p)); });
  HMCEnergy<RecStat> e(t);
  check(e.GetParameterNames() == t.GetParameterNames(), "energy-names", "names of the energy differ");
  double mu = r.pick<double>({1, 20, 1000});
  for (size_t i = 0; i < s.names.size(); ++i)
    s.lo.push_back(s.q[i] - r.uni(0.5, 2)), s.hi.push_back(s.q[i] + r.uni(0.5, 2));
  ParameterDict lo, hi;
  for (size_t i = 0; i < s.names.size(); ++i)
  {
    int k = int(r.ri(0, 3)); // not every parameter need have both
    if (k != 1)
      lo[s.names[i]] = s.lo[i];
    if (k != 2)
      hi[s.names[i]] = s.hi[i];
  }
  SigmoidBoundary<HMCEnergy<RecStat>> b(e, lo, hi, mu);
  check(b.GetParameterNames() == t.GetParameterNames(), "energy-names", "names of the bounded energy differ");
  for (int k = 0; k < 6; ++k)
  {
    Vec x = s.q;
    int far = int(r.ri(0, 3)); // 0 at home, 1 near the walls, 2 outside, 3 far outside
    for (auto &v : x)
      v += far == 0 ? 0 : r.uni(-1, 1) * (far == 1 ? 2 : far == 2 ? 10 : 1e4);
    double u = s.pot.U(x);
    e.SetParameters(s.dict(x));
    near(e.Evaluate(), u, "energy-sign", 1e-12, 0, "energy");
    b.SetParameters(s.dict(x));
    double got = b.Evaluate(), want = u, inside = 1e300;
    for (auto &w : lo)
    {
      double z = -mu * (s.dict(x)[w.first] - w.second);
      want += z > 40 ? z : z < -40 ? 0 : std::log1p(std::exp(z));
      inside = std::min(inside, -z);
    }
    for (auto &w : hi)
    {
      double z = mu * (s.dict(x)[w.first] - w.second);
      want += z > 40 ? z : z < -40 ? 0 : std::log1p(std::exp(z));
      inside = std::min(inside, -z);
    }
    near(got, want, "boundary", 1e-9, 1, "bounded energy, mu ", mu);
    if (inside > 40)
      near(got, u, "boundary-inside", 1e-12, 1, "the boundary is felt inside");
    check(t.GetParameters() == s.dict(x), "energy-set", "the parameters did not reach the statistic");
    c.sig(cat("e", s.pot.kind, far, mu, s.names.size()));
  }
}

SCENARIO(sampler, 3)
{
  Rng &r = c.r;
  System s = genSystem(c, 4);
  if (s.pot.kind == 2)
    s.pot.kind = 1;
  bool walls = r.coin(0.4);
  RecStat t(s.names, [&](const ParameterDict &p) { return s.pot.U(s.vec(p)); });
  t.recording = false;
  int n = s.steps;
  HamiltonianSampler<RecStat> h(t, s.eps, n);
  for (auto &x : h.GetMasses())
    check(x.second == 1, "default-mass", "default mass of ", x.first, " is ", x.second);
  check(h.GetMasses().size() == s.names.size(), "default-mass", "not every parameter has a default mass");
  if (r.coin(0.2))
    s.mass = Vec(s.names.size(), 1);
  else
    h.SetMasses(s.dict(s.mass));
  check(h.GetMasses() == s.dict(s.mass), "set-mass", "masses do not read back");
  for (size_t i = 0; i < s.names.size(); ++i)
    s.lo.push_back(s.q[i] - r.uni(0.05, 1.5)), s.hi.push_back(s.q[i] + r.uni(0.05, 1.5));
  if (walls)
  {
    h.SetMinima(s.dict(s.lo)), h.SetMaxima(s.dict(s.hi));
    check(h.GetMinima() == s.dict(s.lo) && h.GetMaxima() == s.dict(s.hi), "set-walls", "walls do not read back");
  }
  Vec mom;
  for (size_t i = 0; i < s.names.size(); ++i)
    mom.push_back(r.uni(-2, 2));
  double kin = 0;
  for (size_t i = 0; i < mom.size(); ++i)
    kin += mom[i] * mom[i] / 2 / s.mass[i];
  near(h.KineticEnergy(s.dict(mom)), kin, "kinetic", 1e-12, 0, "kinetic energy");

  Rand::SetSeed(unsigned(r.ri(1, 1 << 30)));
  double sum = 0, sum2 = 0, cnt = 0;
  ParameterDict at = s.dict(s.q);
  int draws = s.pot.kind == 0 ? 100 : 6;
  for (int k = 0; k < draws; ++k)
  {
    ParameterDict from = at;
    ParameterDict to = h.Draw(from);
    double corr = h.CorrectAccParam();
    check(from == at, "draw-point", "the current step changed");
    Vec a = s.vec(at), b = s.vec(to);
    c.count("draws");
    if (walls)
    {
      for (size_t i = 0; i < a.size(); ++i)
      {
        double tol = 1e-9 * (std::fabs(s.lo[i]) + std::fabs(s.hi[i]) + 1);
        check(b[i] >= s.lo[i] - tol && b[i] <= s.hi[i] + tol, "draw-outside", s.names[i], " drawn at ", b[i], " outside ", s.lo[i], " to ", s.hi[i]);
      }
      if (s.pot.kind == 0)
        near(corr, 0, "draw-free", 0, 0, "kinetic energy changed in free flight");
    }
    else if (s.pot.kind <= 1)
    {
      // recover the momentum from where it went
      double want = 0;
      bool ok = true;
      for (size_t i = 0; i < a.size(); ++i)
      {
        // one step is linear in (x, p): x' = A x + B p, p' = C x + D p
        double K = s.pot.kind ? s.pot.k[i] : 0, M = s.mass[i], e = s.eps;
        double A = 1, B = 0, C = 0, D = 1;
        for (int st = 0; st < n; ++st)
        {
          double a1 = A, b1 = B, c1 = C - e / 2 * K * A, d1 = D - e / 2 * K * B;
          a1 += e / M * c1, b1 += e / M * d1;
          c1 -= e / 2 * K * a1, d1 -= e / 2 * K * b1;
          A = a1, B = b1, C = c1, D = d1;
        }
        double x = a[i] - (K ? s.pot.c[i] : 0), y = b[i] - (K ? s.pot.c[i] : 0);
        if (std::fabs(B) < 0.02)
          ok = false;
        double p0 = (y - A * x) / B, p1 = C * x + D * p0;
        want += (p0 * p0 - p1 * p1) / 2 / M;
        sum += p0 / std::sqrt(M), sum2 += p0 * p0 / M, ++cnt;
        if (!ok)
          break;
      }
      if (ok)
        near(corr, want, "correction", 1e-6, 1, "kinetic-energy correction");
      else
        cnt = -1e9;
    }
    at = to;
  }
  if (cnt >= 100)
  {
    // momenta have the width their masses say; 8 sigma
    check(std::fabs(sum / cnt) < 8 / std::sqrt(cnt), "momentum-mean", "mean of ", cnt, " scaled momenta is ", sum / cnt);
    check(std::fabs(sum2 / cnt - 1) < 8 * std::sqrt(2 / cnt), "momentum-width", "variance of ", cnt, " scaled momenta is ", sum2 / cnt);
  }
  c.sig(cat("s", s.pot.kind, s.names.size(), walls, n));
}
