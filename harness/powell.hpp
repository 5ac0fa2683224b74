// Generators and drivers for the derivative-free solvers BOBYQA, NEWUOA and COBYLA.
#pragma once
#include "opk.hpp"
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include "bobyqa.h"
#include "newuoa.h"
#include "cobyla.h"

enum Solver { BOBYQA, NEWUOA, COBYLA };
static const char* const solver_name[] = {"bobyqa", "newuoa", "cobyla"};

// A symmetric positive definite matrix with eigenvalues in [lo,hi].
static inline dvec random_spd(T& t, long n, double lo, double hi) {
  dvec a(n * n, 0.0), v(n);
  for (long i = 0; i < n; ++i) a[i * n + i] = i == 0 ? lo : i == 1 ? hi : t.loguniform(lo, hi);
  for (int k = 0; k < 2; ++k) {   // similarity by two reflections
    double s = 0; for (auto& q : v) { q = t.sym(1); s += q * q; }
    if (s < 1e-6) continue;
    for (int side = 0; side < 2; ++side)
      for (long i = 0; i < n; ++i) {
        double d = 0; for (long j = 0; j < n; ++j) d += v[j] * (side ? a[j * n + i] : a[i * n + j]);
        d *= 2 / s; for (long j = 0; j < n; ++j) (side ? a[j * n + i] : a[i * n + j]) -= d * v[j];
      }
  }
  for (long i = 0; i < n; ++i) for (long j = 0; j < i; ++j) a[j * n + i] = a[i * n + j];
  return a;
}

struct Fn {
  int kind = 0; long n = 0; dvec a, c, g; double k = 1, f0 = 0, quart = 0; double fscale = 1, xscale = 1;
  // constraints: con_j = b_j + a_j.(x - c) - q_j |x - c|^2
  long m = 0; dvec ca, cb, cq;
  bool bounded = true; std::function<void()> hook; std::function<double(double, const double*)> spoil;   // called at each evaluation, for each value
  double raw(const double* xx) const {
    double x[64]; for (long i = 0; i < n; ++i) x[i] = xx[i] * xscale;
    double s = 0;
    switch (kind) {
      case 0: case 5: case 7: {
        for (long i = 0; i < n; ++i) { double r = 0; for (long j = 0; j < n; ++j) r += a[i * n + j] * (x[j] - c[j]); s += 0.5 * r * (x[i] - c[i]); }
        if (kind == 5) return floor(s * k);
        if (kind == 7) return sqrt(1 + s);
        for (long i = 0; i < (long)g.size(); ++i) s += g[i] * (x[i] - c[i]);
        if (quart != 0) for (long i = 0; i < n; ++i) { double d = (x[i] - c[i]) * (x[i] - c[i]); s += quart * d * d; }
        return s + f0;
      }
      case 1: { for (long i = 0; i + 1 < n; ++i) { double u = x[i + 1] - x[i] * x[i], v = 1 - x[i]; s += k * u * u + v * v; } if (n == 1) s = (x[0] - c[0]) * (x[0] - c[0]); return s; }
      case 2: { for (long i = 0; i < n; ++i) s += (1 + (i % 3)) * fabs(x[i] - c[i]); return s; }
      case 3: { for (long i = 0; i < n; ++i) s += c[i] * x[i]; return s; }
      case 4: return f0;
      case 6: { uint64_t h = 0x9e3779b97f4a7c15ull; for (long i = 0; i < n; ++i) { uint64_t u; memcpy(&u, &x[i], 8); if (x[i] == 0) u = 0; h = (h ^ u) * 0xbf58476d1ce4e5b9ull; h ^= h >> 29; } return (double)(h >> 11) / 9007199254740992.0 * k; }
      default: { for (long i = 0; i < n; ++i) s += cos(k * (x[i] - c[i])) + 0.01 * (x[i] - c[i]) * (x[i] - c[i]); return s; }
    }
  }
  double operator()(const double* x) const { if (hook) hook(); double v = raw(x) * fscale; return spoil ? spoil(v, x) : v; }
  void con(const double* xx, double* out) const {
    double d2 = 0, d[64]; for (long i = 0; i < n; ++i) { d[i] = xx[i] * xscale - c[i]; d2 += d[i] * d[i]; }
    for (long j = 0; j < m; ++j) { double s = cb[j]; for (long i = 0; i < n; ++i) s += ca[j * n + i] * d[i]; out[j] = (s - cq[j] * d2) * fscale; if (spoil) out[j] = spoil(out[j], xx); }
  }
};

static inline Fn random_fn(T& t, long n, bool box) {
  Fn f; f.n = n; f.kind = (int)t.weighted({4, 3, 2, box ? 2u : 0u, 1, 1, 2, 1, 2});
  f.bounded = f.kind != 3;
  f.c.resize(n); for (auto& q : f.c) q = t.chance(1, 6) ? 0.0 : t.sym(5);
  if (f.kind == 0 || f.kind == 5 || f.kind == 7) f.a = random_spd(t, n, 1, t.loguniform(1, 100));
  f.k = f.kind == 1 ? t.loguniform(1, 100) : t.loguniform(0.1, 10);
  f.f0 = f.kind == 4 || t.flag() ? t.sym(10) : 0;
  return f;
}

struct Job {
  Solver solver = BOBYQA; long n = 2, npt = 5, m = 0, maxfun = 1000, iprint = 0; bool maximize = false, plain = false, rc = false;
  double rhobeg = 1, rhoend = 1e-4; dvec x0, xl, xu, scl; const Fn* f = nullptr; bool neg = false; int fill = 0; dvec pre;   // pre: factors applied to the variables before evaluating
  long cap = 20000;
};
struct Result {
  int status = -100; dvec x, y, cv; std::vector<dvec> xs; double f = 0, maxcv = 0; long nevals = 0; dvec xend; bool runaway = false; const char* bad = nullptr;
  double best() const { double b = INFINITY; for (double q : y) b = std::min(b, q); return b; }
};
struct Cb { const Job* j; Result* r; };
static double cb_fun(opk_index n, const double* x, void* data) {
  Cb* c = (Cb*)data; Result* r = c->r;
  if ((long)n != c->j->n) r->bad = "wrong number of variables given to the function";
  if ((long)r->y.size() >= c->j->cap) { r->runaway = true; throw c; }
  r->xs.emplace_back(x, x + n);
  double v; dvec& q = r->xs.back();
  if (!c->j->pre.empty()) for (long i = 0; i < (long)n; ++i) q[i] *= c->j->pre[i];
  v = (*c->j->f)(q.data()); r->y.push_back(v); return c->j->neg ? -v : v;
}
static double cb_fun_con(opk_index n, opk_index m, const double* x, double* con, void* data) {
  Cb* c = (Cb*)data; Result* r = c->r;
  if ((long)m != c->j->m) r->bad = "wrong number of constraints given to the function";
  dvec q(x, x + n); if (!c->j->pre.empty()) for (long i = 0; i < (long)n; ++i) q[i] *= c->j->pre[i];
  c->j->f->con(q.data(), con); double w = 0; for (long k = 0; k < m; ++k) w = std::max(w, -con[k]);
  double v = cb_fun(n, x, data); r->cv.push_back(w); return v;
}
static inline long work_size(const Job& j) {
  long n = j.n, npt = j.npt, m = j.m, s = j.scl.empty() ? 0 : 1;
  if (j.solver == BOBYQA) return (npt + 5) * (npt + n) + 3 * n * (n + 5) / 2 + s * 3 * n;
  if (j.solver == NEWUOA) return (npt + 13) * (npt + n) + 3 * n * (n + 3) / 2 + s * n;
  return n * (3 * n + 2 * m + 11) + 4 * m + 6;
}
template <class E> struct Buf {
  E* p; explicit Buf(long n) { p = (E*)malloc(n > 0 ? (size_t)n * sizeof(E) : 1); } ~Buf() { free(p); } Buf(const Buf&) = delete;
};
static inline Result run_solver(const Job& j) {
  Result r; Cb cb{&j, &r};
  long nw = work_size(j); Buf<double> w(nw), x(j.n), xl(j.n), xu(j.n), sc(j.n); Buf<opk_index> ia(j.m + 1);
  for (long i = 0; i < nw; ++i) w.p[i] = j.fill == 0 ? 0.0 : j.fill == 1 ? NAN : 1e3 * sin((double)i * j.fill);
  for (long i = 0; i <= j.m; ++i) ia.p[i] = j.fill == 0 ? 0 : -7 * j.fill;
  for (long i = 0; i < j.n; ++i) { x.p[i] = j.x0[i]; if (!j.xl.empty()) { xl.p[i] = j.xl[i]; xu.p[i] = j.xu[i]; } if (!j.scl.empty()) sc.p[i] = j.scl[i]; }
  const double* scl = j.scl.empty() ? nullptr : sc.p;
  try {
    switch (j.solver) {
      case BOBYQA:
        r.status = j.plain ? bobyqa(j.n, j.npt, cb_fun, &cb, x.p, xl.p, xu.p, j.rhobeg, j.rhoend, j.iprint, j.maxfun, w.p)
                           : bobyqa_optimize(j.n, j.npt, (opk_bool)j.maximize, cb_fun, &cb, x.p, xl.p, xu.p, scl, j.rhobeg, j.rhoend, j.iprint, j.maxfun, w.p);
        break;
      case NEWUOA:
        r.status = j.plain ? newuoa(j.n, j.npt, cb_fun, &cb, x.p, j.rhobeg, j.rhoend, j.iprint, j.maxfun, w.p)
                           : newuoa_optimize(j.n, j.npt, (opk_bool)j.maximize, cb_fun, &cb, x.p, scl, j.rhobeg, j.rhoend, j.iprint, j.maxfun, w.p);
        break;
      case COBYLA:
        r.status = j.plain ? cobyla(j.n, j.m, cb_fun_con, &cb, x.p, j.rhobeg, j.rhoend, j.iprint, j.maxfun, w.p, ia.p)
                           : cobyla_optimize(j.n, j.m, (opk_bool)j.maximize, cb_fun_con, &cb, x.p, scl, j.rhobeg, j.rhoend, j.iprint, j.maxfun, w.p, ia.p);
        r.maxcv = w.p[1]; r.nevals = ia.p[0];
        break;
    }
  } catch (Cb*) {}
  r.f = w.p[0]; r.xend.assign(x.p, x.p + j.n);
  if (!j.xl.empty()) for (long i = 0; i < j.n; ++i) if (memcmp(&xl.p[i], &j.xl[i], 8) || memcmp(&xu.p[i], &j.xu[i], 8)) r.bad = "the bounds have been modified";
  if (scl) for (long i = 0; i < j.n; ++i) if (sc.p[i] != j.scl[i]) r.bad = "the scaling factors have been modified";
  return r;
}

// Random starting point, radii, bounds and options.
static inline void random_job(T& t, Job& j, const Fn& f, bool scaled) {
  long n = j.n = f.n; j.f = &f; j.m = f.m;
  long lo = n + 2, hi = (n + 1) * (n + 2) / 2;
  j.npt = t.chance(1, 3) ? std::min(2 * n + 1, hi) : t.chance(1, 4) ? hi : t.range(lo, hi);
  j.rhobeg = t.loguniform(0.05, 4); j.rhoend = t.chance(1, 8) ? j.rhobeg : j.rhobeg * t.loguniform(1e-8, 1);
  j.x0.resize(n); for (auto& q : j.x0) q = t.chance(1, 6) ? 0.0 : t.sym(8);
  if (t.chance(1, 12)) for (auto& q : j.x0) q += 1e4;
  if (scaled) { j.scl.resize(n); for (auto& q : j.scl) q = t.flag() ? ldexp(1.0, (int)t.range(-3, 3)) : t.loguniform(0.1, 10); }
  if (j.solver == BOBYQA) {
    j.xl.resize(n); j.xu.resize(n);
    for (long i = 0; i < n; ++i) {
      double s = scaled ? j.scl[i] : 1, gap = 2 * j.rhobeg * s;
      double a = t.chance(1, 4) ? 0.0 : t.sym(6);
      switch (t.draw(4)) {
        case 0: j.xl[i] = a; j.xu[i] = a + gap * (scaled ? 1.001 : 1); break;
        case 1: j.xl[i] = a; j.xu[i] = a + gap + t.unit() * 5; break;
        case 2: j.xl[i] = -1e20; j.xu[i] = 1e20; break;
        case 3: j.xl[i] = a; j.xu[i] = 1e20; break;
        default: j.xl[i] = -1e20; j.xu[i] = a; break;
      }
      while (!(j.xu[i] * (1 / s) - j.xl[i] * (1 / s) >= 2 * j.rhobeg)) j.xu[i] = nextafter(j.xu[i], INFINITY) + 1e-12;
      switch (t.draw(5)) {
        case 0: if (j.xl[i] > -1e19) j.x0[i] = j.xl[i]; break;
        case 1: if (j.xl[i] > -1e19) j.x0[i] = j.xl[i] + t.unit() * j.rhobeg * s; break;
        case 2: if (j.xu[i] < 1e19) j.x0[i] = j.xu[i] - t.unit() * j.rhobeg * s; break;
        default: break;
      }
    }
  }
  j.maxfun = t.chance(1, 3) ? t.range(-1, 3 * j.npt) : f.bounded || j.solver == BOBYQA ? 1500 : 150;
  if (!f.bounded && j.solver != BOBYQA) j.maxfun = std::min<long>(j.maxfun, 150);
}
// Random constraints (satisfied or not) for COBYLA.
static inline long some_constraints(T& t, long hi) { return t.chance(1, 25) ? t.range(hi + 1, 20) : t.small(0, hi); }
static inline void random_constraints(T& t, Fn& f, long m) {
  f.m = m; f.cb.resize(m); f.cq.resize(m); f.ca.resize(m * f.n);
  for (auto& q : f.ca) q = t.chance(1, 5) ? 0.0 : t.sym(2);
  for (auto& q : f.cb) q = t.sym(3);
  for (auto& q : f.cq) q = t.chance(1, 2) ? 0.0 : t.sym(1);
}
// What is written on the standard output and error streams.
struct Capture {
  int fd, o1, o2;
  Capture() { fflush(stdout); fflush(stderr); fd = memfd_create("out", 0); o1 = dup(1); o2 = dup(2); dup2(fd, 1); dup2(fd, 2); }
  long end() { if (fd < 0) return 0; fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); long k = (long)lseek(fd, 0, SEEK_END); close(fd); close(o1); close(o2); fd = -1; return k; }
  ~Capture() { end(); }
};
static inline void note_job(T& t, const Job& j) {
  t.note("%s%s n=%ld npt=%ld m=%ld function %d k=%g f0=%g rhobeg=%.17g rhoend=%.17g maxfun=%ld%s%s", solver_name[j.solver], j.plain ? "(plain)" : "", j.n, j.npt, j.m, j.f->kind, j.f->k, j.f->f0, j.rhobeg, j.rhoend, j.maxfun, j.maximize ? " maximize" : "", j.scl.empty() ? "" : " scaled");
  t.notev("x0", j.x0.data(), j.n); t.notev("c", j.f->c.data(), j.n);
  if (!j.xl.empty()) { t.notev("xl", j.xl.data(), j.n); t.notev("xu", j.xu.data(), j.n); }
  if (!j.scl.empty()) t.notev("scl", j.scl.data(), j.n);
}
static inline const char* reason(const Job& j, int st) {
  return j.solver == BOBYQA ? bobyqa_reason((bobyqa_status)st) : j.solver == NEWUOA ? newuoa_reason((newuoa_status)st) : cobyla_reason((cobyla_status)st);
}
static inline int too_many(const Job& j) { return j.solver == BOBYQA ? BOBYQA_TOO_MANY_EVALUATIONS : j.solver == NEWUOA ? NEWUOA_TOO_MANY_EVALUATIONS : COBYLA_TOO_MANY_EVALUATIONS; }
static inline bool running(const Job& j, int st) {   // possible outcome of a valid call
  switch (j.solver) {
    case BOBYQA: return st == BOBYQA_SUCCESS || st == BOBYQA_ROUNDING_ERRORS || st == BOBYQA_TOO_MANY_EVALUATIONS || st == BOBYQA_STEP_FAILED;
    case NEWUOA: return st == NEWUOA_SUCCESS || st == NEWUOA_ROUNDING_ERRORS || st == NEWUOA_TOO_MANY_EVALUATIONS || st == NEWUOA_STEP_FAILED;
    default: return st == COBYLA_SUCCESS || st == COBYLA_ROUNDING_ERRORS || st == COBYLA_TOO_MANY_EVALUATIONS;
  }
}
