// P34: what the derivative-free solvers print is what they did.
#include "powell.hpp"
#include <string>

struct Report {
  enum Kind { EVAL, RHO, FINAL, POINT, START, INCREASE, NORMAL, REASON } kind; long nf = 0; double f = 0, rho = 0, parmu = 0, maxcv = 0; dvec x; std::string sense;
};
// A scanner of the printed text: words between numbers are only used to recognize the reports.
struct Scan {
  T& t; const std::string& s; size_t at = 0; const char* sn;
  Scan(T& t_, const std::string& s_, const char* n) : t(t_), s(s_), sn(n) {}
  bool upto(const char* key) { size_t q = s.find(key, at); if (q == std::string::npos) return false; at = q + strlen(key); return true; }
  [[noreturn]] void bad(const char* what) { std::string part = s.substr(at > 60 ? at - 60 : 0, 160); t.fail("%s: %s is expected in the printed text near \"%s\"", sn, what, part.c_str()); abort(); }
  double number(const char* what) { const char* p = s.c_str() + at; char* e; double v = strtod(p, &e); if (e == p) bad(what); at = e - s.c_str(); return v; }
  void key(const char* k) { size_t q = s.find_first_not_of(" \n", at); if (q == std::string::npos || s.compare(q, strlen(k), k) != 0) bad(k); at = q + strlen(k); }
  bool is(const char* k) { size_t q = s.find_first_not_of(" \n", at); if (q == std::string::npos || s.compare(q, strlen(k), k) != 0) return false; at = q + strlen(k); return true; }
  bool more() { size_t q = s.find_first_not_of(" \n", at); return q != std::string::npos; }
};
static std::vector<Report> parse(T& t, const std::string& text, const Job& j) {
  const char* sn = solver_name[j.solver]; Scan z(t, text, sn); std::vector<Report> all;
  std::string name = j.solver == BOBYQA ? "BOBYQA" : "NEWUOA";
  auto point = [&](Report& r) { for (long i = 0; i < j.n; ++i) r.x.push_back(z.number("a variable")); };
  while (z.more()) {
    Report r;
    if (j.solver == COBYLA) {
      if (z.is("NFVALS =")) { r.kind = Report::POINT; r.nf = (long)z.number("a count"); z.key("F ="); r.f = z.number("a value"); z.key("MAXCV ="); r.maxcv = z.number("a violation"); z.key("X ="); point(r); }
      else if (z.is("The initial value of RHO is")) { r.kind = Report::START; r.rho = z.number("a radius"); z.key("and PARMU is set to zero."); }
      else if (z.is("Increase in PARMU to")) { r.kind = Report::INCREASE; r.parmu = z.number("a penalty"); }
      else if (z.is("Reduction in RHO to")) { r.kind = Report::RHO; r.rho = z.number("a radius"); z.key("and PARMU ="); r.parmu = z.number("a penalty"); }
      else if (z.is("Normal return from subroutine COBYLA")) r.kind = Report::NORMAL;
      else if (z.is("Return from subroutine COBYLA because")) { r.kind = Report::REASON; z.upto("\n"); }
      else z.bad("a known report");
    } else {
      if (z.is("Function number")) { r.kind = Report::EVAL; r.nf = (long)z.number("a count"); z.key("F ="); r.f = z.number("a value"); }
      else if (z.is("New RHO =")) { r.kind = Report::RHO; r.rho = z.number("a radius"); z.key("Number of function values ="); r.nf = (long)z.number("a count"); r.sense = z.is("Least") ? "Least" : z.is("Most") ? "Most" : "?"; z.key("value of F ="); r.f = z.number("a value"); }
      else if (z.is(("At the return from " + name).c_str())) { r.kind = Report::FINAL; z.key("Number of function values ="); r.nf = (long)z.number("a count"); r.sense = z.is("Least") ? "Least" : z.is("Most") ? "Most" : "?"; z.key("value of F ="); r.f = z.number("a value"); }
      else if (z.is(("Return from " + name + " because").c_str())) { r.kind = Report::REASON; z.upto("\n"); }
      else z.bad("a known report");
      if (r.kind != Report::REASON) { z.key("The corresponding X is:"); point(r); }
    }
    all.push_back(r);
  }
  return all;
}
struct Text {
  int o, e, so, se; std::string out, err;
  Text() { fflush(stdout); fflush(stderr); o = memfd_create("out", 0); e = memfd_create("err", 0); so = dup(1); se = dup(2); dup2(o, 1); dup2(e, 2); }
  static std::string all(int fd) { std::string s((size_t)lseek(fd, 0, SEEK_END), ' '); if (!s.empty() && pread(fd, &s[0], s.size(), 0) < 0) s.clear(); return s; }
  void end() { if (o < 0) return; fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); out = all(o); err = all(e); close(o); close(e); close(so); close(se); o = -1; }
  ~Text() { end(); }
};
// A number printed with a given number of digits.
static bool printed(double p, double v, int digits, double slack = 0) {
  if (p == v) return true; if (std::isnan(v)) return std::isnan(p);
  return fabs(p - v) <= 0.53 * pow(10.0, -digits) * pow(10.0, v == 0 ? -300 : floor(log10(std::max(fabs(v), fabs(p))))) + 1.2e-16 * fabs(v) + slack;
}
static void random_run(T& t, Job& j, Fn& f, bool scaled) {
  j.solver = (Solver)t.draw(2); f = random_fn(t, t.weighted({1, 1}) ? t.range(2, 5) : t.dim(2, 12, 24), j.solver == BOBYQA);
  if (j.solver == COBYLA) { random_constraints(t, f, some_constraints(t, 4)); }
  random_job(t, j, f, scaled);
  if (f.n > 5 && j.maxfun > 300) j.maxfun = 300;
  j.iprint = t.range(0, 3);
}
static void check_text(T& t, const Job& j, const Result& r, const Text& x) {
  const char* sn = solver_name[j.solver]; long N = (long)r.y.size(); int lev = (int)j.iprint; double sg = j.neg ? -1 : 1;
  if (r.bad) t.fail("%s", r.bad); if (r.runaway) t.fail("%ld evaluations and still not ended", j.cap); if (!running(j, r.status)) t.fail("returned %d (%s)", r.status, reason(j, r.status));
  if (lev == 0) { if (!x.out.empty() || !x.err.empty()) t.fail("%s: \"%s%s\" is printed at level 0", sn, x.out.substr(0, 80).c_str(), x.err.substr(0, 80).c_str()); t.label("silent"); return; }
  std::vector<Report> rep = parse(t, x.out, j), er = parse(t, x.err, j);
  long reasons = 0; for (auto& q : er) { if (q.kind != Report::REASON) t.fail("%s: a report is printed on the standard error", sn); ++reasons; }
  for (auto& q : rep) if (q.kind == Report::REASON) ++reasons;
  if (reasons != (r.status == 0 ? 0 : 1)) t.fail("%s: status is %d and %ld reasons are printed", sn, r.status, reasons);
  long nev = 0, finals = 0, rhos = 0, pen = 0; double rho = j.rhobeg, parmu = 0; long prevnf = 0; bool expect_point = false; long starts = 0, normals = 0;
  auto match = [&](const Report& q, const double* v, double slack, const char* what) {
    for (long i = 0; i < j.n; ++i) if (!printed(q.x[i], v[i], 6, slack)) t.fail("%s: %s: variable %ld is printed as %.7g, it is %.17g", sn, what, i, q.x[i], v[i]);
  };
  // is the printed point one of the first `n` evaluated points, with the printed value?
  double big = 0; for (auto& p : r.xs) for (double v : p) big = std::max(big, fabs(v));
  double smax = 1; for (double s : j.scl) smax = std::max(smax, s);
  double slack = 1e-9 * (big + smax * j.rhobeg);
  auto known = [&](const Report& q, long n, int digits) {
    for (long k = 0; k < n; ++k) {
      if (!printed(q.f, sg * r.y[k], digits) || (j.solver == COBYLA && !printed(q.maxcv, r.cv[k], digits))) continue;
      bool ok = true; for (long i = 0; i < j.n && ok; ++i) ok = printed(q.x[i], r.xs[k][i], 6, slack);
      if (ok) return k;
    }
    return -1l;
  };
  bool cob = j.solver == COBYLA; size_t last = rep.size() - 1;
  for (size_t k = 0; k < rep.size(); ++k) {
    Report& q = rep[k];
    if (expect_point && q.kind != Report::POINT) t.fail("%s: no point is printed with the new radius", sn);
    switch (q.kind) {
      case Report::EVAL: case Report::POINT:
        if (cob && k == last) {   // the result
          if (q.nf != N) t.fail("%s: %ld evaluations are reported at the end instead of %ld", sn, q.nf, N);
          if (!printed(q.f, r.f, 6) || !printed(q.maxcv, r.maxcv, 6)) t.fail("%s: the final value and violation are printed as %.7g and %.7g, they are %.17g and %.17g", sn, q.f, q.maxcv, r.f, r.maxcv);
          match(q, r.xend.data(), 0, "result"); ++finals; break;
        }
        if (cob && expect_point) {
          expect_point = false;
          if (q.nf < nev || q.nf > N || q.nf < prevnf) t.fail("%s: %ld evaluations reported at a new radius", sn, q.nf);
          prevnf = q.nf;
          if (known(q, q.nf, 6) < 0) t.fail("%s: the point printed with a new radius (value %.7g, violation %.7g, first variable %.7g) has not been evaluated", sn, q.f, q.maxcv, q.x[0]);
          break;
        }
        if (lev < 3 && !(cob && q.nf == lev - 1)) t.fail("%s: evaluation %ld is printed at level %d", sn, q.nf, lev);
        ++nev; if (q.nf != nev || nev > N) t.fail("%s: evaluation %ld of %ld is printed as number %ld", sn, nev, N, q.nf);
        if (!printed(q.f, sg * r.y[nev - 1], cob ? 6 : 10)) t.fail("%s: evaluation %ld: value %.11g is printed, it is %.17g", sn, nev, q.f, sg * r.y[nev - 1]);
        if (cob && !printed(q.maxcv, r.cv[nev - 1], 6)) t.fail("%s: evaluation %ld: violation %.7g is printed, it is %.17g", sn, nev, q.maxcv, r.cv[nev - 1]);
        match(q, r.xs[nev - 1].data(), 0, "evaluation"); prevnf = nev; break;
      case Report::RHO: {
        if (lev < 2) t.fail("%s: a new radius is printed at level %d", sn, lev);
        ++rhos; if (!(q.rho < rho * (1 + 1e-12) - 0) || !(q.rho >= j.rhoend * (1 - 1e-4))) t.fail("%s: new radius %.7g after %.7g, the final one is %.7g", sn, q.rho, rho, j.rhoend);
        rho = q.rho;
        if (cob) {
          if (lev == 2) expect_point = true;
          if (q.parmu > parmu * (1 + 1e-5) || q.parmu < 0) t.fail("%s: the penalty grows from %.7g to %.7g with a new radius", sn, parmu, q.parmu);
          parmu = q.parmu; break;
        }
        if (q.nf < prevnf || q.nf > N || (lev == 3 && q.nf != nev)) t.fail("%s: %ld evaluations are reported after %ld", sn, q.nf, lev == 3 ? nev : prevnf);
        prevnf = q.nf; double b = INFINITY; for (long i = 0; i < q.nf; ++i) b = std::min(b, r.y[i]);
        if (!printed(q.f, sg * b, 15)) t.fail("%s: after %ld evaluations, the best value is printed as %.17g, it is %.17g", sn, q.nf, q.f, sg * b);
        if (known(q, q.nf, 15) < 0) t.fail("%s: after %ld evaluations, the point printed for the best value (first variable %.7g) is not the best one", sn, q.nf, q.x[0]);
        if (q.sense != (j.maximize ? "Most" : "Least")) t.fail("%s: \"%s\" value while %s", sn, q.sense.c_str(), j.maximize ? "maximizing" : "minimizing");
        break;
      }
      case Report::FINAL:
        ++finals; if (k != last) t.fail("%s: the final report is not the last one", sn);
        if (q.nf != N) t.fail("%s: %ld evaluations are reported at the end instead of %ld", sn, q.nf, N);
        if (!printed(q.f, sg * r.best(), 15)) t.fail("%s: final value is printed as %.17g, it is %.17g", sn, q.f, sg * r.best());
        match(q, r.xend.data(), 0, "result");
        if (q.sense != (j.maximize ? "Most" : "Least")) t.fail("%s: \"%s\" value while %s", sn, q.sense.c_str(), j.maximize ? "maximizing" : "minimizing");
        break;
      case Report::START: ++starts; if (lev < 2 || k != 0) t.fail("%s: the initial radius is printed at level %d, as report %zu", sn, lev, k); if (!printed(q.rho, j.rhobeg, 6)) t.fail("%s: initial radius %.7g instead of %.17g", sn, q.rho, j.rhobeg); break;
      case Report::INCREASE: ++pen; if (lev < 2) t.fail("%s: a new penalty is printed at level %d", sn, lev); if (!(q.parmu >= parmu)) t.fail("%s: the penalty decreases from %.7g to %.7g", sn, parmu, q.parmu); parmu = q.parmu; break;
      case Report::NORMAL: ++normals; break;
      case Report::REASON: break;
    }
  }
  if (finals > 1 || (finals == 0 && (r.status == 0 || cob))) t.fail("%s: %ld final reports", sn, finals);
  if (lev == 3 && nev != N) t.fail("%s: %ld evaluations are printed of %ld", sn, nev, N);
  if (cob) {
    if (starts != (lev >= 2)) t.fail("%s: the initial radius is printed %ld times at level %d", sn, starts, lev);
    if (normals != (r.status == 0)) t.fail("%s: status is %d and %ld normal returns are printed", sn, r.status, normals);
  }
  if (lev >= 2 && r.status == 0 && !printed(rho, j.rhoend, 4)) t.fail("%s: the last radius printed is %.7g instead of %.17g", sn, rho, j.rhoend);
  t.label(solver_name[j.solver]); t.label(lev == 1 ? "level 1" : lev == 2 ? "level 2" : "level 3"); if (rhos) t.label("new radius"); if (pen) t.label("penalty"); if (r.status) t.label("stopped"); if (!j.scl.empty()) t.label("scaled"); if (j.maximize) t.label("maximize");
  t.nontrivial(N > (cob ? j.n + 1 : j.npt));
}
static void direct(T& t) {
  Job j; Fn f; random_run(t, j, f, t.chance(1, 3)); j.neg = j.maximize = t.chance(1, 3); note_job(t, j); t.note("level %ld", j.iprint);
  Text x; Result r = run_solver(j); x.end(); check_text(t, j, r, x);
}
// Reverse communication prints the same text.
static void revcom(T& t) {
  Job j; Fn f; random_run(t, j, f, false); if (j.solver == BOBYQA) j.solver = NEWUOA; j.xl.clear(); j.xu.clear(); j.maxfun = std::max(j.maxfun, 1l); if (!f.bounded || f.kind == 3) j.maxfun = std::min(j.maxfun, 150l);
  note_job(t, j); t.note("level %ld, reverse communication", j.iprint);
  Text a; Result r = run_solver(j); a.end(); check_text(t, j, r, a);
  newuoa_context* nw = nullptr; cobyla_context* cb = nullptr; dvec x = j.x0, c(j.m + 1); int laps = t.chance(1, 4) ? 2 : 1; long stop = laps == 2 ? t.range(1, 40) : -1;
  for (; laps > 0; --laps) {
    Text b; long k = 0; int st = 1; x = j.x0;
    if (j.solver == NEWUOA) { if (!nw) nw = newuoa_create(j.n, j.npt, j.rhobeg, j.rhoend, j.iprint, j.maxfun); else newuoa_restart(nw); }
    else { if (!cb) cb = cobyla_create(j.n, j.m, j.rhobeg, j.rhoend, j.iprint, j.maxfun); else cobyla_restart(cb); }
    if (!nw && !cb) { b.end(); t.fail("no context created"); }
    while (st == 1 && k < j.cap && (laps == 1 || k < stop)) { j.f->con(x.data(), c.data()); double v = (*j.f)(x.data()); ++k; st = nw ? (int)newuoa_iterate(nw, v, x.data()) : (int)cobyla_iterate(cb, v, x.data(), c.data()); }
    b.end(); if (laps > 1) continue;
    if (b.out != a.out || b.err != a.err) {
      bool e = b.out == a.out; const std::string& p = e ? b.err : b.out; const std::string& q = e ? a.err : a.out; size_t i = 0; while (i < p.size() && i < q.size() && p[i] == q[i]) ++i;
      newuoa_delete(nw); cobyla_delete(cb);
      t.fail("%s: reverse communication prints \"%s\" where the direct call prints \"%s\"", solver_name[j.solver], p.substr(i > 40 ? i - 40 : 0, 120).c_str(), q.substr(i > 40 ? i - 40 : 0, 120).c_str());
    }
  }
  newuoa_delete(nw); cobyla_delete(cb); t.label("reverse communication");
}
pbt::Check& pbt_check() {
  static pbt::Check c{"P34", "a case counts when something is to be printed and the run goes on after its initial points", {{"direct", direct, 4}, {"revcom", revcom, 1}}, 30000, 60, 20, {"functions are finite"}};
  return c;
}
