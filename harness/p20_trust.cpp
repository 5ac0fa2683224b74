// P20: trust region subproblem; P21: linear conjugate gradients.
#include "opk.hpp"
extern "C" {
#include "optimpack-linalg.h"
}
typedef long double ld;
template <class R> static bool bits(R a, R b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class R> struct L;
#define LL(R, P) template <> struct L<R> { \
  static int gqt(opk_index n, R* a, opk_index lda, const R* b, R d, R rt, R at, opk_index it, R* par, R* f, R* x, opk_index* iter, R* z, R* w1, R* w2) { return opk_##P##gqt(n, a, lda, b, d, rt, at, it, par, f, x, iter, z, w1, w2); } \
  static R estsv(opk_index n, const R* r, opk_index ldr, R* z) { return opk_##P##estsv(n, r, ldr, z); } \
  static void plcg(opk_index n, R* p, R* q, R* r, R* x, R* z, R* rho, opk_cg_state* s) { opk_##P##plcg(n, p, q, r, x, z, rho, s); } \
  static void lcg(opk_index n, R* p, R* q, R* r, R* x, R* rho, opk_cg_state* s) { opk_##P##lcg(n, p, q, r, x, rho, s); } \
  static void trcg(opk_index n, R* p, R* q, R* r, R* x, R* z, R d, R* rho, opk_cg_state* s) { opk_##P##trcg(n, p, q, r, x, z, d, rho, s); } \
};
LL(double, d)
LL(float, s)

typedef std::vector<std::vector<ld>> M;

// Eigenvalues and vectors (columns of V) of a symmetric matrix by Jacobi rotations.
static void jacobi(M A, std::vector<ld>& w, M& V) {
  size_t n = A.size(); V.assign(n, std::vector<ld>(n, 0)); w.assign(n, 0);
  for (size_t i = 0; i < n; ++i) V[i][i] = 1;
  for (int sweep = 0; sweep < 60; ++sweep) {
    ld off = 0, dia = 0;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) (i == j ? dia : off) += A[i][j] * A[i][j];
    if (off <= 1e-40L * dia || off == 0) break;
    for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q < n; ++q) {
      if (A[p][q] == 0) continue;
      ld th = (A[q][q] - A[p][p]) / (2 * A[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
      if (!std::isfinite(th)) continue;
      for (size_t k = 0; k < n; ++k) { ld a = A[k][p], b = A[k][q]; A[k][p] = c * a - s * b; A[k][q] = s * a + c * b; }
      for (size_t k = 0; k < n; ++k) { ld a = A[p][k], b = A[q][k]; A[p][k] = c * a - s * b; A[q][k] = s * a + c * b; }
      for (size_t k = 0; k < n; ++k) { ld a = V[k][p], b = V[k][q]; V[k][p] = c * a - s * b; V[k][q] = s * a + c * b; }
    }
  }
  for (size_t i = 0; i < n; ++i) w[i] = A[i][i];
}

// Minimum of x'Ax/2 + b'x in the ball of radius d.
static ld tr_min(const M& A, const std::vector<ld>& b, ld d, ld& lam1) {
  size_t n = b.size(); std::vector<ld> w; M V; jacobi(A, w, V);
  std::vector<ld> c(n, 0); ld nb = 0;
  for (size_t j = 0; j < n; ++j) { for (size_t i = 0; i < n; ++i) c[j] += V[i][j] * b[i]; nb += c[j] * c[j]; }
  lam1 = *std::min_element(w.begin(), w.end());
  ld wmax = 0; for (ld x : w) wmax = std::max(wmax, fabsl(x));
  auto norm = [&](ld l) { ld s = 0; for (size_t j = 0; j < n; ++j) if (c[j] != 0) { ld q = c[j] / (w[j] + l); s += q * q; } return sqrtl(s); };
  // dual function: g(l) = -1/2 sum c_j^2/(w_j+l) - l d^2/2, maximal at the optimal multiplier (strong duality holds)
  ld lo = std::max((ld)0, -lam1), hi = lo + sqrtl(nb) / d + 1e-30L;
  if (lam1 > 0 && norm(0) <= d) hi = lo = 0;
  else {
    ld base = lo; // bisection on the distance to the lower limit, in relative terms
    ld a = 0, z = hi - base;
    for (int k = 0; k < 400; ++k) { ld m = k < 200 && z > 0 && a < z * 1e-3L ? (a > 0 ? sqrtl(a * z) : z * 1e-4L) : (a + z) / 2; if (m <= a || m >= z) break; if (norm(base + m) > d) a = m; else z = m; if (z < 1e-38L * (1 + wmax)) break; }
    lo = base + a; hi = base + z;
  }
  ld best = -INFINITY;
  for (ld l : {lo, hi}) {
    ld g = -l * d * d / 2; bool ok = true;
    for (size_t j = 0; j < n; ++j) if (c[j] != 0) { ld q = w[j] + l; if (q <= 0) { ok = false; break; } g -= c[j] * c[j] / q / 2; }
    if (ok) best = std::max(best, g);
  }
  return best;
}

template <class R> static R val(T& t, int mode) { return mode == 0 ? (R)t.range(-4, 4) : mode == 1 ? (R)t.real(1e2) : (R)t.sym(2.0); }

template <class R> static void subproblem(T& t) {
  typedef Kind<R> K; const ld e = K::eps;
  opk_index n = t.size(1, 8, 30), lda = n + (t.flag() ? 0 : t.range(1, 3));
  int mode = (int)t.draw(2), kind = (int)t.weighted({3, 2, 2, 2, 1, 1});
  std::vector<R> a((n - 1) * lda + n, (R)NAN), b(n), x(n, (R)NAN), z(n, (R)NAN), w1(n, (R)NAN), w2(n, (R)NAN);
  // kinds: random symmetric; positive definite; diagonal; hard case (b orthogonal to the lowest eigenspace of a diagonal matrix); singular; null
  auto A = [&](opk_index i, opk_index j) -> R& { return a[i + lda * j]; };
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i <= j; ++i) A(i, j) = kind == 2 || kind == 3 ? (i == j ? val<R>(t, mode) : (R)0) : kind == 5 ? (R)0 : val<R>(t, mode);
  if (kind == 1 || kind == 4) {
    opk_index rank = kind == 1 ? n : t.range(0, n - 1);
    std::vector<std::vector<R>> G(n, std::vector<R>(n)); for (auto& r : G) for (auto& q : r) q = (R)t.range(-3, 3);
    for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i <= j; ++i) { R s = kind == 1 && i == j ? (R)t.range(1, 3) : (R)0; for (opk_index k = 0; k < rank; ++k) s += G[i][k] * G[j][k]; A(i, j) = s; }
  }
  for (auto& q : b) q = val<R>(t, mode);
  if (kind == 3) { R lo = A(0, 0); for (opk_index i = 0; i < n; ++i) lo = std::min(lo, A(i, i)); for (opk_index i = 0; i < n; ++i) if (A(i, i) == lo) b[i] = 0; }
  if (t.chance(1, 25)) for (auto& q : b) q = 0;
  R sc = (R)(t.chance(1, 4) ? t.loguniform(1e-6, 1e6) : 1.0), delta = (R)t.loguniform(1e-2, 30);
  if (t.chance(1, 6)) delta = (R)t.loguniform(1e-6, 1e6);
  if (sc != 1) { for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i <= j; ++i) A(i, j) *= sc; for (auto& q : b) q *= sc; }
  R rtol = (R)t.loguniform(std::is_same<R, float>::value ? 1e-4 : 1e-8, 0.3), atol = t.flag() ? (R)0 : (R)(t.loguniform(1e-12, 1) * sc);
  opk_index itmax = t.chance(1, 6) ? t.range(1, 5) : 200, iter = -1;
  R par = t.chance(1, 3) ? (R)(t.loguniform(1e-3, 1e3) * sc) : (R)0, fx = (R)NAN;
  bool wp = !t.chance(1, 8), wf = !t.chance(1, 8), wi = !t.chance(1, 8);
  R par0 = wp ? par : (R)0;
  std::vector<R> a0 = a, b0 = b;
  static const char* kn[] = {"general", "definite", "diagonal", "hard", "singular", "null"};
  t.note("%s n=%ld lda=%ld %s delta=%.9g rtol=%.9g atol=%.9g itmax=%ld par=%.9g scale %g", K::name, (long)n, (long)lda, kn[kind], (double)delta, (double)rtol, (double)atol, (long)itmax, (double)par0, (double)sc);
  { dvec ad, bd(b.begin(), b.end()); for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i <= j; ++i) ad.push_back(A(i, j)); t.notev("A", ad.data(), ad.size()); t.notev("b", bd.data(), n); }
  int info = L<R>::gqt(n, a.data(), lda, b.data(), delta, rtol, atol, itmax, wp ? &par : nullptr, wf ? &fx : nullptr, x.data(), wi ? &iter : nullptr, z.data(), w1.data(), w2.data());
  t.note("-> %d par=%.9g f=%.9g", info, (double)par, (double)fx);
  if (info < 1 || info > 4) t.fail("%s: trust region step returns %d", K::name, info);
  if (wi && (iter < 1 || iter > itmax)) t.fail("%s: %ld iterations reported, at most %ld allowed", K::name, (long)iter, (long)itmax);
  if (wi && info == 4 && iter != itmax) t.fail("%s: limit of iterations reported after %ld of %ld", K::name, (long)iter, (long)itmax);
  if (info == 2 && atol == 0 && kind != 5 && kind != 4) { bool nz = false; for (R q : b) nz |= q != 0; if (nz) t.fail("%s: absolute accuracy claimed with a null tolerance", K::name); }
  M S(n, std::vector<ld>(n)); std::vector<ld> bl(n); ld na = 0, nb = 0, nx = 0, f = 0;
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i < lda && i + lda * j < (opk_index)a.size(); ++i) {
    R w = i <= j ? a0[i + lda * j] : i < n ? a0[j + lda * i] : a0[i + lda * j];
    if (!bits(a[i + lda * j], w)) t.fail("%s: element (%ld,%ld) of the matrix is %.17g on exit instead of %.17g", K::name, (long)i, (long)j, (double)a[i + lda * j], (double)w);
    if (i < n) { S[i][j] = w; na += (ld)w * w; }
  }
  for (opk_index i = 0; i < n; ++i) {
    if (!bits(b[i], b0[i])) t.fail("%s: the linear term was modified", K::name);
    bl[i] = b[i]; nb += bl[i] * bl[i]; nx += (ld)x[i] * x[i];
    if (!std::isfinite((double)x[i])) t.fail("%s: element %ld of the step is %g (returned %d)", K::name, (long)i, (double)x[i], info);
  }
  na = sqrtl(na); nb = sqrtl(nb); nx = sqrtl(nx);
  for (opk_index i = 0; i < n; ++i) { ld s = 0; for (opk_index j = 0; j < n; ++j) s += S[i][j] * x[j]; f += x[i] * (s / 2 + bl[i]); }
  ld big = std::max((ld)delta, nx);
  // the distance of the multiplier to its limit must be resolved to the requested tolerance
  if (info == 4 && itmax == 200) {
    if ((ld)rtol * nb / delta > 100 * n * e * (na + nb / delta)) t.fail("%s: no convergence in 200 iterations", K::name);
    t.label("stalled-by-rounding");
  }
  ld tol = 20 * n * e * (na * big * big + nb * big) + K::tiny * 100;
  if (wf && !(fabsl((ld)fx - f) <= tol)) t.fail("%s: reported function value %.17g, value at the step %.17Lg (difference %.3Lg, tolerance %.3Lg; returned %d)", K::name, (double)fx, f, (ld)fx - f, tol, info);
  if (wp && !(par >= 0)) t.fail("%s: negative multiplier %g", K::name, (double)par);
  t.label(std::string("returned-") + std::to_string(info)); t.label(kn[kind]);
  if (info == 1 || info == 2) {
    if (!(nx <= (1 + (ld)rtol) * delta * (1 + 8 * n * e))) t.fail("%s: length of the step %.17Lg exceeds %.17g (returned %d, rtol %g)", K::name, nx, (double)delta, info, (double)rtol);
    ld lam1, fs = tr_min(S, bl, delta, lam1), up = (1 - (ld)rtol) * (1 - (ld)rtol) * fs;
    if (info == 1 && nb == 0 && !(f <= up + tol)) t.known("GQT-NULL-LINEAR-TERM", "%s: relative accuracy claimed with a null linear term: f is %.9Lg, the minimum is %.9Lg", K::name, f, fs);
    if (info == 1 && !(f <= up + tol)) t.fail("%s: f is %.17Lg, the minimum is %.17Lg, relative precision %g not reached (%s, par=%g)", K::name, f, fs, (double)rtol, kn[kind], (double)par);
    if (info == 2 && !(std::max(-f, -fs) <= (ld)atol + tol)) t.fail("%s: f is %.17Lg, the minimum is %.17Lg, absolute precision %g not reached", K::name, f, fs, (double)atol);
    if (wp && info == 1 && par > 0 && nx > 0 && !(fabsl(nx - delta) <= (ld)rtol * delta + 8 * n * e * delta)) {
      if (nx < delta) t.known("GQT-SLACK-MULTIPLIER", "%s: positive multiplier %g although the step of length %.9Lg is inside the radius %.9g", K::name, (double)par, nx, (double)delta);
      t.fail("%s: positive multiplier %g but length %.17Lg for a radius %.17g", K::name, (double)par, nx, (double)delta);
    }
    if (lam1 < 0) t.label("indefinite");
    t.nontrivial(n > 1 && par > 0);
  }
}

template <class R> static void smallest_sv(T& t) {
  typedef Kind<R> K; const ld e = K::eps;
  opk_index n = t.size(1, 9, 60), ldr = n + (t.flag() ? 0 : t.range(1, 3)); int mode = (int)t.draw(2);
  std::vector<R> r((n - 1) * ldr + n, (R)NAN), z(n, (R)NAN);
  bool sing = t.chance(1, 8);
  ld nr = 0;
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i <= j; ++i) {
    R v = val<R>(t, mode); if (i == j) { v = (R)std::abs(v); if (v == 0) v = 1; if (t.chance(1, 5)) v *= (R)t.loguniform(1e-4, 1); }
    r[i + ldr * j] = v;
  }
  if (sing) { opk_index k = t.range(0, n - 1); r[k + ldr * k] = 0; }
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i <= j; ++i) nr += (ld)r[i + ldr * j] * r[i + ldr * j];
  nr = sqrtl(nr);
  std::vector<R> r0 = r;
  R s = L<R>::estsv(n, r.data(), ldr, z.data());
  t.note("%s n=%ld ldr=%ld %s -> %.9g", K::name, (long)n, (long)ldr, sing ? "singular" : "", (double)s);
  for (size_t i = 0; i < r.size(); ++i) if (!bits(r[i], r0[i])) t.fail("%s: the matrix was modified", K::name);
  ld nz = 0, ny = 0; M G(n, std::vector<ld>(n, 0));
  for (opk_index i = 0; i < n; ++i) { nz += (ld)z[i] * z[i]; ld q = 0; for (opk_index j = i; j < n; ++j) q += (ld)r[i + ldr * j] * z[j]; ny += q * q; }
  nz = sqrtl(nz); ny = sqrtl(ny);
  if (!(fabsl(nz - 1) <= 8 * n * e)) t.fail("%s: length of the singular vector is %.17Lg", K::name, nz);
  if (!sing && !(fabsl(ny - s) <= 8 * n * e * (nr + s))) t.fail("%s: singular value %.17g but product by its vector %.17Lg (n=%ld)", K::name, (double)s, ny, (long)n);
  for (opk_index i = 0; i < n; ++i) for (opk_index j = 0; j < n; ++j) for (opk_index k = 0; k <= std::min(i, j); ++k) G[i][j] += (ld)r[k + ldr * i] * r[k + ldr * j];
  std::vector<ld> w; M V; jacobi(G, w, V);
  ld sv = sqrtl(std::max((ld)0, *std::min_element(w.begin(), w.end())));
  if (!sing && !(s >= sv - 8 * n * e * nr - 1e-8L * nr * (ld)(sizeof(R) > 4))) t.fail("%s: estimate %.17g is less than the smallest singular value %.17Lg", K::name, (double)s, sv);
  if (!sing && !(s <= 20 * n * sv + 8 * n * e * nr + 1e-7L * nr)) t.fail("%s: estimate %.17g of the smallest singular value %.17Lg (n=%ld)", K::name, (double)s, sv, (long)n);
  if (sing && !(s <= 1e-2L * nr)) t.label("poor-estimate-of-singular");
  t.nontrivial(n > 2 && !sing); t.label("singular-value");
}

// ------------------------------------------------------- conjugate gradients
template <class R> static void lincg(T& t) {
  typedef Kind<R> K; const ld e = K::eps;
  int alg = (int)t.draw(2);       // 0 plain, 1 preconditioned, 2 trust region
  opk_index n = t.size(1, 8, 40);
  bool prec = alg == 1 ? !t.chance(1, 4) : alg == 2 && t.flag();
  bool indef = t.chance(1, 3);
  M A(n, std::vector<ld>(n, 0)), Q = A;
  std::vector<ld> lam(n);
  // A = H D H with H a Householder reflection, entries rounded to the type
  auto build = [&](M& X, const std::vector<ld>& d) {
    std::vector<ld> h(n); ld s = 0; for (auto& q : h) { q = t.sym(1); s += q * q; }
    if (s == 0 || t.chance(1, 5)) { for (opk_index i = 0; i < n; ++i) X[i][i] = (R)d[i]; return; }
    for (opk_index i = 0; i < n; ++i) for (opk_index j = 0; j <= i; ++j) {
      ld v = 0; for (opk_index k = 0; k < n; ++k) v += ((i == k) - 2 * h[i] * h[k] / s) * d[k] * ((j == k) - 2 * h[j] * h[k] / s);
      X[i][j] = X[j][i] = (R)v;
    }
  };
  for (auto& q : lam) q = t.uniform(0.2, 10);
  if (indef) { opk_index k = t.range(0, n - 1); lam[k] = t.chance(1, 4) ? (ld)0 : -lam[k]; }
  build(A, lam);
  std::vector<ld> qd(n); for (auto& q : qd) q = t.uniform(0.2, 5);
  bool badprec = prec && t.chance(1, 12); if (badprec) qd[t.range(0, n - 1)] = -1;
  if (prec) build(Q, qd);
  std::vector<R> b(n), x(n, (R)NAN), p(n, (R)NAN), q(n, (R)NAN), r, zz(n, (R)NAN), rho(5, (R)NAN);
  bool exact = t.chance(1, 6);    // right hand side is an eigenvector of a diagonal matrix or zero now and then
  for (auto& v : b) v = (R)t.sym(3); if (exact) { for (auto& v : b) v = 0; if (t.flag()) b[0] = 1; }
  R delta = (R)t.loguniform(1e-2, 50);
  bool share = alg == 1 && prec && t.flag();
  R* z = !prec ? nullptr : share ? q.data() : zz.data();
  opk_cg_state st = OPK_CG_START;
  int runs = t.chance(1, 4) ? 2 : 1;
  t.note("%s %s n=%ld %s%s delta=%g", K::name, alg == 0 ? "cg" : alg == 1 ? "preconditioned cg" : "trust region cg", (long)n, prec ? (share ? "preconditioner sharing q " : "preconditioner ") : "", indef ? "indefinite" : "definite", (double)delta);
  auto mul = [&](const M& X, const R* u, R* v) { std::vector<R> w(n); for (opk_index i = 0; i < n; ++i) { ld s = 0; for (opk_index j = 0; j < n; ++j) s += X[i][j] * u[j]; w[i] = (R)s; } std::copy(w.begin(), w.end(), v); };
  ld na = 0; for (auto& row : A) for (ld v : row) na += v * v; na = sqrtl(na);
  auto norm = [&](const std::vector<R>& v) { ld s = 0; for (R w : v) s += (ld)w * w; return sqrtl(s); };
  auto call = [&]() { if (alg == 0) L<R>::lcg(n, p.data(), q.data(), r.data(), x.data(), rho.data(), &st); else if (alg == 1) L<R>::plcg(n, p.data(), q.data(), r.data(), x.data(), z, rho.data(), &st); else L<R>::trcg(n, p.data(), q.data(), r.data(), x.data(), z, delta, rho.data(), &st); };
  auto quad = [&](const std::vector<R>& v) { ld f = 0; for (opk_index i = 0; i < n; ++i) { ld s = 0; for (opk_index j = 0; j < n; ++j) s += A[i][j] * v[j]; f += v[i] * (s / 2 - (ld)b[i]); } return f; };
  long steps_total = 0;
  for (int run = 0; run < runs; ++run) {
    bool restart = run > 0 ? true : t.chance(1, 3);
    std::vector<R> start(n, (R)0);
    if (restart) { if (run == 0 || t.flag()) for (auto& v : x) v = (R)t.sym(2); start = x; if (run > 0 && alg == 2 && t.flag()) delta *= (R)t.uniform(0.2, 4); st = OPK_CG_RESTART; }
    else st = OPK_CG_START;
    r = b;
    if (alg == 2 && t.chance(1, 5)) {
      // the radius is exactly the length of some iterate
      std::vector<R> p0 = p, q0 = q, x0 = x, z0 = zz, rho0 = rho; opk_cg_state s0 = st; R keep = delta; std::vector<R> len;
      delta = (R)1e15;
      for (long i = 0; i < 8 * n + 8; ++i) {
        call();
        if (st == OPK_CG_AP) mul(A, p.data(), q.data());
        else if (st == OPK_CG_PRECOND) mul(Q, r.data(), z);
        else if (st != OPK_CG_NEWX) break;
        else if (rho[4] > 0) len.push_back(rho[4]);
      }
      p = p0; q = q0; x = x0; std::copy(z0.begin(), z0.end(), zz.begin()); rho = rho0; st = s0; delta = keep; r = b;
      if (!len.empty()) { delta = len[t.draw(std::min<size_t>(len.size(), (size_t)n) - 1)]; t.note("the radius is exactly the length of an iterate, %.17g", (double)delta); t.label("radius-of-an-iterate"); }
    }
    bool toolong = alg == 2 && restart && norm(x) >= (ld)delta * (1 - 4 * n * e);
    if (alg == 2 && t.chance(1, 25)) {
      std::vector<R> xs = x; R keep = delta; delta = t.flag() ? (R)0 : (R)-1; call();
      if (st != OPK_CG_ERROR) t.fail("%s: a radius that is not positive is accepted", K::name);
      delta = keep; st = restart ? OPK_CG_RESTART : OPK_CG_START; x = xs;
    }
    call();
    long steps = 0; ld drift = 0, xmax = 0, fprev = 0, pprev_norm = 0, rzp = 0; bool conv = false, have_p = false;
    std::vector<R> pold(n), xold(n);
    (void)pprev_norm;
    if (toolong) {
      ld nx = norm(start), got = norm(x);
      if (st == OPK_CG_TRUNCATED) {
        if (!(fabsl(got - delta) <= 8 * n * e * delta) && !(nx < delta)) t.fail("%s: length %.17Lg of the rescaled starting point, radius %.17g", K::name, got, (double)delta);
        for (opk_index i = 0; i < n; ++i) if (!(fabsl((ld)x[i] - (ld)start[i] * delta / nx) <= 8 * n * e * fabsl((ld)start[i]) + K::tiny)) t.fail("%s: too long a starting point is not rescaled", K::name);
        if (!(fabsl((ld)rho[4] - delta) <= 4 * e * delta)) t.fail("%s: stored length %.17g, radius %.17g", K::name, (double)rho[4], (double)delta);
        t.label("starting-point-too-long");
        opk_cg_state s0 = st; std::vector<R> xs = x; call(); if (st != s0 || x != xs) t.fail("%s: a call after the end changed something", K::name);
        continue;
      }
      if (nx > delta * (1 + 4 * n * e)) t.fail("%s: starting point of length %.17Lg, radius %.17g: state is %d", K::name, nx, (double)delta, (int)st);
    }
    if (restart) {
      if (st != OPK_CG_AP) t.fail("%s: state is %d after a start with given variables", K::name, (int)st);
      for (opk_index i = 0; i < n; ++i) if (!(p[i] == start[i])) t.fail("%s: vector to multiply is not the starting point", K::name);
      mul(A, p.data(), q.data());
      call();
    }
    if (st != OPK_CG_NEWX) t.fail("%s: state is %d after the initialization", K::name, (int)st);
    for (opk_index i = 0; i < n; ++i) if (!(x[i] == start[i])) t.fail("%s: initial variables are modified", K::name);
    auto residuals = [&]() {
      ld nxx = norm(x), nbb = norm(b); xmax = std::max(xmax, nxx);
      drift = 8 * n * e * (steps + 2) * (na * xmax + nbb) + K::tiny * 100;
      for (opk_index i = 0; i < n; ++i) { ld s = b[i]; for (opk_index j = 0; j < n; ++j) s -= A[i][j] * x[j]; if (!(fabsl(s - r[i]) <= drift)) t.fail("%s: residual %ld is %.9g instead of %.9Lg after %ld steps", K::name, (long)i, (double)r[i], s, steps); }
    };
    residuals(); fprev = quad(x);
    long limit = 3 * n + 6, stop = t.chance(1, 10) ? t.range(0, n) : limit;
    ld rz = 0;
    while (st == OPK_CG_NEWX && steps < stop) {
      xold = x; pold = p; std::vector<R> rold = r;
      ld rhoold = rho[1];
      call();
      std::vector<R> zv = r;
      if (prec) {
        if (st != OPK_CG_PRECOND) t.fail("%s: state is %d instead of a request for the preconditioner", K::name, (int)st);
        mul(Q, r.data(), z); zv.assign(z, z + n);
        call();
      } else if (st == OPK_CG_PRECOND) t.fail("%s: preconditioning is requested though there is no preconditioner", K::name);
      ld g = 0; rz = 0; for (opk_index i = 0; i < n; ++i) { rz += (ld)r[i] * zv[i]; g += fabsl((ld)r[i] * zv[i]); }
      if (!(fabsl((ld)rho[1] - rz) <= (n + 2) * e * g + n * K::tiny)) t.fail("%s: stored product of the residuals %.17g instead of %.17Lg", K::name, (double)rho[1], rz);
      if (st == OPK_CG_FINISH || st == OPK_CG_NON_CONVEX) {
        if (st == OPK_CG_FINISH && rho[1] != 0) t.fail("%s: finished although the product of the residuals is %g", K::name, (double)rho[1]);
        if (st == OPK_CG_NON_CONVEX && !(rho[1] < 0)) t.fail("%s: non convexity reported although the product of the residuals is %g", K::name, (double)rho[1]);
        t.label(st == OPK_CG_FINISH ? "finished" : "bad-preconditioner");
        break;
      }
      if (st != OPK_CG_AP) t.fail("%s: state is %d instead of a request for a product", K::name, (int)st);
      if (!(rho[1] > 0)) t.fail("%s: continues although the product of the residuals is %g", K::name, (double)rho[1]);
      ld beta = have_p ? (ld)rho[1] / (ld)rhoold : 0;
      if (have_p && !(rhoold > 0)) beta = 0;
      if (!(fabsl((ld)rho[3] - beta) <= 4 * e * fabsl(beta) + K::tiny)) t.fail("%s: weight of the previous direction is %.17g instead of %.17Lg", K::name, (double)rho[3], beta);
      for (opk_index i = 0; i < n; ++i) { ld w = zv[i] + (have_p ? beta * pold[i] : 0); if (!(fabsl(w - p[i]) <= 6 * e * (fabsl((ld)zv[i]) + fabsl(have_p ? beta * pold[i] : 0)) + K::tiny)) t.fail("%s: direction %ld is %.17g instead of %.17Lg (step %ld)", K::name, (long)i, (double)p[i], w, steps); }
      for (opk_index i = 0; i < n; ++i) if (x[i] != xold[i]) t.fail("%s: variables changed while asking for a product", K::name);
      mul(A, p.data(), q.data());
      std::vector<R> rb = r;
      R before = rho[1];
      call();
      ld pq = 0, pm = 0, pp = 0; for (opk_index i = 0; i < n; ++i) { pq += (ld)p[i] * q[i]; pm += fabsl((ld)p[i] * q[i]); pp += (ld)p[i] * p[i]; }
      bool sure = fabsl(pq) > (n + 2) * e * pm + n * K::tiny;
      if (alg != 2 && (st == OPK_CG_NON_CONVEX || (sure && pq < 0))) {
        if (st != OPK_CG_NON_CONVEX) t.fail("%s: negative curvature %Lg is not reported (state %d)", K::name, pq, (int)st);
        if (sure && pq > 0) t.fail("%s: non convexity reported with a curvature of %Lg", K::name, pq);
        if (x != xold) t.fail("%s: variables changed along a direction of negative curvature", K::name);
        t.label("negative-curvature"); break;
      }
      if (st == OPK_CG_FINISH) { if (sure && (ld)before / pq > K::tiny) t.fail("%s: finished although the step is %Lg", K::name, (ld)before / pq); break; }
      if (st != OPK_CG_NEWX && !(alg == 2 && st == OPK_CG_TRUNCATED)) t.fail("%s: state is %d after a step", K::name, (int)st);
      ld al = rho[2], nx = norm(x);
      if (!(al > 0) && !(st == OPK_CG_TRUNCATED && al >= 0)) t.fail("%s: step size %Lg is not positive", K::name, al);
      for (opk_index i = 0; i < n; ++i) {
        ld w = xold[i] + al * p[i], v = rb[i] - al * q[i];
        if (!(fabsl(w - x[i]) <= 4 * e * (fabsl((ld)xold[i]) + fabsl(al * p[i])) + K::tiny)) t.fail("%s: variable %ld is %.17g instead of %.17Lg", K::name, (long)i, (double)x[i], w);
        if (!(fabsl(v - r[i]) <= 4 * e * (fabsl((ld)rb[i]) + fabsl(al * q[i])) + K::tiny)) t.fail("%s: residual %ld is %.17g instead of %.17Lg", K::name, (long)i, (double)r[i], v);
      }
      ++steps;
      residuals();
      if (alg == 2) {
        if (!(nx <= (ld)delta * (1 + 16 * n * e))) t.fail("%s: length %.17Lg exceeds the radius %.17g", K::name, nx, (double)delta);
        if (!(fabsl((ld)rho[4] - nx) <= 16 * n * e * delta)) t.fail("%s: stored length %.17g, length %.17Lg", K::name, (double)rho[4], nx);
        if (st == OPK_CG_NEWX && !(rho[4] < delta)) t.fail("%s: not truncated though the stored length %.17g is the radius", K::name, (double)rho[4]);
        if (st == OPK_CG_TRUNCATED) { if (!(fabsl(nx - delta) <= 16 * n * e * delta)) t.fail("%s: truncated step of length %.17Lg, radius %.17g", K::name, nx, (double)delta); t.label(pq > 0 ? "truncated" : "truncated-negative-curvature"); }
        if (sure && pq < 0 && st != OPK_CG_TRUNCATED) t.fail("%s: step along a direction of negative curvature does not reach the boundary", K::name);
      }
      bool full = st == OPK_CG_NEWX;
      if (full && sure) { ld w = (ld)before / pq; if (!(fabsl(al - w) <= (2 * n + 8) * e * w * (pm / fabsl(pq)))) t.fail("%s: step size %.17Lg instead of %.17Lg", K::name, al, w); }
      if (st == OPK_CG_TRUNCATED && sure && pq > 0) { ld w = (ld)before / pq; ld nw = 0; for (opk_index i = 0; i < n; ++i) { ld v = xold[i] + w * p[i]; nw += v * v; } if (al > w * (1 + (2 * n + 8) * e * pm / pq) && sqrtl(nw) < delta * (1 - 16 * n * e)) t.fail("%s: truncated step %.17Lg is longer than the optimal one %.17Lg", K::name, al, w); }
      ld f = quad(x);
      if (!(f <= fprev + 16 * n * e * (na * (xmax + norm(xold)) + norm(b)) * (xmax + norm(xold)) + K::tiny * 100)) t.fail("%s: the quadratic function increases from %.17Lg to %.17Lg", K::name, fprev, f);
      fprev = f; have_p = true; rzp = rz;
      (void)rzp;
      if (norm(r) <= 1e-2L * drift) { conv = true; break; }
      if (norm(r) <= drift) conv = true;
    }
    steps_total += steps;
    // exact termination in n steps for a definite matrix
    if (!indef && !badprec && alg != 2 && stop == limit && !conv) {
      ld ok = (std::is_same<R, float>::value ? 2e-2L : 1e-7L) * (norm(b) + na * norm(start));
      if (!(norm(r) <= ok)) t.fail("%s: residual %.3Lg after %ld steps for %ld variables", K::name, norm(r), steps, (long)n);
    }
    if (st == OPK_CG_FINISH || st == OPK_CG_NON_CONVEX || st == OPK_CG_TRUNCATED) { opk_cg_state s0 = st; std::vector<R> xs = x, rs = r; call(); if (st != s0 || x != xs || r != rs) t.fail("%s: a call after the end changed something", K::name); }
    if (restart) t.label("given-start");
  }
  if (t.chance(1, 10)) { st = (opk_cg_state)t.of<int>({-1, -5, 7}); if (alg == 2 && st == OPK_CG_TRUNCATED) st = OPK_CG_ERROR; std::vector<R> xs = x; call(); if (st != OPK_CG_ERROR || x != xs) t.fail("%s: an invalid state gives %d", K::name, (int)st); t.label("invalid-state"); }
  t.label(alg == 0 ? "cg" : alg == 1 ? "preconditioned" : "trust-region");
  t.nontrivial(n > 1 && steps_total > 1);
}

pbt::Check& pbt_check() {
#ifdef CHECK_P20
  static pbt::Check c{"P20", "a case counts when there are several variables and the constraint is active, or for a regular triangular matrix of order above 2",
    {{"step-float", subproblem<float>, 3}, {"step-double", subproblem<double>, 3}, {"sv-float", smallest_sv<float>, 1}, {"sv-double", smallest_sv<double>, 1}}, 400000, 60, 10,
    {"the accuracy is judged up to rounding errors proportional to the norms of the data", "the step returned after rounding errors or too many iterations is not judged for optimality"}};
#else
  static pbt::Check c{"P21", "a case counts when there are several variables and at least two steps are taken",
    {{"float", lincg<float>, 1}, {"double", lincg<double>, 1}}, 1000000, 60, 10, {"symmetric matrices of condition number up to 50 when definite"}};
#endif
  return c;
}
