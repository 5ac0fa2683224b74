// P18: level 1 operations; P19: matrix operations (levels 2 and 3, Cholesky).
#include "opk.hpp"
extern "C" {
#include "optimpack-linalg.h"
}
typedef long double ld;

template <class R> struct B;
#define BL(R, P) \
template <> struct B<R> { \
  static R amax(opk_index n, const R* x, opk_index i) { return opk_##P##amax(n, x, i); } \
  static R asum(opk_index n, const R* x, opk_index i) { return opk_##P##asum(n, x, i); } \
  static R sum(opk_index n, const R* x, opk_index i) { return opk_##P##sum(n, x, i); } \
  static R nrm2(opk_index n, const R* x, opk_index i) { return opk_##P##nrm2(n, x, i); } \
  static opk_index iamax(opk_index n, const R* x, opk_index i) { return opk_i##P##amax(n, x, i); } \
  static R dot(opk_index n, const R* x, opk_index i, const R* y, opk_index j) { return opk_##P##dot(n, x, i, y, j); } \
  static void axpy(opk_index n, R a, const R* x, opk_index i, R* y, opk_index j) { opk_##P##axpy(n, a, x, i, y, j); } \
  static void copy(opk_index n, const R* x, opk_index i, R* y, opk_index j) { opk_##P##copy(n, x, i, y, j); } \
  static void swap(opk_index n, R* x, opk_index i, R* y, opk_index j) { opk_##P##swap(n, x, i, y, j); } \
  static void scal(opk_index n, R a, R* x, opk_index i) { opk_##P##scal(n, a, x, i); } \
  static void zero(opk_index n, R* x, opk_index i) { opk_##P##zero(n, x, i); } \
  static int gemv(opk_blas_trans t, opk_index m, opk_index n, R al, const R* a, opk_index lda, const R* x, opk_index ix, R be, R* y, opk_index iy) { return opk_##P##gemv(t, m, n, al, a, lda, x, ix, be, y, iy); } \
  static int trmv(opk_blas_uplo u, opk_blas_trans t, opk_blas_diag d, opk_index n, const R* a, opk_index lda, R* x, opk_index ix) { return opk_##P##trmv(u, t, d, n, a, lda, x, ix); } \
  static int trsv(opk_blas_uplo u, opk_blas_trans t, opk_blas_diag d, opk_index n, const R* a, opk_index lda, R* x, opk_index ix) { return opk_##P##trsv(u, t, d, n, a, lda, x, ix); } \
  static int gemm(opk_blas_trans ta, opk_blas_trans tb, opk_index m, opk_index n, opk_index k, R al, const R* a, opk_index lda, const R* b, opk_index ldb, R be, R* c, opk_index ldc) { return opk_##P##gemm(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); } \
  static int syrk(opk_blas_uplo u, opk_blas_trans t, opk_index n, opk_index k, R al, const R* a, opk_index lda, R be, R* c, opk_index ldc) { return opk_##P##syrk(u, t, n, k, al, a, lda, be, c, ldc); } \
  static opk_index potf2(opk_blas_uplo u, opk_index n, R* a, opk_index lda) { return opk_##P##potf2(u, n, a, lda); } \
};
BL(double, d)
BL(float, s)

template <class R> static bool bits(R a, R b) { return memcmp(&a, &b, sizeof a) == 0; }
static opk_index head(opk_index n, opk_index inc) { return inc >= 0 ? 0 : (1 - n) * inc; }

// A strided array in a heap block of exactly the required size.
template <class R> struct Vec {
  opk_index n, inc; std::vector<R> mem;
  static opk_index len(opk_index n, opk_index inc) { return n > 0 ? 1 + (n - 1) * labs(inc) : 0; }
  Vec(T& t, opk_index n_, opk_index inc_, int mode) : n(n_), inc(inc_), mem(std::max<opk_index>(len(n_, inc_), 0)) {
    mem.shrink_to_fit();
    for (auto& e : mem) e = (R)NAN;          // gaps must not be read
    for (opk_index i = 0; i < n; ++i) at(i) = n > 20000 && i >= 1009 && i < n - 200 ? at(i - 1009) : val(t, mode);
  }
  static R val(T& t, int mode) { return mode == 0 ? (R)t.range(-5, 5) : mode == 1 ? (R)t.real(1e3) : (R)t.sym(2.0); }
  R& at(opk_index i) { return mem[head(n, inc) + i * inc]; }
  R* p() { return mem.data(); }
};
template <class R> static void untouched(T& t, const char* nm, const Vec<R>& before, Vec<R>& after, bool gaps_only) {
  for (size_t i = 0; i < before.mem.size(); ++i)
    if ((!gaps_only || (after.inc != 0 && i % labs(after.inc) != 0)) && !bits(before.mem[i], after.mem[i]))
      t.fail("%s changed element %zu of an array where it %s", nm, i, gaps_only ? "is between the strided elements" : "is only read");
}

template <class R> static void level1(T& t) {
  typedef Kind<R> K;
  const ld e = K::eps; const double tiny = K::tiny;
  opk_index n = t.chance(1, 4000) ? t.giant() : t.weighted({5, 3, 1}) == 0 ? t.range(1, 18) : t.chance(1, 8) ? t.range(-2, 0) : t.size(1, 70, 5000);
  opk_index nn = std::max<opk_index>(n, 0);
  int op = (int)t.draw(10);
  bool two = op >= 5 && op <= 8;
  auto inc = [&](bool neg) -> opk_index { opk_index i = t.weighted({3, 2}) == 0 ? 1 : t.range(1, 4); return neg && t.flag() ? -i : i; };
  opk_index ix = inc(two), iy = two ? inc(true) : 1;
  if (!two && t.chance(1, 20)) ix = -t.range(0, 2);     // documented to do nothing
  bool dead = n < 1 || (!two && ix < 1);
  int mode = (int)t.draw(2);
  Vec<R> x(t, nn, ix == 0 ? 1 : ix, mode), y(t, two ? nn : 0, iy, mode);
  R scale = 1;
  if (op <= 3 && t.chance(1, 3)) {                       // extreme magnitudes
    int lo = std::numeric_limits<R>::min_exponent - std::numeric_limits<R>::digits + 4, hi = std::numeric_limits<R>::max_exponent - 12;
    int p = (int)t.range(lo, hi);
    if (t.chance(1, 3)) p = t.flag() ? hi - (int)t.range(0, 3) : lo + (int)t.range(0, 6);
    for (opk_index i = 0; i < nn; ++i) x.at(i) = (R)ldexp((double)x.at(i), p);
    scale = (R)ldexp(1.0, p);
    t.label("extreme-magnitude");
  }
  if (nn > 0 && t.chance(1, 30)) for (opk_index i = 0; i < nn; ++i) x.at(i) = 0;
  R a = (R)t.coef();
  Vec<R> x0 = x, y0 = y;
  static const char* nm[] = {"amax", "asum", "sum", "nrm2", "iamax", "dot", "axpy", "copy", "swap", "scal", "zero"};
  t.note("%s %s n=%ld incx=%ld incy=%ld a=%g scale=%g", K::name, nm[op], (long)n, (long)ix, (long)iy, (double)a, (double)scale);
  t.label(nm[op]);
  ld s = 0, mag = 0, ref = 0, tol = 0; R got = 0;
  bool scalar = op <= 5;
  switch (op) {
    case 0: got = B<R>::amax(n, x.p(), ix); for (opk_index i = 0; i < nn; ++i) ref = std::max(ref, fabsl((ld)x0.at(i))); break;
    case 1: got = B<R>::asum(n, x.p(), ix); for (opk_index i = 0; i < nn; ++i) ref += fabsl((ld)x0.at(i)); tol = nn * e * ref; break;
    case 2: got = B<R>::sum(n, x.p(), ix); for (opk_index i = 0; i < nn; ++i) { ref += (ld)x0.at(i); mag += fabsl((ld)x0.at(i)); } tol = nn * e * mag; break;
    case 3: got = B<R>::nrm2(n, x.p(), ix); for (opk_index i = 0; i < nn; ++i) s += (ld)x0.at(i) * (ld)x0.at(i); ref = sqrtl(s); tol = (nn + 4) * e * ref + 4 * std::numeric_limits<R>::denorm_min(); break;
    case 4: {
      opk_index k = B<R>::iamax(n, x.p(), ix), want = 0; R best = -1;
      if (!dead) for (opk_index i = 0; i < nn; ++i) if (std::abs(x0.at(i)) > best) { best = std::abs(x0.at(i)); want = i + 1; }
      if (k != want) t.fail("%s: index of the maximum absolute value is %ld instead of %ld (n=%ld, incx=%ld)", K::name, (long)k, (long)want, (long)n, (long)ix);
      break;
    }
    case 5: got = B<R>::dot(n, x.p(), ix, y.p(), iy);
      for (opk_index i = 0; i < nn; ++i) { ld q = (ld)x0.at(i) * (ld)y0.at(i); ref += q; mag += fabsl(q); } tol = (nn + 2) * e * mag + nn * tiny; break;
    case 6: B<R>::axpy(n, a, x.p(), ix, y.p(), iy);
      for (opk_index i = 0; i < nn; ++i) {
        ld q = (ld)a * (ld)x0.at(i), w = q + (ld)y0.at(i);
        if (!(fabsl((ld)y.at(i) - w) <= 2 * e * (fabsl(q) + fabsl((ld)y0.at(i))) + tiny)) t.fail("%s: y[%ld] = %.17g instead of %.17Lg (axpy, a=%g, n=%ld, incx=%ld, incy=%ld)", K::name, (long)i, (double)y.at(i), w, (double)a, (long)n, (long)ix, (long)iy);
      }
      untouched(t, nm[op], x0, x, false); untouched(t, nm[op], y0, y, true); break;
    case 7: B<R>::copy(n, x.p(), ix, y.p(), iy);
      for (opk_index i = 0; i < nn; ++i) if (!bits(y.at(i), x0.at(i))) t.fail("%s: copy leaves %.17g instead of %.17g at %ld (n=%ld, incx=%ld, incy=%ld)", K::name, (double)y.at(i), (double)x0.at(i), (long)i, (long)n, (long)ix, (long)iy);
      untouched(t, nm[op], x0, x, false); untouched(t, nm[op], y0, y, true); break;
    case 8: B<R>::swap(n, x.p(), ix, y.p(), iy);
      for (opk_index i = 0; i < nn; ++i) if (!bits(y.at(i), x0.at(i)) || !bits(x.at(i), y0.at(i))) t.fail("%s: swap is wrong at %ld (n=%ld, incx=%ld, incy=%ld)", K::name, (long)i, (long)n, (long)ix, (long)iy);
      untouched(t, nm[op], x0, x, true); untouched(t, nm[op], y0, y, true); break;
    case 9: B<R>::scal(n, a, x.p(), ix);
      for (opk_index i = 0; i < nn; ++i) {
        ld w = dead ? (ld)x0.at(i) : (ld)a * (ld)x0.at(i);
        if (!(fabsl((ld)x.at(i) - w) <= ((a == 1 || a == -1 || a == 0) ? 0.0L : 2 * e * fabsl(w) + tiny))) t.fail("%s: scaling by %g gives %.17g instead of %.17Lg at %ld (n=%ld, incx=%ld)", K::name, (double)a, (double)x.at(i), w, (long)i, (long)n, (long)ix);
      }
      untouched(t, nm[op], x0, x, true); break;
    default: B<R>::zero(n, x.p(), ix);
      for (opk_index i = 0; i < nn; ++i) if (!(x.at(i) == (dead ? x0.at(i) : (R)0))) t.fail("%s: zero leaves %.17g at %ld (n=%ld, incx=%ld)", K::name, (double)x.at(i), (long)i, (long)n, (long)ix);
      untouched(t, nm[op], x0, x, true);
  }
  if (scalar && op != 4) {
    if (dead) ref = tol = 0;
    ld huge = K::huge;
    if (std::max(ref, mag) < huge * (1 - 8 * e * (nn + 4)) && !(fabsl((ld)got - ref) <= tol))
      t.fail("%s: %s is %.17g instead of %.17Lg (n=%ld, incx=%ld, incy=%ld, scale %g)", K::name, nm[op], (double)got, ref, (long)n, (long)ix, (long)iy, (double)scale);
  }
  if (scalar) { untouched(t, nm[op], x0, x, false); untouched(t, nm[op], y0, y, false); }
  t.nontrivial(n > 4 && !dead);
  if (ix != 1 || iy != 1) t.label("strided");
  if (dead) t.label("nothing-to-do");
}

// ------------------------------------------------------------ matrices
// Column-major matrix in a heap block of exactly the required size; padding is NaN.
template <class R> struct Mat {
  opk_index m, n, lda; std::vector<R> mem;
  Mat(T& t, opk_index m_, opk_index n_, int mode, opk_index pad) : m(m_), n(n_), lda(std::max<opk_index>(m_, 1) + pad), mem(m_ > 0 && n_ > 0 ? (n_ - 1) * lda + m_ : 0, (R)NAN) {
    mem.shrink_to_fit();
    for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i < m; ++i) at(i, j) = t.chance(1, 8) ? (R)0 : Vec<R>::val(t, mode);
  }
  R& at(opk_index i, opk_index j) { return mem[i + lda * j]; }
  R* p() { return mem.data(); }
};
template <class R> static void same(T& t, const char* what, const std::vector<R>& a, const std::vector<R>& b) {
  for (size_t i = 0; i < a.size(); ++i) if (!bits(a[i], b[i])) t.fail("%s was modified (at %zu)", what, i);
}

template <class R> static void matvec(T& t) {
  typedef Kind<R> K; const ld e = K::eps; const double tiny = K::tiny;
  opk_index m = t.chance(1, 15) ? 0 : t.size(1, 12, 130), n = t.chance(1, 15) ? 0 : t.size(1, 12, 130);
  int mode = (int)t.draw(2);
  opk_blas_trans tr = t.of<opk_blas_trans>({OPK_BLAS_NO_TRANS, OPK_BLAS_TRANS, OPK_BLAS_CONJ_TRANS});
  bool no = tr == OPK_BLAS_NO_TRANS;
  Mat<R> A(t, m, n, mode, t.flag() ? 0 : t.range(1, 3));
  auto inc = [&]() -> opk_index { opk_index i = t.flag() ? 1 : t.range(1, 3); return t.chance(1, 3) ? -i : i; };
  Vec<R> x(t, no ? n : m, inc(), mode), y(t, no ? m : n, inc(), mode);
  for (opk_index i = 0; i < x.n; ++i) if (t.chance(1, 8)) x.at(i) = 0;
  R al = (R)t.coef(), be = (R)t.coef();
  // with a null beta the destination is only written
  bool fresh = be == 0 && t.flag() && m > 0 && n > 0;
  if (fresh) for (opk_index i = 0; i < y.n; ++i) y.at(i) = (R)NAN;
  Mat<R> A0 = A; Vec<R> x0 = x, y0 = y;
  int bad = t.chance(1, 10) ? (int)t.range(1, 6) : 0;
  static const int pos[] = {0, 1, 2, 3, 6, 8, 11};
  opk_blas_trans tb = bad == 1 ? (opk_blas_trans)t.of<int>({0, 110, 114, 121}) : tr;
  opk_index mb = bad == 2 ? -1 : m, nb = bad == 3 ? -1 : n, ldb = bad == 4 ? (m > 1 ? m - 1 : 0) : A.lda;
  int r = B<R>::gemv(tb, mb, nb, al, A.p(), ldb, x.p(), bad == 5 ? 0 : x.inc, be, y.p(), bad == 6 ? 0 : y.inc);
  t.note("%s gemv trans=%d m=%ld n=%ld lda=%ld incx=%ld incy=%ld alpha=%g beta=%g bad=%d", K::name, (int)tr, (long)m, (long)n, (long)A.lda, (long)x.inc, (long)y.inc, (double)al, (double)be, bad);
  if (r != pos[bad]) t.fail("%s: matrix-vector product returns %d instead of %d (case %d)", K::name, r, pos[bad], bad);
  same(t, "the matrix", A0.mem, A.mem); same(t, "the source vector", x0.mem, x.mem);
  if (bad || m == 0 || n == 0) { same(t, "the destination", y0.mem, y.mem); t.label(bad ? "bad-argument" : "empty"); return; }
  for (opk_index i = 0; i < y.n; ++i) {
    ld s = 0, g = 0;
    for (opk_index k = 0; k < x.n; ++k) { ld q = (ld)(no ? A0.at(i, k) : A0.at(k, i)) * (ld)x0.at(k); s += q; g += fabsl(q); }
    ld yb = be == 0 ? 0 : (ld)be * (ld)y0.at(i), w = (ld)al * s + yb;
    ld tol = (x.n + 4) * e * (fabsl((ld)al) * g + fabsl(yb)) + (x.n + 2) * tiny * (1 + fabsl((ld)al));
    if (!(fabsl((ld)y.at(i) - w) <= tol)) t.fail("%s: element %ld of the matrix-vector product is %.17g instead of %.17Lg", K::name, (long)i, (double)y.at(i), w);
  }
  untouched(t, "gemv", y0, y, true);
  t.nontrivial(al != 0 && m > 1 && n > 1 && m != n);
  t.label("gemv"); if (fresh) t.label("beta-null-destination-unset");
}

template <class R> static void triangular(T& t) {
  typedef Kind<R> K; const ld e = K::eps; const double tiny = K::tiny;
  bool solve = t.flag();
  opk_index n = t.chance(1, 15) ? 0 : t.size(1, 10, 130);
  int mode = (int)t.draw(2); if (solve && n > 10) mode = 2;   // large systems are made well conditioned
  opk_blas_trans tr = t.of<opk_blas_trans>({OPK_BLAS_NO_TRANS, OPK_BLAS_TRANS, OPK_BLAS_CONJ_TRANS});
  bool up = t.flag(), unit = t.flag(), no = tr == OPK_BLAS_NO_TRANS;
  Mat<R> A(t, n, n, mode, t.flag() ? 0 : t.range(1, 3));
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i < n; ++i) {
    if (i == j) { if (unit) A.at(i, j) = (R)NAN; else if (solve) A.at(i, j) = (R)((t.flag() ? -1 : 1) * t.uniform(0.5, 4)); }
    else if ((i < j) != up) A.at(i, j) = (R)NAN;
    else if (solve && n > 10) A.at(i, j) /= (R)n;
  }
  opk_index ix = t.flag() ? 1 : t.range(1, 3); if (t.chance(1, 3)) ix = -ix;
  Vec<R> x(t, n, ix, mode);
  for (opk_index i = 0; i < n; ++i) if (t.chance(1, 6)) x.at(i) = 0;
  Mat<R> A0 = A; Vec<R> x0 = x;
  int bad = t.chance(1, 10) ? (int)t.range(1, 6) : 0;
  static const int pos[] = {0, 1, 2, 3, 4, 6, 8};
  auto f = solve ? B<R>::trsv : B<R>::trmv;
  int r = f(bad == 1 ? (opk_blas_uplo)t.of<int>({0, 120, 123}) : up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, bad == 2 ? (opk_blas_trans)t.of<int>({0, 110, 114}) : tr,
            bad == 3 ? (opk_blas_diag)t.of<int>({0, 130, 133}) : unit ? OPK_BLAS_UNIT : OPK_BLAS_NON_UNIT, bad == 4 ? -1 : n, A.p(), bad == 5 ? (n > 1 ? n - 1 : 0) : A.lda, x.p(), bad == 6 ? 0 : ix);
  const char* nm = solve ? "triangular solve" : "triangular product";
  t.note("%s %s n=%ld %s trans=%d %s lda=%ld incx=%ld bad=%d", K::name, nm, (long)n, up ? "upper" : "lower", (int)tr, unit ? "unit" : "non-unit", (long)A.lda, (long)ix, bad);
  if (r != pos[bad]) t.fail("%s: %s returns %d instead of %d", K::name, nm, r, pos[bad]);
  same(t, "the matrix", A0.mem, A.mem);
  if (bad || n == 0) { same(t, "the vector", x0.mem, x.mem); t.label(bad ? "bad-argument" : "empty"); return; }
  untouched(t, nm, x0, x, true);
  // b = op(A).v up to the rounding errors of either direction
  Vec<R>&v = solve ? x : x0, &b = solve ? x0 : x;
  for (opk_index i = 0; i < n; ++i) {
    ld s = 0, g = 0;
    for (opk_index k = 0; k < n; ++k) {
      opk_index p = no ? i : k, q = no ? k : i;
      if (p != q && (p < q) != up) continue;
      ld w = (p == q && unit ? 1.0L : (ld)A0.at(p, q)) * (ld)v.at(k); s += w; g += fabsl(w);
    }
    ld tol = (n + 4) * e * (g + (solve ? fabsl((ld)b.at(i)) : 0)) + (n + 2) * tiny * 8;
    if (!(fabsl((ld)b.at(i) - s) <= tol)) t.fail("%s: %s: element %ld is off by %.3Lg (%.17g, %.17Lg)", K::name, nm, (long)i, (ld)b.at(i) - s, (double)b.at(i), s);
  }
  t.nontrivial(n > 2);
  t.label(solve ? "trsv" : "trmv");
}

template <class R> static void matmat(T& t) {
  typedef Kind<R> K; const ld e = K::eps; const double tiny = K::tiny;
  auto dim = [&]() -> opk_index { return t.chance(1, 20) ? 0 : t.size(1, 8, 60); };
  auto pad = [&]() -> opk_index { return t.flag() ? 0 : t.range(1, 3); };
  auto op = [&]() { return t.of<opk_blas_trans>({OPK_BLAS_NO_TRANS, OPK_BLAS_TRANS, OPK_BLAS_CONJ_TRANS}); };
  opk_index m = dim(), n = dim(), k = dim();
  int mode = (int)t.draw(2);
  opk_blas_trans ta = op(), tb = op();
  bool na = ta == OPK_BLAS_NO_TRANS, nb = tb == OPK_BLAS_NO_TRANS;
  Mat<R> A(t, na ? m : k, na ? k : m, mode, pad()), Bm(t, nb ? k : n, nb ? n : k, mode, pad()), C(t, m, n, mode, pad());
  R al = (R)t.coef(), be = (R)t.coef();
  bool fresh = be == 0 && t.flag();
  if (fresh) for (auto& q : C.mem) q = (R)NAN;
  Mat<R> A0 = A, B0 = Bm, C0 = C;
  int bad = t.chance(1, 10) ? (int)t.range(1, 8) : 0;
  static const int pos[] = {0, 1, 2, 3, 4, 5, 8, 10, 13};
  auto shrink = [&](opk_index rows, opk_index l) -> opk_index { (void)l; return rows > 1 ? rows - 1 : 0; };
  int r = B<R>::gemm(bad == 1 ? (opk_blas_trans)t.of<int>({0, 110, 114}) : ta, bad == 2 ? (opk_blas_trans)t.of<int>({0, 110, 114}) : tb, bad == 3 ? -1 : m, bad == 4 ? -1 : n, bad == 5 ? -1 : k,
                     al, A.p(), bad == 6 ? shrink(A.m, A.lda) : A.lda, Bm.p(), bad == 7 ? shrink(Bm.m, Bm.lda) : Bm.lda, be, C.p(), bad == 8 ? shrink(m, C.lda) : C.lda);
  t.note("%s gemm transa=%d transb=%d m=%ld n=%ld k=%ld lda=%ld ldb=%ld ldc=%ld alpha=%g beta=%g bad=%d", K::name, (int)ta, (int)tb, (long)m, (long)n, (long)k, (long)A.lda, (long)Bm.lda, (long)C.lda, (double)al, (double)be, bad);
  if (r != pos[bad]) t.fail("%s: matrix product returns %d instead of %d", K::name, r, pos[bad]);
  same(t, "the first operand", A0.mem, A.mem); same(t, "the second operand", B0.mem, Bm.mem);
  if (bad) { same(t, "the result", C0.mem, C.mem); t.label("bad-argument"); return; }
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i < C.lda; ++i) {
    if (i >= m) { if (j < n - 1 && m > 0 && !bits(C.at(i, j), C0.at(i, j))) t.fail("%s: matrix product wrote in the padding (row %ld, column %ld)", K::name, (long)i, (long)j); continue; }
    ld s = 0, g = 0;
    for (opk_index l = 0; l < k; ++l) { ld q = (ld)(na ? A0.at(i, l) : A0.at(l, i)) * (ld)(nb ? B0.at(l, j) : B0.at(j, l)); s += q; g += fabsl(q); }
    ld cb = be == 0 ? 0 : (ld)be * (ld)C0.at(i, j), w = (ld)al * s + cb;
    ld tol = (k + 4) * e * (fabsl((ld)al) * g + fabsl(cb)) + (k + 2) * tiny * (1 + fabsl((ld)al));
    if (!(fabsl((ld)C.at(i, j) - w) <= tol)) t.fail("%s: element (%ld,%ld) of the matrix product is %.17g instead of %.17Lg", K::name, (long)i, (long)j, (double)C.at(i, j), w);
  }
  t.nontrivial(al != 0 && m > 1 && n > 1 && k > 1);
  t.label("gemm"); if (m == 0 || n == 0 || k == 0) t.label("empty");
}

template <class R> static void rank_k(T& t) {
  typedef Kind<R> K; const ld e = K::eps; const double tiny = K::tiny;
  opk_index n = t.chance(1, 20) ? 0 : t.size(1, 8, 60), k = t.chance(1, 20) ? 0 : t.size(1, 8, 60);
  auto pad = [&]() -> opk_index { return t.flag() ? 0 : t.range(1, 3); };
  int mode = (int)t.draw(2);
  opk_blas_trans tr = t.of<opk_blas_trans>({OPK_BLAS_NO_TRANS, OPK_BLAS_TRANS, OPK_BLAS_CONJ_TRANS});
  bool no = tr == OPK_BLAS_NO_TRANS, up = t.flag();
  Mat<R> A(t, no ? n : k, no ? k : n, mode, pad()), C(t, n, n, mode, pad());
  R al = (R)t.coef(), be = (R)t.coef();
  bool fresh = be == 0 && t.flag();
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i < n; ++i) if (fresh || (i != j && (i < j) != up)) C.at(i, j) = (R)NAN;
  Mat<R> A0 = A, C0 = C;
  int bad = t.chance(1, 10) ? (int)t.range(1, 6) : 0;
  static const int pos[] = {0, 1, 2, 3, 4, 7, 10};
  int r = B<R>::syrk(bad == 1 ? (opk_blas_uplo)t.of<int>({0, 120, 123}) : up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, bad == 2 ? (opk_blas_trans)t.of<int>({0, 110, 114}) : tr, bad == 3 ? -1 : n, bad == 4 ? -1 : k,
                     al, A.p(), bad == 5 ? (A.m > 1 ? A.m - 1 : 0) : A.lda, be, C.p(), bad == 6 ? (n > 1 ? n - 1 : 0) : C.lda);
  t.note("%s syrk %s trans=%d n=%ld k=%ld lda=%ld ldc=%ld alpha=%g beta=%g bad=%d", K::name, up ? "upper" : "lower", (int)tr, (long)n, (long)k, (long)A.lda, (long)C.lda, (double)al, (double)be, bad);
  if (r != pos[bad]) t.fail("%s: symmetric product returns %d instead of %d", K::name, r, pos[bad]);
  same(t, "the operand", A0.mem, A.mem);
  if (bad) { same(t, "the result", C0.mem, C.mem); t.label("bad-argument"); return; }
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i < C.lda; ++i) {
    if (i >= n) { if (j < n - 1 && !bits(C.at(i, j), C0.at(i, j))) t.fail("%s: symmetric product wrote in the padding", K::name); continue; }
    if (i != j && (i < j) != up) { if (!bits(C.at(i, j), C0.at(i, j))) t.fail("%s: symmetric product wrote in the other triangle at (%ld,%ld)", K::name, (long)i, (long)j); continue; }
    ld s = 0, g = 0;
    for (opk_index l = 0; l < k; ++l) { ld q = (ld)(no ? A0.at(i, l) : A0.at(l, i)) * (ld)(no ? A0.at(j, l) : A0.at(l, j)); s += q; g += fabsl(q); }
    ld cb = be == 0 ? 0 : (ld)be * (ld)C0.at(i, j), w = (ld)al * s + cb;
    ld tol = (k + 4) * e * (fabsl((ld)al) * g + fabsl(cb)) + (k + 2) * tiny * (1 + fabsl((ld)al));
    if (!(fabsl((ld)C.at(i, j) - w) <= tol)) t.fail("%s: element (%ld,%ld) of the symmetric product is %.17g instead of %.17Lg (n=%ld k=%ld lda=%ld ldc=%ld)", K::name, (long)i, (long)j, (double)C.at(i, j), w, (long)n, (long)k, (long)A.lda, (long)C.lda);
  }
  t.nontrivial(al != 0 && n > 1 && k > 1);
  t.label("syrk"); if (A.lda != C.lda) t.label("different-leading-dimensions");
}

template <class R> static void cholesky(T& t) {
  typedef Kind<R> K; const ld e = K::eps;
  opk_index n = t.chance(1, 20) ? 0 : t.size(1, 10, 60);
  bool up = t.flag();
  Mat<R> A(t, n, n, 2, t.flag() ? 0 : t.range(1, 3));
  // A = L L' with integer-like or random L, sometimes with one pivot forced to be non positive
  std::vector<std::vector<ld>> L(n, std::vector<ld>(n, 0.0L));
  bool integer = t.flag();
  opk_index k = n > 0 && t.chance(1, 3) ? t.range(1, n) : 0;   // order of the first leading minor that is not positive
  int how = (int)t.draw(1);
  for (opk_index j = 0; j < n; ++j) for (opk_index i = j; i < n; ++i)
    L[i][j] = i == j ? (integer ? (ld)t.range(1, n > 10 ? 2 : 3) : (ld)t.uniform(0.5, 2)) : (integer ? (ld)t.range(-2, 2) : (ld)t.sym(n > 10 ? 3.0 / n : 1));   // large: exact or well conditioned
  for (opk_index j = 0; j < n; ++j) for (opk_index i = j; i < n; ++i) {
    ld s = 0; for (opk_index l = 0; l <= j; ++l) s += L[i][l] * L[j][l];
    if (k > 0 && i == j && j == k - 1) s -= L[j][j] * L[j][j] + (integer && how == 0 ? 0.0L : 0.5L + (ld)t.range(0, 3));
    R v = (R)s; R& d = up ? A.at(j, i) : A.at(i, j); R& o = up ? A.at(i, j) : A.at(j, i);
    o = (R)NAN; d = v;
  }
  Mat<R> A0 = A;
  int bad = t.chance(1, 12) ? (int)t.range(1, 3) : 0;
  if (bad == 1 && n == 0) bad = 2;
  opk_index r = B<R>::potf2(bad == 1 ? (opk_blas_uplo)t.of<int>({0, 120, 123}) : up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, bad == 2 ? -1 : n, A.p(), bad == 3 ? (n > 1 ? n - 1 : 0) : A.lda);
  static const int pos[] = {0, -1, -2, -4};
  t.note("%s cholesky n=%ld %s lda=%ld first bad minor %ld %s", K::name, (long)n, up ? "upper" : "lower", (long)A.lda, (long)k, integer ? "integer" : "real");
  if (bad) { if (r != pos[bad]) t.fail("%s: Cholesky factorization returns %ld instead of %d", K::name, (long)r, pos[bad]); same(t, "the matrix", A0.mem, A.mem); t.label("bad-argument"); return; }
  // with integer factors the elimination may still round (divisions), so the order of a singular minor is only judged when the deficit is clear or the pivots are powers of two
  bool clear = true;
  if (k > 0 && integer && how == 0) { clear = false; ld d = 1; for (opk_index j = 0; j < k - 1; ++j) d *= L[j][j]; clear = fabsl(d - 1) == 0 || k == 1; if (k > 1 && d != 1) { bool p2 = true; for (opk_index j = 0; j < k - 1; ++j) if (L[j][j] == 3) p2 = false; clear = p2; } }
  if (clear && r != k) t.fail("%s: Cholesky factorization returns %ld instead of %ld", K::name, (long)r, (long)k);
  for (opk_index j = 0; j < n; ++j) for (opk_index i = 0; i < n; ++i) if (i != j && (i < j) != up && !bits(A.at(i, j), A0.at(i, j))) t.fail("%s: the other triangle was modified", K::name);
  for (size_t i = 0; i < A.mem.size(); ++i) if ((opk_index)i % A.lda >= n && !bits(A.mem[i], A0.mem[i])) t.fail("%s: the padding was modified", K::name);
  opk_index lim = r > 0 ? r - 1 : n;
  for (opk_index j = 0; j < lim; ++j) for (opk_index i = j; i < lim; ++i) {
    ld s = 0, g = 0;
    for (opk_index l = 0; l <= j; ++l) { ld q = (ld)(up ? A.at(l, i) : A.at(i, l)) * (ld)(up ? A.at(l, j) : A.at(j, l)); s += q; g += fabsl(q); }
    ld w = (ld)(up ? A0.at(j, i) : A0.at(i, j));
    if (!(fabsl(s - w) <= (n + 6) * e * (g + fabsl(w)))) t.fail("%s: product of the factors is %.17Lg instead of %.17Lg at (%ld,%ld)", K::name, s, w, (long)i, (long)j);
    if (i == j && !((up ? A.at(j, j) : A.at(j, j)) > 0)) t.fail("%s: diagonal of the factor is not positive", K::name);
  }
  t.nontrivial(n > 2);
  t.label(k > 0 ? "not-positive-definite" : "positive-definite");
}

pbt::Check& pbt_check() {
#ifdef CHECK_P18
  static pbt::Check c{"P18", "a case counts when more than 4 elements are processed",
    {{"float", level1<float>, 1}, {"double", level1<double>, 1}}, 2500000, 60, 10, {"arrays do not overlap", "finite values whose result does not overflow"}};
#else
  static pbt::Check c{"P19", "a case counts when no dimension is 1 or 0 and the matrix takes part in the result",
    {{"gemv-float", matvec<float>, 2}, {"gemv-double", matvec<double>, 2}, {"tr-float", triangular<float>, 2}, {"tr-double", triangular<double>, 2},
     {"gemm-float", matmat<float>, 1}, {"gemm-double", matmat<double>, 1}, {"syrk-float", rank_k<float>, 1}, {"syrk-double", rank_k<double>, 1},
     {"chol-float", cholesky<float>, 1}, {"chol-double", cholesky<double>, 1}}, 1000000, 60, 10, {"arrays do not overlap", "moderate magnitudes"}};
#endif
  return c;
}
