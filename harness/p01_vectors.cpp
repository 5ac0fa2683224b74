// P01: vector operations against an elementwise reference.
#include "opk.hpp"

template <class R> static void ops(T& t) {
  typedef Kind<R> K;
  opk_index n = t.chance(1, 4000) ? t.giant() : t.weighted({3, 2, 1}) == 0 ? t.range(1, 9) : t.size(1, 300, 10000);
  Ref sp(K::space(n));
  if (!sp.p) t.fail("no vector space of size %ld", (long)n);
  const int NV = 4;
  std::vector<std::vector<R>> mem(NV, std::vector<R>(n + 2, (R)77));  // guard element on each side
  std::vector<Ref> v;
  std::vector<int> home(NV);
  for (int i = 0; i < NV; ++i) {
    bool wrapped = t.flag();
    if (wrapped) {
      // sometimes a second vector wraps the same array as an earlier one
      home[i] = i;
      if (i > 0 && t.chance(1, 6)) home[i] = home[i - 1] >= 0 ? home[i - 1] : i;
      v.emplace_back(K::wrap(sp.s(), mem[home[i]].data() + 1, nullptr, nullptr));
    } else { home[i] = -1; v.emplace_back(opk_vcreate(sp.s())); }
    if (!v[i].p) t.fail("cannot create vector");
    dvec x(n);
    int mode = (int)t.draw(3);
    for (opk_index j = 0; j < n; ++j) x[j] = n > 20000 && j >= 1009 && j < n - 200 ? x[j - 1009] : (double)(R)(mode == 0 ? (double)t.range(-5, 5) : mode == 1 ? t.real(1e4) : t.sym(3.0));
    set(v[i].v(), x);
  }
  auto alias = [&](int a, int b) { return a == b || (home[a] >= 0 && home[a] == home[b]); };
  int nops = (int)t.range(1, 12);
  t.note("%s n=%ld", K::name, (long)n);
  bool interesting = false;
  for (int k = 0; k < nops; ++k) {
    std::vector<dvec> x(NV);
    for (int i = 0; i < NV; ++i) x[i] = get(v[i].v(), n);
    int d = (int)t.draw(NV - 1), a = (int)t.draw(NV - 1), b = (int)t.draw(NV - 1), c = (int)t.draw(NV - 1);
    double al = t.coef(), be = t.coef(), ga = t.coef();
    int op = (int)t.draw(14);
    dvec ref(n), tol(n, 0.0);
    bool writes = true;
    int d2 = -1; dvec ref2;
    double s = 0, sref = 0, stol = 0;
    const double e = K::eps, N = (double)n + 4;
    long double acc = 0, mag = 0;
    switch (op) {
      case 0: opk_vzero(v[d].v()); for (auto& r : ref) r = 0; break;
      case 1: opk_vfill(v[d].v(), al); for (auto& r : ref) r = (double)(R)al; break;
      case 2: opk_vcopy(v[d].v(), v[a].v()); ref = x[a]; break;
      case 3:
        if (al == 0.0 && t.flag() && !alias(a, d)) { opk_vpoke(v[a].v(), (opk_index)t.draw(n - 1), NAN); x[a] = get(v[a].v(), n); for (int q = 0; q < NV; ++q) x[q] = get(v[q].v(), n); t.label("scale-by-0-of-nan"); }
        opk_vscale(v[d].v(), al, v[a].v());
        for (opk_index i = 0; i < n; ++i) { ref[i] = al == 0.0 ? 0.0 : al * x[a][i]; tol[i] = al == 1 || al == 0 ? 0 : 3 * e * fabs(ref[i]) + K::tiny; }
        if (al == 0.0) set(v[a].v(), alias(a, d) ? dvec(n, 0.0) : [&] { dvec y = x[a]; for (auto& q : y) if (q != q) q = 1; return y; }());
        if (al == 0.0) for (int q = 0; q < NV; ++q) for (auto& w : x[q]) if (w != w) w = 1;
        break;
      case 4: {
        opk_vswap(v[d].v(), v[a].v());
        if (alias(d, a)) ref = x[d]; else { ref = x[a]; d2 = a; ref2 = x[d]; }
        break;
      }
      case 5: writes = false; s = opk_vdot(v[a].v(), v[b].v());
        for (opk_index i = 0; i < n; ++i) { long double q = (long double)x[a][i] * x[b][i]; acc += q; mag += fabsl(q); }
        sref = acc; stol = N * e * mag + K::tiny * N; break;
      case 6: writes = false; s = opk_vdot3(v[a].v(), v[b].v(), v[c].v());
        for (opk_index i = 0; i < n; ++i) { long double q = (long double)x[a][i] * x[b][i] * x[c][i]; acc += q; mag += fabsl(q); }
        sref = acc; stol = (N + 2) * e * mag + K::tiny * N * 1e6; break;
      case 7: writes = false; s = opk_vnorm2(v[a].v());
        for (double q : x[a]) acc += (long double)q * q;
        sref = sqrtl(acc); stol = N * e * sref + sqrt(K::tiny) * 1e-6; break;
      case 8: writes = false; s = opk_vnorm1(v[a].v());
        for (double q : x[a]) acc += fabsl(q);
        sref = acc; stol = N * e * sref; break;
      case 9: writes = false; s = opk_vnorminf(v[a].v());
        for (double q : x[a]) sref = std::max(sref, fabs(q));
        stol = 0; break;
      case 10: opk_vproduct(v[d].v(), v[a].v(), v[b].v());
        for (opk_index i = 0; i < n; ++i) { ref[i] = x[a][i] * x[b][i]; tol[i] = 2 * e * fabs(ref[i]) + K::tiny; } break;
      case 11: case 12: opk_vaxpby(v[d].v(), al, v[a].v(), be, v[b].v());
        for (opk_index i = 0; i < n; ++i) { ref[i] = al * x[a][i] + be * x[b][i]; tol[i] = 4 * e * (fabs(al * x[a][i]) + fabs(be * x[b][i])) + K::tiny; }
        break;
      default: opk_vaxpbypcz(v[d].v(), al, v[a].v(), be, v[b].v(), ga, v[c].v());
        for (opk_index i = 0; i < n; ++i) {
          ref[i] = al * x[a][i] + be * x[b][i] + ga * x[c][i];
          tol[i] = 6 * e * (fabs(al * x[a][i]) + fabs(be * x[b][i]) + fabs(ga * x[c][i])) + K::tiny;
        }
    }
    t.note("op%d d=%d a=%d b=%d c=%d al=%g be=%g ga=%g", op, d, a, b, c, al, be, ga);
    static const char* nm[] = {"zero", "fill", "copy", "scale", "swap", "dot", "dot3", "norm2", "norm1", "norminf", "product", "axpby", "axpby", "axpbypcz", "axpbypcz"};
    t.label(nm[op]);
    if (!writes) {
      if (!(fabs(s - sref) <= stol)) t.fail("%s: v%s of size %ld gives %.17g instead of %.17g", K::name, nm[op], (long)n, s, sref);
      if (sref != 0) interesting = true;
    }
    for (int i = 0; i < NV; ++i) {
      dvec y = get(v[i].v(), n);
      const dvec* want = &x[i]; const dvec* tl = nullptr;
      if (writes && alias(i, d)) { want = &ref; tl = &tol; }
      else if (d2 >= 0 && alias(i, d2)) want = &ref2;
      for (opk_index j = 0; j < n; ++j) {
        bool ok = tl ? fabs(y[j] - (*want)[j]) <= (*tl)[j] : same_bits(y[j], (*want)[j]);
        if (!ok)
          t.fail("%s: v%s(d=%d,a=%d,b=%d,c=%d; %g,%g,%g) of size %ld: vector %d element %ld is %.17g instead of %.17g%s", K::name, nm[op], d, a, b, c, al, be, ga,
                 (long)n, i, (long)j, y[j], (*want)[j], tl ? "" : " (not a destination)");
      }
      if (mem[i][0] != (R)77 || mem[i][n + 1] != (R)77) t.fail("%s: v%s wrote outside the array of vector %d", K::name, nm[op], i);
    }
    if (writes && op > 1) interesting = true;
    // keep magnitudes bounded
    for (int i = 0; i < NV; ++i) {
      dvec y = get(v[i].v(), n); double m = 0; for (double q : y) m = std::max(m, fabs(q));
      if (m > 1e6) { for (auto& q : y) q = (double)(R)(q / m); set(v[i].v(), y); }
    }
  }
  t.nontrivial(interesting && n > 1);
}

template <class R> static void elements(T& t) {
  typedef Kind<R> K;
  opk_index n = t.chance(1, 4000) ? t.giant() : t.size(1, 120, 5000);
  Ref sp(K::space(n)), v(opk_vcreate(sp.s()));
  dvec x(n);
  for (opk_index j = 0; j < n; ++j) x[j] = n > 20000 && j >= 1009 && j < n - 200 ? x[j - 1009] : t.real(1e30);
  bool wide = t.flag();
  std::vector<float> xf(x.begin(), x.end());
  opk_status st = wide ? opk_vimport(v.v(), x.data(), OPK_DOUBLE, n) : opk_vimport(v.v(), xf.data(), OPK_FLOAT, n);
  if (st != OPK_SUCCESS) t.fail("import refused: %d", (int)st);
  dvec want(n);
  for (opk_index i = 0; i < n; ++i) want[i] = (double)(R)(wide ? x[i] : (double)xf[i]);
  int k = (int)t.range(0, 8);
  for (int q = 0; q < k; ++q) {
    opk_index i = (opk_index)t.draw(n - 1); double a = t.real(1e30);
    if (opk_vpoke(v.v(), i, a) != OPK_SUCCESS) t.fail("poke refused");
    want[i] = (double)(R)a;
  }
  std::vector<double> yd(n + 1, 5.0); std::vector<float> yf(n + 1, 5.0f);
  if (opk_vexport(yd.data(), OPK_DOUBLE, n, v.v()) != OPK_SUCCESS) t.fail("export to double refused");
  if (opk_vexport(yf.data(), OPK_FLOAT, n, v.v()) != OPK_SUCCESS) t.fail("export to float refused");
  if (yd[n] != 5.0 || yf[n] != 5.0f) t.fail("export wrote past the end");
  for (opk_index i = 0; i < n; ++i) {
    double p = 1e300;
    if (opk_vpeek(v.v(), i, &p) != OPK_SUCCESS) t.fail("peek refused");
    if (p != want[i] || yd[i] != want[i] || yf[i] != (float)want[i])
      t.fail("%s: element %ld: peek %.17g, export %.17g / %.9g, stored %.17g", K::name, (long)i, p, yd[i], (double)yf[i], want[i]);
    if ((double)K::data(v.v())[i] != want[i]) t.fail("data pointer does not show element %ld", (long)i);
  }
  t.note("%s n=%ld %s", K::name, (long)n, wide ? "double source" : "float source"); t.notev("x", want.data(), n);
  t.nontrivial(n > 1);
  t.label(wide ? "import-double" : "import-float");
}

static void print_vec(T& t) {
  opk_index n = t.small(1, 12), nmax = t.range(-2, 14);
  bool flt = t.flag(), named = t.flag(), null = t.chance(1, 8);
  Ref sp(flt ? Kind<float>::space(n) : Kind<double>::space(n)), v(opk_vcreate(sp.s()));
  dvec x(n); for (auto& e : x) e = flt ? (double)(float)t.real(1e3) : t.real(1e3);
  set(v.v(), x);
  char* buf = nullptr; size_t sz = 0;
  FILE* f = open_memstream(&buf, &sz);
  opk_vprint(f, named ? "vec" : nullptr, null ? nullptr : v.v(), nmax);
  fclose(f);
  std::string s(buf, sz); free(buf);
  std::string want;
  // The shape of the text is not specified; the printed values and their number are.
  size_t shown = (nmax > 0 && nmax < n) ? nmax : n, count = 0;
  size_t p = s.find('{');
  if (null) { if (s.find("NULL") == std::string::npos) t.fail("a NULL vector is printed as '%s'", s.c_str()); t.label("null"); return; }
  if (named && s.find("vec") == std::string::npos) t.fail("name missing in '%s'", s.c_str());
  if (p == std::string::npos) t.fail("unexpected text '%s'", s.c_str());
  const char* c = s.c_str() + p + 1;
  while (count < shown) {
    char* e; double val = strtod(c, &e);
    if (e == c) break;
    if (fabs(val - x[count]) > 1e-5 * fabs(x[count])) t.fail("element %zu printed as %g instead of %g", count, val, x[count]);
    ++count; c = e; while (*c == ',' || *c == ' ') ++c;
  }
  if (count != shown) t.fail("%zu elements printed instead of %zu: '%s'", count, shown, s.c_str());
  char* e; strtod(c, &e); if (e != c) t.fail("more than %zu elements printed: '%s'", shown, s.c_str());
  t.note("n=%ld nmax=%ld -> %s", (long)n, (long)nmax, s.c_str());
  t.nontrivial(n > 1 && shown != (size_t)n);
}

pbt::Check& pbt_check() {
  static pbt::Check c{"P01",
    "a case counts when the vectors have more than one element and at least one operation has a non-zero result or writes a vector",
    {{"float-operations", ops<float>, 5}, {"double-operations", ops<double>, 5}, {"float-elements", elements<float>, 2}, {"double-elements", elements<double>, 2}, {"print", print_vec, 1}},
    450000, 60, 10, {"operand magnitudes are below 1e6 in operations, so that neither overflow nor wholesale underflow occurs"}};
  return c;
}
