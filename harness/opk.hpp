// Helpers shared by the harnesses of the libopk properties (public API only).
#pragma once
#include "pbt.hpp"
extern "C" {
#include "optimpack.h"
}
#include <limits>
#include <memory>

using pbt::T;

template <class R> struct Kind;
template <> struct Kind<double> {
  static constexpr const char* name = "double";
  static constexpr opk_eltype type = OPK_DOUBLE;
  static constexpr double eps = DBL_EPSILON, tiny = DBL_MIN, huge = DBL_MAX;
  static opk_vspace* space(opk_index n) { return opk_new_simple_double_vector_space(n); }
  static opk_vector* wrap(opk_vspace* s, double* d, void (*f)(void*), void* c) { return opk_wrap_simple_double_vector(s, d, f, c); }
  static double* data(opk_vector* v) { return opk_get_simple_double_vector_data(v); }
  static void* client(opk_vector* v) { return opk_get_simple_double_vector_client_data(v); }
  static opk_free_proc* freeproc(opk_vector* v) { return opk_get_simple_double_vector_free_client_data(v); }
  static int rewrap(opk_vector* v, double* d, void (*f)(void*), void* c) { return opk_rewrap_simple_double_vector(v, d, f, c); }
};
template <> struct Kind<float> {
  static constexpr const char* name = "float";
  static constexpr opk_eltype type = OPK_FLOAT;
  static constexpr double eps = FLT_EPSILON, tiny = FLT_MIN, huge = FLT_MAX;
  static opk_vspace* space(opk_index n) { return opk_new_simple_float_vector_space(n); }
  static opk_vector* wrap(opk_vspace* s, float* d, void (*f)(void*), void* c) { return opk_wrap_simple_float_vector(s, d, f, c); }
  static float* data(opk_vector* v) { return opk_get_simple_float_vector_data(v); }
  static void* client(opk_vector* v) { return opk_get_simple_float_vector_client_data(v); }
  static opk_free_proc* freeproc(opk_vector* v) { return opk_get_simple_float_vector_free_client_data(v); }
  static int rewrap(opk_vector* v, float* d, void (*f)(void*), void* c) { return opk_rewrap_simple_float_vector(v, d, f, c); }
};

typedef std::vector<double> dvec;

// Read a vector's elements in double precision.
static inline dvec get(const opk_vector* v, opk_index n) {
  dvec r(n);
  opk_vexport(r.data(), OPK_DOUBLE, n, v);
  return r;
}
static inline void set(opk_vector* v, const dvec& x) { opk_vimport(v, x.data(), OPK_DOUBLE, (opk_index)x.size()); }

static inline bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || a == b || (a != a && b != b); }

// A holder that drops its reference.
struct Ref {
  void* p = nullptr;
  Ref() {}
  explicit Ref(void* q) : p(q) {}
  Ref(const Ref&) = delete;
  Ref& operator=(const Ref&) = delete;
  Ref(Ref&& o) { p = o.p; o.p = nullptr; }
  Ref& operator=(Ref&& o) { drop(); p = o.p; o.p = nullptr; return *this; }
  ~Ref() { drop(); }
  void drop() { if (p) OPK_DROP(p); p = nullptr; }
  opk_vector* v() const { return (opk_vector*)p; }
  opk_vspace* s() const { return (opk_vspace*)p; }
  opk_convexset* set() const { return (opk_convexset*)p; }
};
