// Included before every source of the code under test. Every std header that it uses is
// read here with the real floating-point type; afterwards "double" is the number type below.
#ifndef AES_PRE_H
#define AES_PRE_H
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <omp.h>

#ifdef AES_SYM
extern "C" void aes_yield();
int aes_const(double);                       // node of a constant
int aes_op(int op, int a, int b);            // node of an operation
bool aes_decide(int op, int a, int b);       // value of a comparison on this path
long aes_trunc(int a);

struct symd {
  int id;
  symd() = default;                          // value-initialised: node 0, the constant zero
  symd(const symd &o) : id((aes_yield(), o.id)) {}
  symd(double x) : id(aes_const(x)) {}
  symd(float x) : id(aes_const(x)) {}
  symd(int x) : id(aes_const(x)) {}
  symd(unsigned x) : id(aes_const(x)) {}
  symd(long x) : id(aes_const((double)x)) {}
  symd(unsigned long x) : id(aes_const((double)x)) {}
  symd &operator=(const symd &o) {
    aes_yield();
    int i = o.id;
    aes_yield();
    id = i;
    return *this;
  }
  static symd mk(int i) { symd r; r.id = i; return r; }
#define AES_IN(op, n) \
  symd &operator op(const symd &o) { int i = o.id; aes_yield(); int j = id; int k = aes_op(n, j, i); aes_yield(); id = k; return *this; }
  AES_IN(+=, 1) AES_IN(-=, 2) AES_IN(*=, 3) AES_IN(/=, 4)
#undef AES_IN
  symd operator-() const { return mk(aes_op(5, id, 0)); }
  symd operator+() const { return *this; }
  symd &operator++() { return *this += symd(1); }
  symd &operator--() { return *this -= symd(1); }
  explicit operator int() const { return (int)aes_trunc(id); }
  explicit operator long() const { return aes_trunc(id); }
  explicit operator bool() const { return aes_decide(25, id, 0); }
};
#define AES_BIN(op, n) \
  inline symd operator op(const symd &a, const symd &b) { aes_yield(); int i = a.id; int j = b.id; return symd::mk(aes_op(n, i, j)); }
AES_BIN(+, 1) AES_BIN(-, 2) AES_BIN(*, 3) AES_BIN(/, 4)
#define AES_CMP(op, n) \
  inline bool operator op(const symd &a, const symd &b) { aes_yield(); return aes_decide(n, a.id, b.id); }
AES_CMP(<, 20) AES_CMP(<=, 21) AES_CMP(>, 22) AES_CMP(>=, 23) AES_CMP(==, 24) AES_CMP(!=, 25)
#define AES_F1(name, n) inline symd name(const symd &a) { return symd::mk(aes_op(n, a.id, 0)); }
AES_F1(sqrt, 7) AES_F1(fabs, 8) AES_F1(abs, 8) AES_F1(exp, 9) AES_F1(log, 10) AES_F1(sin, 11) AES_F1(cos, 12)
inline symd pow(const symd &a, const symd &b) { return symd::mk(aes_op(6, a.id, b.id)); }
inline symd fma(const symd &a, const symd &b, const symd &c) { return a * b + c; }
inline symd fmax(const symd &a, const symd &b) { return a < b ? b : a; }
inline symd fmin(const symd &a, const symd &b) { return b < a ? b : a; }
inline bool isnan(const symd &) { return false; }
inline bool isfinite(const symd &) { return true; }
namespace std {
using ::sqrt; using ::fabs; using ::abs; using ::exp; using ::log; using ::sin; using ::cos; using ::pow; using ::fma; using ::fmax; using ::fmin;
}
#pragma omp declare reduction(+ : symd : omp_out += omp_in) initializer(omp_priv = symd(0.0))
#pragma omp declare reduction(* : symd : omp_out *= omp_in) initializer(omp_priv = symd(1.0))
typedef double aes_real;
#define double symd
#else
typedef double aes_real;
#endif
#endif
