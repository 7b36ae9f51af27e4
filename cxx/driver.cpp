// Runs one entry point of the code under test on arrays of exactly the given sizes.
// Compiled once with symbolic numbers (AES_SYM) and once as it is.
#include "num_integration.h"
#include "ld_functions.h"
#include "disc_integrals.h"
#include <iostream>
#include <sstream>
#ifdef AES_SYM
#undef double
#include "sym.inc"
#define double symd
#endif

static std::istringstream in;
static std::vector<double *> owned;
static int input_nr = 0;

// an array with its own heap block: reading or writing next to it is caught by the address sanitizer
static double *arr(int n) {
  double *p = (double *)malloc(sizeof(double) * (n > 0 ? n : 1));
  if (n == 0) { free(p); p = (double *)malloc(1); }
  for (int i = 0; i < n; i++) {
#ifdef AES_SYM
    p[i].id = aes_input(input_nr++);
#else
    std::string s;
    in >> s;
    p[i] = strtod(s.c_str(), nullptr);
    input_nr++;
#endif
  }
  owned.push_back(p);
  return p;
}
static std::string hexstr() {
  std::string h, r;
  in >> h;
  for (size_t i = 1; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
static void out(const double &x) {
#ifdef AES_SYM
  printf("o %d\n", x.id);
#else
  printf("o %.17g\n", x);
#endif
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    in.clear();
    in.str(line);
    input_nr = 0;
    std::string what;
    in >> what;
#ifdef AES_SYM
    aes_start(in);
#endif
    if (what == "ndi") {
      int size, es, threads, para, n1, n2;
      in >> size >> es;
      std::string method = hexstr();
      in >> threads >> para >> n1 >> n2;
      double *f = arr(n1), *x = arr(n2);
      NumericalDoubleInputIntegrator o(size, f, x, es != 0, method, threads, para != 0);
      out(o.integrate());
      for (int i = 0; i < n1; i++) out(f[i]);
      for (int i = 0; i < n2; i++) out(x[i]);
    } else if (what == "ld") {
      int size, threads, para, n1, n2;
      in >> size;
      std::string sel = hexstr();
      in >> threads >> para >> n1 >> n2;
      double *x = arr(n1), *r = arr(n2);
      {
        LimbDarkeningFunctions o(size, x, r, sel, threads, para != 0);
        o.compute();
      }
      for (int i = 0; i < n2; i++) out(r[i]);
      for (int i = 0; i < n1; i++) out(x[i]);
    } else if (what == "disc") {
      int size, threads, para, n;
      in >> size;
      std::string sel = hexstr(), method = hexstr();
      in >> threads >> para >> n;
      double *a = arr(n), *b = arr(n), *c = arr(n), *d = arr(n);
      DiscIntegration o(size, a, b, c, d, sel, method, threads, para != 0);
      out(o.compute_first_disc_integral());
      out(o.compute_second_disc_integral());
      for (double *p : {a, b, c, d})
        for (int i = 0; i < n; i++) out(p[i]);
    }
    for (double *p : owned) free(p);
    owned.clear();
#ifdef AES_SYM
    aes_finish();
#endif
    printf("end\n");
    fflush(stdout);
  }
  return 0;
}
