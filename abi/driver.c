/* Drives the library through its generated header, reading commands from standard input.
   See c_ffi.rs (abi_script). Prints one answer line per asking command. */
#include <inttypes.h>
#include <stdio.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "aga8.h"
#ifdef __cplusplus
}
#endif

static double rd(void) {
  uint64_t b;
  double v;
  if (scanf("%" SCNx64, &b) != 1) exit(40);
  memcpy(&v, &b, 8);
  return v;
}
static void wr(double v) {
  uint64_t b;
  memcpy(&b, &v, 8);
  printf(" %016" PRIx64, b);
}
static const char *ce(enum CompositionError e) {
  switch (e) {
    case CompositionError_Ok: return "Ok";
    case CompositionError_Empty: return "Empty";
    case CompositionError_BadSum: return "BadSum";
  }
  return "?";
}
static const char *de(enum DensityError e) {
  switch (e) {
    case DensityError_Ok: return "Ok";
    case DensityError_IterationFail: return "IterationFail";
    case DensityError_PressureTooLow: return "PressureTooLow";
  }
  return "?";
}
/* guards around what the library writes through pointers */
struct guarded_ce { uint64_t a; enum CompositionError e; uint32_t b; uint64_t c; };
struct guarded_de { uint64_t a; enum DensityError e; uint32_t b; uint64_t c; };
struct guarded_pr { uint64_t a; struct Properties p; uint64_t b; };
#define G64 UINT64_C(0x5aa55aa55aa55aa5)
#define G32 UINT32_C(0x5aa55aa5)
static void guard(int ok) {
  if (!ok) {
    printf("GUARD the library wrote outside its out-parameter\n");
    exit(41);
  }
}

int main(void) {
  struct Detail *a = NULL;
  struct Gerg2008 *g = NULL;
  char cmd[8];
  while (scanf("%7s", cmd) == 1) {
    switch (cmd[0]) {
      case 'N': {
        char m[8];
        if (scanf("%7s", m) != 1) exit(40);
        if (m[0] == 'a') { a = aga8_new(); g = NULL; } else { g = gerg_new(); a = NULL; }
        break;
      }
      case 'F':
        if (a) aga8_free(a); else gerg_free(g);
        a = NULL; g = NULL;
        aga8_free(NULL); gerg_free(NULL);
        break;
      case 'C': {
        struct Composition c;
        struct guarded_ce e;
        memset(&c, 0x7f, sizeof c);
        e.a = G64; e.c = G64; e.b = G32; e.e = CompositionError_Empty;
        c.methane = rd(); c.nitrogen = rd(); c.carbon_dioxide = rd(); c.ethane = rd(); c.propane = rd();
        c.isobutane = rd(); c.n_butane = rd(); c.isopentane = rd(); c.n_pentane = rd(); c.hexane = rd();
        c.heptane = rd(); c.octane = rd(); c.nonane = rd(); c.decane = rd(); c.hydrogen = rd();
        c.oxygen = rd(); c.carbon_monoxide = rd(); c.water = rd(); c.hydrogen_sulfide = rd(); c.helium = rd();
        c.argon = rd();
        if (a) aga8_set_composition(a, &c, &e.e); else gerg_set_composition(g, &c, &e.e);
        guard(e.a == G64 && e.c == G64 && e.b == G32);
        printf("c %s\n", ce(e.e));
        break;
      }
      case 'T': { double v = rd(); if (a) aga8_set_temperature(a, v); else gerg_set_temperature(g, v);
        printf("v"); wr(a ? aga8_get_temperature(a) : gerg_get_temperature(g)); printf("\n"); break; }
      case 'P': { double v = rd(); if (a) aga8_set_pressure(a, v); else gerg_set_pressure(g, v);
        printf("v"); wr(a ? aga8_get_pressure(a) : gerg_get_pressure(g)); printf("\n"); break; }
      case 'D': { double v = rd(); if (a) aga8_set_density(a, v); else gerg_set_density(g, v);
        printf("v"); wr(a ? aga8_get_density(a) : gerg_get_density(g)); printf("\n"); break; }
      case 'p': printf("v"); wr(a ? aga8_get_pressure(a) : gerg_get_pressure(g)); printf("\n"); break;
      case 'd': printf("v"); wr(a ? aga8_get_density(a) : gerg_get_density(g)); printf("\n"); break;
      case 'm': printf("v"); wr(a ? aga8_calculate_molar_mass(a) : gerg_calculate_molar_mass(g)); printf("\n"); break;
      case 'c': printf("v"); wr(a ? aga8_calculate_pressure(a) : gerg_calculate_pressure(g)); printf("\n"); break;
      case 'R': {
        struct guarded_de e;
        e.a = G64; e.c = G64; e.b = G32; e.e = DensityError_IterationFail;
        if (a) aga8_calculate_density(a, &e.e); else gerg_calculate_density(g, &e.e);
        guard(e.a == G64 && e.c == G64 && e.b == G32);
        printf("d %s\n", de(e.e));
        break;
      }
      case 'q': if (a) aga8_calculate_properties(a); else gerg_calculate_properties(g); break;
      case 'g': {
        struct guarded_pr r;
        r.a = G64; r.b = G64;
        r.p = a ? aga8_get_properties(a) : gerg_get_properties(g);
        guard(r.a == G64 && r.b == G64);
        printf("v");
        wr(r.p.d); wr(r.p.mm); wr(r.p.z); wr(r.p.dp_dd); wr(r.p.d2p_dd2); wr(r.p.dp_dt); wr(r.p.u); wr(r.p.h);
        wr(r.p.s); wr(r.p.cv); wr(r.p.cp); wr(r.p.w); wr(r.p.g); wr(r.p.jt); wr(r.p.kappa);
        printf("\n");
        break;
      }
      default: exit(42);
    }
  }
  printf("END\n");
  return 0;
}
