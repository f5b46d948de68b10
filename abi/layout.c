#include <stddef.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "aga8.h"
#ifdef __cplusplus
}
#endif
struct align_c { char c; struct Composition v; };
struct align_p { char c; struct Properties v; };
#define C(f) printf("Composition." #f " %zu\n", offsetof(struct Composition, f));
#define P(f) printf("Properties." #f " %zu\n", offsetof(struct Properties, f));
int main(void) {
  printf("Composition size %zu align %zu\n", sizeof(struct Composition), offsetof(struct align_c, v));
  printf("Properties size %zu align %zu\n", sizeof(struct Properties), offsetof(struct align_p, v));
  printf("CompositionError size %zu\nDensityError size %zu\n", sizeof(enum CompositionError), sizeof(enum DensityError));
  C(methane) C(nitrogen) C(carbon_dioxide) C(ethane) C(propane) C(isobutane) C(n_butane) C(isopentane) C(n_pentane)
  C(hexane) C(heptane) C(octane) C(nonane) C(decane) C(hydrogen) C(oxygen) C(carbon_monoxide) C(water)
  C(hydrogen_sulfide) C(helium) C(argon)
  P(d) P(mm) P(z) P(dp_dd) P(d2p_dd2) P(dp_dt) P(u) P(h) P(s) P(cv) P(cp) P(w) P(g) P(jt) P(kappa)
  return 0;
}
