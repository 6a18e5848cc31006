// C29, linear.
#include "twin_lm.hpp"
#ifndef TW
#define TW 0
#endif
#define REFUSED 3
static void refused(Ty<TW>::Ctl &c, int i) {
  if (i == 0) c.setDiscretizationSamplingTime(0.5);
  else if (i == 1) c.setStateScale(Ty<TW>::XV::Constant(NX, 2));
  else c.setInputScale(Ty<TW>::UV::Constant(NU, 2));
}
#include "noise.hpp"
