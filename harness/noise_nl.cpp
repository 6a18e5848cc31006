// C29, nonlinear.
#include "twin_nl.hpp"
#ifndef TW
#define TW 0
#endif
#define REFUSED 2
static void refused(Ty<TW>::Ctl &c, int i) {
  if (i == 0) c.setOutputBounds(Ty<TW>::YV::Constant(NY, -1), Ty<TW>::YV::Constant(NY, 1), HorizonSlice::all());
  else c.setOutputBounds(Ty<TW>::YB::Constant(NY, PH, -1), Ty<TW>::YB::Constant(NY, PH, 1));
}
#include "noise.hpp"
