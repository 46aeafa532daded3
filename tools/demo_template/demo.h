#include "sgrid.h"
#undef exit
void initialize_libraries(void);
static void par(const char *n, const char *v) { AddOrModifyPar((char*)n, (char*)v, ""); }
/* nb boxes of n1 x n2 x n3 points with the same basis, side by side in x */
static tGrid *mkgrid(int nb, int n1, int n2, int n3, const char *basis, void (*vars)(void))
{
  char s[100], v[100]; int b, i; tGrid *g;
  par("physics", "none"); par("outdir", "."); par("verbose", "no"); par("dt", "0.25");
  sprintf(v, "%d", nb); par("nboxes", v);
  for(b = 0; b < nb; b++) for(i = 1; i <= 3; i++)
  {
    sprintf(s, "box%d_n%d", b, i); sprintf(v, "%d", i == 1 ? n1 : i == 2 ? n2 : n3); par(s, v);
    sprintf(s, "box%d_basis%d", b, i); par(s, basis);
    sprintf(s, "box%d_min%d", b, i); sprintf(v, "%d", i == 1 ? b : 0); par(s, v);
    sprintf(s, "box%d_max%d", b, i); sprintf(v, "%d", i == 1 ? b+1 : 1); par(s, v);
  }
  initialize_libraries();
  RunFun(POST_PARAMETERS, 0);
  if(vars) vars();
  RunFun(PRE_GRID, 0);
  g = make_grid(0);
  RunFun(POST_GRID, g);
  return g;
}
