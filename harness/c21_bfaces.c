/* C21: face patches of all boxes on every layout. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_spec.h"
#undef exit
#include "vh_sys.h"
#include "vh_lay.h"
int main(int argc, char **argv)
{
  int i; vh_init(argc, argv);
  for(i = 0; i < nlayouts(); i++) { layout_set(i); if(vh_unit("lay:%d,%d:%d,%d,%d:%d,%d:opt%d:sig%d", L->kind, L->sub, L->n[0][0], L->n[0][1], L->n[0][2], L->n[1][0], L->n[1][2], L->opt, L->sig)) vh_fork(audit, NULL); }
  return vh_done();
}
