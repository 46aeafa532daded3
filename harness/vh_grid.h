/* build grids the way main() does, from parameters */
#ifndef VH_GRID_H
#define VH_GRID_H
void initialize_libraries(void);
static void vg_par(const char *name, const char *fmt, ...)
{
  char v[2000]; va_list ap;
  va_start(ap, fmt); vsnprintf(v, 1999, fmt, ap); va_end(ap);
  AddOrModifyPar((char*)name, v, "");
}
static void vg_bpar(int b, const char *name, const char *fmt, ...)
{
  char v[2000], n[200]; va_list ap;
  va_start(ap, fmt); vsnprintf(v, 1999, fmt, ap); va_end(ap);
  sprintf(n, "box%d_%s", b, name);
  AddOrModifyPar(n, v, "");
}
static void vg_begin(int nboxes)
{
  vg_par("physics", "none");
  vg_par("outdir", ".");
  vg_par("verbose", "no");
  vg_par("dt", "0.25");
  vg_par("nboxes", "%d", nboxes);
}
static void vg_box(int b, int n1, int n2, int n3, const char *bas1, const char *bas2, const char *bas3)
{
  vg_bpar(b, "n1", "%d", n1); vg_bpar(b, "n2", "%d", n2); vg_bpar(b, "n3", "%d", n3);
  vg_bpar(b, "basis1", "%s", bas1); vg_bpar(b, "basis2", "%s", bas2); vg_bpar(b, "basis3", "%s", bas3);
}
static void vg_lim(int b, double x0, double x1, double y0, double y1, double z0, double z1)
{
  vg_bpar(b, "min1", "%.17g", x0); vg_bpar(b, "max1", "%.17g", x1);
  vg_bpar(b, "min2", "%.17g", y0); vg_bpar(b, "max2", "%.17g", y1);
  vg_bpar(b, "min3", "%.17g", z0); vg_bpar(b, "max3", "%.17g", z1);
}
static void vg_libs(void)
{
  initialize_libraries();
  RunFun(POST_PARAMETERS, 0);
}
static tGrid *vg_make(void)
{
  tGrid *g;
  RunFun(PRE_GRID, 0);
  g = make_grid(0);
  RunFun(POST_GRID, g);
  return g;
}
static void vg_coords(tGrid *g) { RunFun(PRE_COORDINATES, g); RunFun(COORDINATES, g); }
#endif
