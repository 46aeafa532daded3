/* C24: sparse matrices, products and direct solvers */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
static tGrid *G; static int NB, NV, ND[3][3];
static tVarList *vx, *vf, *vb, *vc;
#define NM 300
static double K[NM][NM]; static int N;         /* the operator: lines and columns in the order box, point, variable */
static int pat;
static int gidx(tGrid *g, int b, int p, int j, int nv) { int o = 0, c; for(c = 0; c < b; c++) o += g->box[c]->nnodes*nv; return o + p*nv + j; }
static int sidx(tGrid *g, int b, int p, int j, int nv) { int o = 0, c; for(c = 0; c < b; c++) o += g->box[c]->nnodes*nv; return o + j*g->box[b]->nnodes + p; }
/* F = K x, entries scaled with the coefficient variable c1 (all ones on the original grid) */
static void lop(tVarList *F, tVarList *x, tVarList *c1, tVarList *c2)
{
  tGrid *g = x->grid; int b, p, j, bb, pp, jj;
  for(b = 0; b < g->nboxes; b++) for(p = 0; p < g->box[b]->nnodes; p++) for(j = 0; j < x->n; j++)
  {
    double s = 0; int l = gidx(g, b, p, j, x->n);
    for(bb = 0; bb < g->nboxes; bb++) for(pp = 0; pp < g->box[bb]->nnodes; pp++) for(jj = 0; jj < x->n; jj++)
      s += K[l][gidx(g, bb, pp, jj, x->n)]*g->box[bb]->v[x->index[jj]][pp];
    g->box[b]->v[F->index[j]][p] = s*g->box[b]->v[c1->index[0]][p]*g->box[b]->v[c2->index[0]][p];
  }
}
static uint64_t hh(long a, long b) { long q[2] = {a, b}; return vh_hash(q, sizeof q, 7); }
static void setK(void)
{
  int i, j;
  for(i = 0; i < N; i++) for(j = 0; j < N; j++)
  {
    uint64_t h = hh(i*1000+j, pat); double v = (double)((long)(h % 19) - 9); int on = 1;
    switch(pat)
    {
      case 0: on = 1; break;                              /* dense */
      case 1: on = i == j; break;                         /* diagonal */
      case 2: on = abs(i-j) <= 1; break;
      case 3: on = i == (j*7+3) % N || (h >> 20) % 5 == 0; break;
      case 4: on = j != N-1 && i != 0; break;             /* an empty column and an empty line */
      case 5: on = (h >> 20) % 3 == 0; v *= 0.125*(1 + (h >> 30) % 8); break;   /* small and large values */
    }
    K[i][j] = on ? v : 0; if(i == j && pat != 4) K[i][j] += pat == 1 ? 3 : 0;
  }
  if(pat == 3) for(j = 0; j < N; j++) if(!K[(j*7+3) % N][j]) K[(j*7+3) % N][j] = 5;
}
static void mkgrid(void)
{
  int b, i; char s[4][10]; const char *n[4] = {"mx", "mf", "mb", "mc"}; tVarList **l[4] = {&vx, &vf, &vb, &vc};
  vg_begin(NB); for(b = 0; b < NB; b++) { vg_box(b, ND[b][0], ND[b][1], ND[b][2], "ChebExtrema", "Fourier", "ChebExtrema"); vg_lim(b, b, b+1, 0, 1, 0, 1); vg_bpar(b, "Coordinates", "Cartesian"); }
  vg_par("GridIterators_verbose", "no");
  vg_libs();
  for(i = 0; i < 3; i++) AddVar((char*)n[i], NV == 1 ? "" : NV <= 3 ? "i" : "(ij)", "");
  AddVar("mc", "", ""); G = vg_make();
  for(i = 0; i < 4; i++)
  {
    int c; sprintf(s[i], "%s%s", n[i], i == 3 || NV == 1 ? "" : NV <= 3 ? "x" : "xx"); enablevar(G, Ind(s[i])); *l[i] = vlalloc(G);
    for(c = 0; c < (i == 3 ? 1 : NV); c++) vlpushone(*l[i], Ind(s[i])+c);
  }
  forallboxes(G, b) forallpoints(G->box[b], i) G->box[b]->v[vc->index[0]][i] = 1;
  N = 0; forallboxes(G, b) N += G->box[b]->nnodes*NV;
}
static double DROP[4] = {0, 1, 3.5, 100};
static char tag[200];
/* compare an array of sparse vectors with an expected matrix; lines or columns */
static void cmp(const char *what, tSparseVector **A, int n, int iscol, double (*e)[NM], double drop)
{
  int i, k; static double got[NM][NM]; static unsigned char seen[NM][NM];
  memset(seen, 0, sizeof seen); vh_trans++;
  for(i = 0; i < n; i++) for(k = 0; k < A[i]->entries; k++)
  {
    int p = A[i]->pos[k], r = iscol ? p : i, c = iscol ? i : p;
    if(p < 0 || p >= n) { vh_fail("entry-outside", "%s: %s: vector %d has an entry at position %d of %d", tag, what, i, p, n); return; }
    if(seen[r][c]) { vh_fail("duplicate-entry", "%s: %s: two entries for line %d column %d", tag, what, r, c); return; }
    seen[r][c] = 1; got[r][c] = A[i]->val[k];
    if(iscol && k && A[i]->pos[k-1] >= p) { vh_fail("unsorted-column", "%s: %s: lines in column %d are not ascending", tag, what, i); return; }
  }
  for(i = 0; i < n; i++) for(k = 0; k < n; k++)
  {
    double w = fabs(e[i][k]) > drop ? e[i][k] : 0, h = seen[i][k] ? got[i][k] : 0; vh_evals++;
    if(w != h || GetSparseVectorComponent(A[iscol ? k : i], iscol ? i : k) != w) { vh_fail("matrix-entry", "%s: %s: line %d column %d holds %g instead of %g", tag, what, i, k, h, w); return; }
    if(seen[i][k] && !w) { vh_fail("dropped-entry", "%s: %s: line %d column %d (%g) is stored", tag, what, i, k, h); return; }
  }
}
static double S[NM][NM], X[NM], F[NM], E[NM];
static void products(tSparseVector **A, double (*e)[NM], int n)
{
  int u, i, j;
  for(u = -2; u < n; u++)
  {
    for(i = 0; i < n; i++) X[i] = u < 0 ? (double)((long)(hh(i, u) % 13) - 6) : i == u;
    for(i = 0; i < n; i++) F[i] = 77; vh_trans += 3; vh_evals += 3*n;
    for(i = 0; i < n; i++) for(E[i] = 0, j = 0; j < n; j++) E[i] += e[i][j]*X[j];
    SparseMatrixLines_times_vector(A, n, X, F);
    for(i = 0; i < n; i++) if(F[i] != E[i]) { vh_fail("product", "%s: SparseMatrixLines_times_vector: vector %d: component %d is %g, not %g", tag, u, i, F[i], E[i]); return; }
    for(i = 0; i < n; i++) for(F[i] = 77, E[i] = 0, j = 0; j < n; j++) E[i] += e[j][i]*X[j];
    vector_times_SparseMatrixLines(X, A, n, F);
    for(i = 0; i < n; i++) if(F[i] != E[i]) { vh_fail("product", "%s: vector_times_SparseMatrixLines: vector %d: component %d is %g, not %g", tag, u, i, F[i], E[i]); return; }
    for(i = 0; i < n; i++) F[i] = 77;
    SparseMatrixLinesTranspose_times_vector(A, n, X, F);
    for(i = 0; i < n; i++) if(F[i] != E[i]) { vh_fail("product", "%s: SparseMatrixLinesTranspose_times_vector: vector %d: component %d is %g, not %g", tag, u, i, F[i], E[i]); return; }
  }
}
/* matrix market file */
static void market(tSparseVector **A, int n, int iscol, double (*e)[NM])
{
  FILE *fp; char l[300]; int r, c, nr = -1, nc = -1, i, j, hdr = 0, cnt = 0; long nz = -1; double v; static double got[NM][NM];
  unlink("m.mtx"); memset(got, 0, sizeof got);
  if(write_SparseVectorArray_inMatrixMarketFormat("m.mtx", A, n, iscol)) { vh_fail("market-status", "%s: write_SparseVectorArray_inMatrixMarketFormat fails", tag); return; }
  fp = fopen("m.mtx", "r"); vh_trans++;
  while(fp && fgets(l, 299, fp))
  {
    if(l[0] == '%') continue;
    if(!hdr) { hdr = 1; sscanf(l, "%d %d %ld", &nr, &nc, &nz); continue; }
    if(sscanf(l, "%d %d %lf", &r, &c, &v) != 3 || r < 1 || c < 1 || r > nr || c > nc || r > n || c > n) { vh_fail("market-entry", "%s: entry '%s' in a matrix file of %d lines and %d columns", tag, l, nr, nc); fclose(fp); return; }
    got[r-1][c-1] += v; cnt++;
  }
  if(fp) fclose(fp);
  if(cnt != nz) { vh_fail("market-count", "%s: the matrix file announces %ld entries and has %d", tag, nz, cnt); return; }
  for(i = 0; i < n; i++) for(j = 0; j < n; j++) { vh_evals++; if(fabs(got[i][j]-e[i][j]) > 1e-13*fabs(e[i][j])) { vh_fail("market-value", "%s: line %d column %d in the matrix file is %g, not %g", tag, i, j, got[i][j], e[i][j]); return; } }
  unlink("m.mtx");
}
static void csc(tSparseVector **A, int iscol, double (*e)[NM], int n)
{ /* compressed columns for the solvers, both integer sizes */
  int *Ap, *Ai; LONGINT *Lp, *Li; double *Ax, *Lx, drop; int d, i, j, nz = 0; long r;
  for(i = 0; i < n; i++) nz += A[i]->entries;
  for(d = 0; d < 4; d++)
  {
    int k = 0; drop = DROP[d]; vh_trans += 2;
    allocate_umfpack_di_matrix(&Ap, &Ai, &Ax, n, nz+1); allocate_umfpack_dl_matrix(&Lp, &Li, &Lx, n, nz+1);
    r = iscol ? set_umfpack_di_matrix_from_columns(Ap, Ai, Ax, A, n, drop, 0) : set_umfpack_di_matrix_from_lines(Ap, Ai, Ax, A, n, drop, 0);
    if(r != Ap[n]) vh_fail("csc-count", "%s: %d entries returned as %ld", tag, Ap[n], r);
    r = iscol ? set_umfpack_dl_matrix_from_columns(Lp, Li, Lx, A, n, drop, 0) : set_umfpack_dl_matrix_from_lines(Lp, Li, Lx, A, n, drop, 0);
    if(r != Lp[n]) vh_fail("csc-count", "%s: %ld entries returned as %ld", tag, (long)Lp[n], r);
    for(j = 0; j < n; j++)
    {
      if(Ap[j] != k || Lp[j] != k) { vh_fail("csc-start", "%s: drop %g: column %d starts at %d / %ld instead of %d", tag, drop, j, Ap[j], (long)Lp[j], k); break; }
      for(i = 0; i < n; i++) if(fabs(e[i][j]) > drop)
      {
        vh_evals++;
        if(Ai[k] != i || Ax[k] != e[i][j] || Li[k] != i || Lx[k] != e[i][j]) { vh_fail("csc-entry", "%s: drop %g: entry %d is line %d value %g / line %ld value %g instead of line %d value %g", tag, drop, k, Ai[k], Ax[k], (long)Li[k], Lx[k], i, e[i][j]); break; }
        k++;
      }
      if(i < n) break;
    }
    if(j == n && (Ap[n] != k || Lp[n] != k)) vh_fail("csc-count", "%s: drop %g: %d / %ld entries instead of %d", tag, drop, Ap[n], (long)Lp[n], k);
    free_umfpack_di_matrix(Ap, Ai, Ax); free_umfpack_dl_matrix(Lp, Li, Lx);
  }
}
static void scramble(void) { int b, p, j; forallboxes(G, b) forallpoints(G->box[b], p) for(j = 0; j < NV; j++) { G->box[b]->v[vx->index[j]][p] = 3+p; G->box[b]->v[vf->index[j]][p] = 5+p; G->box[b]->v[vb->index[j]][p] = 7*b+p+100*j; } }
static void untouched(const char *w)
{ int b, p, j; forallboxes(G, b) forallpoints(G->box[b], p) { if(G->box[b]->v[vc->index[0]][p] != 1) { vh_fail("side-effect", "%s: %s changed a coefficient", tag, w); return; } for(j = 0; j < NV; j++) if(G->box[b]->v[vb->index[j]][p] != 7*b+p+100*j) { vh_fail("side-effect", "%s: %s changed another variable", tag, w); return; } } }
static void extract(void *a)
{
  int i, j, b, p, v, bb, pp, vv, op, d; tSparseVector **A; (void)a;
  mkgrid(); setK(); vh_states++;
  forallboxes(G, b) forallpoints(G->box[b], p) for(v = 0; v < NV; v++) forallboxes(G, bb) forallpoints(G->box[bb], pp) for(vv = 0; vv < NV; vv++)
    S[sidx(G, b, p, v, NV)][sidx(G, bb, pp, vv, NV)] = K[gidx(G, b, p, v, NV)][gidx(G, bb, pp, vv, NV)];
  for(d = 0; d < 4; d++)
  {
    char s[30]; sprintf(s, "%g", DROP[d]); Sets("LinAlg_setABStozero_below", s);
    for(op = 0; op < 4; op++)
    {
      static const char *nm[4] = {"SetMatrixLines_slowly", "SetMatrixColumns_slowly", "SetMatrixLines_forSortedVars_slowly", "SetMatrixColumns_forSortedVars_slowly"};
      sprintf(tag, "%d boxes first n=%d,%d,%d, %d variables, operator %d, drop %g", NB, ND[0][0], ND[0][1], ND[0][2], NV, pat, DROP[d]); vh_at("%s %s", nm[op], tag);
      A = AllocateSparseVectorArray(N); scramble();
      if(op == 0) SetMatrixLines_slowly(A, lop, vf, vx, vc, vc, 0);
      else if(op == 1) SetMatrixColumns_slowly(A, lop, vf, vx, vc, vc, 0);
      else if(op == 2) SetMatrixLines_forSortedVars_slowly(A, lop, vf, vx, vc, vc, 0);
      else SetMatrixColumns_forSortedVars_slowly(A, lop, vf, vx, vc, vc, 0);
      untouched(nm[op]);
      cmp(nm[op], A, N, op & 1, op < 2 ? K : S, DROP[d]);
      if(d == 0)
      {
        if(!(op & 1)) products(A, op < 2 ? K : S, N);
        market(A, N, op & 1, op < 2 ? K : S); csc(A, op & 1, op < 2 ? K : S, N);
      }
      FreeSparseVectorArray(A, N);
    }
    /* blocks */
    forallboxes(G, b) for(v = 0; v < NV; v++)
    {
      static double B[NM][NM]; tBox *box = G->box[b]; int n = box->nnodes, n1 = box->n1, n2 = box->n2, n3 = box->n3, a1, a2, a3, s1, s2, s3;
      for(i = 0; i < n; i++) for(j = 0; j < n; j++) B[i][j] = K[gidx(G, b, i, v, NV)][gidx(G, b, j, v, NV)];
      sprintf(tag, "%d boxes first n=%d,%d,%d, %d variables, operator %d, drop %g: block of box %d variable %d", NB, ND[0][0], ND[0][1], ND[0][2], NV, pat, DROP[d], b, v); vh_at("one box %s", tag);
      A = AllocateSparseVectorArray(n); scramble(); SetMatrixColumns_ForOneVarInOneBox_slowly(A, v, b, lop, vf, vx, vc, vc, 0); untouched("SetMatrixColumns_ForOneVarInOneBox_slowly");
      cmp("SetMatrixColumns_ForOneVarInOneBox_slowly", A, n, 1, B, DROP[d]); FreeSparseVectorArray(A, n);
      if(d > 1) continue;
      for(a1 = 1; a1 <= n1; a1++) for(a2 = 1; a2 <= n2; a2++) for(a3 = 1; a3 <= n3; a3++)
      {
        static int cov[NM]; memset(cov, 0, sizeof cov);
        if(!vh_thorough && a1*a2*a3 > 8) continue;
        for(s3 = 0; s3 < a3; s3++) for(s2 = 0; s2 < a2; s2++) for(s1 = 0; s1 < a1; s1++)
        { /* points of the block: the macro that everything else uses, in the order of the grid */
          static int q[NM]; static double C[NM][NM]; int i1, i2, j1, j2, k1, k2, ii, jj, kk, m = 0;
          IndexRangesInSubbox(i1, i2, j1, j2, k1, k2, s1, s2, s3, a1, a2, a3);
          for(kk = k1; kk < k2; kk++) for(jj = j1; jj < j2; jj++) for(ii = i1; ii < i2; ii++) { q[m] = ii + n1*(jj + n2*kk); cov[q[m++]]++; }
          for(ii = 0; ii < m; ii++) for(jj = 0; jj < m; jj++) C[ii][jj] = B[q[ii]][q[jj]];
          sprintf(tag, "%d boxes first n=%d,%d,%d, %d variables, operator %d, drop %g: box %d variable %d subbox %d/%d,%d/%d,%d/%d", NB, ND[0][0], ND[0][1], ND[0][2], NV, pat, DROP[d], b, v, s1, a1, s2, a2, s3, a3); vh_at("subbox %s", tag);
          A = AllocateSparseVectorArray(m); scramble(); SetMatrixColumns_ForOneVarInOneSubBox_slowly(A, v, b, s1, s2, s3, a1, a2, a3, lop, vf, vx, vc, vc, 0); untouched("SetMatrixColumns_ForOneVarInOneSubBox_slowly");
          cmp("SetMatrixColumns_ForOneVarInOneSubBox_slowly", A, m, 1, C, DROP[d]); FreeSparseVectorArray(A, m);
        }
        for(i = 0; i < n; i++) if(cov[i] != 1) { vh_fail("subboxes", "%s: point %d of box %d is in %d of the %dx%dx%d subboxes", tag, i, b, cov[i], a1, a2, a3); break; }
      }
    }
  }
}
/* ---- direct solvers ---- */
typedef int (*tsol)(tVarList *, tVarList *, tVarList *, tVarList *, tVarList *, int, double, double *, void (*)(tVarList *, tVarList *, tVarList *, tVarList *), void (*)(tVarList *, tVarList *, tVarList *, tVarList *));
static double rhs[NM], sol[NM]; static int rank;
/* rank by exact elimination (integers times a power of two, kept as fractions in __int128) */
static int exrank(double (*e)[NM], int n, double drop, int scale)
{ /* fraction-free elimination with full pivoting over the integers */
  static __int128 m[8][8]; int i, j, k, r = 0; __int128 prev = 1;
  for(i = 0; i < n; i++) for(j = 0; j < n; j++) m[i][j] = fabs(e[i][j]) > drop ? (long)(e[i][j]*scale) : 0;
  for(k = 0; k < n; k++)
  {
    int pi = -1, pj = -1;
    for(i = k; i < n && pi < 0; i++) for(j = k; j < n; j++) if(m[i][j]) { pi = i; pj = j; break; }
    if(pi < 0) return r;
    for(j = 0; j < n; j++) { __int128 t = m[pi][j]; m[pi][j] = m[k][j]; m[k][j] = t; }
    for(i = 0; i < n; i++) { __int128 t = m[i][pj]; m[i][pj] = m[i][k]; m[i][k] = t; }
    for(i = k+1; i < n; i++) for(j = k+1; j < n; j++) m[i][j] = (m[i][j]*m[k][k] - m[i][k]*m[k][j])/prev;
    prev = m[k][k]; r++;
  }
  return r;
}
/* status and solution of a solver for the n x n matrix e */
static void judge(const char *who, int trapped, int st, double (*e)[NM], int n, double drop, double *x, int qr)
{
  int i, j; double worst = 0, nx = 0, na = 0, nb = 0, empty = 0; vh_evals++;
  if(trapped) st = -1;
  for(i = 0; i < n; i++)
  { double s = rhs[i], a = 0; for(j = 0; j < n; j++) if(fabs(e[i][j]) > drop) { s -= e[i][j]*x[j]; a += fabs(e[i][j]); } if(!(fabs(s) <= worst)) worst = fabs(s); if(a > na) na = a; if(!(fabs(x[i]) <= nx)) nx = fabs(x[i]); if(fabs(rhs[i]) > nb) nb = fabs(rhs[i]); }
  for(i = 0; i < n; i++) { int r = 0, c = 0; for(j = 0; j < n; j++) { r += fabs(e[i][j]) > drop; c += fabs(e[j][i]) > drop; } if(!r || !c) empty = 1; }
  if(rank == n)
  {
    if(st != 0) { vh_fail("regular-fails", "%s: %s: %d unknowns: returns %d for a regular system", tag, who, n, st); return; }
    if(!(worst <= 1e-9*(na*nx+nb))) { vh_fail("residual", "%s: %s: %d unknowns: residual %g", tag, who, n, worst); return; }
    for(i = 0; i < n; i++) if(!isfinite(x[i])) { vh_fail("not-finite", "%s: %s: solution is not finite", tag, who); return; }
  }
  else if(!qr && st == 0)
  { /* a singular matrix whose elimination is not exact may pass, but then with a small backward error */
    if(empty || n == 2) vh_fail("singular-ok", "%s: %s: %d unknowns: success for a singular system", tag, who, n);
    else if(!(worst <= 1e-9*(na*nx+nb)) || !isfinite(nx)) vh_fail("singular-ok", "%s: %s: %d unknowns: success for a singular system, residual %g", tag, who, n, worst);
  }
}
static void toarrays(double (*e)[NM], int n, tSparseVector ***L, tSparseVector ***C)
{
  int i, j; *L = AllocateSparseVectorArray(n); *C = AllocateSparseVectorArray(n);
  for(i = 0; i < n; i++) for(j = 0; j < n; j++) if(e[i][j]) { AddToSparseVector((*L)[i], j, e[i][j]); AddToSparseVector((*C)[j], i, e[i][j]); }
}
static void setb(int srt) { int b, p, j; forallboxes(G, b) forallpoints(G->box[b], p) for(j = 0; j < NV; j++) { G->box[b]->v[vb->index[j]][p] = rhs[srt ? sidx(G, b, p, j, NV) : gidx(G, b, p, j, NV)]; G->box[b]->v[vx->index[j]][p] = 0.5; } }
static void getx(int srt) { int b, p, j; forallboxes(G, b) forallpoints(G->box[b], p) for(j = 0; j < NV; j++) sol[srt ? sidx(G, b, p, j, NV) : gidx(G, b, p, j, NV)] = G->box[b]->v[vx->index[j]][p]; }
static void chkb(const char *w, int srt) { int b, p, j; forallboxes(G, b) forallpoints(G->box[b], p) for(j = 0; j < NV; j++) if(G->box[b]->v[vb->index[j]][p] != rhs[srt ? sidx(G, b, p, j, NV) : gidx(G, b, p, j, NV)]) { vh_fail("rhs-changed", "%s: %s changes the right hand side", tag, w); return; } }
int umfpack_di_solve_fromAlines(tSparseVector **, tVarList *, tVarList *, double, int);
int umfpack_di_solve_forSortedVars_fromAlines(tSparseVector **, tVarList *, tVarList *, double, int);
static void solvers(double (*e)[NM], int n, double drop, int all)
{
  tSparseVector **L, **C; volatile int st, tr, w; int nz = 0, i; static const char *nm[] = {"lapack_dgesv", "umfpack_di_solve_fromAlines", "umfpack_di_solve_fromAcolumns", "umfpack_di_solve_forSortedVars_fromAcolumns", "umfpack_dl_solve_fromAcolumns", "SuiteSparseQR_solve_fromAcolumns", "umfpack_di_solve_from_Ap_Ai_Ax", "umfpack_dl_solve_from_Ap_Ai_Ax", "umfpack_dl_solve_from_Ap_Ai_Ax_x_b", "umfpack_dl_solve_from_tUMFPACK_A_x_b", "SuiteSparseQR_solve_from_tSPQR_A_x_b"};
  int *Ap = NULL, *Ai; LONGINT *Lp = NULL, *Li; double *Ax, *Lx, d0;
  toarrays(e, n, &L, &C); for(i = 0; i < n; i++) nz += C[i]->entries;
  vh_states++;
  for(w = 0; w < (all ? 11 : 6); w++)
  {
    if(w == 0 && drop) continue; /* no drop argument */
    st = -777; tr = 0; setb(w == 3); for(i = 0; i < n; i++) sol[i] = 0.5; vh_trans++;
    if(w >= 6) d0 = drop, w == 6 ? (allocate_umfpack_di_matrix(&Ap, &Ai, &Ax, n, nz+1), set_umfpack_di_matrix_from_columns(Ap, Ai, Ax, C, n, d0, 0)) : w < 10 ? (allocate_umfpack_dl_matrix(&Lp, &Li, &Lx, n, nz+1), set_umfpack_dl_matrix_from_columns(Lp, Li, Lx, C, n, d0, 0)) : 0;
    VH_TRY {
      switch(w)
      {
        case 0: st = lapack_dgesv(L, vx, vb, 0); break;
        case 1: st = umfpack_di_solve_fromAlines(L, vx, vb, drop, 0); break;
        case 2: st = umfpack_di_solve_fromAcolumns(C, vx, vb, drop, 0); break;
        case 3: st = umfpack_di_solve_forSortedVars_fromAcolumns(C, vx, vb, drop, 0); break;
        case 4: st = umfpack_dl_solve_fromAcolumns(C, vx, vb, drop, 0); break;
        case 5: st = SuiteSparseQR_solve_fromAcolumns(C, vx, vb, drop, 0); break;
        case 6: st = umfpack_di_solve_from_Ap_Ai_Ax(Ap, Ai, Ax, vx, vb, 0); break;
        case 7: st = umfpack_dl_solve_from_Ap_Ai_Ax(Lp, Li, Lx, vx, vb, 0); break;
        case 8: st = umfpack_dl_solve_from_Ap_Ai_Ax_x_b(Lp, Li, Lx, sol, rhs, n, 0); break;
        case 9: { tUMFPACK_A U; double info[100]; memset(&U, 0, sizeof U); U.Ap = Lp; U.Ai = Li; U.Ax = Lx; U.Info = info; st = umfpack_dl_numeric_from_tUMFPACK_A(&U, n, 0); { int s2 = umfpack_dl_solve_from_tUMFPACK_A_x_b(U, sol, rhs, 0); if(!st) st = s2; } umfpack_dl_free_numeric(&U.Numeric); break; }
        case 10: { tSPQR_A Q; void **A; memset(&Q, 0, sizeof Q); allocate_and_init_tSPQR_A_struct(&Q, n, nz+1, 0);
          A = Q.A; { extern void vh_spqr_arrays(void *, LONGINT **, LONGINT **, double **); LONGINT *p, *q; double *r; vh_spqr_arrays(A, &p, &q, &r); set_umfpack_dl_matrix_from_columns(p, q, r, C, n, drop, 0); }
          st = SuiteSparseQR_C_factorize_tSPQR_A(&Q, 0); { int s2 = SuiteSparseQR_solve_from_tSPQR_A_x_b(Q, sol, rhs, 0); if(!st) st = s2; } free_tSPQR_A_struct(&Q); break; }
      }
      VH_END;
    } else tr = 1;
    if(w < 8) getx(w == 3);
    judge(nm[w], tr, st, e, n, drop, sol, w == 5 || w == 10); if(w < 8) chkb(nm[w], w == 3);
    if(w == 6) free_umfpack_di_matrix(Ap, Ai, Ax); else if(w > 6 && w < 10) free_umfpack_dl_matrix(Lp, Li, Lx);
  }
  FreeSparseVectorArray(L, n); FreeSparseVectorArray(C, n);
}
/* bare boxes with any number of points */
static void bare(int nb, const int *np, int nv)
{
  int b, i, j; tVarList **l[3] = {&vx, &vb, &vf};
  NB = nb; NV = nv;
  vg_begin(1); vg_box(0, 2, 2, 2, "ChebExtrema", "Fourier", "ChebExtrema"); vg_lim(0, 0, 1, 0, 1, 0, 1); vg_libs();
  for(i = 0; i < 3; i++) { char s[10]; sprintf(s, "m%d", i); AddVar(s, nv == 1 ? "" : "i", ""); }
  G = make_empty_grid(globalnvariables, 0);
  if(G->nboxes != 1) { printf("boxes %d\n", G->nboxes); }
  free_grid(G); vg_par("nboxes", "%d", nb); G = alloc_grid(nb, globalnvariables);
  for(b = 0; b < nb; b++) { alloc_box(G, b, np[b], 1, 1); G->box[b]->nnodes = np[b]; }
  for(i = 0; i < 3; i++) { char s[10]; sprintf(s, "m%d%s", i, nv == 1 ? "" : "x"); enablevar(G, Ind(s)); *l[i] = vlalloc(G); for(j = 0; j < nv; j++) vlpushone(*l[i], Ind(s)+j); }
  for(N = 0, b = 0; b < nb; b++) N += np[b]*nv;
}
static const double V2[] = {-2, -1, 0, 1, 3, 0.5}, V3[] = {-1, 0, 2}, V4[16] = {3, -1, 2, 5, -4, 7, 1, -2, 6, 2, -3, 8, -5, 4, 9, 1};
static int cfg, part, nparts;
static void small(void *a)
{
  static const int np[][3] = {{2}, {3}, {2}, {1, 1}, {4}, {1, 3}}; static const int nb[] = {1, 1, 1, 2, 1, 2}, nv[] = {1, 1, 2, 2, 1, 1};
  long k, q, n; int i, r, d; (void)a;
  bare(nb[cfg], np[cfg], nv[cfg]); n = N;
  q = cfg == 0 ? 1296 : cfg == 1 ? 19683 : 65536;
  for(k = part; k < q; k += nparts) 
  {
    if(!vh_thorough && cfg >= 2 && (hh(k, 3) & (cfg >= 4 ? 15 : 7))) { /* all patterns with at most 6 or at least 13 entries, and a fixed part of the rest */ int c = __builtin_popcountl(k); if(c > 6 && c < 13) continue; if(cfg >= 4 && c > 5) continue; if(cfg == 3 && c > 5 && c < 14) continue; }
    { long t = k; for(i = 0; i < n*n; i++) { double v; if(cfg == 0) { v = V2[t % 6]; t /= 6; } else if(cfg == 1) { v = V3[t % 3]; t /= 3; } else { v = (t & 1) ? V4[i] : 0; t >>= 1; } K[i/n][i%n] = v; } }
    for(d = 0; d < (cfg == 0 ? 2 : 1); d++)
    {
      double drop = d ? 1 : 0;
      rank = exrank(K, n, drop, 2);
      for(r = 0; r < (cfg == 0 ? 3 : 1); r++)
      {
        for(i = 0; i < n; i++) rhs[i] = r == 0 ? 1+i*i : r == 1 ? (i == 0) : 0;
        sprintf(tag, "%d boxes, %d variables, matrix %ld, right hand side %d, drop %g", nb[cfg], nv[cfg], k, r, drop); if(!(k & 255)) vh_at("%s", tag);
        solvers(K, n, drop, 1);
      }
    }
  }
}
/* wrappers on real grids */
static int wv;
static void wrappers(void *a)
{
  static struct { const char *n; tsol f; } W[] = {{"LAPACK_dgesv_wrapper", LAPACK_dgesv_wrapper}, {"UMFPACK_solve_wrapper", UMFPACK_solve_wrapper}, {"UMFPACK_solve_forSortedVars_wrapper", UMFPACK_solve_forSortedVars_wrapper}, {"SuiteSparseQR_solve_wrapper", SuiteSparseQR_solve_wrapper}};
  int w, v, i, j, b, p, u; volatile int st, tr; double nr; (void)a;
  mkgrid(); setK();
  for(i = 0; i < N; i++) for(j = 0; j < N; j++) if(i == j) K[i][j] += pat == 4 ? 0 : 200; rank = pat == 4 ? 0 : N;
  for(v = 0; v < 2; v++)
  {
    Sets("GridIterators_UMFPACK_version", v ? "dl" : "di");
    for(w = 0; w < 4; w++) for(u = -1; u < (v ? 0 : N); u++)
    {
      if(v && w != 1) continue;
      if(u > 3 && !vh_thorough && u % 5) continue;
      for(i = 0; i < N; i++) rhs[i] = u < 0 ? 1 + (hh(i, 9) % 10) : i == u;
      setb(0); vh_trans++; sprintf(tag, "%d boxes first n=%d,%d,%d, %d variables, operator %d, version %d, right hand side %d", NB, ND[0][0], ND[0][1], ND[0][2], NV, pat, v, u); vh_at("%s %s", W[w].n, tag);
      tr = 0; st = -777; VH_TRY { st = W[w].f(vx, vb, vf, vc, vc, 10, 1e-9, &nr, lop, Preconditioner_I); VH_END; } else tr = 1;
      getx(0); judge(W[w].n, tr, st, K, N, 0, sol, w == 3); chkb(W[w].n, 0);
      forallboxes(G, b) forallpoints(G->box[b], p) if(G->box[b]->v[vc->index[0]][p] != 1) { vh_fail("side-effect", "%s: %s changed a coefficient", tag, W[w].n); b = NB-1; break; }
    }
  }
  (void)wv;
}
/* sequences of operations on one sparse vector */
static void vectors(void *a)
{
  static const int P[4] = {0, 5, 2, 7}; long k, q = 1; int d, i, j, D = vh_thorough ? 8 : 6; (void)a;
  for(i = 0; i < D; i++) q *= 4;
  for(k = 0; k < q; k++)
  {
    tSparseVector *s = AllocateSparseVector(); long t = k; double first[8]; int has[8] = {0}; int bad = 0;
    for(d = 0; d < D; d++, t /= 4)
    {
      int p = P[t % 4]; double v = 1.5 + d; if(has[p]) { d = d; } else { has[p] = 1; first[p] = v; }
      if(d & 1) AddToSparseVector_critical(s, p, v); else AddToSparseVector(s, p, v);
      vh_evals++;
      if(s->entries != d+1 || s->pos[d] != p || s->val[d] != v) bad = 1;
      for(j = 0; j < 8; j++) if(GetSparseVectorComponent(s, j) != (has[j] ? first[j] : 0)) bad = 1;
    }
    vh_states++;
    if(bad) { vh_fail("sparse-vector", "after the additions numbered %ld the vector does not hold what was added", k); return; }
    FreeSparseVector(s);
  }
}
int main(int argc, char **argv)
{
  static const int SH[][3][3] = {{{2, 1, 1}}, {{3, 2, 2}}, {{2, 3, 4}}, {{2, 2, 1}, {3, 1, 2}}, {{4, 2, 1}, {2, 1, 3}}, {{2, 1, 2}, {3, 1, 1}, {2, 2, 1}}}; static const int nb[] = {1, 1, 1, 2, 2, 3};
  int s;
  vh_init(argc, argv);
  if(vh_unit("vectors")) vh_fork(vectors, NULL);
  for(s = 0; s < 6; s++) for(NV = 1; NV <= 3; NV++) for(pat = 0; pat < 6; pat++)
  {
    NB = nb[s]; memcpy(ND, SH[s], sizeof ND);
    if(s == 2 && NV == 3 && !vh_thorough) continue;
    if(vh_unit("extract:%d:%d:%d", s, NV, pat)) vh_fork(extract, NULL);
    if(vh_unit("wrappers:%d:%d:%d", s, NV, pat)) vh_fork(wrappers, NULL);
  }
  for(cfg = 0; cfg < 6; cfg++) for(nparts = cfg ? 16 : 1, part = 0; part < nparts; part++) if(vh_unit("solvers:%d:%d", cfg, part)) vh_fork(small, NULL);
  return vh_done();
}
#include "cholmod.h"
void vh_spqr_arrays(void *A, LONGINT **p, LONGINT **i, double **x) { cholmod_sparse *a = A; *p = a->p; *i = a->i; *x = a->x; }
