/* C32: right hand sides, constraints and initial data of the physics modules,
   compared at every point with the equations written as loops over indices, on
   data whose derivatives are exact on the grid (polynomials), for all options. */
#include "sgrid.h"
#include "vh.h"
#include "vh_grid.h"
#include "vh_run.h"
#undef exit
#undef vh_distinct
#define vh_distinct (vh_c->distinct)
void BSSN_rhs(tVarList *, tVarList *, double, tVarList *);
void Z4secondO_rhs(tVarList *, tVarList *, double, tVarList *);
void ScalarWave_evolve(tVarList *, tVarList *, double, tVarList *);
void ADMconstraints(tVarList *);
void ADMenergy_spheric_intergrand(tVarList *);
int BSSN_startup(tGrid *), BSSNtoADM(tGrid *), BSSN_enforce_AlgConstr(tGrid *), Z4secondO_startup(tGrid *), ScalarWave_startup(tGrid *);
int SingleBH(tGrid *), TestID(tGrid *), set_K_initial(tGrid *), ADMvars_undo_conformal_split(tGrid *);
int computeADMconstraints(tGrid *), ScalarWave_analyze(tGrid *);
extern tVarList *BSSNvars, *Z4secondOvars, *psiandderivs, *K_initial;

static tGrid *g;
/* fields of a state, in the order of the variable lists */
enum {F_g = 0, F_phi = 6, F_A = 7, F_K = 13, F_G = 14, F_al = 17, F_be = 18, F_B = 21, F_aD = 24, F_psi = 25, F_K0 = 26, F_aRHS = 27, NF = 28};
typedef struct { double c[10]; } poly;   /* 1 x y z xx xy xz yy yz zz */
typedef struct { poly f[NF]; } state;
typedef struct { double v, d[3], dd[3][3]; } jet;
static jet ev(const poly *p, const double *x)
{
  jet j; int a, b, k = 4; memset(&j, 0, sizeof j);
  j.v = p->c[0];
  for(a = 0; a < 3; a++) { j.v += p->c[1+a]*x[a]; j.d[a] += p->c[1+a]; }
  for(a = 0; a < 3; a++) for(b = a; b < 3; b++, k++)
  { double c = p->c[k]; j.v += c*x[a]*x[b]; j.d[a] += c*x[b]; j.d[b] += c*x[a]; j.dd[a][b] += c; j.dd[b][a] += c; }
  return j;
}
static int S(int a, int b) { static const int t[3][3] = {{0,1,2},{1,3,4},{2,4,5}}; return t[a][b]; }
#define L(a) for(a = 0; a < 3; a++)
/* a tensor field with derivatives at a point */
typedef struct { double g[3][3], d[3][3][3], dd[3][3][3][3]; } tens;   /* d[c][a][b] = d_c t_ab */
static void symt(const state *s, int f0, const double *x, tens *t)
{
  int a, b, c, d;
  L(a) L(b) { jet j = ev(s->f+f0+S(a, b), x); t->g[a][b] = j.v; L(c) { t->d[c][a][b] = j.d[c]; L(d) t->dd[c][d][a][b] = j.dd[c][d]; } }
}
static double inv3(double m[3][3], double i[3][3])
{
  int a, b; double det = 0;
  L(a) det += m[0][a]*(m[1][(a+1)%3]*m[2][(a+2)%3] - m[1][(a+2)%3]*m[2][(a+1)%3]);
  L(a) L(b) i[b][a] = (m[(a+1)%3][(b+1)%3]*m[(a+2)%3][(b+2)%3] - m[(a+1)%3][(b+2)%3]*m[(a+2)%3][(b+1)%3])/det;
  return det;
}
/* geometry of a metric */
typedef struct { double i[3][3], det, Gd[3][3][3], G[3][3][3], R[3][3], R0; } geo;
static void geom(const tens *t, geo *q)
{
  int a, b, c, d, e;
  q->det = inv3((double(*)[3])t->g, q->i);
  L(c) L(a) L(b) q->Gd[c][a][b] = 0.5*(t->d[a][b][c] + t->d[b][a][c] - t->d[c][a][b]);
  L(c) L(a) L(b) { q->G[c][a][b] = 0; L(d) q->G[c][a][b] += q->i[c][d]*q->Gd[d][a][b]; }
  q->R0 = 0;
  /* R_ab = d_c G^c_ab - d_b G^c_ac + G^c_ce G^e_ab - G^c_be G^e_ac */
  {
    double dG[3][3][3][3], di[3][3][3]; int f;   /* dG[e][c][a][b] = d_e G^c_ab */
    L(e) L(a) L(b) { di[e][a][b] = 0; L(c) L(d) di[e][a][b] -= q->i[a][c]*q->i[b][d]*t->d[e][c][d]; }
    L(e) L(c) L(a) L(b)
    { dG[e][c][a][b] = 0; L(f) dG[e][c][a][b] += di[e][c][f]*q->Gd[f][a][b] + q->i[c][f]*0.5*(t->dd[e][a][b][f] + t->dd[e][b][a][f] - t->dd[e][f][a][b]); }
    L(a) L(b)
    { q->R[a][b] = 0; L(c) { q->R[a][b] += dG[c][c][a][b] - dG[b][c][a][c]; L(e) q->R[a][b] += q->G[c][c][e]*q->G[e][a][b] - q->G[c][b][e]*q->G[e][a][c]; } }
  }
  L(a) L(b) q->R0 += q->i[a][b]*q->R[a][b];
}

/* ------------------------------------------------------------------ */
static struct { double forceK, Yo, Hf, psip, f, w, spsi, sal, sco, sdr, sst; int DD, Azz, gzz, subA, norm, Gdg, freeze, gentle, cons, opl, opl2, wsh, har, subK0, lie, add, dens, densws, g0, g2; } O;
static const char *word(const char *list, const char *w) { static char b[600]; char *t; snprintf(b, 599, "%s", list); for(t = strtok(b, " "); t; t = strtok(NULL, " ")) if(!strcmp(t, w)) return w; return NULL; }
static void getopts(void)
{
  char *l = Gets("BSSN_lapse"), *s = Gets("BSSN_shift"), *d = Gets("BSSN_densitizedLapse");
  O.forceK = word(Gets("BSSN_forceKzero"), "no") ? 1 : 0;
  O.Azz = !!word(Gets("BSSN_recomputeAzz"), "yes"); O.gzz = !!word(Gets("BSSN_recomputegzz"), "yes"); O.subA = !!word(Gets("BSSN_subtractA"), "yes"); O.norm = !!word(Gets("BSSN_normalizedetg"), "yes");
  O.Gdg = !!word(Gets("BSSN_GReplacedBydg"), "yes"); O.freeze = !!word(Gets("BSSN_freezeGamma"), "yes"); O.gentle = !!word(Gets("BSSN_GentlePhiRHS"), "yes");
  O.Yo = Getd("BSSN_YoTermFactor"); O.Hf = Getd("BSSN_RtoRminusHfactor"); O.psip = Getd("BSSN_lapsepsipower"); O.f = Getd("BSSN_lapseharmonicf");
  O.cons = !!word(l, "constant"); O.opl = !!word(l, "1+log"); O.opl2 = !!word(l, "1+log2"); O.wsh = !!word(l, "withshift"); O.har = !!word(l, "harmonic"); O.lie = !!word(l, "addliealpha"); O.add = !!word(l, "addalphaRHSterm");
  O.subK0 = !!word(Gets("BSSN_subtractK0"), "yes");
  O.dens = !word(d, "no"); O.densws = !!word(d, "1+log_withoutShift"); O.w = Getd("BSSN_alphaDensityWeight");
  O.g0 = !!word(s, "gamma0"); O.g2 = !!word(s, "gamma2"); O.sst = Getd("BSSN_shift_stop_time");
  O.spsi = Getd("BSSN_shiftpsipower"); O.sal = Getd("BSSN_shiftalphapower"); O.sco = Getd("BSSN_shiftgammacoeff"); O.sdr = Getd("BSSN_shiftdriver");
}
/* the BSSN equations with a time independent conformal factor psi: f = phi + log psi */
static void bssn(const state *s, const state *p, const double *x, double dt, double time, double *n)
{
  tens g, A; geo q; jet phi = ev(s->f+F_phi, x), psi = ev(s->f+F_psi, x), K = ev(s->f+F_K, x), al = ev(s->f+F_al, x), G[3], be[3], B[3], aD = ev(s->f+F_aD, x), K0 = ev(s->f+F_K0, x), aR = ev(s->f+F_aRHS, x);
  int a, b, c, d; double f, df[3], ddf[3][3], Gg[3], U[3], R[3][3], Rp[3][3], cdf[3][3], trcdf = 0, df2 = 0, ep, cda[3][3], trcda = 0, dadf = 0, AA[3][3], A2 = 0, Au[3][3], divA[3], ham, trR = 0, Rs, divb = 0, ddivb[3], rg[3][3], rA[3][3], rG[3], rK, rphi, liephi, ral, raD = 0, betaF, es, r[NF], ns[NF];
  symt(s, F_g, x, &g); symt(s, F_A, x, &A); geom(&g, &q);
  L(a) { G[a] = ev(s->f+F_G+a, x); be[a] = ev(s->f+F_be+a, x); B[a] = ev(s->f+F_B+a, x); }
  K.v *= O.forceK; L(a) K.d[a] *= O.forceK;
  L(a) { Gg[a] = 0; L(b) L(c) Gg[a] += q.i[b][c]*q.G[a][b][c]; U[a] = O.Gdg ? Gg[a] : G[a].v; }
  /* conformal Ricci tensor with the connection functions as variables */
  L(a) L(b)
  {
    R[a][b] = 0;
    L(c) L(d) { int e; double s1 = -0.5*g.dd[c][d][a][b]; L(e) s1 += q.G[e][c][a]*q.Gd[b][e][d] + q.G[e][c][b]*q.Gd[a][e][d] + q.G[e][a][d]*q.Gd[e][c][b]; R[a][b] += q.i[c][d]*s1; }
    L(c) R[a][b] += 0.5*(g.g[c][a]*G[c].d[b] + g.g[c][b]*G[c].d[a] + U[c]*(q.Gd[a][b][c] + q.Gd[b][a][c]));
  }
  f = phi.v + log(psi.v); ep = exp(-4*f);
  L(a) df[a] = phi.d[a] + psi.d[a]/psi.v;
  L(a) L(b) ddf[a][b] = phi.dd[a][b] + psi.dd[a][b]/psi.v - psi.d[a]*psi.d[b]/(psi.v*psi.v);
  L(a) L(b) { cdf[a][b] = ddf[a][b]; L(c) cdf[a][b] -= q.G[c][a][b]*df[c]; trcdf += q.i[a][b]*cdf[a][b]; df2 += q.i[a][b]*df[a]*df[b]; dadf += q.i[a][b]*df[a]*al.d[b]; }
  L(a) L(b) Rp[a][b] = 4*df[a]*df[b] - 2*cdf[a][b] - 2*g.g[a][b]*trcdf - 4*g.g[a][b]*df2;
  L(a) L(b) { cda[a][b] = al.dd[a][b] - 2*(df[a]*al.d[b] + df[b]*al.d[a] - g.g[a][b]*dadf); L(c) cda[a][b] -= q.G[c][a][b]*al.d[c]; trcda += ep*q.i[a][b]*cda[a][b]; }
  L(a) L(b) { AA[a][b] = Au[a][b] = 0; L(c) L(d) { AA[a][b] += q.i[c][d]*A.g[a][c]*A.g[d][b]; Au[a][b] += q.i[a][c]*q.i[b][d]*A.g[c][d]; } }
  L(a) L(b) { A2 += q.i[a][b]*AA[a][b]; trR += ep*q.i[a][b]*(R[a][b] + Rp[a][b]); }
  L(a) { divA[a] = 0; L(b) { divA[a] += 2./3*q.i[a][b]*K.d[b] - 6*Au[a][b]*df[b]; L(c) divA[a] -= q.G[a][b][c]*Au[b][c]; } }
  ham = trR + 2./3*K.v*K.v - A2;
  Rs = trR - O.Hf*ham;
  L(a) { divb += be[a].d[a]; ddivb[a] = 0; L(b) ddivb[a] += be[b].dd[a][b]/3; }
  L(a) L(b)
  {
    double lg = -2./3*g.g[a][b]*divb, lA = -2./3*A.g[a][b]*divb;
    L(c) { lg += be[c].v*g.d[c][a][b] + be[c].d[a]*g.g[b][c] + be[c].d[b]*g.g[a][c]; lA += be[c].v*A.d[c][a][b] + be[c].d[a]*A.g[b][c] + be[c].d[b]*A.g[a][c]; }
    rg[a][b] = -2*al.v*A.g[a][b] + lg;
    rA[a][b] = ep*(-cda[a][b] + al.v*(R[a][b] + Rp[a][b])) - g.g[a][b]/3*(-trcda + al.v*Rs) + al.v*(K.v*A.g[a][b] - 2*AA[a][b]) + lA;
  }
  L(a)
  {
    double v = -2*al.v*divA[a] + 2./3*U[a]*divb - O.Yo*(G[a].v - Gg[a])*divb;
    L(b) { v += -2*Au[a][b]*al.d[b] + q.i[a][b]*ddivb[b] - U[b]*be[a].d[b] + be[b].v*G[a].d[b]; L(c) v += q.i[b][c]*be[a].dd[b][c]; }
    rG[a] = O.freeze ? 0 : v;
  }
  liephi = divb/6; L(a) liephi += be[a].v*df[a];
  rK = -trcda + al.v*(A2 + K.v*K.v/3); L(a) rK += be[a].v*K.d[a];
  rphi = -al.v*K.v/6 + liephi;
  if(O.gentle && K.v*K.v > fabs(ham)) rphi = al.v*(trR - A2)/(4*K.v) + liephi;
  {
    double r0 = (6*(O.wsh ? liephi : 0) - al.v*(K.v - (O.subK0 ? K0.v : 0)))*pow(psi.v, O.psip);
    ral = O.cons ? 0 : r0*((O.opl ? O.f : 0) + (O.opl2 ? 8./3/(3-al.v) : 0) + (O.har ? al.v : 0));
    if(O.lie) L(a) ral += be[a].v*al.d[a];
    if(O.add) ral += aR.v;
  }
  if(O.dens)
  {
    raD = exp(-6*O.w*f)*ral - 6*O.w*aD.v*rphi;
    if(O.densws) raD = aD.v*(O.f/al.v*pow(psi.v, O.psip) - O.w)*(-al.v*(K.v - (O.subK0 ? K0.v : 0)));
    if(O.cons) raD = 0;
  }
  es = (O.sst >= 0 && time >= O.sst) ? 0 : 1;
  betaF = O.sco*pow(al.v, O.sal)/pow(psi.v, O.spsi);
  L(a) L(b) { r[F_g+S(a, b)] = rg[a][b]; r[F_A+S(a, b)] = rA[a][b]; }
  L(a) { r[F_G+a] = rG[a]; r[F_be+a] = es*(O.g2 + O.g0*betaF)*B[a].v; r[F_B+a] = es*((O.g0 + O.g2*betaF)*rG[a] - O.sdr*B[a].v); }
  r[F_phi] = rphi; r[F_K] = rK; r[F_al] = ral; r[F_aD] = raD;
  if(dt == 0) { for(a = 0; a < 25; a++) n[a] = r[a]; n[F_K] *= O.forceK; if(!O.dens) n[F_aD] = NAN; return; }
  for(a = 0; a < 25; a++) { ns[a] = ev(p->f+a, x).v + dt*r[a]; }
  ns[F_K] *= O.forceK;
  if(O.dens) ns[F_al] = ns[F_aD]*exp(6*O.w*(ns[F_phi] + log(psi.v))); else ns[F_aD] = NAN;
  if(O.gzz) ns[5] = 1 + (ns[3]*ns[2]*ns[2] - 2*ns[1]*ns[4]*ns[2] + ns[0]*ns[4]*ns[4])/(ns[0]*ns[3] - ns[1]*ns[1]);
  {
    double m[3][3], im[3][3], det, tr = 0, u;
    L(a) L(b) m[a][b] = ns[S(a, b)];
    det = inv3(m, im);
    if(O.Azz) { u = 0; L(a) L(b) if(a < 2 || b < 2) u += im[a][b]*ns[F_A+S(a, b)]; ns[F_A+5] = -u/im[2][2]; }
    if(O.subA) { L(a) L(b) tr += im[a][b]*ns[F_A+S(a, b)]; for(a = 0; a < 6; a++) ns[F_A+a] -= tr/3*ns[a]; }
    if(O.norm) for(a = 0; a < 6; a++) ns[a] *= pow(det, -1./3);
  }
  for(a = 0; a < 25; a++) n[a] = ns[a];
}
/* ------------------------------------------------------------------ */
static tVarList *Bnew, *Bpre, *Znew, *Zpre, *Snew, *Spre, *Svars;
static void names(void) {}
static void setpt(int b, int i, double *x) { x[0] = g->box[b]->v[Ind("x")][i]; x[1] = g->box[b]->v[Ind("y")][i]; x[2] = g->box[b]->v[Ind("z")][i]; }
static void putpsi(const state *s)
{
  int b, i, a, c;
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { double x[3]; jet j; setpt(b, i, x); j = ev(s->f+F_psi, x); vlldataptr(psiandderivs, box, 0)[i] = j.v; L(a) vlldataptr(psiandderivs, box, 1+a)[i] = j.d[a]/j.v; L(a) for(c = a; c < 3; c++) vlldataptr(psiandderivs, box, 4+S(a, c))[i] = j.dd[a][c]/j.v; vlldataptr(K_initial, box, 0)[i] = ev(s->f+F_K0, x).v; box->v[Ind("BSSN_alphaRHSterm")][i] = ev(s->f+F_aRHS, x).v; } }
}
static void putvl(tVarList *vl, const state *s, const int *map, int n)
{ int b, i, k; forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { double x[3]; setpt(b, i, x); for(k = 0; k < n; k++) vlldataptr(vl, box, k)[i] = ev(s->f+map[k], x).v; } } }
static const int IDMAP[25] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24};
/* order of the Z4 list: g K Theta Z alpha beta B; Theta in F_phi, Z in F_G, K in F_A */
static const int ZMAP[20] = {0,1,2,3,4,5, 7,8,9,10,11,12, 6, 14,15,16, 17, 18,19,20};
static char ctx[600];
static int close_(double a, double b, double scale) { return a == b || (fabs(a-b) <= 1e-8*scale) ; }

static void run_bssn(const state *s, const state *p, double dt)
{
  int b, i, k, nb = 0, rc;
  putpsi(s); putvl(BSSNvars, s, IDMAP, 25); putvl(Bpre, p, IDMAP, 25);
  getopts();
  vh_at("BSSN %s dt %g", ctx, dt);
  VH_TRY { BSSN_rhs(Bnew, Bpre, dt, BSSNvars); VH_END; rc = 0; } else rc = 1;
  vh_evals++; vh_states++; vh_distinct++;
  if(rc) { vh_fail("exit", "BSSN_rhs exits [%s dt %g]", ctx, dt); return; }
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i)
  {
    double x[3], w[25]; setpt(b, i, x);
    bssn(s, p, x, dt, g->time, w);
    vh_trans++;
    for(k = 0; k < 25; k++) { double v; if(w[k] != w[k]) continue; v = vlldataptr(Bnew, box, k)[i]; if(!close_(v, w[k], 1+fabs(w[k])) && nb++ < 1) vh_fail("bssn", "%s is %.15g, expected %.15g at point %d [%s dt %g]", VarName(BSSNvars->index[k]), v, w[k], i, ctx, dt); }
  } }
}
/* Z4 */
static void run_z4(const state *s, const state *p, double dt)
{
  int b, i, k, nb = 0, rc; char *l = Gets("Z4secondO_lapse"); double Hf = Getd("Z4secondO_RtoRminusHfactor"), k1 = Getd("Z4secondO_kappa1"), k2 = Getd("Z4secondO_kappa2"), lf = Getd("Z4secondO_lapseharmonicf"), lm = Getd("Z4secondO_lapseharmonicm"), lp = Getd("Z4secondO_lapsepsipower");
  int subK0 = !!word(Gets("Z4secondO_subtractK0"), "yes"), cons = !!word(l, "constant"), opl = !!word(l, "1+log"), har = !!word(l, "harmonic"), wsh = !!word(l, "withshift");
  putpsi(s); putvl(Z4secondOvars, s, ZMAP, 20); putvl(Zpre, p, ZMAP, 20);
  for(k = 20; k < 23; k++) forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { vlldataptr(Z4secondOvars, box, k)[i] = 3; vlldataptr(Zpre, box, k)[i] = 5; } }
  vh_at("Z4 %s dt %g", ctx, dt);
  VH_TRY { Z4secondO_rhs(Znew, Zpre, dt, Z4secondOvars); VH_END; rc = 0; } else rc = 1;
  vh_evals++; vh_states++; vh_distinct++;
  if(rc) { vh_fail("exit", "Z4secondO_rhs exits [%s dt %g]", ctx, dt); return; }
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i)
  {
    double x[3], w[23], trK = 0, KK[3][3], trKK = 0, ham, R, divZ = 0, ZdA = 0; tens gg, K; geo q; jet Th, Z[3], al, be[3], psi; int a, c, d, e;
    setpt(b, i, x); vh_trans++;
    symt(s, F_g, x, &gg); symt(s, F_A, x, &K); geom(&gg, &q);
    Th = ev(s->f+F_phi, x); al = ev(s->f+F_al, x); psi = ev(s->f+F_psi, x); L(a) { Z[a] = ev(s->f+F_G+a, x); be[a] = ev(s->f+F_be+a, x); }
    L(a) L(c) { KK[a][c] = 0; L(d) L(e) KK[a][c] += q.i[d][e]*K.g[a][d]*K.g[e][c]; trK += q.i[a][c]*K.g[a][c]; }
    L(a) L(c) trKK += q.i[a][c]*KK[a][c];
    ham = q.R0 + trK*trK - trKK; R = q.R0 - Hf*ham;
#define CDZ(a, c) (Z[a].d[c] - q.G[0][a][c]*Z[0].v - q.G[1][a][c]*Z[1].v - q.G[2][a][c]*Z[2].v)
    L(a) L(c) { divZ += q.i[a][c]*CDZ(a, c); ZdA += q.i[a][c]*Z[a].v*al.d[c]; }
    L(a) for(c = a; c < 3; c++)
    {
      double lg = 0, lK = 0, cda = al.dd[a][c];
      L(d) { lg += be[d].v*gg.d[d][a][c] + be[d].d[a]*gg.g[c][d] + be[d].d[c]*gg.g[a][d]; lK += be[d].v*K.d[d][a][c] + be[d].d[a]*K.g[c][d] + be[d].d[c]*K.g[a][d]; cda -= q.G[d][a][c]*al.d[d]; }
      w[S(a, c)] = -2*al.v*K.g[a][c] + lg;
      w[6+S(a, c)] = -cda + al.v*(q.R[a][c] + CDZ(a, c) + CDZ(c, a) - 2*KK[a][c] + K.g[a][c]*(trK - 2*Th.v)) + lK;
    }
    w[12] = al.v/2*(R + 2*divZ + trK*(trK - 2*Th.v) - trKK) - ZdA - k1*Th.v; L(a) w[12] += be[a].v*Th.d[a];
    L(a)
    {
      double v = Th.d[a], lz = 0;
      L(c) L(d)
      {
        double cd1 = K.d[d][c][a], cd2 = K.d[a][c][d];   /* D_d K_ca and D_a K_cd */
        L(e) { cd1 -= q.G[e][d][c]*K.g[e][a] + q.G[e][d][a]*K.g[c][e]; cd2 -= q.G[e][a][c]*K.g[e][d] + q.G[e][a][d]*K.g[c][e]; }
        v += q.i[c][d]*(cd1 - cd2 - 2*K.g[a][c]*Z[d].v);
      }
      L(c) lz += be[c].v*Z[a].d[c] + be[c].d[a]*Z[c].v;
      w[13+a] = al.v*v - Th.v*al.d[a] + lz - k2*Z[a].v;
    }
    { double li = 0, r0 = -al.v*(trK - (subK0 ? ev(s->f+F_K0, x).v : 0) - lm*Th.v)*pow(psi.v, lp); L(a) li += be[a].v*al.d[a]; w[16] = cons ? 0 : (wsh ? li : 0) + ((opl ? lf : 0) + (har ? al.v : 0))*r0; }
    for(k = 17; k < 23; k++) w[k] = 0;
    if(dt != 0) for(k = 0; k < 23; k++) w[k] = (k < 20 ? ev(p->f+ZMAP[k], x).v : 5) + dt*w[k];
    for(k = 0; k < 23; k++) { double v = vlldataptr(Znew, box, k)[i]; if(!close_(v, w[k], 1+fabs(w[k])) && nb++ < 1) vh_fail("z4", "%s is %.15g, expected %.15g at point %d [%s dt %g]", VarName(Z4secondOvars->index[k]), v, w[k], i, ctx, dt); }
  } }
}
/* constraints; the physical metric is psi^4 g; rho, j, S in F_phi, F_G and a fixed tensor */
static tVarList *Cvl; static int Cn;
static void mkc(void)
{
  tVarList *vl = vlalloc(g); const char *o[] = {"ham", "momx", "trK", "dtrK_dt", "normham", "normmomx"}; int i;
  for(i = 0; i < 6; i++) { enablevar(g, Ind((char*)o[i])); }
  Cvl = vlalloc(g);
  vlpush(Cvl, Ind("gxx")); vlpush(Cvl, Ind("Kxx")); vlpush(Cvl, Ind("alpha")); vlpush(Cvl, Ind("betax")); vlpush(Cvl, Ind("rho")); vlpush(Cvl, Ind("jx")); vlpush(Cvl, Ind("Sxx"));
  Cn = Cvl->n;
  for(i = 0; i < 6; i++) vlpush(Cvl, Ind((char*)o[i]));
  vlfree(vl);
}
static void mkphys(const state *s, const double *x, tens *t)
{
  int a, b, c, d; tens q; jet p = ev(s->f+F_psi, x); double f = pow(p.v, 4), df[3], ddf[3][3];
  symt(s, F_g, x, &q);
  L(a) df[a] = 4*pow(p.v, 3)*p.d[a];
  L(a) L(b) ddf[a][b] = 4*pow(p.v, 3)*p.dd[a][b] + 12*p.v*p.v*p.d[a]*p.d[b];
  L(a) L(b) { t->g[a][b] = f*q.g[a][b]; L(c) { t->d[c][a][b] = f*q.d[c][a][b] + df[c]*q.g[a][b]; L(d) t->dd[c][d][a][b] = f*q.dd[c][d][a][b] + df[c]*q.d[d][a][b] + df[d]*q.d[c][a][b] + ddf[c][d]*q.g[a][b]; } }
}
static void run_con(const state *s, int mr, int mj, int mS)
{
  int b, i, k, nb = 0, rc, o = Cn, norm = !!word(Gets("ADMvars_normalizedConstraints"), "yes"), tbt = !!word(Gets("ADMvars_ConstraintNorm"), "TermByTerm"); static const int M[16] = {0,1,2,3,4,5,7,8,9,10,11,12,17,18,19,20};
  putpsi(s);
  for(k = 0; k < 3; k++) { const char *nm[] = {"rho", "jx", "Sxx"}; int on = k == 0 ? mr : k == 1 ? mj : mS; if(on) enablevar(g, Ind((char*)nm[k])); else disablevar(g, Ind((char*)nm[k])); }
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i)
  {
    double x[3]; setpt(b, i, x);
    for(k = 0; k < 16; k++) vlldataptr(Cvl, box, k)[i] = ev(s->f+M[k], x).v;
    if(mr) vlldataptr(Cvl, box, 16)[i] = ev(s->f+F_phi, x).v;
    if(mj) for(k = 0; k < 3; k++) vlldataptr(Cvl, box, 17+k)[i] = ev(s->f+F_G+k, x).v;
    if(mS) for(k = 0; k < 6; k++) vlldataptr(Cvl, box, 20+k)[i] = ev(s->f+F_A+(k+2)%6, x).v;
    for(k = o; k < Cvl->n; k++) vlldataptr(Cvl, box, k)[i] = 99;
  } }
  vh_at("constraints %s", ctx);
  VH_TRY { ADMconstraints(Cvl); VH_END; rc = 0; } else rc = 1;
  vh_evals++; vh_states++; vh_distinct++;
  if(rc) { vh_fail("exit", "ADMconstraints exits [%s]", ctx); return; }
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i)
  {
    double x[3], w[10], trK = 0, KK = 0, rho, al, cd[3][3][3], dK, tcda = 0, tS = 0, sc, den, den2, alt = 1, h1 = 1, h2 = 1; tens t, K; geo q; int a, c, d, e; jet A;
    setpt(b, i, x); vh_trans++;
    mkphys(s, x, &t); geom(&t, &q); symt(s, F_A, x, &K);
    rho = mr ? ev(s->f+F_phi, x).v : 0; A = ev(s->f+F_al, x); al = A.v;
    L(a) L(c) { trK += q.i[a][c]*K.g[a][c]; L(d) L(e) KK += q.i[a][d]*q.i[c][e]*K.g[a][c]*K.g[d][e]; tcda += q.i[a][c]*A.dd[a][c]; L(d) tcda -= q.i[a][c]*q.G[d][a][c]*A.d[d]; if(mS) tS += q.i[a][c]*ev(s->f+F_A+(S(a, c)+2)%6, x).v; }
    L(a) L(c) L(d) { cd[a][c][d] = K.d[a][c][d]; L(e) cd[a][c][d] -= q.G[e][a][c]*K.g[e][d] + q.G[e][a][d]*K.g[c][e]; }   /* D_a K_cd */
    w[0] = q.R0 + trK*trK - KK - 16*PI*rho;
    L(a) { w[1+a] = mj ? -8*PI*ev(s->f+F_G+a, x).v : 0; L(c) L(d) w[1+a] += q.i[c][d]*(cd[c][d][a] - cd[a][c][d]); }
    w[4] = trK;
    w[5] = -tcda + al*(q.R0 + trK*trK) + (mS ? al*4*PI*(tS - 3*rho) : 0);
    L(a) { dK = 0; L(c) L(d) dK += q.i[c][d]*cd[a][c][d]; w[5] += ev(s->f+F_be+a, x).v*dK; }
    for(k = 0; k < 6; k++) w[6+k] = NAN;
    if(norm)
    {
      if(tbt)
      {
        double RA = 0, RB = 0, RC = 0, RD = 0, dm = 0, dg = 0, RB1 = 0, RB2 = 0; int h;
        L(a) L(c) L(d) L(e) { double y = q.i[a][c]*q.i[d][e]; RA -= y*t.dd[d][e][a][c]; RB += y*t.dd[a][d][c][e]; RB1 += y*(a < c ? t.dd[a][d][c][e] : t.dd[c][d][a][e]); RB2 += y*(a > c ? t.dd[a][d][c][e] : t.dd[c][d][a][e]); L(h) { RC += y*q.G[h][a][d]*q.Gd[h][c][e]; RD -= y*q.G[h][a][c]*q.Gd[h][d][e]; } }
        den = fabs(RA)+fabs(RB)+fabs(RC)+fabs(RD)+trK*trK+fabs(KK)+fabs(16*PI*rho); if(den > 1e-6) { h1 = den/(den-fabs(RB)+fabs(RB1)); h2 = den/(den-fabs(RB)+fabs(RB2)); }
        L(a)
        {
          double s1 = 0, s2 = 0, s3 = 0, s4 = 0, t1 = 0, t2 = 0, t3 = 0, t4 = 0, mm;
L(c) L(d)
          { /* u..z: the equations as generated take the terms of D_a K_bc symmetric in b and c; both ways are accepted */
            int u = c < a ? c : a, v = c < a ? a : c, y = c < d ? c : d, z = c < d ? d : c;
            s1 += q.i[c][d]*K.d[d][c][a]; t1 += q.i[c][d]*K.d[a][c][d];
            L(e) { s2 -= q.i[c][d]*q.G[e][d][c]*K.g[e][a]; s3 -= q.i[c][d]*q.G[e][d][a]*K.g[c][e]; t2 -= q.i[c][d]*q.G[e][a][c]*K.g[e][d]; t3 -= q.i[c][d]*q.G[e][a][d]*K.g[c][e]; }
            L(e) { s4 -= q.i[c][d]*q.G[e][d][u]*K.g[e][v]; t4 -= q.i[c][d]*q.G[e][a][y]*K.g[e][z]; }
          }
          mm = fabs(s1)+fabs(t1) + (mj ? fabs(8*PI*ev(s->f+F_G+a, x).v) : 0);
          dm += mm+fabs(s2)+fabs(s3)+fabs(t2)+fabs(t3); dg += mm+2*fabs(s4)+2*fabs(t4);
        }
        den2 = dm; alt = dg > 1e-6 ? dm/dg : 1;
      }
      else
      {
        den = fabs(q.R0)+trK*trK+fabs(KK)+fabs(16*PI*rho); den2 = 0;
        L(a) { double s1 = 0, t1 = 0; L(c) L(d) { s1 += q.i[c][d]*cd[d][c][a]; t1 += q.i[c][d]*cd[a][c][d]; } den2 += fabs(s1)+fabs(t1)+(mj ? fabs(8*PI*ev(s->f+F_G+a, x).v) : 0); }
      }
      if(den > 1e-6) w[6] = w[0]/den;
      if(den2 > 1e-6) L(a) w[7+a] = w[1+a]/den2;
    }
    for(k = 0; k < 10; k++) { double v; if(w[k] != w[k]) continue; v = vlldataptr(Cvl, box, o+k)[i]; sc = 1+fabs(w[k])+fabs(q.R0)+KK; if(!close_(v, w[k], k < 6 ? sc : sc+100) && !(k > 6 && close_(v, w[k]*alt, sc+100)) && !(k == 6 && (close_(v, w[k]*h1, sc+100) || close_(v, w[k]*h2, sc+100))) && nb++ < 1) vh_fail("constraints", "%s is %.15g, expected %.15g at point %d [%s]", VarName(Cvl->index[o+k]), v, w[k], i, ctx); }
  } }
}
/* ------------------------------------------------------------------ */
/* states */
static void flat(state *s) { memset(s, 0, sizeof *s); s->f[0].c[0] = s->f[3].c[0] = s->f[5].c[0] = 1; s->f[F_al].c[0] = 1; s->f[F_psi].c[0] = 1; s->f[F_aD].c[0] = 1; }
static void backg(state *s) /* constants without symmetry */
{ int k; flat(s); for(k = 0; k < NF; k++) s->f[k].c[0] += 0.01*((k*7)%11-5) + 0.003*k; s->f[F_psi].c[0] = 1.1; s->f[F_al].c[0] = 0.8; }
static void dense(state *s, int n)
{
  int k, m; flat(s);
  for(k = 0; k < NF; k++) for(m = 0; m < 10; m++) s->f[k].c[m] += 0.012*((((k+1)*(m+2)*(n+3)*7 + k*k + 5*m + n*m*m) % 23) - 11)*(m > 3 ? 0.5 : 1);
  if(n & 1) s->f[F_K].c[0] += 0.9;
}
static void setdef(void)
{
  const char *P[][2] = {{"BSSN_useDD","no"},{"BSSN_forceKzero","no"},{"BSSN_recomputeAzz","no"},{"BSSN_recomputegzz","no"},{"BSSN_subtractA","no"},{"BSSN_normalizedetg","no"},{"BSSN_YoTermFactor","0"},{"BSSN_GReplacedBydg","yes"},{"BSSN_freezeGamma","no"},{"BSSN_RtoRminusHfactor","1"},{"BSSN_GentlePhiRHS","no"},{"BSSN_lapsepsipower","0"},{"BSSN_lapseharmonicf","2"},{"BSSN_subtractK0","yes"},{"BSSN_shiftpsipower","0"},{"BSSN_shiftalphapower","0"},{"BSSN_shiftgammacoeff","0.75"},{"BSSN_shiftdriver","0"},{"BSSN_shift","constant"},{"BSSN_lapse","constant"},{"BSSN_shift_stop_time","-1.0"},{"BSSN_densitizedLapse","no"},{"BSSN_alphaDensityWeight","1.0"},
   {"Z4secondO_useDD","yes"},{"Z4secondO_RtoRminusHfactor","0"},{"Z4secondO_kappa1","0"},{"Z4secondO_kappa2","0"},{"Z4secondO_lapsepsipower","0"},{"Z4secondO_lapseharmonicf","2"},{"Z4secondO_lapseharmonicm","0"},{"Z4secondO_subtractK0","no"},{"Z4secondO_shift","constant"},{"Z4secondO_lapse","constant"},{"ADMvars_useDD","no"},{"ADMvars_ConstraintNorm","TermByTerm"}};
  int i; for(i = 0; i < (int)(sizeof(P)/sizeof(P[0])); i++) AddOrModifyPar((char*)P[i][0], (char*)P[i][1], "");
  g->time = 0;
}
static void mk(const char *norm, int n1, int n2, int n3, int nb)
{
  int b;
  vg_begin(nb);
  vg_par("physics", "ADMvars BSSN Z4secondO ScalarWave SingleBH TestID");
  vg_par("ADMvars_normalizedConstraints", "%s", norm);
  for(b = 0; b < nb; b++) { vg_box(b, n1, n2, n3, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, -0.5+b, 0.5+b, -0.6, 0.4, -0.3, 0.5); vg_bpar(b, "Coordinates", "Cartesian"); }
  vg_par("BHmass1", "1");
  vg_libs();
  g = vg_make();
  vg_coords(g);
}
static void prep(void)
{
  state s; int k; 
  enablevar(g, Ind("gxx")); enablevar(g, Ind("Kxx")); enablevar(g, Ind("alpha")); enablevar(g, Ind("betax")); enablevar(g, Ind("betadotx"));
  psiandderivs->grid = g; enablevarlist(psiandderivs); K_initial->grid = g; enablevarlist(K_initial); enablevar(g, Ind("BSSN_alphaRHSterm"));
  flat(&s); putpsi(&s);
  { int b, i; forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { for(k = 0; k < 6; k++) { box->v[Ind("gxx")+k][i] = s.f[k].c[0]; box->v[Ind("Kxx")+k][i] = 0; } box->v[Ind("alpha")][i] = 1; for(k = 0; k < 3; k++) box->v[Ind("betax")+k][i] = box->v[Ind("betadotx")+k][i] = 0; } } }
  BSSN_startup(g);
  set_K_initial(g);
  Bnew = AddDuplicateEnable(BSSNvars, "_n"); Bpre = AddDuplicateEnable(BSSNvars, "_p");
}
static void prepZ(void)
{ Z4secondO_startup(g); Znew = AddDuplicateEnable(Z4secondOvars, "_zn"); Zpre = AddDuplicateEnable(Z4secondOvars, "_zp"); }

/* ------------------------------------------------------------------ */
static void alg(int sub, int nrm)
{
  static const double V[] = {-0.3, 0, 0.2}, D[] = {0.7, 1, 1.9}; int c, a, b, i, k, nb = 0, done = 0, rc, np = g->box[0]->nnodes;
  double m[3][3], im[3][3], *gp[6], *Ap[6], in[12][4096];
  AddOrModifyPar("BSSN_subtractA", sub ? "yes" : "no", ""); AddOrModifyPar("BSSN_normalizedetg", nrm ? "yes" : "no", "");
  for(k = 0; k < 6; k++) { gp[k] = g->box[0]->v[Ind("BSSN_gxx")+k]; Ap[k] = g->box[0]->v[Ind("BSSN_Axx")+k]; }
  /* all lattice points, np at a time */
  for(c = 0; c < 729; )
  {
    for(i = 0; i < np; i++, c++)
    {
      int q = c % 729; 
      for(k = 0; k < 6; k++) { int y = q%3; q /= 3; in[k][i] = gp[k][i] = (k == 0 || k == 3 || k == 5) ? D[y] : V[y]; }
      for(k = 0; k < 6; k++) in[6+k][i] = Ap[k][i] = 0.1*((c*(k+3)+k*k+1)%13-6);
      L(a) L(b) m[a][b] = in[S(a, b)][i];
      if(!(inv3(m, im) > 0.01)) for(k = 0; k < 6; k++) in[k][i] = gp[k][i] = (k == 0 || k == 3 || k == 5) ? 1.5 : 0.1*k;
    }
    VH_TRY { BSSN_enforce_AlgConstr(g); VH_END; rc = 0; } else rc = 1;
    if(rc) { vh_fail("exit", "BSSN_enforce_AlgConstr exits"); return; }
    for(i = 0; i < np; i++)
    {
      double det, tr = 0, tr0 = 0, f;
      L(a) L(b) m[a][b] = in[S(a, b)][i]; det = inv3(m, im); f = nrm ? pow(det, -1./3) : 1;
      vh_evals++; vh_states++; vh_distinct++; vh_trans++;
      L(a) L(b) tr0 += im[a][b]*in[6+S(a, b)][i]/f;
      for(k = 0; k < 6; k++)
      {
        double w = in[k][i]*f, wA = in[6+k][i] - (sub ? tr0/3*w : 0);
        if((!close_(gp[k][i], w, 1) || !close_(Ap[k][i], wA, 1)) && nb++ < 1) vh_fail("algebraic", "component %d: metric %.15g expected %.15g, A %.15g expected %.15g (subtract %d normalize %d, metric %g %g %g %g %g %g)", k, gp[k][i], w, Ap[k][i], wA, sub, nrm, in[0][i], in[1][i], in[2][i], in[3][i], in[4][i], in[5][i]);
      }
    }
  }
}
/* ADM -> BSSN -> ADM, and the definitions */
static void convert(const state *s, const char *what)
{
  int b, i, k, a, c, d, nb = 0, rc; double w = Getd("BSSN_alphaDensityWeight"), eps = 0;
  for(k = 0; k < 6; k++) for(a = 1; a < 10; a++) if(fabs(s->f[k].c[a]) > eps) eps = fabs(s->f[k].c[a]);
  putpsi(s);
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { double x[3]; setpt(b, i, x); for(k = 0; k < 6; k++) { box->v[Ind("gxx")+k][i] = ev(s->f+k, x).v; box->v[Ind("Kxx")+k][i] = ev(s->f+F_A+k, x).v; } box->v[Ind("alpha")][i] = ev(s->f+F_al, x).v; for(k = 0; k < 3; k++) box->v[Ind("betax")+k][i] = ev(s->f+F_be+k, x).v; } }
  VH_TRY { BSSN_startup(g); VH_END; rc = 0; } else rc = 1;
  vh_evals++; vh_states++; vh_distinct++;
  if(rc) { vh_fail("exit", "BSSN_startup exits [%s]", what); return; }
  forallboxes(g, b) { tBox *box = g->box[b]; 
    double *gi[3][3]; 
    forallpoints(box, i)
    {
      double x[3], det, m[3][3], im[3][3], psi, trK = 0, p; tens t; 
      setpt(b, i, x); vh_trans++;
      symt(s, F_g, x, &t); det = inv3(t.g, im); psi = ev(s->f+F_psi, x).v; p = pow(det, -1./3);
      L(a) L(c) trK += im[a][c]*ev(s->f+F_A+S(a, c), x).v/pow(psi, 4);
#define CK(nm, v, e) if(!close_(v, e, 1+fabs(e)) && nb++ < 1) vh_fail("convert", "%s is %.15g, expected %.15g [%s]", nm, v, e, what)
      CK("phi", box->v[Ind("BSSN_phi")][i], log(det)/12);
      CK("K", box->v[Ind("BSSN_K")][i], trK);
      CK("alphaDensity", box->v[Ind("BSSN_alphaDensity")][i], ev(s->f+F_al, x).v*pow(det*pow(psi, 12), -w/2));
      for(k = 0; k < 6; k++) { CK("conformal metric", box->v[Ind("BSSN_gxx")+k][i], p*ev(s->f+k, x).v); CK("A", box->v[Ind("BSSN_Axx")+k][i], p/pow(psi, 4)*ev(s->f+F_A+k, x).v - p*ev(s->f+k, x).v*trK/3); }
      /* G^a = - d_b gtilde^ab, with d gtilde = p dg - p/3 (tr g^-1 dg) g */
      L(a)
      {
        double G = 0; int e, f;
        L(c) { double dlog = 0; L(e) L(f) dlog += im[e][f]*t.d[c][e][f]; L(d) L(e) { double dgt = p*(t.d[c][d][e] - dlog/3*t.g[d][e]); G += im[a][d]/p*im[c][e]/p*dgt; } }
        if(fabs(box->v[Ind("BSSN_Gx")+a][i] - G) > 1e-9+20*eps*eps && nb++ < 1) vh_fail("convert", "G%d is %.15g, expected %.15g [%s]", a, box->v[Ind("BSSN_Gx")+a][i], G, what);
      }
    }
  }
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i)
  {
    double x[3], im[3][3], trK = 0, w1; tens t; jet al; setpt(b, i, x); symt(s, F_g, x, &t); inv3(t.g, im); al = ev(s->f+F_al, x);
    L(a) L(c) trK += im[a][c]*ev(s->f+F_A+S(a, c), x).v/pow(ev(s->f+F_psi, x).v, 4);
    w1 = al.v*al.v*trK; L(a) w1 -= ev(s->f+F_be+a, x).v*al.d[a];
    CK("BSSN_alphaRHSterm", box->v[Ind("BSSN_alphaRHSterm")][i], w1);
  } }
  VH_TRY { BSSNtoADM(g); VH_END; rc = 0; } else rc = 1;
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { double x[3]; setpt(b, i, x); for(k = 0; k < 6; k++) { CK("metric after conversion to BSSN and back", box->v[Ind("gxx")+k][i], ev(s->f+k, x).v); CK("extrinsic curvature after conversion to BSSN and back", box->v[Ind("Kxx")+k][i], ev(s->f+F_A+k, x).v); } } }
}
/* largest right hand side of a list */
static double maxvl(tVarList *vl, int k0, int k1, int *which)
{
  int b, i, k; double m = 0;
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) for(k = k0; k < k1; k++) { double v = fabs(vlldataptr(vl, box, k)[i]); if(!(v <= m)) { m = v; *which = vl->index[k]; } } }
  return m;
}
typedef struct { int kind; int n; double r0, r1, M, sx, sy, sz; int conf, cart; char msg[400]; double res[12]; } bhj;
static bhj *J;
/* analytic data: black holes (kind 0 KerrSchild, 1 isotropic), waves (2, 3) */
static void mkbh(void)
{
  vg_begin(1);
  vg_par("physics", "ADMvars BSSN Z4secondO SingleBH TestID");
  vg_par("ADMvars_normalizedConstraints", "yes");
  if(J->kind >= 2) { vg_box(0, J->n, 4, 4, "Fourier", "Fourier", "Fourier"); vg_lim(0, 0, 2, 0, 1, 0, 1); vg_bpar(0, "Coordinates", "Cartesian"); }
  else if(J->cart) { vg_box(0, J->n, J->n, J->n, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(0, 3, 4, -1, 0.5, 2, 3); vg_bpar(0, "Coordinates", "Cartesian"); }
  else { vg_box(0, J->n, 12, 12, "ChebExtrema", "Fourier", "Fourier"); vg_lim(0, J->r0, J->r1, 0, 2*PI, 0, 2*PI); vg_bpar(0, "Coordinates", "SphericalDF"); }
  vg_par("BHmass1", "%.17g", J->M); vg_par("BHsx1", "%.17g", J->sx); vg_par("BHsy1", "%.17g", J->sy); vg_par("BHsz1", "%.17g", J->sz);
  vg_par("SingleBH_type", J->kind == 1 ? "isotropic" : "KerrSchild"); vg_par("SingleBH_ConformalFactor", J->conf ? "yes" : "no");
  vg_par("TestID_type", J->kind == 3 ? "1dLinearWave" : "1dGaugeWave"); vg_par("TestID_amplitude", "%.17g", J->M);
  vg_par("BSSN_lapse", J->kind == 2 ? "harmonic" : "constant"); vg_par("BSSN_subtractA", "no"); vg_par("BSSN_subtractK0", "no");
  vg_par("Z4secondO_lapse", J->kind == 2 ? "harmonic" : "constant");
  vg_libs();
  g = vg_make();
  vg_coords(g);
  enablevar(g, Ind("betadotx"));
}
static void bh(void *arg)
{
  int w = 0, i, k; tBox *box; double dt = 1e-3;
  mkbh();
  box = g->box[0];
  if(J->kind < 2) SingleBH(g); else TestID(g);
  mkc();
  J->res[0] = J->res[1] = 0;
  ADMconstraints(Cvl);
  J->res[0] = maxvl(Cvl, Cn, Cn+4, &w); snprintf(J->msg, 399, "%s", VarName(w));
  BSSN_startup(g); Bnew = AddDuplicateEnable(BSSNvars, "_n"); Bpre = AddDuplicateEnable(BSSNvars, "_p");
  BSSN_rhs(Bnew, Bpre, 0.0, BSSNvars);
  Z4secondO_startup(g); Znew = AddDuplicateEnable(Z4secondOvars, "_zn"); Zpre = AddDuplicateEnable(Z4secondOvars, "_zp");
  forallpoints(box, i) for(k = 0; k < 4; k++) box->v[Ind("Z4secondO_Theta")+k][i] = 0;
  Z4secondO_rhs(Znew, Zpre, 0.0, Z4secondOvars);
  if(J->kind == 2 || J->kind == 3)
  { /* subtract the analytic time derivative of the solution that moves to the right */
    double *x = box->v[Ind("x")], A = J->M, kk = PI;   /* length 2 */
    forallpoints(box, i)
    {
      double a = A*sin(kk*x[i]), at = -A*kk*cos(kk*x[i]), att = -A*kk*kk*sin(kk*x[i]);
      double *Z;
      if(J->kind == 2)
      { /* g_xx = 1+a, alpha = sqrt(1+a), K_xx = -at/(2 sqrt(1+a)) */
        vlldataptr(Znew, box, 0)[i] -= at;
        vlldataptr(Znew, box, 6)[i] -= -att/(2*sqrt(1+a)) + at*at/(4*pow(1+a, 1.5));
        vlldataptr(Znew, box, 16)[i] -= at/(2*sqrt(1+a));
      }
      else
      {
        vlldataptr(Znew, box, 3)[i] -= at; vlldataptr(Znew, box, 5)[i] += at;
        vlldataptr(Znew, box, 9)[i] -= -att/2; vlldataptr(Znew, box, 11)[i] += -att/2;
      }
      if(J->kind == 2)
      { /* BSSN: phi = log(1+a)/12, K = K_xx/(1+a), lapse as above; conformal metric (1+a)^(2/3), (1+a)^(-1/3) */
        double p = pow(1+a, -1./3);
        vlldataptr(Bnew, box, 6)[i] -= at/(12*(1+a));
        vlldataptr(Bnew, box, 0)[i] -= 2./3*pow(1+a, -1./3)*at;
        vlldataptr(Bnew, box, 3)[i] -= -1./3*pow(1+a, -4./3)*at; vlldataptr(Bnew, box, 5)[i] -= -1./3*pow(1+a, -4./3)*at;
        vlldataptr(Bnew, box, 13)[i] -= -att/(2*pow(1+a, 1.5)) + 0.75*at*at/pow(1+a, 2.5);
        vlldataptr(Bnew, box, 17)[i] -= at/(2*sqrt(1+a));
      }
      else
      { vlldataptr(Bnew, box, 3)[i] -= at; vlldataptr(Bnew, box, 5)[i] += at; vlldataptr(Bnew, box, 10)[i] -= -att/2; vlldataptr(Bnew, box, 12)[i] += -att/2; }
    }
  }
  J->res[1] = maxvl(Bnew, 0, J->kind == 2 ? 7 : 14, &w); snprintf(J->msg+strlen(J->msg), 200, " %s", VarName(w));
  if(J->kind != 2) { J->res[2] = maxvl(Bnew, 14, 17, &w); snprintf(J->msg+strlen(J->msg), 200, " %s", VarName(w)); }
  else { J->res[2] = maxvl(Bnew, 13, 14, &w); k = w; J->res[5] = maxvl(Bnew, 17, 18, &w); if(J->res[5] > J->res[2]) { J->res[2] = J->res[5]; k = w; } snprintf(J->msg+strlen(J->msg), 200, " %s", VarName(k)); }
  J->res[3] = maxvl(Znew, 0, 17, &w); snprintf(J->msg+strlen(J->msg), 200, " %s", VarName(w));
}
static void energy(void *arg)
{
  tVarList *wl; tBox *box; int i, nb = 0; double *E, *X;
  mkbh(); box = g->box[0];
  SingleBH(g);
  enablevar(g, Ind("E_ADM"));
  wl = vlalloc(g); vlpush(wl, Ind("E_ADM")); vlpush(wl, Ind("gxx")); vlpush(wl, Ind("x")); vlpush(wl, Ind("y")); vlpush(wl, Ind("z")); vlpush(wl, Ind("psi")); vlpush(wl, Ind("dpsiopsix"));
  if(!J->conf || 1) ADMenergy_spheric_intergrand(wl);
  E = box->v[Ind("E_ADM")]; X = box->v[Ind("X")];
  spec_sphericalDF2dIntegral(box, E, E);
  J->res[0] = 0;
  forallpoints(box, i) { double w = J->M*pow(1+J->M/(2*X[i]), 7), d = fabs(E[i]-w); if(!(d <= J->res[0])) { J->res[0] = d; snprintf(J->msg, 399, "ADM energy at r=%g is %.12g, expected %.12g", X[i], E[i], w); } }
}
/* Kerr-Schild metric from its definition */
static void ks(double M, const double *Sp, const double *x, double *H, double *l)
{
  double a[3], a2 = 0, ax = 0, r2 = 0, R2, r, c; int k;
  L(k) { a[k] = Sp[k];   /* the spin parameters are the Kerr parameter a */  a2 += a[k]*a[k]; ax += a[k]*x[k]; r2 += x[k]*x[k]; }
  c = r2 - a2; R2 = 0.5*(c + sqrt(c*c + 4*ax*ax)); r = sqrt(R2);
  *H = M*r*R2/(R2*R2 + ax*ax);
  L(k) { int p = (k+1)%3, q = (k+2)%3; l[k] = (r*x[k] - (a[p]*x[q] - a[q]*x[p]) + ax*a[k]/r)/(R2 + a2); }
}
static void ksdata(void *arg)
{
  tBox *box; int i, a, b, c; double Sp[3] = {J->sx, J->sy, J->sz}, h = 1e-3; 
  mkbh(); box = g->box[0]; SingleBH(g);
  J->res[0] = J->res[1] = 0;
  forallpoints(box, i)
  {
    double x[3], H, l[3], al, be, m[3][3], psi = box->v[Ind("psi")][i], p4 = pow(psi, 4), dH[3], dl[3][3], K[3][3], dg[3][3][3], dbl[3][3], im[3][3], bl[3];
    setpt(0, i, x); ks(J->M, Sp, x, &H, l);
    al = 1/sqrt(1+2*H);
    L(c) { double y[3], h1, h2, h3, h4, l1[3], l2[3], l3[3], l4[3]; memcpy(y, x, sizeof y); y[c] = x[c]+h; ks(J->M, Sp, y, &h1, l1); y[c] = x[c]-h; ks(J->M, Sp, y, &h2, l2); y[c] = x[c]+2*h; ks(J->M, Sp, y, &h3, l3); y[c] = x[c]-2*h; ks(J->M, Sp, y, &h4, l4); dH[c] = (8*(h1-h2)-(h3-h4))/(12*h); L(a) dl[c][a] = (8*(l1[a]-l2[a])-(l3[a]-l4[a]))/(12*h); }
    L(a) L(b) m[a][b] = (a == b) + 2*H*l[a]*l[b];
    inv3(m, im);
    L(c) L(a) L(b) dg[c][a][b] = 2*dH[c]*l[a]*l[b] + 2*H*(dl[c][a]*l[b] + l[a]*dl[c][b]);
    L(a) bl[a] = 2*H*l[a];
    L(c) L(a) dbl[c][a] = 2*dH[c]*l[a] + 2*H*dl[c][a];
    L(a) L(b) { int d, e; K[a][b] = dbl[a][b] + dbl[b][a]; L(d) L(e) K[a][b] -= 2*im[d][e]*bl[d]*0.5*(dg[a][b][e] + dg[b][a][e] - dg[e][a][b]); K[a][b] /= 2*al; }
#define CM(nm, v, w, tol) { double d_ = fabs((v)-(w)); if(!(d_ <= (tol)) && !(d_ <= J->res[0])) { J->res[0] = d_; snprintf(J->msg, 399, "%s at %g %g %g is %.12g, expected %.12g", nm, x[0], x[1], x[2], v, w); } }
    L(a) for(b = a; b < 3; b++) { CM("metric", p4*box->v[Ind("gxx")+S(a, b)][i], m[a][b], 1e-10); CM("extrinsic curvature", box->v[Ind("Kxx")+S(a, b)][i], K[a][b], 1e-8); }
    CM("lapse", box->v[Ind("alpha")][i], al, 1e-11);
    L(a) CM("shift", box->v[Ind("betax")+a][i], 2*H*al*al*l[a], 1e-11);
    /* derivatives of psi = 1 unless the conformal factor is used */
    { double r = sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); if(!J->conf) { CM("psi", psi, 1.0, 1e-13); L(a) CM("dpsi/psi", box->v[Ind("dpsiopsix")+a][i], 0.0, 1e-13); } }
  }
}
/* the integrand of the ADM energy at every point of a general metric, and the initial trace of K */
static void run_energy(const state *s)
{
  int b, i, k, nb = 0, rc; static tVarList *El; 
  if(!El) { enablevar(g, Ind("E_ADM")); enablevar(g, Ind("gxx")); El = vlalloc(g); vlpush(El, Ind("E_ADM")); vlpush(El, Ind("gxx")); vlpush(El, Ind("x")); vlpush(El, Ind("y")); vlpush(El, Ind("z")); vlpush(El, Ind("psi")); vlpush(El, Ind("dpsiopsix")); }
  putpsi(s);
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { double x[3]; setpt(b, i, x); for(k = 0; k < 6; k++) { box->v[Ind("gxx")+k][i] = ev(s->f+k, x).v; box->v[Ind("Kxx")+k][i] = ev(s->f+F_A+k, x).v; } box->v[Ind("E_ADM")][i] = 99; box->v[Ind("K_initial")][i] = 99; } }
  vh_at("energy %s", ctx);
  VH_TRY { ADMenergy_spheric_intergrand(El); set_K_initial(g); VH_END; rc = 0; } else rc = 1;
  vh_evals += 2; vh_states++; vh_distinct++;
  if(rc) { vh_fail("exit", "ADMenergy_spheric_intergrand or set_K_initial exits [%s]", ctx); return; }
  forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i)
  {
    double x[3], im[3][3], r, w = 0, det, trK = 0; tens t; int a, c, d, e;
    setpt(b, i, x); vh_trans++; mkphys(s, x, &t); det = inv3(t.g, im); r = sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]);
    L(a) L(c) trK += im[a][c]*ev(s->f+F_A+S(a, c), x).v;
    if(!close_(box->v[Ind("K_initial")][i], trK, 1+fabs(trK)) && nb++ < 1) vh_fail("energy", "K_initial is %.15g, expected %.15g at point %d [%s]", box->v[Ind("K_initial")][i], trK, i, ctx);
    if(r < 1e-8) continue;
    L(a) L(c) L(d) L(e) w += im[a][c]*im[d][e]*(t.d[e][c][d] - t.d[c][d][e])*x[a]/r;
    w *= det/(16*PI);
    if(!close_(box->v[Ind("E_ADM")][i], w, 1+fabs(w)) && nb++ < 1) vh_fail("energy", "the integrand of the ADM energy is %.15g, expected %.15g at point %d [%s]", box->v[Ind("E_ADM")][i], w, i, ctx);
  } }
}
/* the analysis function computes the constraints when output of them is due */
static void analysis(void *arg)
{
  int i, k; tVarList *vl; const char *o[] = {"ham", "momx", "momy", "momz", "trK", "dtrK_dt", "normham", "normmomx"}; tBox *box; double *sv[8];
  mkbh(); box = g->box[0]; SingleBH(g);
  mkc(); ADMconstraints(Cvl);
  for(k = 0; k < 8; k++) { double *p = box->v[Ind((char*)o[k])]; sv[k] = calloc(box->nnodes, 8); memcpy(sv[k], p, box->nnodes*8); forallpoints(box, i) p[i] = 77; }
  AddOrModifyPar("0doutput", "ham", ""); AddOrModifyPar("0doutiter", "2", ""); AddOrModifyPar("0douttime", "-1", "");
  g->iteration = J->n < 0 ? -J->n : (int)J->res[11]; g->time = g->iteration*0.1;
  vl = vlalloc(g); vlpush(vl, Ind("ham"));
  computeADMconstraints(g);
  J->res[0] = 0; J->res[1] = 0;
  for(k = 0; k < 8; k++) { double *p = box->v[Ind((char*)o[k])]; if(!p) { J->res[0] = 99; sprintf(J->msg, "%s is not enabled", o[k]); return; } forallpoints(box, i) { double d = fabs(p[i]-sv[k][i]); if(!(d <= J->res[0])) { J->res[0] = d; sprintf(J->msg, "%s is %.12g, expected %.12g", o[k], p[i], sv[k][i]); } if(p[i] != 77) J->res[1] = 1; } }
  (void)vl;
}
/* initial lapse and shift, and noise */
static void options(void *arg)
{
  int i, k, noise = J->kind == 5, bh_ = J->kind < 2; tBox *box; double *al, *be[3], *bd[3]; const char *m = bh_ ? "SingleBH" : "TestID"; char nm[60]; double *keep[4];
  mkbh(); box = g->box[0];
  if(noise) Sets("TestID_type", "RandomNoise");
  for(k = 0; k < 3; k++) bd[k] = box->v[Ind("betadotx")+k];
  snprintf(nm, 59, "%s_initial_lapse", m); Sets(nm, "donothing"); snprintf(nm, 59, "%s_initial_shift", m); Sets(nm, "donothing");
  if(bh_) SingleBH(g); else TestID(g);
  al = box->v[Ind("alpha")]; for(k = 0; k < 3; k++) be[k] = box->v[Ind("betax")+k];
  keep[0] = calloc(box->nnodes, 8); memcpy(keep[0], al, box->nnodes*8); for(k = 0; k < 3; k++) { keep[1+k] = calloc(box->nnodes, 8); memcpy(keep[1+k], be[k], box->nnodes*8); }
  J->res[0] = 0;
#define OP(nm, v, w) if(!(fabs((v)-(w)) <= 1e-14) && J->res[0] == 0) { J->res[0] = 1; snprintf(J->msg, 399, "%s is %.15g, expected %.15g", nm, v, w); }
  if(noise)
  {
    double eps = 2.6e-7/((double)box->n1*box->n1); int nz = 0;
    for(k = 0; k < 6; k++) forallpoints(box, i) { double d = (k == 0 || k == 3 || k == 5); if(!(fabs(box->v[Ind("gxx")+k][i]-d) <= eps) || !(fabs(box->v[Ind("Kxx")+k][i]) <= eps)) { J->res[0] = 1; snprintf(J->msg, 399, "random noise is %g in the metric and %g in the extrinsic curvature, bound %g", box->v[Ind("gxx")+k][i]-d, box->v[Ind("Kxx")+k][i], eps); } nz += box->v[Ind("gxx")+k][i] != d; }
    forallpoints(box, i) { OP("psi", box->v[Ind("psi")][i], 1.0); if(!(fabs(al[i]-1) <= eps) || !(fabs(be[0][i]) <= eps) || !(fabs(be[1][i]) <= eps) || !(fabs(be[2][i]) <= eps)) { J->res[0] = 1; snprintf(J->msg, 399, "random noise in lapse or shift is above the bound"); } for(k = 0; k < 3; k++) OP("derivative of psi", box->v[Ind("dpsiopsix")+k][i], 0.0); for(k = 0; k < 6; k++) OP("second derivative of psi", box->v[Ind("ddpsiopsixx")+k][i], 0.0); }
    if(!nz) { J->res[0] = 1; snprintf(J->msg, 399, "there is no noise in the metric"); }
    return;
  }
  for(k = 0; k < 3; k++) forallpoints(box, i) bd[k][i] = 5;
  snprintf(nm, 59, "%s_initial_lapse", m); Sets(nm, J->cart & 1 ? "one" : "donothing"); snprintf(nm, 59, "%s_initial_shift", m); Sets(nm, J->cart & 2 ? "zero" : "donothing");
  if(bh_) SingleBH(g); else TestID(g);
  forallpoints(box, i)
  {
    OP("initial lapse", al[i], J->cart & 1 ? 1.0 : keep[0][i]);
    for(k = 0; k < 3; k++) { OP("initial shift", be[k][i], J->cart & 2 ? 0.0 : keep[1+k][i]); if(J->cart & 2) OP("time derivative of the initial shift", bd[k][i], 0.0); }
  }
}
/* scalar wave: initial data and energy density */
static void swave(void *arg)
{
  int b, i, j, k, sph = J->kind & 1, nonl = J->kind >> 1 & 1; double A = 1.3, sg = 0.4, r0 = 1.1, sx = 0.5, sy = 0.7, sz = 0.9, x0 = 0.3, y0 = -0.2, z0 = 0.1;
  vg_begin(2);
  vg_par("physics", "ScalarWave");
  for(b = 0; b < 2; b++) { vg_box(b, 7, 6, 5, "ChebExtrema", "ChebExtrema", "ChebExtrema"); vg_lim(b, 1+b, 2+b, -0.6, 0.4, -0.3, 0.5); vg_bpar(b, "Coordinates", "Cartesian"); }
  vg_par("ScalarWave_A", "%.17g", A); vg_par("ScalarWave_sigma", "%.17g", sg); vg_par("ScalarWave_r0", "%.17g", r0);
  vg_par("ScalarWave_sigmax", "%.17g", sx); vg_par("ScalarWave_sigmay", "%.17g", sy); vg_par("ScalarWave_sigmaz", "%.17g", sz); vg_par("ScalarWave_x0", "%.17g", x0); vg_par("ScalarWave_y0", "%.17g", y0); vg_par("ScalarWave_z0", "%.17g", z0);
  vg_par("ScalarWave_waveform", sph ? "spherical" : "Gaussian"); vg_par("ScalarWave_nonlinearity", nonl ? "0.7" : "0"); vg_par("ScalarWave_coordinateDependentFilter", "no"); vg_par("ScalarWave_reset_doubleCoveredPoints", "no");
  vg_libs(); g = vg_make(); vg_coords(g);
  ScalarWave_startup(g);
  J->res[0] = 0;
  forallboxes(g, b)
  {
    tBox *box = g->box[b]; int n1 = box->n1, n2 = box->n2, n3 = box->n3; double *ps = box->v[Ind("ScalarWave_psi")], *pd = box->v[Ind("ScalarWave_psidot")];
    forallijk(i, j, k)
    {
      double x[3], f, df, r; int q = Index(i, j, k);
      setpt(b, q, x); r = sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]);
      if(sph) { f = A*exp(-(r-r0)*(r-r0)/(2*sg*sg)); df = -(r-r0)/(sg*sg)*f; }
      else { f = A*exp(-0.5*((x[0]-x0)*(x[0]-x0)/(sx*sx)+(x[1]-y0)*(x[1]-y0)/(sy*sy)+(x[2]-z0)*(x[2]-z0)/(sz*sz))); df = -f*((x[0]-x0)*x[0]/(sx*sx)+(x[1]-y0)*x[1]/(sy*sy)+(x[2]-z0)*x[2]/(sz*sz))/r; }
      if(i == 0 || i == n1-1) f = df = 0;
      if(!(fabs(ps[q]-f/r) <= 1e-12 && fabs(pd[q]-df/r) <= 1e-11) && J->res[0] == 0) { J->res[0] = 1; snprintf(J->msg, 399, "initial psi is %.12g, expected %.12g, psidot %.12g, expected %.12g, at %d %d %d", ps[q], f/r, pd[q], df/r, i, j, k); }
    }
  }
  /* energy density on a state with exact derivatives, when its output is due */
  AddOrModifyPar("1doutput", "ScalarWave_rho", ""); AddOrModifyPar("1doutiter", "3", ""); AddOrModifyPar("1douttime", "-1", "");
  { state s; int it; dense(&s, J->kind+3);
  for(it = 0; it < 5; it++)
  {
    g->iteration = it; g->time = 0.1*it;
    forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i) { double x[3]; setpt(b, i, x); box->v[Ind("ScalarWave_psi")][i] = ev(s.f, x).v; box->v[Ind("ScalarWave_psidot")][i] = ev(s.f+1, x).v; box->v[Ind("ScalarWave_rho")][i] = 99; } }
    ScalarWave_analyze(g);
    forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, i)
    {
      double x[3], w = 99, v = box->v[Ind("ScalarWave_rho")][i]; jet u, d; setpt(b, i, x); u = ev(s.f, x); d = ev(s.f+1, x);
      if(it%3 == 0) { w = 0.5*(d.v*d.v + u.d[0]*u.d[0]+u.d[1]*u.d[1]+u.d[2]*u.d[2]) + (nonl ? 0.7 : 0)*0.5*(u.v*u.v-log(1+u.v*u.v)); }
      else if(v != 99) continue;   /* computing it more often does no harm */
      if(!close_(v, w, 1+fabs(w)) && J->res[0] == 0) { J->res[0] = 1; snprintf(J->msg, 399, "energy density is %.15g, expected %.15g in iteration %d", v, w, it); }
    } }
  } }
}
int main(int argc, char **argv)
{
  int i, j, k, l, m, rc, ready = 0; state s, p; char nm[100];
  vh_init(argc, argv);
  J = mmap(NULL, sizeof(bhj), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
#define READY if(!ready) { ready = 1; mk("yes", 3, 3, 3, 2); AddOrModifyPar("Z4secondO_lapse", "constant", ""); prep(); prepZ(); mkc(); }
  /* analytic data first: they run in their own process */
  {
    double MM[] = {1, 0.5, 2}, SP[][3] = {{0,0,0},{0,0,0.5},{0.3,0,0},{0,-0.4,0},{0.2,0.3,-0.4}}; int cf, ct;
    for(i = 0; i < 3; i++) for(j = 0; j < 5; j++) for(ct = 0; ct < 2; ct++) if(vh_unit("ks:%d:%d:%d", i, j, ct))
    {
      memset(J, 0, sizeof *J); J->kind = 0; J->n = ct ? 12 : 16; J->r0 = 2.5*MM[i]; J->r1 = 3.5*MM[i]; J->M = MM[i]; J->sx = SP[j][0]*MM[i]; J->sy = SP[j][1]*MM[i]; J->sz = SP[j][2]*MM[i]; J->cart = ct;
      for(cf = 0; cf < 2; cf++)
      {
        J->conf = cf;
        vh_fork(ksdata, NULL); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
        if(J->res[0] > 0) vh_fail("kerrschild", "%s [M %g spin %g %g %g psi %d]", J->msg, J->M, J->sx, J->sy, J->sz, cf);
      }
      J->conf = 0; J->res[0] = J->res[1] = J->res[2] = J->res[3] = 99;
      vh_fork(bh, NULL); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
      { double tol = (ct ? 5e-7 : 5e-3)*(MM[i] < 1 ? 4 : 1); for(k = 0; k < 4; k++) if(!(J->res[k] <= tol)) { vh_fail("stationary", "for a black hole in Kerr-Schild form: constraints %.3g, BSSN %.3g %.3g, Z4 %.3g, worst: %s [M %g spin %g %g %g %s]", J->res[0], J->res[1], J->res[2], J->res[3], J->msg, J->M, J->sx, J->sy, J->sz, ct ? "Cartesian" : "spherical"); break; } }
      if(getenv("VH_NOTE")) fprintf(vh_out, "@NOTE\tks %d %d %d: %g %g %g %g %s\n", i, j, ct, J->res[0], J->res[1], J->res[2], J->res[3], J->msg);
      vh_sample("Kerr-Schild M %g spin %g %g %g, %s: constraints %.1g, right hand sides %.1g %.1g %.1g", J->M, J->sx, J->sy, J->sz, ct ? "Cartesian" : "spherical", J->res[0], J->res[1], J->res[2], J->res[3]);
    }
    for(i = 0; i < 3; i++) for(cf = 0; cf < 2; cf++) for(ct = 0; ct < 2; ct++) if(vh_unit("iso:%d:%d:%d", i, cf, ct))
    {
      memset(J, 0, sizeof *J); J->kind = 1; J->n = ct ? 12 : 14; J->r0 = 2*MM[i]; J->r1 = 3*MM[i]; J->M = MM[i]; J->conf = cf; J->cart = ct; J->res[0] = J->res[1] = J->res[2] = J->res[3] = 99;
      vh_fork(bh, NULL); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
      if(getenv("VH_NOTE")) fprintf(vh_out, "@NOTE\tiso %d %d %d: %g %g %g %g %s\n", i, cf, ct, J->res[0], J->res[1], J->res[2], J->res[3], J->msg);
      for(k = 0; k < 4; k++) if(!(J->res[k] <= 5e-8) && !(k == 3 && cf)) { vh_fail("stationary", "for a black hole in isotropic coordinates: constraints %.3g, BSSN %.3g %.3g, Z4 %.3g, worst: %s [M %g psi %d %s]", J->res[0], J->res[1], J->res[2], J->res[3], J->msg, J->M, cf, ct ? "Cartesian" : "spherical"); break; }
      if(ct) continue;
      J->res[0] = 99;
      vh_fork(energy, NULL); vh_evals++; vh_states++; vh_distinct++;
      if(getenv("VH_NOTE")) fprintf(vh_out, "@NOTE\tenergy %d %d: %g %s\n", i, cf, J->res[0], J->msg);
      if(!(J->res[0] <= 1e-5*J->M)) vh_fail("energy", "%s [M %g psi %d]", J->msg, J->M, cf);
    }
    for(k = 2; k < 4; k++) for(i = 0; i < 4; i++) for(m = 0; m < 2; m++) if(vh_unit("wave:%d:%d:%d", k, i, m))
    {
      double A[] = {0, 1e-8, 0.01, 0.3}; double tol;
      memset(J, 0, sizeof *J); J->kind = k; J->n = m ? 49 : 48; J->M = A[i]; J->res[0] = J->res[1] = J->res[2] = J->res[3] = 99;
      if(k == 3 && i == 3) continue;
      vh_fork(bh, NULL); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
      if(getenv("VH_NOTE")) fprintf(vh_out, "@NOTE\twave %d %g %d: %g %g %g %g %s\n", k, A[i], m, J->res[0], J->res[1], J->res[2], J->res[3], J->msg);
      tol = 1e-9 + (k == 3 ? 60*A[i]*A[i] : 0);
      for(j = 0; j < 4; j++) if(!(J->res[j] <= tol)) { vh_fail("wave", "for a %s wave: constraints %.3g, BSSN %.3g %.3g, Z4 %.3g, worst: %s [amplitude %g, %d points]", k == 2 ? "gauge" : "linear", J->res[0], J->res[1], J->res[2], J->res[3], J->msg, A[i], J->n); break; }
    }
  }
  for(i = 0; i < 20; i++) if(vh_unit("initial:%d", i))
  {
    memset(J, 0, sizeof *J); J->kind = i < 16 ? i/4 : 5; J->n = i < 8 ? 8 : 4+3*(i%4); J->M = i < 8 ? 1 : 0.1; J->sx = 0.2; J->r0 = 3; J->r1 = 4; J->cart = i%4;
    J->res[0] = 99; strcpy(J->msg, "the setup of initial data exits");
    vh_fork(options, NULL); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
    if(J->res[0] > 0) vh_fail("initial", "%s [%s, choice %d]", J->msg, (const char*[]){"Kerr-Schild", "isotropic", "gauge wave", "linear wave", "", "noise"}[J->kind], i%4);
  }
  for(i = 0; i < 4; i++) if(vh_unit("swave:%d", i))
  {
    memset(J, 0, sizeof *J); J->kind = i; J->res[0] = 99; strcpy(J->msg, "ScalarWave_startup or ScalarWave_analyze exits");
    vh_fork(swave, NULL); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
    if(J->res[0] > 0) vh_fail("scalarwave-data", "%s [%s, nonlinearity %d]", J->msg, i & 1 ? "spherical" : "Gaussian", i >> 1);
  }
  for(i = 0; i < 5; i++) if(vh_unit("analysis:%d", i))
  {
    memset(J, 0, sizeof *J); J->kind = 0; J->n = 8; J->M = 1; J->cart = 1; J->res[11] = i; J->res[0] = 99; strcpy(J->msg, "computeADMconstraints exits");
    vh_fork(analysis, NULL); vh_evals++; vh_states++; vh_distinct++; vh_trans++;
    if(i%2 == 0 ? !(J->res[0] <= 1e-10) : (J->res[1] != 0 && !(J->res[0] <= 1e-10))) vh_fail("analysis", "%s [iteration %d]", J->msg, i);
  }
  /* Z4 and BSSN with the parameters as the modules define them */
  if(vh_unit("defaults")) { mk("yes", 3, 3, 3, 2); ready = 1; VH_TRY { prep(); prepZ(); VH_END; rc = 0; } else rc = 1; if(rc) vh_fail("defaults", "startup with default parameters exits"); else { mkc(); flat(&s); p = s; strcpy(ctx, "flat space, default parameters"); VH_TRY { BSSN_rhs(Bnew, Bpre, 0.0, BSSNvars); VH_END; rc = 0; } else rc = 1; if(rc) vh_fail("defaults", "BSSN_rhs with default parameters exits"); VH_TRY { Z4secondO_rhs(Znew, Zpre, 0.0, Z4secondOvars); VH_END; rc = 0; } else rc = 1; if(rc) vh_fail("defaults", "Z4secondO_rhs with default parameters exits"); } vh_evals += 2; vh_states++; }
  /* flat space, all gauge choices */
  {
    const char *LA[] = {"constant", "1+log", "1+log2", "harmonic", "1+log withshift", "harmonic addliealpha", "1+log addalphaRHSterm", "harmonic withshift addliealpha"}, *SH[] = {"constant", "gamma0", "gamma2"};
    for(i = 0; i < 8; i++) if(vh_unit("gauge:%d", i)) for(j = 0; j < 3; j++) for(k = 0; k < 4; k++) for(l = 0; l < (vh_thorough ? 8 : 3); l++)
    {
      READY setdef();
      Sets("BSSN_lapse", (char*)LA[i]); Sets("BSSN_shift", (char*)SH[j]); 
      if(k & 1) { Sets("BSSN_lapsepsipower", "2"); Sets("BSSN_shiftpsipower", "3"); Sets("BSSN_shiftalphapower", "1.5"); Sets("BSSN_shiftdriver", "0.7"); Sets("BSSN_lapseharmonicf", "1.3"); }
      if(k & 2) { Sets("BSSN_subtractK0", "no"); Sets("BSSN_shift_stop_time", "1"); g->time = 0.5*l; }
      if(l == 0) flat(&s); else dense(&s, 3*l+i);
      if(l == 0) s.f[F_aRHS].c[0] = 0;
      dense(&p, l+j);
      snprintf(ctx, 599, "lapse %s, shift %s, variant %d, state %d", LA[i], SH[j], k, l);
      vh_sample("BSSN: %s", ctx);
      run_bssn(&s, &p, 0); run_bssn(&s, &p, 0.3);
      { const char *D[] = {"yes", "1+log_withoutShift"}; for(m = 0; m < 2; m++) { Sets("BSSN_densitizedLapse", (char*)D[m]); Sets("BSSN_alphaDensityWeight", k & 1 ? "0.5" : "1.0"); snprintf(ctx, 599, "lapse %s, shift %s, variant %d, state %d, densitized %s", LA[i], SH[j], k, l, D[m]); run_bssn(&s, &p, 0.3); } }
    }
  }
  /* all combinations of the other options */
  for(i = 0; i < 1024; i++) if(vh_unit("options:%d", i)) for(l = 0; l < (vh_thorough ? 12 : 2); l++)
  {
    READY setdef();
    if(i & 1) Sets("BSSN_useDD", "yes"); if(i & 2) Sets("BSSN_recomputeAzz", "yes"); if(i & 4) Sets("BSSN_recomputegzz", "yes"); if(i & 8) Sets("BSSN_subtractA", "yes"); if(i & 16) Sets("BSSN_normalizedetg", "yes");
    if(i & 32) Sets("BSSN_GReplacedBydg", "no"); if(i & 64) Sets("BSSN_freezeGamma", "yes"); if(i & 128) Sets("BSSN_GentlePhiRHS", "yes"); if(i & 256) Sets("BSSN_forceKzero", "yes"); if(i & 512) { Sets("BSSN_YoTermFactor", "0.6"); Sets("BSSN_RtoRminusHfactor", "0.25"); Sets("BSSN_shift", "gamma2"); }
    Sets("BSSN_lapse", "1+log withshift");
    dense(&s, i+l); dense(&p, i+l+1);
    snprintf(ctx, 599, "options %d, state %d", i, i+l);
    run_bssn(&s, &p, (i+l) & 1 ? 0.25 : (i & 30) ? 0.5 : 0);
  }
  /* every coefficient of every field alone */
  for(k = 0; k < NF; k++) if(vh_unit("single:%d", k)) for(m = 0; m < 10; m++)
  {
    READY setdef(); backg(&s); p = s; s.f[k].c[m] += 0.05; Sets("BSSN_lapse", "1+log withshift addliealpha addalphaRHSterm"); Sets("BSSN_shift", "gamma0"); Sets("BSSN_GReplacedBydg", m & 1 ? "no" : "yes");
    snprintf(ctx, 599, "field %d coefficient %d", k, m);
    run_bssn(&s, &p, 0);
    Sets("Z4secondO_lapse", "1+log withshift"); Sets("Z4secondO_kappa1", "0.2"); Sets("Z4secondO_kappa2", "0.3");
    run_z4(&s, &p, 0);
    run_con(&s, 1, 1, 1);
    run_con(&s, 0, 0, 0);
    run_energy(&s);
  }
  /* Z4: all options */
  for(i = 0; i < 256; i++) if(vh_unit("z4:%d", i)) for(l = 0; l < (vh_thorough ? 6 : 2); l++)
  {
    const char *LA[] = {"constant", "1+log", "harmonic", "1+log withshift", "harmonic withshift", "withshift", "constant withshift", "1+log harmonic"};
    READY setdef();
    Sets("Z4secondO_lapse", (char*)LA[i & 7]);
    if(i & 8) Sets("Z4secondO_useDD", "no"); if(i & 16) Sets("Z4secondO_RtoRminusHfactor", "0.5"); if(i & 32) { Sets("Z4secondO_kappa1", "0.1"); Sets("Z4secondO_kappa2", "-0.4"); } if(i & 64) { Sets("Z4secondO_lapsepsipower", "1.5"); Sets("Z4secondO_lapseharmonicf", "1"); Sets("Z4secondO_lapseharmonicm", "2"); } if(i & 128) Sets("Z4secondO_subtractK0", "yes");
    if(l == 0 && (i & 15) == 1) flat(&s); else dense(&s, i+2*l);
    dense(&p, i+l+5);
    snprintf(ctx, 599, "Z4 options %d state %d", i, i+2*l);
    run_z4(&s, &p, l & 1 ? 0.2 : 0);
  }
  /* constraints: matter, conformal factor, kinds of norm */
  for(i = 0; i < 64; i++) if(vh_unit("constraints:%d", i)) for(l = 0; l < (vh_thorough ? 30 : 4); l++)
  {
    READY setdef();
    if(i & 1) Sets("ADMvars_useDD", "yes");
    if(i & 16) Sets("ADMvars_ConstraintNorm", "dumb");
    if(i & 32) Sets("ADMvars_normalizedConstraints", "no"); else Sets("ADMvars_normalizedConstraints", "yes");
    if(i & 8 && !(i & 2)) continue;   /* S without rho is not used */
    dense(&s, i+7*l);
    if(l == 0) flat(&s);
    snprintf(ctx, 599, "matter %d%d%d, useDD %d, norm %s, state %d", !!(i & 2), !!(i & 4), !!(i & 8), i & 1, i & 16 ? "dumb" : "TermByTerm", l);
    vh_sample("constraints: %s", ctx);
    run_con(&s, !!(i & 2), !!(i & 4), !!(i & 8));
    run_energy(&s);
    Sets("ADMvars_normalizedConstraints", "yes");
  }
  /* algebraic constraints on the lattice of metrics */
  for(i = 0; i < 4; i++) if(vh_unit("algebraic:%d", i)) { READY setdef(); alg(i & 1, i >> 1); }
  /* conversion between ADM and BSSN variables */
  for(i = 0; i < 30; i++) if(vh_unit("convert:%d", i))
  {
    READY setdef();
    { const char *W[] = {"1.0", "0", "0.5"}; Sets("BSSN_alphaDensityWeight", (char*)W[i%3]); }
    dense(&s, i);
    for(k = 0; k < NF; k++) for(m = 4; m < 10; m++) s.f[k].c[m] *= 0.02;
    for(k = 0; k < NF; k++) for(m = 1; m < 4; m++) s.f[k].c[m] *= 0.1;
    if(i >= 10) for(k = 0; k < 6; k++) for(m = 1; m < 10; m++) s.f[k].c[m] *= i >= 20 ? 1e-4 : 0.01;
    sprintf(nm, "state %d", i); convert(&s, nm);
    /* undo the conformal split */
    { int b, q, c; putpsi(&s); forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, q) { double x[3]; setpt(b, q, x); for(k = 0; k < 6; k++) box->v[Ind("gxx")+k][q] = ev(s.f+k, x).v; } }
      ADMvars_undo_conformal_split(g); vh_evals++;
      forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, q) { double x[3], w; setpt(b, q, x); w = pow(ev(s.f+F_psi, x).v, 4); c = 0; for(k = 0; k < 6; k++) c |= !close_(box->v[Ind("gxx")+k][q], w*ev(s.f+k, x).v, 2); c |= box->v[Ind("psi")][q] != 1; for(k = 0; k < 3; k++) c |= box->v[Ind("dpsiopsix")+k][q] != 0; for(k = 0; k < 6; k++) c |= box->v[Ind("ddpsiopsixx")+k][q] != 0; if(c) { vh_fail("split", "undoing the conformal split gives the wrong metric or psi"); q = box->nnodes; } } } }
  }
  /* scalar wave */
  for(i = 0; i < 12; i++) if(vh_unit("scalarwave:%d", i)) for(l = 0; l < 8; l++)
  {
    int b, q, nb = 0; double dt = i & 1 ? 0.3 : 0, nl = (double[]){0, 1, -0.5}[i%3]; static tVarList *sv, *sn, *sp; 
    READY setdef();
    if(!sv) { ScalarWave_startup(g); sv = vlalloc(g); vlpush(sv, Ind("ScalarWave_psi")); vlpush(sv, Ind("ScalarWave_psidot")); sn = AddDuplicateEnable(sv, "_sn"); sp = AddDuplicateEnable(sv, "_sp"); }
    vg_par("ScalarWave_nonlinearity", "%.17g", nl);
    dense(&s, i+3*l); dense(&p, 2*i+l);
    forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, q) { double x[3]; setpt(b, q, x); for(k = 0; k < 2; k++) { vlldataptr(sv, box, k)[q] = ev(s.f+k, x).v; vlldataptr(sp, box, k)[q] = ev(p.f+k, x).v; } } }
    vh_at("scalar wave"); vh_evals++; vh_states++; vh_distinct++;
    VH_TRY { ScalarWave_evolve(sn, sp, dt, sv); VH_END; rc = 0; } else rc = 1;
    if(rc) { vh_fail("exit", "ScalarWave_evolve exits"); continue; }
    forallboxes(g, b) { tBox *box = g->box[b]; forallpoints(box, q) { double x[3], r[2]; jet u, v; setpt(b, q, x); u = ev(s.f, x); v = ev(s.f+1, x); r[0] = v.v; r[1] = u.dd[0][0]+u.dd[1][1]+u.dd[2][2] - nl*u.v*u.v*u.v/(1+u.v*u.v); vh_trans++; for(k = 0; k < 2; k++) { double w = dt != 0 ? ev(p.f+k, x).v + dt*r[k] : r[k]; if(!close_(vlldataptr(sn, box, k)[q], w, 1+fabs(w)) && nb++ < 1) vh_fail("scalarwave", "%s is %.15g, expected %.15g [nonlinearity %g dt %g]", k ? "psidot" : "psi", vlldataptr(sn, box, k)[q], w, nl, dt); } } }
  }
  return vh_done();
}
