/* breadth first search over operation histories.  States are those of the
   reference model; every transition replays its history on the real code. */
#ifndef VH_BFS_H
#define VH_BFS_H
#define VH_BFS_MAXD 10
typedef struct
{
  const char *name;
  size_t msize;
  int nops, depth;
  void (*init)(void *m);
  int (*mstep)(void *m, int op);                       /* 0: not possible here */
  void (*replay)(const unsigned char *h, int n);       /* run on the real code and compare */
  char *(*str)(const unsigned char *h, int n);
} vh_bfs_t;
static void vh_bfs(const vh_bfs_t *B)
{
  size_t ns = B->msize + VH_BFS_MAXD + 1;
  unsigned char *x = malloc(ns);
  int first, second;
  for(first = 0; first < B->nops; first++) for(second = 0; second < B->nops; second++)
  {
    vh_set seen = {0};
    unsigned char f[2] = {first, second}, *q;
    size_t qh = 0, qn, cap = 256;
    memset(x, 0, ns);
    B->init(x);
    if(!B->mstep(x, first)) break;
    if(!vh_unit("%s:%s", B->name, B->str(f, 2))) continue;
    if(second == 0) { B->replay(f, 1); vh_trans++; vh_traces++; }
    if(B->depth < 2 || !B->mstep(x, second)) continue;
    x[B->msize] = 2; memcpy(x+B->msize+1, f, 2);
    vh_at("%s", B->str(f, 2));
    B->replay(f, 2); vh_trans++; vh_traces++;
    q = malloc(cap*ns);
    memcpy(q, x, ns); qn = 1;
    vh_set_add(&seen, vh_hash(x, B->msize, 0)); vh_states++;
    for(; qh < qn; qh++)
    {
      int i, n = q[qh*ns+B->msize];
      if(n >= B->depth) continue;
      for(i = 0; i < B->nops; i++)
      {
        memcpy(x, q+qh*ns, ns);
        if(!B->mstep(x, i)) continue;
        x[B->msize] = n+1; x[B->msize+1+n] = i;
        vh_at("%s", B->str(x+B->msize+1, n+1));
        B->replay(x+B->msize+1, n+1); vh_trans++; vh_traces++;
        if(vh_set_add(&seen, vh_hash(x, B->msize, 0)))
        {
          vh_states++;
          if(qn == cap) q = realloc(q, (cap *= 2)*ns);
          memcpy(q+qn*ns, x, ns); qn++;
        }
      }
    }
    free(q); free(seen.t);
  }
  free(x);
}
#endif
