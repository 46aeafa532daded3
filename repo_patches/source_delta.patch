From c473585ded8b22a5f7219ba511ecfadde2ab9f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 01/65] fix: Getv: keep looking for the word after a hit that
 is only the end of another word

---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 60b2ac3..02fbebe 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -429,7 +429,8 @@ int GetvFlag(char *name, char *value, int fatal)
   {
     lv = strlen(value);
     //printf("ls=%d  value=%s| s=%s| p->value=%s|\n", ls, value, s, p->value); 
-    if( s[lv]==' ' || s[lv]==0 ) break;
+    if( (s[lv]==' ' || s[lv]==0) && (s == p->value || s[-1]==' ') ) break;
+    if( *s==0 ) return 0;
     parval = s+1;
   }
   if (!s) return 0;
-- 
2.43.0


From 3ab82908b17b868a7b18aa6772721be9df02acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 02/65] fix: Appends: no leading blank when the old value is
 empty (NextEntry never ends on it)

---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 02fbebe..7b8900c 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -379,7 +379,8 @@ void Appends(char *name, char *value)
   {
     char *oldvalue = Gets(name);
     char *newvalue = cmalloc(strlen(oldvalue) + strlen(value) + 2);
-    sprintf(newvalue, "%s %s", oldvalue, value);
+    if (*oldvalue) sprintf(newvalue, "%s %s", oldvalue, value);
+    else           strcpy(newvalue, value);
     setparameter(name, newvalue);
     free(newvalue);
   }
-- 
2.43.0


From 439a92f3594acbde3273b4fe1f9ea716318d1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 03/65] fix: get_par_from_str: do not dereference NULL when
 there is no name

---
 src/main/main/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 3cfaf03..5ac274c 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -243,7 +243,7 @@ int get_par_from_str(const char *str, char *name, const char *delim,
   nam = strtok_r(str2, delim, &saveptr);
   val = strtok_r(NULL, delim, &saveptr);
 
-  if( (!(*nam)) || (strlen(str2)==strlen(str)) )
+  if( (!nam) || (!(*nam)) || (strlen(str2)==strlen(str)) )
   {
     ret = 0;
   }
-- 
2.43.0


From f1e904b2c310eda483f8acc41f8b7977382cef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 04/65] fix: fgetparameter: a longer word that starts with the
 parameter name is not the parameter

---
 src/utility/checkpoint/wolfio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/wolfio.c b/src/utility/checkpoint/wolfio.c
index 65e271a..bdebbcd 100644
--- a/src/utility/checkpoint/wolfio.c
+++ b/src/utility/checkpoint/wolfio.c
@@ -95,7 +95,8 @@ int fgetparameter(FILE *in, const char *par, char *str)
 
  while((z=FSCANF1(in,"%s",str)) !=EOF)
  {
-   if(strncmp(par, str , parlength) ==0)
+   if(strncmp(par, str , parlength) ==0 &&
+      (str[parlength]==0 || str[parlength]=='='))
    { 
      /* check if str is of form par */
      if(parlength==strlen(str)) 
-- 
2.43.0


From e12b9f208ace129adb6e232b340405b8818e11b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 05/65] fix: remove_dir: work for absolute paths, do not follow
 symbolic links, do not leak open directories

---
 src/main/main/utilities.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 5ac274c..7655bf8 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -318,6 +318,7 @@ int remove_dir(char *which_dir)
 {
   DIR           *d;
   struct dirent *dir;
+  struct stat st;
   char file[1000];
   
   d = opendir(which_dir);
@@ -329,10 +330,10 @@ int remove_dir(char *which_dir)
       if( strcmp( dir->d_name, "." ) == 0 || strcmp( dir->d_name, ".." ) == 0)
         continue;
 
-      snprintf(file, 999, "./%s/%s", which_dir, dir->d_name);
+      snprintf(file, 999, "%s/%s", which_dir, dir->d_name);
       //printf("*"); //print * for every deleted file
 
-      if(opendir(file)!=NULL) remove_dir(file);
+      if(lstat(file, &st)==0 && S_ISDIR(st.st_mode)) remove_dir(file);
       else
       {
         if(remove(file) != 0)
-- 
2.43.0


From 303cb419a000a0ad0464e2f0261021221894721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 06/65] fix: read_command_line: options longer than 1000
 characters overflowed the buffer

---
 src/main/main/main.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index ff5d075..a7f58ef 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -207,7 +207,8 @@ int read_command_line(int argc, char **argv)
     int nopts, nargs;
     char argi[1000];
     char descr[1000];
-    char options[1000];
+    char *options;
+    size_t optlen = 1;
     char *parfile = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     char *outdir  = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     int parnamelen;
@@ -230,7 +231,8 @@ int read_command_line(int argc, char **argv)
 
     /* add other args */
     nargs=nopts=0;
-    options[0]=0;
+    for(i=2; i<argc; i++) optlen += strlen(argv[i])+1;
+    options = (char *) calloc(optlen, sizeof(char));
     for(i=2; i<argc; i++)
     {
       if(argv[i][0]=='-')
@@ -238,8 +240,8 @@ int read_command_line(int argc, char **argv)
         if(strlen(argv[i])==1) errorexit("- is not a valid option");
         if(argv[i][1]!='-') errorexit("all options must start with --");
         /* save all options in options */
-        if(nopts>0) strncat(options, " ", 999);
-        strncat(options, argv[i], 999);
+        if(nopts>0) strcat(options, " ");
+        strcat(options, argv[i]);
         nopts++;
       }
       else
@@ -253,6 +255,7 @@ int read_command_line(int argc, char **argv)
     /* add sgrid command line options */
     if(nopts>0) AddPar("sgrid_options", options, "sgrid command line options");
 
+    free(options);
     free(parfile);
     free(outdir);
   }
-- 
2.43.0


From 805be57e183b9fb387f1ae8f046e546d783b7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 07/65] fix: iterate_parameters: only remove the .par at the
 end of the parameter file name

---
 src/main/main/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 7b8900c..014be24 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -575,7 +575,7 @@ int iterate_parameters(int next)
   printf("Iterating parameters:\n");
 
   sprintf(newoutdir, "%s", Gets("parameterfile"));
-  *strstr(newoutdir, ".par") = '\0';
+  newoutdir[strlen(newoutdir)-4] = '\0'; /* remove .par at the end */
 
   p = findparameter(iterpar, 0);
   if (!p)
-- 
2.43.0


From 4a2077ec85e7ea3e763ca546eafb2206aef44f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 08/65] fix: tensorindexlist: wrong reflection signs for
 (ab)(ij)

---
 src/main/main/tensors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 74f7740..9774bad 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -265,8 +265,8 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     for (k = 0; k < 3; k++)
     for (l = k; l < 3; l++)
     {
-      if (i > 0) sym[3*n+i] *= -1; 
-      if (j > 0) sym[3*n+j] *= -1;
+      if (i > 0) sym[3*n+i-1] *= -1; 
+      if (j > 0) sym[3*n+j-1] *= -1;
       sym[3*n+k] *= -1;
       sym[3*n+l] *= -1;
       ilist[n] = calloc(ilistSTRLEN, sizeof(char));
-- 
2.43.0


From 0932c7508f37744ff95384772d90c0203b758e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 09/65] fix: tensorindexlist: stray parenthesis made three of
 the sum forms unusable

---
 src/main/main/tensors.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 9774bad..6dc4575 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -150,7 +150,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk)") == 0 ||
+  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk") == 0 ||
      strcmp(tensorindices, "(ij)(kl)") == 0) {
     for (i = 0; i < 3; i++)
     for (j = i; j < 3; j++) 
@@ -258,7 +258,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "abij+abji+baij+baji)") == 0 ||
+  if(strcmp(tensorindices, "abij+abji+baij+baji") == 0 ||
      strcmp(tensorindices, "(ab)(ij)") == 0) {
     for (i = 0; i <= 3; i++)
     for (j = i; j <= 3; j++) 
@@ -317,7 +317,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts)") == 0 ||
+  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts") == 0 ||
      strcmp(tensorindices, "(qr)(st)") == 0) {
     for (i = 0; i < 2; i++)
     for (j = i; j < 2; j++) 
-- 
2.43.0


From ec0be58f59bd929bcca1d0c34a10a6aa151d49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 10/65] fix: pushing a list onto itself appended uninitialized
 entries

---
 src/main/MemoryMan/list_templates.c | 9 +++++----
 src/main/main/variables.c           | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main/MemoryMan/list_templates.c b/src/main/MemoryMan/list_templates.c
index efb1d60..031e8a1 100644
--- a/src/main/MemoryMan/list_templates.c
+++ b/src/main/MemoryMan/list_templates.c
@@ -72,13 +72,14 @@ void FN(push,LIST(TYP))(LIST(TYP) *v, TYP vi)
 /* append a list to a list */
 void FN(pushlist,LIST(TYP))(LIST(TYP) *v, LIST(TYP) *u)
 {
-  int i;
+  int i, un;
 
   if (!v || !u) return;
-  v->n += u->n;
+  un = u->n; /* u->n changes below if u=v */
+  v->n += un;
   v->e = realloc(v->e, sizeof(TYP) * v->n); 
-  for (i = 0; i < u->n; i++)
-    v->e[v->n - u->n + i] = u->e[i];
+  for (i = 0; i < un; i++)
+    v->e[v->n - un + i] = u->e[i];
 }
 
 /* add to list (if not already in it) */
diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index 913340e..a2edcb3 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -362,13 +362,14 @@ void vlpush(tVarList *v, int vi)
 /* add a variable list to a variable list */
 void vlpushvl(tVarList *v, tVarList *u)
 {
-  int i;
+  int i, un;
 
   if (!v || !u) return;
-  v->n += u->n;
+  un = u->n; /* u->n changes below if u=v */
+  v->n += un;
   v->index = realloc(v->index, sizeof(int) * v->n); 
-  for (i = 0; i < u->n; i++)
-    v->index[v->n - u->n + i] = u->index[i];
+  for (i = 0; i < un; i++)
+    v->index[v->n - un + i] = u->index[i];
 }
 
 
-- 
2.43.0


From 85f5fac1a484783b4a1a194c3adbe2c0595b1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 11/65] fix: DuplicatePointList: blist of the duplicate was
 allocated too small

---
 src/main/MemoryMan/points.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/points.c b/src/main/MemoryMan/points.c
index a623b21..4d2cf9f 100644
--- a/src/main/MemoryMan/points.c
+++ b/src/main/MemoryMan/points.c
@@ -222,7 +222,7 @@ tPointList *DuplicatePointList_for_grid(tPointList *PL0, tGrid *grid)
   }
 
   /* copy the blist */
-  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL->nblist+2));
+  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL0->nblist+2));
   if(ret==NULL) 
     errorexit("DuplicatePointList: not enough memory for PL->blist");
   PL->blist  = ret;
-- 
2.43.0


From 462424fea3da0d7ab73e1f8c98c7d25820612460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 12/65] fix: finite difference bases: creating the grid called
 a NULL integration function, and the second derivative function never reached
 the box

---
 src/utility/Spectral/diffmatrices.c | 7 +++++++
 src/utility/Spectral/spec_coeffs.c  | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/utility/Spectral/diffmatrices.c b/src/utility/Spectral/diffmatrices.c
index aa1f74a..0cb13d4 100644
--- a/src/utility/Spectral/diffmatrices.c
+++ b/src/utility/Spectral/diffmatrices.c
@@ -283,6 +283,13 @@ void initIntegrationMatrix(double a, double b, double *Int, int n1,
   double *c;
   double *d;
 
+  /* some bases (e.g. fd2_onesided) have no integration: mark Int as unusable */
+  if(coeffs_of_int==NULL)
+  {
+    for(i=0; i<n1*n1; i++) Int[i] = NAN;
+    return;
+  }
+
   u = (double *) calloc(n1, sizeof(double));
   c = (double *) calloc(n1, sizeof(double));
   d = (double *) calloc(n1, sizeof(double));
diff --git a/src/utility/Spectral/spec_coeffs.c b/src/utility/Spectral/spec_coeffs.c
index 941dd77..87acae4 100644
--- a/src/utility/Spectral/spec_coeffs.c
+++ b/src/utility/Spectral/spec_coeffs.c
@@ -791,6 +791,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs1      = get_coeffs;
       box->coeffs_of_deriv1 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv1 = coeffs_of_2ndderiv;
       box->coeffs_of_int1   = coeffs_of_int;
       box->eval_onPoints1   = eval_onPoints;
       box->filter_coeffs1   = filter_coeffs;
@@ -800,6 +801,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs2      = get_coeffs;
       box->coeffs_of_deriv2 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv2 = coeffs_of_2ndderiv;
       box->coeffs_of_int2   = coeffs_of_int;
       box->eval_onPoints2   = eval_onPoints;
       box->filter_coeffs2   = filter_coeffs;
@@ -809,6 +811,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs3      = get_coeffs;
       box->coeffs_of_deriv3 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv3 = coeffs_of_2ndderiv;
       box->coeffs_of_int3   = coeffs_of_int;
       box->eval_onPoints3   = eval_onPoints;
       box->filter_coeffs3   = filter_coeffs;
@@ -834,6 +837,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs1;
     *coeffs_of_deriv = box->coeffs_of_deriv1;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv1;
     *coeffs_of_int   = box->coeffs_of_int1;
     *eval_onPoints   = box->eval_onPoints1;
     *filter_coeffs   = box->filter_coeffs1;
@@ -843,6 +847,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs2;
     *coeffs_of_deriv = box->coeffs_of_deriv2;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv2;
     *coeffs_of_int   = box->coeffs_of_int2;
     *eval_onPoints   = box->eval_onPoints2;
     *filter_coeffs   = box->filter_coeffs2;
@@ -852,6 +857,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs3;
     *coeffs_of_deriv = box->coeffs_of_deriv3;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv3;
     *coeffs_of_int   = box->coeffs_of_int3;
     *eval_onPoints   = box->eval_onPoints3;
     *filter_coeffs   = box->filter_coeffs3;
-- 
2.43.0


From 1fe3a84308a1a8d58c64f1c44de3041d13100b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 13/65] fix: forPointList dereferenced NULL for boxes without
 points

---
 src/main/MemoryMan/sgrid_MemoryMan_loops.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/MemoryMan/sgrid_MemoryMan_loops.h b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
index 394f7bd..7329877 100644
--- a/src/main/MemoryMan/sgrid_MemoryMan_loops.h
+++ b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
@@ -76,12 +76,12 @@
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList(pointlist, boxindx, pi , ijk) \
   forallboxes(pointlist->grid,boxindx) \
-    for(pi = 0 , ijk = pointlist->point[boxindx][pi]; \
+    for(pi = 0 , ijk = (pointlist->npoints[boxindx]>0) ? pointlist->point[boxindx][0] : -1; \
         pi < pointlist->npoints[boxindx]; \
         pi++, ijk = pointlist->point[boxindx][pi-(pi==pointlist->npoints[boxindx])])
 
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList_inbox(pointlist, box, pi , ijk) \
-  for(pi = 0 , ijk = pointlist->point[box->b][pi]; \
+  for(pi = 0 , ijk = (pointlist->npoints[box->b]>0) ? pointlist->point[box->b][0] : -1; \
         pi < pointlist->npoints[box->b]; \
         pi++, ijk = pointlist->point[box->b][pi-(pi==pointlist->npoints[box->b])])
-- 
2.43.0


From 491972b5ccafeef991a724793e7b977ccd84cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 14/65] fix: dropping the last point of a box from a point list
 left the box in blist

---
 src/main/MemoryMan/points.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/main/MemoryMan/points.c b/src/main/MemoryMan/points.c
index 4d2cf9f..9ce2b19 100644
--- a/src/main/MemoryMan/points.c
+++ b/src/main/MemoryMan/points.c
@@ -84,6 +84,18 @@ void AddToPointList(tPointList *PL, int boxindex, int newpoint)
   PL->nblist = addto_blist(boxindex, PL->blist, PL->nblist);
 }
 
+/* take box boxindex out of blist if there are no points left in it */
+static void dropfrom_blist_ifempty(tPointList *PL, int boxindex)
+{
+  intList ilist[1];
+
+  if(PL->npoints[boxindex]>0) return;
+  ilist->n = PL->nblist;
+  ilist->e = PL->blist;
+  drop_intList(ilist, boxindex);
+  PL->nblist = ilist->n;
+}
+
 /* drop one point from a PointList in box boxindex */
 void DropFromPointList(tPointList *PL, int boxindex, int point)
 {
@@ -96,6 +108,7 @@ void DropFromPointList(tPointList *PL, int boxindex, int point)
   /* now drop point */
   drop_intList(ilist, point);
   PL->npoints[boxindex] = ilist->n;
+  dropfrom_blist_ifempty(PL, boxindex);
 }
 
 /* drop points in intList from a PointList in box boxindex */
@@ -110,6 +123,7 @@ void DropListFromPointList(tPointList *PL, int boxindex, intList *drop)
   /* now drop point */
   droplist_intList(ilist, drop);
   PL->npoints[boxindex] = ilist->n;
+  dropfrom_blist_ifempty(PL, boxindex);
 }
 
 /* free a PointList */
-- 
2.43.0


From 84b0c37eab738078bab2873fbe8e83f79621e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 15/65] fix: checkpoint header: write the time with all digits

---
 src/utility/checkpoint/checkpoint_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 300b044..8e3282f 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -81,7 +81,7 @@ void checkpoint_write_local(tGrid *g, FILE *fp)
   /* write one line text header, check with "head -1 checkpoint.0" */
   fprintf(fp, "$BEGIN_checkpoint_header:  ");
   fprintf(fp, "$bmin = %d , $bmax = %d , ", 0, g->nboxes-1);
-  fprintf(fp, "$time = %g , ", g->time);
+  fprintf(fp, "$time = %.17g , ", g->time);
   fprintf(fp, "$iteration = %d\n", g->iteration);
   fprintf(fp, "$END_checkpoint_header\n\n");
 
-- 
2.43.0


From 19960c6a2ce5fe23982f4f161d9683ed63daf395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 16/65] fix: checkpoint_write: a failed or short write replaced
 the old good checkpoint

---
 src/utility/checkpoint/checkpoint_write.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 8e3282f..153bd83 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -23,7 +23,7 @@ void checkpoint_write(tGrid *g)
   char *filename = checkpoint_filename("", "w");
   char *filename_new;
   FILE *fp;
-  int i;
+  int i, i_err;
 
   /* name of backup file */
   filename_new = cmalloc(strlen(filename) + 20);
@@ -43,8 +43,9 @@ void checkpoint_write(tGrid *g)
       prTimeIn_s("WallTime: ");
       checkpoint_write_local(g, fp);
 
-      /* done */
-      fclose(fp);
+      /* done, do not touch the old checkpoint if anything went wrong */
+      i_err = ferror(fp);
+      if(fclose(fp) || i_err) errorexits("failed writing %s", filename_new);
     }
     /* everyone please wait here */
     sgrid_mpi_barrier();
-- 
2.43.0


From 33980ab26ea5e0cd4a0c3c10d5c81de463891244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 17/65] fix: reading a checkpoint that ends early continued
 with partly restored data

---
 src/utility/checkpoint/checkpoint.h      |  1 +
 src/utility/checkpoint/checkpoint_read.c | 23 ++++++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint.h b/src/utility/checkpoint/checkpoint.h
index 97ede8b..a05b04a 100644
--- a/src/utility/checkpoint/checkpoint.h
+++ b/src/utility/checkpoint/checkpoint.h
@@ -12,6 +12,7 @@ void checkpoint_copy_output(void);
 void checkpoint_read(tGrid *grid);
 void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp);
 void checkpoint_read_Vars_local(tGrid *grid, FILE *fp);
+int checkpoint_file_is_complete(FILE *fp);
 
 void checkpoint_write(tGrid *grid);
 void checkpoint_write_local(tGrid *grid, FILE *fp);
diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 4bdf915..3e7a47d 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -6,6 +6,7 @@
 
 #include "sgrid.h"
 #include "checkpoint.h"
+#include <ctype.h>
 
 
 
@@ -155,12 +156,27 @@ void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
     }
     parsread++;
   }
+  if(ret==EOF) errorexit("$END_parameter_database is missing!");
   prTimeIn_s("WallTime: ");
   printf("  read %d parameters\n", parsread);
 }
 
 
 
+/* return 1 if the last word in the checkpoint file is $END_variables */
+int checkpoint_file_is_complete(FILE *fp)
+{
+  char *end = "$END_variables";
+  int n = strlen(end);
+  char tail[100];
+  int len = n + 10; /* allow for some white space after end */
+
+  if(fseek(fp, -len, SEEK_END) != 0) return 0;
+  len = fread(tail, sizeof(char), len, fp);
+  while(len>0 && isspace(tail[len-1])) len--;
+  return len>=n && strncmp(tail+len-n, end, n)==0;
+}
+
 /* read vars from checkpoint file on one processor */
 void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
 {
@@ -214,7 +230,8 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
     {
       /* read */
       /* fread(box->v[i], sizeof(double), nnodes_on_l, fp); */
-      fread_double_little(box->v[i], nnodes_on_l, fp);
+      if(fread_double_little(box->v[i], nnodes_on_l, fp) != nnodes_on_l)
+        errorexits("checkpoint file ends inside variable %s", varname);
 
       nv++;
       n += nnodes_on_l;
@@ -230,6 +247,10 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
       for(j=1; j<=nnodes_on_l*sizeof(double)/sizeof(char); j++) fgetc(fp);
     }
   }
+  /* make sure file was complete */
+  if(!checkpoint_file_is_complete(fp))
+    errorexit("$END_variables is missing!");
+
   /* info */
   if(1)
   {
-- 
2.43.0


From 176b095d27940c40c2ccf8e650c196f2681547b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 18/65] fix: checkpoint: division by zero for checkpoint_di=0
 or checkpoint_dt<dt

---
 src/utility/checkpoint/checkpoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 23454ad..80ab2b5 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -71,9 +71,13 @@ int checkpoint(tGrid *grid)
   /* determine how often we want to checkpoint */
   dt = Getd("checkpoint_dt");
   if (dt > 0)
+  {
     di = dt/grid->dt + dequaleps;
+    if (di < 1) di = 1;
+  }
   else
     di = Geti("checkpoint_di");
+  if (di == 0) return 0;
   if(pr) printf("di = %d\n", di);
   
   /* check whether it is time to write a checkpoint */
-- 
2.43.0


From 5df084f0cdc3534f9831fcfb10c36abb651a6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 19/65] fix: checkpoint_copy_output: a kill while copying left
 a damaged copy that made the next run delete the good checkpoint

---
 src/utility/checkpoint/checkpoint.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 80ab2b5..7294c39 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -221,17 +221,29 @@ void checkpoint_copy_output(void)
   /* the regular output is all done through processor 0 */
   if (processor0) {
     
-    /* remove current output directory
-       it only contains iteration 0 and perhaps 1 of the restarted run 
+    /* move or copy previous output, but remove current output directory first
+       it only contains iteration 0 and perhaps 1 of the restarted run
     */
-    system2("rm -rf", current);
-
-    /* move or copy previous output */
     if( Getv("checkpoint_previous", "no") &&
        !GetvLax("sgrid_options", "--keep_previous") )
+    {
+      system2("rm -rf", current);
       system3("mv", previous, current);
+    }
     else
-      system3("cp -pr", previous, current);
+    {
+      char *copying = cmalloc(strlen(current) + 20);
+
+      /* never have an incomplete copy in current: If we are killed the next
+         run would take it for good and remove previous. */
+      sprintf(copying, "%s_copying", current);
+      system2("rm -rf", copying);
+      if(system3("cp -pr", previous, copying) != 0)
+        errorexits("failed copying %s", previous);
+      system2("rm -rf", current);
+      system3("mv", copying, current);
+      free(copying);
+    }
   }
   /* wait here to make sure proc0 has copied all there is */
   sgrid_mpi_barrier();
-- 
2.43.0


From d7a44a4ef150854287f2555cae8a03adbce19bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 20/65] fix: checkpoint_additional_variables: a name of a
 component other than the first stopped the program

---
 src/utility/checkpoint/checkpoint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 7294c39..1f2c39a 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -290,8 +290,9 @@ tVarList *checkpoint_varlist(tGrid *grid)
     if (box->v[i] != 0)
       if( Getv("checkpoint_additional_variables", VarName(i)) )
       {
-        vldrop(vl, i); /* <--drop it in case it is there already */
-        vlpush(vl, i); /* <--now add it again */
+        int i0 = IndComponent0(i); /* we always save all components */
+        vldrop(vl, i0); /* <--drop it in case it is there already */
+        vlpush(vl, i0); /* <--now add it again */
       }
   }
 
-- 
2.43.0


From 34e0c7345fd8085cc9c75b94c04047c6e8e20a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 21/65] fix: evolve: restarting from a checkpoint at iteration
 0 (checkpoint_restart_it=0 or -1) used the variables for the previous state
 without adding them

---
 src/utility/evolve/evolve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/evolve/evolve.c b/src/utility/evolve/evolve.c
index 9c72799..8dfa57e 100644
--- a/src/utility/evolve/evolve.c
+++ b/src/utility/evolve/evolve.c
@@ -80,8 +80,9 @@ int evolve(tGrid *grid)
   u_c->grid = grid;
   u_c->time = grid->time;
 
-  /* add new variables before first time step */
-  if (grid->iteration == 0) {
+  /* add new variables before first time step
+     (which is not at iteration 0 if we restarted right after initial data) */
+  if (grid->iteration == 0 || !u_p) {
     printf("Adding variables for evolution:\n");
 
     /* add additional variables */
-- 
2.43.0


From 092b37fbf132173e4642b8363b31dd0fd10e16de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 22/65] fix: evolve_rk: iterating over evolution_method_rk
 crashed when a later method has more stages than the first

---
 src/utility/evolve/rk.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/utility/evolve/rk.c b/src/utility/evolve/rk.c
index 60a8fb8..62e5f8a 100644
--- a/src/utility/evolve/rk.c
+++ b/src/utility/evolve/rk.c
@@ -225,7 +225,6 @@ void evolve_rk_rk4(tGrid *grid)
 /* explicit Runge-Kutta */
 void evolve_rk(tGrid *grid) 
 {
-  static int firstcall = 1;
   tButcher *rk;
   char s[3] = "_r";
   int i;
@@ -251,13 +250,10 @@ void evolve_rk(tGrid *grid)
 
   /* add auxiliary fields to data base, no storage yet 
      incrementing second letter in s gives _r, _s, _t, ... */
-  if (firstcall) {
-    firstcall = 0;
-    for (i = 0; i < rk->nstages; i++, s[1]++) 
-      u_k[i] = AddDuplicate(u_c, s);
+  for (i = 0; i < rk->nstages; i++, s[1]++)
+    if (!u_k[i]) u_k[i] = AddDuplicate(u_c, s);
 
-    if (0) prbutchertable(rk);
-  }
+  if (0) prbutchertable(rk);
 
   // strange bug? rk4 shadows rk4a
   // printf("%s, getv %d\n", Gets("evolution_method_rk"), Getv("evolution_method_rk", "rk3"));
-- 
2.43.0


From 9fdf346e4dcc6be9b4db5ccee95570c689330abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 23/65] fix: timeforoutput_di_dt: rounding errors made outputs
 disappear or appear twice if the output interval is not a multiple of the
 time step

---
 src/utility/output/output.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/output/output.c b/src/utility/output/output.c
index 4e3a4a7..93beb31 100644
--- a/src/utility/output/output.c
+++ b/src/utility/output/output.c
@@ -27,7 +27,8 @@ int timeforoutput_di_dt(tGrid *grid, int di, double dt)
   {
     int i = (0.5 + Time/dt); /* (Time + dequaleps)/dt; */
     /* if(dequal(Time-i*dt, 0)) */
-    if( Time-i*dt > -0.5*dT && Time-i*dt <= 0.5*dT )
+    double eps = 1e-6*dT; /* so that rounding errors do not matter */
+    if( Time-i*dt > -0.5*dT + eps && Time-i*dt <= 0.5*dT + eps )
       return i + 1;
   }
     
-- 
2.43.0


From db9ca532efdcf38c753c8df99411727dacb2b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 24/65] fix: write_grid: several blanks between the variables
 to be output made it read parts of their names again

---
 src/utility/output/output.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/utility/output/output.c b/src/utility/output/output.c
index 93beb31..98e93e5 100644
--- a/src/utility/output/output.c
+++ b/src/utility/output/output.c
@@ -277,13 +277,12 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len;
       int vi;
 
-      while(sscanf(ou[0]+start, "%s", str)==1)
+      while(sscanf(ou[0]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[0][start]==' ') start++;
+        start += len;
   
         /* check if str has an index that exists */
         vi = IndLax(str);
@@ -315,14 +314,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len;
       int vi;
 
       //printf("1dout ... |%s|\n", ou[1]);
-      while(sscanf(ou[1]+start, "%s", str)==1)
+      while(sscanf(ou[1]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[1][start]==' ') start++;
+        start += len;
         //printf("1dout |%s|\n",str);
   
         /* check if str has an that index exists */
@@ -355,14 +353,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len;
       int vi;
 
       //printf("2dout ... |%s|\n", ou[2]);
-      while(sscanf(ou[2]+start, "%s", str)==1)
+      while(sscanf(ou[2]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[2][start]==' ') start++;
+        start += len;
         //printf("2dout |%s|\n", str);
         
         /* check if str has an index that exists */
@@ -395,14 +392,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len;
       int vi;
 
       //printf("3dout ... |%s|\n", ou[3]);
-      while(sscanf(ou[3]+start, "%s", str)==1)
+      while(sscanf(ou[3]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[3][start]==' ') start++;
+        start += len;
         //printf("3dout |%s|\n", str);
         
         /* check if str has an index that exists */
-- 
2.43.0


From f9a6481876fd96de6d4859d7a1ce9d921477ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 25/65] fix: output0d_boxvar: with 0doutput_normtype=L2norm the
 l2 norm, l1 norm and mean were all computed with squares of what has to be
 summed

---
 src/utility/output/output0d.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility/output/output0d.c b/src/utility/output/output0d.c
index 96b6723..9c9ba11 100644
--- a/src/utility/output/output0d.c
+++ b/src/utility/output/output0d.c
@@ -23,15 +23,15 @@ void output0d_value(char *filename, double time, double val)
 }
 
 
-/* L2 Norm of var array over box */
-double L2Norm_over_box_as_VolInt(tBox *box, double *u, double *U)
+/* average of var array over box, i.e. sum over points instead of integral */
+double Average_over_box_as_VolInt(tBox *box, double *u, double *U)
 {
   double sum=0;
   int i, n=0;
   double ret;
 
-  forallpoints(box,i) { sum += u[i]*u[i];  n++; }
-  ret = sqrt(sum/n);
+  forallpoints(box,i) { sum += u[i];  n++; }
+  ret = sum/n;
   forallpoints(box,i) U[i] = ret; /* only needed for compatibility with spec_3dIntegral */
   return ret;
 }
@@ -102,7 +102,7 @@ void output0d_boxvar(tBox *box, char *name)
   }
   else /* just use sums instead of integrals */
   {
-    VolIntegral = L2Norm_over_box_as_VolInt;
+    VolIntegral = Average_over_box_as_VolInt;
     forallpoints(box ,i) VolJac[i] = 1.0;
   }
           
-- 
2.43.0


From bd709be39f66e7b31157bf1a23bb5949bc806292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 26/65] fix: use plain transforms for bases with a single
 transform point

The FFT routines divide by zero or read past the array for ChebExtrema
with 2 points and for ChebZeros and Fourier with 1 point.
---
 src/utility/Spectral/spec_coeffs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/Spectral/spec_coeffs.c b/src/utility/Spectral/spec_coeffs.c
index 87acae4..03f2da3 100644
--- a/src/utility/Spectral/spec_coeffs.c
+++ b/src/utility/Spectral/spec_coeffs.c
@@ -617,9 +617,9 @@ void set_TransformType_flags_inbox(tBox *box)
     snprintf(bas, 999, "box%d_basis%d", box->b, dir);
     /* printf("str=%s=%s\nbas=%s=%s\n", str, Gets(str), bas, Gets(bas)); */
     if( Getv(str, "NUMREC_FFT") && nb>=Geti(str) && Geti(str)>=0 &&
-        ( (Getv(bas, "ChebExtrema") && is_power_of_two(nb-1)) ||
-          (Getv(bas, "ChebZeros") && is_power_of_two(nb)) ||
-          (Getv(bas, "Fourier") && is_power_of_two(nb))          )  )
+        ( (Getv(bas, "ChebExtrema") && nb>2 && is_power_of_two(nb-1)) ||
+          (Getv(bas, "ChebZeros") && nb>1 && is_power_of_two(nb)) ||
+          (Getv(bas, "Fourier") && nb>1 && is_power_of_two(nb))  )  )
       *Ttype=NUMREC_FFT;
     else if( Getv(str, "FFTW3") && nb>=Geti(str) && Geti(str)>=0 &&
              ( Getv(bas, "ChebExtrema") ||
-- 
2.43.0


From c5509085509e2c40359d2461ea4a3ec128e6db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 27/65] fix: Fourier basis functions start at the left end of
 the interval

four_basisfunc used X instead of X-a, so interpolation with it was wrong
for intervals that do not start at zero.
---
 src/utility/Spectral/explicit_Four_trafos.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility/Spectral/explicit_Four_trafos.c b/src/utility/Spectral/explicit_Four_trafos.c
index 2c174f4..ea2c5e7 100644
--- a/src/utility/Spectral/explicit_Four_trafos.c
+++ b/src/utility/Spectral/explicit_Four_trafos.c
@@ -222,9 +222,9 @@ double four_basisfunc_alt(void *aux, double a, double b, int n, int N, double X)
   double K = 2.0*PI/(b-a);
   int j = n/2 + n%2;
 
-  if(n%2!=0) return cos(j*K*X);
+  if(n%2!=0) return cos(j*K*(X-a));
   if(n==0)   return 1.0;
-  return sin(j*K*X);
+  return sin(j*K*(X-a));
 }
 
 
@@ -235,9 +235,9 @@ double four_basisfunc(void *aux, double a, double b, int k, int N, double X)
   int j = k/2 + k%2;
 
   if(k==0)              return 1.0/N;
-  if(k==N-1 && N%2==0)  return cos(j*K*X)*1.0/N;;
-  if(k%2!=0)            return cos(j*K*X)*2.0/N;
-  return sin(j*K*X)*2.0/N;
+  if(k==N-1 && N%2==0)  return cos(j*K*(X-a))*1.0/N;;
+  if(k%2!=0)            return cos(j*K*(X-a))*2.0/N;
+  return sin(j*K*(X-a))*2.0/N;
 }
 
 
-- 
2.43.0


From a46c29511b6e191c7231e37732ecdef6442ea597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 28/65] fix: include the highest even mode in the spherical
 surface integrals

the loop stopped one mode early, so this mode was left out when N/2 is even or N is odd.
---
 src/utility/Spectral/integrals.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/Spectral/integrals.c b/src/utility/Spectral/integrals.c
index a6b8a2f..d72de17 100644
--- a/src/utility/Spectral/integrals.c
+++ b/src/utility/Spectral/integrals.c
@@ -390,7 +390,7 @@ void spec_sphericalDF2dIntegral(tBox *box, double *u, double *U)
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;2*n<N;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
@@ -479,7 +479,7 @@ void spec_sphericalDF2dIntegral_at_radial_index_i(tBox *box,
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;2*n<N;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
-- 
2.43.0


From d9750d8f0582ad237eabcbf6043b494d1a9f76bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 29/65] fix: cheb_int for a single coefficient

the recursion read and wrote cint[1] and c[1] although only c[0] exists.
---
 src/utility/Spectral/explicit_Cheb_trafos.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utility/Spectral/explicit_Cheb_trafos.c b/src/utility/Spectral/explicit_Cheb_trafos.c
index 1715cd0..09b9c87 100644
--- a/src/utility/Spectral/explicit_Cheb_trafos.c
+++ b/src/utility/Spectral/explicit_Cheb_trafos.c
@@ -101,6 +101,12 @@ void cheb_int(double a, double b, double c[], double cint[], int n)
   int j;
   double sum=0.0,fac=1.0,con;
 
+  if(n<1) /* only one point: the integral is represented by a constant */
+  {
+    cint[0]=0.0;
+    return;
+  }
+
   con=0.25*(a-b);
   for (j=1;j<=n-1;j++)
   {
-- 
2.43.0


From 514f9333abe62a19ffa86772822bd9d62ca04f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 30/65] fix: first derivatives of rho in PolarCE coordinates

drho_dx and drho_dy expect the angle phi as second argument, but in PolarCE
coordinates they were called with the coordinate Y.
---
 src/utility/Coordinates/Coordinates.c | 20 ++++++++++++++++++--
 src/utility/Coordinates/Coordinates.h |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 40e8009..06ed539 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -126,8 +126,8 @@ int init_CoordTransform_And_Derivs(tGrid *grid)
       box->x_of_X[2] = y_ofPolarCE;
       box->x_of_X[3] = z_equals_Z;
 
-      box->dX_dx[1][1] = drho_dx;
-      box->dX_dx[1][2] = drho_dy;
+      box->dX_dx[1][1] = drhoPolarCE_dx;
+      box->dX_dx[1][2] = drhoPolarCE_dy;
       box->dX_dx[1][3] = zero_of_xyz;
       box->dX_dx[2][1] = dYPolarCE_dx;
       box->dX_dx[2][2] = dYPolarCE_dy;
@@ -1299,6 +1299,22 @@ double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z)
 }
 
 /* first coord. derivs */
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dx(aux,ind, rho, phi, Z);
+}
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dy(aux,ind, rho, phi, Z);
+}
 /* NOTE: Y = PI*( 1.0 - cos( ((N-1.0)/(2.0*N)) * phi ) )             */
 /* dY/dphi = PI*((N-1.0)/(2.0*N)) * sin( ((N-1.0)/(2.0*N)) * phi )   */
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
diff --git a/src/utility/Coordinates/Coordinates.h b/src/utility/Coordinates/Coordinates.h
index a22f6eb..37c3b3b 100644
--- a/src/utility/Coordinates/Coordinates.h
+++ b/src/utility/Coordinates/Coordinates.h
@@ -77,6 +77,8 @@ double dphi_dydy(void *aux, int ind, double rho, double phi, double Z);
 /* PolarCE coordinates: */
 double x_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
 double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 
-- 
2.43.0


From 89e067f11d14e1a21bf17a07d44d3e1a3393f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 31/65] fix: AnsorgNS coordinate functions remember what they
 were called with

With Coordinates_AnsorgNS_Bshift=yes or BB>1 the saved results were labelled
with the shifted or wrapped coordinates, so a later call with those
coordinates returned the result for another point.
---
 src/utility/Coordinates/Coordinates.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 06ed539..202f3b8 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -2327,6 +2327,7 @@ void xyz_of_AnsorgNS(tBox *box, int ind, int domain,
   int read=0;
   double X,R;
   double Rsqr=-1, Xsqr=-1, Rsqr_p_Xsqr=-1;
+  double BBin, phiin;
   double b;
   double sigp_Bphi, sigp_1phi;
   double Ap;
@@ -2345,6 +2346,10 @@ void xyz_of_AnsorgNS(tBox *box, int ind, int domain,
   }
   if(read) return; /* return from func if we read */
 
+  /* remember BB and phi as they were passed in, to label what we save */
+  BBin  = BB;
+  phiin = phi;
+
   /* shift BB coord, so that we can use Fourier in BB without hitting BB=0 */
   if(BBshift<0) BBshift=Getv("Coordinates_AnsorgNS_Bshift", "yes");
   if(BBshift)
@@ -2505,13 +2510,13 @@ void xyz_of_AnsorgNS(tBox *box, int ind, int domain,
     xsav=*x;  ysav=*y;  zsav=*z;
     Xsav=*Xp; Rsav=*Rp;
     /* set static vars that indicate saved values */
-    Asav=A;  BBsav=BB;  phisav=phi;  boxsav=box;
+    Asav=A;  BBsav=BBin;  phisav=phiin;  boxsav=box;
     domainsav=domain;
   }
 #ifdef DEBUGrace
   /* check integrity of saved values (other threads may have messed them up) */
   if(!dequal(xsav,*x) || !dequal(ysav,*y) || !dequal(zsav,*z) ||
-     !dequal(Asav,A) || !dequal(BBsav,BB) || !dequal(phisav,phi) ||
+     !dequal(Asav,A) || !dequal(BBsav,BBin) || !dequal(phisav,phiin) ||
      boxsav!=box || domainsav!=domain)
   {
      domainsav=-42; /* do not use save values!!! */
@@ -2544,6 +2549,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
   double dABphi_dXRphi[4][4]; /* dABphi_dXRphi[k][l] = dA^k/dX^l */
   double dXRphi_dxyz[4][4];   /* dXRphi_dxyz[l][m]   = dX^l/dx^m */
   int l;
+  double BBin, phiin;
   double b;
   double sigp_Bphi, sigp_1phi;
   double dsigp_dphi_Bphi, dsigp_dphi_1phi, dsigp_dB_Bphi; /* dsigp_dB_1phi */
@@ -2568,6 +2574,10 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
   }
   if(read) return; /* return from func if we read */
 
+  /* remember BB and phi as they were passed in, to label what we save */
+  BBin  = BB;
+  phiin = phi;
+
   /* shift BB coord, so that we can use Fourier in BB without hitting BB=0 */
   if(BBshift<0) BBshift=Getv("Coordinates_AnsorgNS_Bshift", "yes");
   if(BBshift)
@@ -3164,7 +3174,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
     dBBdxsav=*dBBdx;   dBBdysav=*dBBdy;   dBBdzsav=*dBBdz;
     dphidxsav=*dphidx; dphidysav=*dphidy; dphidzsav=*dphidz;
     /* set static vars that indicate saved values */
-    Asav=A;  BBsav=BB;  phisav=phi;  boxsav=box;
+    Asav=A;  BBsav=BBin;  phisav=phiin;  boxsav=box;
     domainsav=domain;    /* now we are done writing the static vars */
   }
 #ifdef DEBUGrace
@@ -3173,7 +3183,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
      !dequal(dAdxsav,*dAdx)     || !dequal(dAdysav,*dAdy)     || !dequal(dAdzsav,*dAdz)     ||
      !dequal(dBBdxsav,*dBBdx)   || !dequal(dBBdysav,*dBBdy)   || !dequal(dBBdzsav,*dBBdz)   ||
      !dequal(dphidxsav,*dphidx) || !dequal(dphidysav,*dphidy) || !dequal(dphidzsav,*dphidz) ||
-     !dequal(Asav,A) || !dequal(BBsav,BB) || !dequal(phisav,phi) ||
+     !dequal(Asav,A) || !dequal(BBsav,BBin) || !dequal(phisav,phiin) ||
      boxsav!=box || domainsav!=domain)
   {
      domainsav=-42; /* do not use saved values!!! */
-- 
2.43.0


From 8c5c109bed5c9039c04faf9cdf8758b3b40dadcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 32/65] fix: lamAB_of_xyz_CubSph fails at the center of the
 cubed spheres

there A and B are NaN, which was not seen as out of range.
---
 src/utility/Coordinates/coordtrans_CubedSphere.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/Coordinates/coordtrans_CubedSphere.c b/src/utility/Coordinates/coordtrans_CubedSphere.c
index b118b58..e0eb66d 100644
--- a/src/utility/Coordinates/coordtrans_CubedSphere.c
+++ b/src/utility/Coordinates/coordtrans_CubedSphere.c
@@ -158,16 +158,16 @@ int lamAB_of_xyz_CubSph(tBox *box, int ind, double x, double y, double z,
     *B   = rx/rz;
   }
 
-  /* check if A is out of range */
-  if( *A < box->bbox[2] || box->bbox[3] < *A )
+  /* check if A is out of range (or NaN, as it is at the center) */
+  if( !(box->bbox[2] <= *A && *A <= box->bbox[3]) )
   {
     /* put A within range if we are just a bit out */
     if(dequal(*A,box->bbox[2]))      *A = box->bbox[2];
     else if(dequal(*A,box->bbox[3])) *A = box->bbox[3];
     else stat=-1;
   }
-  /* check if B is out of range */
-  if( *B < box->bbox[4] || box->bbox[5] < *B )
+  /* check if B is out of range (or NaN, as it is at the center) */
+  if( !(box->bbox[4] <= *B && *B <= box->bbox[5]) )
   {
     /* put B within range if we are just a bit out */
     if(dequal(*B,box->bbox[4]))      *B = box->bbox[4];
-- 
2.43.0


From de5753718a4981a793fa67d482caca2646b2342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 33/65] fix: newton_linesearch stops if the Newton step is not
 finite

With an infinite step the minimal step fraction in linesrchP is zero, and
its loop never ends.
---
 src/utility/numerics/newton_linesearch.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index a0db34c..58c39d5 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -152,7 +152,15 @@ int newton_linesearch(int n, double x[], int *check,
     {
       lu_solve(n, fjac, p_idx, p);
     }
-    
+
+    /* give up if the step is not finite, as linesrchP would never return */
+    for(i=0; i<n; i++) if(!finit(p[i]))
+    {
+      *check=0;
+      ret = -its-1;
+      goto finalize;
+    }
+
     linesrchP(n,xold,fold,g,p,x,&f,stpmax,check,
               f_to_minimize_in_linesrchP, 
               newton_linesrch_fvec, vecfuncP, par, vecfuncP_ilow);
-- 
2.43.0


From e3aef0d4c2c80e243fb2177ec40db748e457e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 34/65] fix: sign of dB/dx in AnsorgNS coordinates where B is
 continued beyond 1

For BB>1 the coordinates are those of 2-BB, so its derivatives change sign.
---
 src/utility/Coordinates/Coordinates.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 202f3b8..6361448 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -2550,6 +2550,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
   double dXRphi_dxyz[4][4];   /* dXRphi_dxyz[l][m]   = dX^l/dx^m */
   int l;
   double BBin, phiin;
+  double BBsign=1.0; /* -1 if we replace BB by 2-BB */
   double b;
   double sigp_Bphi, sigp_1phi;
   double dsigp_dphi_Bphi, dsigp_dphi_1phi, dsigp_dB_Bphi; /* dsigp_dB_1phi */
@@ -2592,6 +2593,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
     BB=2.0-BB;
     if(phi<PI)	phi=phi+PI;
     else	phi=phi-PI;
+    BBsign=-1.0;
   }
 
   /* deform BB, so that B is not to close to either 0 or 1:
@@ -3145,9 +3147,9 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
 
   /* finally get *dBBdx,*dBBdy,*dBBdz from dBdx,dBdy,dBdz: 
      dBBdx = dBBdB dBdx , ... */
-  *dBBdx = dBBdB * dBdx;
-  *dBBdy = dBBdB * dBdy;
-  *dBBdz = dBBdB * dBdz;
+  *dBBdx = BBsign * dBBdB * dBdx;
+  *dBBdy = BBsign * dBBdB * dBdy;
+  *dBBdz = BBsign * dBBdB * dBdz;
 
 //if( !finit(*dAdx) || !finit(*dAdy) || !finit(*dAdz) ||
 //    !finit(*dBBdx) || !finit(*dBBdy) || !finit(*dBBdz) ||
-- 
2.43.0


From 790586a9f5d0e52dcfc95f5e7d786c8032567d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 35/65] fix: linesrchP does not abort the program because of
 roundoff

As in other versions of this algorithm half the step is tried next.
---
 src/utility/numerics/newton_linesearch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index 58c39d5..37545ab 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -353,7 +353,7 @@ void linesrchP(int n, double xold[], double fold,
         {
           discrimi = b*b-3.*a*g_slope;
           if(discrimi<0.)
-          { printf("Roundoff problem in linesrchP\n"); abort(); exit(1); }
+          { tmplam = 0.5*alam; /* roundoff problem */ }
           else
           { tmplam = (-b+sqrt(discrimi))/(3.*a); }
         }
-- 
2.43.0


From d87e27f5f6560ede07886fe3cd0ee21b4e95d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 36/65] fix: XYZ_of_xyz reports failure if the Newton iteration
 got stuck

newton_linesearch also returns with check=0 and no error if x does not change
anymore, so a point that is not in the box could be reported as found.
---
 src/utility/Coordinates/findXYZ_of_xyz.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index 9c7b7d1..fbd2c40 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -150,6 +150,17 @@ int XYZ_of_xyz(tBox *box, double *X, double *Y, double *Z,
       else           stat = -abs(stat)-1;
     }
   }
+  else
+  {
+    /* newton also stops with check=0 if X,Y,Z do not change anymore,
+       so make sure we really found x,y,z */
+    double fvec[4];
+    double r = sqrt(x*x + y*y + z*z);
+
+    xyz_VectorFuncP(3, XYZvec, fvec, (void *) pars);
+    if( !(fabs(fvec[1])+fabs(fvec[2])+fabs(fvec[3]) <= 100.0*tol*(1.0+r)) )
+      stat = -abs(stat)-1;
+  }
 
   return stat-check;
 }
-- 
2.43.0


From f032e6239246765a1a0a030b4c23c04c6c80de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 37/65] fix: lamAB_of_xyz_CubSph really fails at the center

dequal takes NaN as equal to any number, so the range checks let NaN through.
---
 src/utility/Coordinates/coordtrans_CubedSphere.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utility/Coordinates/coordtrans_CubedSphere.c b/src/utility/Coordinates/coordtrans_CubedSphere.c
index e0eb66d..cb9d013 100644
--- a/src/utility/Coordinates/coordtrans_CubedSphere.c
+++ b/src/utility/Coordinates/coordtrans_CubedSphere.c
@@ -158,16 +158,16 @@ int lamAB_of_xyz_CubSph(tBox *box, int ind, double x, double y, double z,
     *B   = rx/rz;
   }
 
-  /* check if A is out of range (or NaN, as it is at the center) */
-  if( !(box->bbox[2] <= *A && *A <= box->bbox[3]) )
+  /* check if A is out of range */
+  if( *A < box->bbox[2] || box->bbox[3] < *A )
   {
     /* put A within range if we are just a bit out */
     if(dequal(*A,box->bbox[2]))      *A = box->bbox[2];
     else if(dequal(*A,box->bbox[3])) *A = box->bbox[3];
     else stat=-1;
   }
-  /* check if B is out of range (or NaN, as it is at the center) */
-  if( !(box->bbox[4] <= *B && *B <= box->bbox[5]) )
+  /* check if B is out of range */
+  if( *B < box->bbox[4] || box->bbox[5] < *B )
   {
     /* put B within range if we are just a bit out */
     if(dequal(*B,box->bbox[4]))      *B = box->bbox[4];
@@ -175,6 +175,9 @@ int lamAB_of_xyz_CubSph(tBox *box, int ind, double x, double y, double z,
     else stat=-1;
   }
 
+  /* A and B are not defined at the center, which is never in this box */
+  if(rc==0.0) stat=-1;
+
   /* check type of trafo */
   if(type==PyramidFrustum)
   {
-- 
2.43.0


From d9bc0a2e0aeaf3f8fc45204bff80725e91199fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 38/65] fix: derivatives of the surface functions of cubed
 spheres

sin(Theta) d/dTheta Ylm contains Y_{l+1}^m, which was left out for l=lmax, so
that the derivatives did not belong to the function.
---
 src/utility/Coordinates/FSurf_CubedSpheres.c | 23 ++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/utility/Coordinates/FSurf_CubedSpheres.c b/src/utility/Coordinates/FSurf_CubedSpheres.c
index 28e20a1..d0e3436 100644
--- a/src/utility/Coordinates/FSurf_CubedSpheres.c
+++ b/src/utility/Coordinates/FSurf_CubedSpheres.c
@@ -85,16 +85,19 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   int N = box->nnodes;
   int offset = si ? N/2 : 0;  /* offset for coeffs in co */
   int nYs = (lmax*(lmax+1))/2 + lmax+1; /* number of Ylm's we use */
+  int L = lmax+1; /* sin(Theta) d/dTheta Ylm contains Y_{l+1}^m */
+  int nYL = ((L+1)*(L+2))/2 + L+2; /* number of Ylm's up to L+1 */
   int ijk, l,m;
   double sm;
   double *co = box->v[isigma01_co];
   double ft, fp; /* ft = sin(Theta) dsigma/dTheta, fp = dsigma/dPhi */
   double fth;    /* fth= dsigma/dTheta */
   double Theta,Phi, dThetadA,dThetadB, dPhidA,dPhidB;
-  double *ReYtab = alloc_Plm_Tab(lmax);
-  double *ImYtab = alloc_Plm_Tab(lmax);
-  double *csdth = calloc(nYs*2, sizeof(double));
-  double *cdphi = calloc(nYs*2, sizeof(double));
+  double *ReYtab = alloc_Plm_Tab(L);
+  double *ImYtab = alloc_Plm_Tab(L);
+  double *cL    = calloc(nYL*2, sizeof(double)); /* co padded with zeros */
+  double *csdth = calloc(nYL*2, sizeof(double));
+  double *cdphi = calloc(nYL*2, sizeof(double));
 
   /* regularize case where A=B=0 <==> Theta=0:
      Note for Theta=0 we cannot use sin(Theta) d/dTheta Ylm
@@ -106,17 +109,18 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A,B, &Theta,&Phi,
                                      &dThetadA,&dThetadB, &dPhidA,&dPhidB);
   /* make tables of Ylm at Theta,Phi */
-  set_YlmTabs(lmax, Theta,Phi, ReYtab, ImYtab);
+  set_YlmTabs(L, Theta,Phi, ReYtab, ImYtab);
 
   /* get coeffs of derivs */
-  SphHarm_sin_theta_dtheta_forRealFunc(co+offset, csdth, lmax);
-  SphHarm_dphi_forRealFunc(co+offset, cdphi, lmax);
+  for(ijk=0; ijk<nYs*2; ijk++) cL[ijk] = co[offset+ijk];
+  SphHarm_sin_theta_dtheta_forRealFunc(cL, csdth, L);
+  SphHarm_dphi_forRealFunc(cL, cdphi, L);
 
   /* get func vals ft,fp at Theta,Phi */
   fp = ft = 0.;
   ijk=0;
   /* loop over positive m, here Ylmm=Y_l^{-m}, sm = (-1)^m */
-  for(l=0; l<=lmax; l++)
+  for(l=0; l<=L; l++)
     for(sm=1., m=0;  m<=l;  m++, sm=-sm)
     {
       double Re_Ylm, Im_Ylm, Re_Ylmm, Im_Ylmm;
@@ -137,7 +141,7 @@ errorexit("NAN!");
 }
 */
       /* get Ylm at Theta,Phi */
-      Ylm_from_Tabs(lmax, ReYtab, ImYtab, l,m, &Re_Ylm,&Im_Ylm);
+      Ylm_from_Tabs(L, ReYtab, ImYtab, l,m, &Re_Ylm,&Im_Ylm);
 
       /* There is a choice of sign here: define the inner product by
          (f,g) = int f^* g
@@ -175,6 +179,7 @@ errorexit("NAN!");
   *dsigdB = fth*dThetadB + fp*dPhidB;
   free(cdphi);
   free(csdth);
+  free(cL);
   free(ImYtab);
   free(ReYtab);
 /*
-- 
2.43.0


From f6a72cd14a9a9c1409f15978b87d4987691f0e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 39/65] fix: derivatives of the surface functions of cubed
 spheres at the poles

The distance of 1e-10 from the pole used so far is lost when cos(Theta) is
computed, so that the derivatives came out as zero.
---
 src/utility/Coordinates/FSurf_CubedSpheres.c | 36 +++++++++++++++++---
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/utility/Coordinates/FSurf_CubedSpheres.c b/src/utility/Coordinates/FSurf_CubedSpheres.c
index d0e3436..8a43b1a 100644
--- a/src/utility/Coordinates/FSurf_CubedSpheres.c
+++ b/src/utility/Coordinates/FSurf_CubedSpheres.c
@@ -99,11 +99,37 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   double *csdth = calloc(nYL*2, sizeof(double));
   double *cdphi = calloc(nYL*2, sizeof(double));
 
-  /* regularize case where A=B=0 <==> Theta=0:
-     Note for Theta=0 we cannot use sin(Theta) d/dTheta Ylm
-     to find d/dTheta Ylm. Also dPhidA blows up!!!
-     So for now just add epsilon to B. */
-  if(A==0. && B==0.) B = 1e-10;
+  /* treat case where A=B=0 <==> Theta=0 or Theta=PI separately:
+     There we cannot use sin(Theta) d/dTheta Ylm to find d/dTheta Ylm.
+     Also dPhidA blows up!!! But close to Theta=0 only m=+/-1 contribute with
+       Y_l^1 = -K sin(Theta) e^{i Phi},  K = sqrt((2l+1) l(l+1)/(16 PI))
+     with an extra (-1)^{l+1} close to Theta=PI. And pm sin(Theta) e^{i Phi}
+     is B + i A, where pm is the sign of cos(Theta). */
+  if(A==0. && B==0.)
+  {
+    double pm = 2*(box->CI->dom%2) - 1;
+    int dir = box->CI->dom/2 + 1;
+
+    if(dir==3)
+    {
+      double pml = 1.; /* pm^{l+1} * pm = pm^l, for l=0 this is 1 */
+      *dsigdA = *dsigdB = 0.;
+      for(ijk=offset, l=0; l<=lmax; l++, pml=pml*pm)
+        for(m=0; m<=l; m++, ijk+=2)
+          if(m==1)
+          {
+            double K = sqrt((2.*l+1.)*l*(l+1.)/(16.*PI));
+            *dsigdB -= pml * K * 2.*co[ijk];
+            *dsigdA += pml * K * 2.*co[ijk+1];
+          }
+      free(cdphi);
+      free(csdth);
+      free(cL);
+      free(ImYtab);
+      free(ReYtab);
+      return;
+    }
+  }
 
   /* get Theta,Phi and their derivs from A,B */
   ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A,B, &Theta,&Phi,
-- 
2.43.0


From 683b473477e279231baf16326de668b620c0cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 40/65] fix: vlswap uses a temporary variable of each thread

---
 src/main/main/variables.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index a2edcb3..8e6fbd2 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -661,9 +661,9 @@ void vlswap(tVarList *v, tVarList *u)
       SGRID_LEVEL3_Pragma(omp parallel for)
       for (i = 0; i < nnodes; i++)
       {
-        temp  = pv[i];
+        double tmp = pv[i];
         pv[i] = pu[i];
-        pu[i] = temp;
+        pu[i] = tmp;
       }
     }
   }
-- 
2.43.0


From 303ca46588a08db0ca0b018e30273c6831e508b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 41/65] fix: threads add to the result of a product with a
 sparse matrix one at a time

---
 src/utility/LinAlg/SparseVector_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/LinAlg/SparseVector_utils.c b/src/utility/LinAlg/SparseVector_utils.c
index f6897c2..b4dcd66 100644
--- a/src/utility/LinAlg/SparseVector_utils.c
+++ b/src/utility/LinAlg/SparseVector_utils.c
@@ -226,6 +226,7 @@ void vector_times_SparseMatrixLines(double *x, tSparseVector **Aline,
     {
        j   = Aline_k_pos[ent];
        Akj = Aline_k_val[ent];
+       SGRID_LEVEL4_Pragma(omp atomic)
        f[j] += x[k] * Akj;
     }
   }
@@ -255,6 +256,7 @@ void SparseMatrixLinesTranspose_times_vector(tSparseVector **Aline, int nlines,
     {
        j   = Aline_i_pos[ent];
        Aij = Aline_i_val[ent];
+       SGRID_LEVEL4_Pragma(omp atomic)
        f[j] += Aij * x[i];
     }
   }
-- 
2.43.0


From 50e8854a2dd1a83a95df1574f790875b204f6de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 42/65] fix: alloc_grid no longer writes a global variable from
 every thread

---
 src/main/MemoryMan/storage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/storage.c b/src/main/MemoryMan/storage.c
index 3cfe898..e415e64 100644
--- a/src/main/MemoryMan/storage.c
+++ b/src/main/MemoryMan/storage.c
@@ -38,7 +38,10 @@ tGrid *alloc_grid(int nboxes, int nvariables)
     /* printf("b=%d grid->box[b]=%p\n", b, grid->box[b]); */
   }
   
-  storage_verbose = Getv("storage_verbose", "yes");
+  /* write the global variable only if it changes, since several threads can
+     make a grid at the same time */
+  b = Getv("storage_verbose", "yes");
+  if(storage_verbose != b) storage_verbose = b;
   return grid;
 }
 
-- 
2.43.0


From efed244f54b500a19a4e56b1499c29f3becc7256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 43/65] fix: each thread reads compactSphericalDF_r0 itself

---
 src/utility/Coordinates/Coordinates.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 6361448..c152dc7 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -1562,6 +1562,7 @@ return 0.;
 double r_of_xi(double xi)
 {
   static double r0=-1.0;
+  #pragma omp threadprivate(r0)
 
 //  if(xi==1.0) return  
   if(r0 < 0.0)
@@ -1574,6 +1575,7 @@ double r_of_xi(double xi)
 double dxi_dr(double xi)
 {
   static double r0=-1.0;
+  #pragma omp threadprivate(r0)
   double r;
 
   if(xi==1.0) return 0.0;
@@ -1653,6 +1655,7 @@ double dphicompactSphericalDF_dy(void *aux, int ind, double xi, double thm, doub
 double ddxi_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Cos(theta),2)*(1. + Power(r0,2) - 2.*r0*(r0 + Tan(0.5*PI*xi)) - Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) + 2.*Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)) + Power(Sin(theta),2)*(2.*r0*Power(Cos(phi),2)*(r0 + Tan(0.5*PI*xi)) - 2.*Power(Cos(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Sin(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Sin(phi),2)*(-1. + Power(r0,2) + 2.*r0*Tan(0.5*PI*xi) + Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1660,6 +1663,7 @@ return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi
 double ddxi_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Cos(0.5*PI*xi),2)*Sin(2.*phi)*Power(Sin(theta),2)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1667,6 +1671,7 @@ return (Power(Cos(0.5*PI*xi),2)*Sin(2.*phi)*Power(Sin(theta),2)*(-2. + Cos(PI*xi
 double ddxi_compactSphericalDF_dxdz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Cos(phi)*Power(Cos(0.5*PI*xi),2)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1674,6 +1679,7 @@ return (Cos(phi)*Power(Cos(0.5*PI*xi),2)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Si
 double ddxi_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Cos(theta),2)*(1. + Power(r0,2) - 2.*r0*(r0 + Tan(0.5*PI*xi)) + 2.*Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)) + Power(Sin(theta),2)*(2.*r0*Power(Sin(phi),2)*(r0 + Tan(0.5*PI*xi)) + Power(Cos(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - 2.*Power(Sin(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Cos(phi),2)*(-1. + Power(r0,2) + 2.*r0*Tan(0.5*PI*xi) + Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1681,6 +1687,7 @@ return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi
 double ddxi_compactSphericalDF_dydz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Cos(0.5*PI*xi),2)*Sin(phi)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1688,6 +1695,7 @@ return (Power(Cos(0.5*PI*xi),2)*Sin(phi)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Si
 double ddxi_compactSphericalDF_dzdz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (-2.*Power(Cos(0.5*PI*xi),2)*(Cos(2.*theta) + Power(Cos(theta),2)*(-Cos(PI*xi) + r0*Sin(PI*xi))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1695,6 +1703,7 @@ return (-2.*Power(Cos(0.5*PI*xi),2)*(Cos(2.*theta) + Power(Cos(theta),2)*(-Cos(P
 double ddthm_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return -(((Cos(2.*phi) - Power(Cos(phi),2)*Cos(2.*theta))*Power(Cos(0.5*PI*xi),2)*Cot(theta))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
@@ -1702,6 +1711,7 @@ return -(((Cos(2.*phi) - Power(Cos(phi),2)*Cos(2.*theta))*Power(Cos(0.5*PI*xi),2
 double ddthm_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (0.5*(-2. + Cos(2.*theta))*Power(Cos(0.5*PI*xi),2)*Cot(theta)*Sin(2.*phi))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
@@ -1709,6 +1719,7 @@ return (0.5*(-2. + Cos(2.*theta))*Power(Cos(0.5*PI*xi),2)*Cot(theta)*Sin(2.*phi)
 double ddthm_compactSphericalDF_dxdz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return -((Cos(phi)*Cos(2.*theta)*Power(Cos(0.5*PI*xi),2))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
@@ -1716,6 +1727,7 @@ return -((Cos(phi)*Cos(2.*theta)*Power(Cos(0.5*PI*xi),2))/Power(r0*Cos(0.5*PI*xi
 double ddthm_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Cos(0.5*PI*xi),2)*Cot(theta)*(Cos(2.*phi) + Cos(2.*theta)*Power(Sin(phi),2)))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
@@ -1723,6 +1735,7 @@ return (Power(Cos(0.5*PI*xi),2)*Cot(theta)*(Cos(2.*phi) + Cos(2.*theta)*Power(Si
 double ddthm_compactSphericalDF_dydz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return -((Cos(2.*theta)*Power(Cos(0.5*PI*xi),2)*Sin(phi))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
@@ -1730,6 +1743,7 @@ return -((Cos(2.*theta)*Power(Cos(0.5*PI*xi),2)*Sin(phi))/Power(r0*Cos(0.5*PI*xi
 double ddthm_compactSphericalDF_dzdz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Cos(0.5*PI*xi),2)*Sin(2.*theta))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
@@ -1737,6 +1751,7 @@ return (Power(Cos(0.5*PI*xi),2)*Sin(2.*theta))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5
 double ddphi_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Csc(theta),2)*Sin(2.*phi))/Power(r0 + Tan(0.5*PI*xi),2);
 }
@@ -1744,6 +1759,7 @@ return (Power(Csc(theta),2)*Sin(2.*phi))/Power(r0 + Tan(0.5*PI*xi),2);
 double ddphi_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return -((Cos(2.*phi)*Power(Csc(theta),2))/Power(r0 + Tan(0.5*PI*xi),2));
 }
@@ -1756,6 +1772,7 @@ return 0.0;
 double ddphi_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+   #pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (-2.*Cos(phi)*Power(Csc(theta),2)*Sin(phi))/Power(r0 + Tan(0.5*PI*xi),2);
 }
-- 
2.43.0


From 7fe5038bedb3b9d54c58c3072ae5917129a69dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 44/65] fix: each thread reads tan_stretch_s itself

---
 src/utility/Coordinates/Coordinates.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index c152dc7..46627e9 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -2218,6 +2218,7 @@ return 0;
 double x_of_xs(double xs)
 {
   static double s=-1.0;
+  #pragma omp threadprivate(s)
 
   if(s < 0.0)
   {
@@ -2231,6 +2232,7 @@ double x_of_xs(double xs)
 double dxs_dx(double xs)
 {
   static double s=-1.0;
+  #pragma omp threadprivate(s)
   double u, arg;
 
   if(s < 0.0)
@@ -2249,6 +2251,7 @@ double dxs_dx(double xs)
 double ddxs_dxdx(double xs)
 {
   static double s=-1.0;
+  #pragma omp threadprivate(s)
   double u, arg, dum;
 
   if(s < 0.0)
-- 
2.43.0


From 509fa336dd8adc0457dc7b6154c0d6eb7ce538d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 45/65] fix: each thread looks up the parameters of AnsorgNS
 coordinates itself

---
 src/utility/Coordinates/Coordinates.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 46627e9..48e0de2 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -2344,6 +2344,7 @@ void xyz_of_AnsorgNS(tBox *box, int ind, int domain,
   static double Asav=-1, BBsav=-1, phisav=-1;
   static double xsav, ysav, zsav, Xsav, Rsav;
   static int BBshift=-1;
+  #pragma omp threadprivate(BBshift)
   int read=0;
   double X,R;
   double Rsqr=-1, Xsqr=-1, Rsqr_p_Xsqr=-1;
@@ -2563,6 +2564,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
                 dphidxsav, dphidysav, dphidzsav;
   double dBdx, dBdy, dBdz;
   static int BBshift=-1;
+  #pragma omp threadprivate(BBshift)
   int read=0;
   double X,R;
   double Rsqr=-1, Xsqr=-1, Rsqr_p_Xsqr=-1;
@@ -3407,6 +3409,7 @@ double AnsorgNS_sigma_pm(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3434,6 +3437,7 @@ double AnsorgNS_dsigma_pm_dB(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3461,6 +3465,7 @@ double AnsorgNS_dsigma_pm_dphi(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3480,6 +3485,7 @@ double AnsorgNS_ddsigma_pm_dBdB(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3507,6 +3513,7 @@ double AnsorgNS_ddsigma_pm_dBdphi(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3534,6 +3541,7 @@ double AnsorgNS_ddsigma_pm_dphidphi(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3559,6 +3567,7 @@ double tsafe_AnsorgNS_sigma_pm(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3586,6 +3595,7 @@ double tsafe_AnsorgNS_dsigma_pm_dB(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3613,6 +3623,7 @@ double tsafe_AnsorgNS_dsigma_pm_dphi(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3632,6 +3643,7 @@ double tsafe_AnsorgNS_ddsigma_pm_dBdB(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3659,6 +3671,7 @@ double tsafe_AnsorgNS_ddsigma_pm_dBdphi(tBox *box, int ind, double B, double phi
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3686,6 +3699,7 @@ double tsafe_AnsorgNS_ddsigma_pm_dphidphi(tBox *box, int ind, double B, double p
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+  #pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
-- 
2.43.0


From a2c92a8d18f279aff566710a2de8de63cc408103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 46/65] fix: threads count enabled variables one at a time

---
 src/main/MemoryMan/storage.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/MemoryMan/storage.c b/src/main/MemoryMan/storage.c
index e415e64..6176d80 100644
--- a/src/main/MemoryMan/storage.c
+++ b/src/main/MemoryMan/storage.c
@@ -377,6 +377,7 @@ void enablevarcomp_inbox(tBox *box, int i)
 	     i, VarName(i));
       errorexit("");
     }
+    #pragma omp atomic
     nenabled++;
     if (storage_verbose) {
       printf("enabling variable %d = %s in b=%d, nenabled=%d => ",
@@ -395,6 +396,7 @@ void disablevarcomp_inbox(tBox *box, int i)
   if (box->v[i]) {
     free(box->v[i]);
     box->v[i] = 0;
+    #pragma omp atomic
     nenabled--;
     if (storage_verbose) {
       printf("disabling variable %d = %s in b=%d, nenabled=%d => ",
-- 
2.43.0


From 592770b3999bf4dfeddc16cfd0672ec4f734c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 47/65] fix: SOR and WT iterators free their storage when the
 initial guess solves the system

---
 src/utility/GridIterators/SOR.c      | 6 +++++-
 src/utility/GridIterators/WTsolver.c | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utility/GridIterators/SOR.c b/src/utility/GridIterators/SOR.c
index 7d67674..332491d 100644
--- a/src/utility/GridIterators/SOR.c
+++ b/src/utility/GridIterators/SOR.c
@@ -64,7 +64,11 @@ int matrix_SOR(tSparseVector **Aline, int nlines,
            nlines, omega, itmax, tol);
     printf("matrix_SOR: step %d  residual=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol)
+  {
+    free(f);
+    return 0;
+  }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
diff --git a/src/utility/GridIterators/WTsolver.c b/src/utility/GridIterators/WTsolver.c
index 3f6d258..f40fcc3 100644
--- a/src/utility/GridIterators/WTsolver.c
+++ b/src/utility/GridIterators/WTsolver.c
@@ -106,7 +106,13 @@ int WTiterator(tSparseVector **Aline, int nlines,
   { 
     printf("WTiterator: %d  res=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol)
+  {
+    free(mm);
+    free(f);
+    free(dx);
+    return 0;
+  }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
-- 
2.43.0


From 012c2e53d8f73afa3640f7f749ec39e68ec5ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 48/65] fix: Newton frees the storage of its temporary
 variables

---
 src/utility/GridIterators/Newton.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/GridIterators/Newton.c b/src/utility/GridIterators/Newton.c
index 44787e9..38da43b 100644
--- a/src/utility/GridIterators/Newton.c
+++ b/src/utility/GridIterators/Newton.c
@@ -350,8 +350,8 @@ exit(5);
       vlcopy(vlu, vltemp);
       do_partial_Newton_step(vlu, lambda, vldu);
 
-      /* free varlist vltemp */
-      vlfree(vltemp);
+      /* free varlist vltemp and its storage */
+      VLDisableFree(vltemp);
     }
   }
   /* reset du to zero */
-- 
2.43.0


From 11a27b25b65fe43e252d7b1e95ceaed006eb5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 49/65] fix: bicgstab reports success and the true residual
 when it converges early, and frees its storage

---
 src/utility/GridIterators/bicgstab.c | 31 +++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index e8cc0ae..14f43d8 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -57,7 +57,18 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
     }
   *normres = norm2(r);
   if (pr) printf("bicgstab: %5d  %10.3e\n", 0, *normres);
-  if (*normres <= tol) return 0;
+  if (*normres <= tol)
+  {
+    /* free temporary storage */
+    VLDisableFree(p);
+    VLDisableFree(ph);
+    VLDisableFree(rt);
+    VLDisableFree(s);
+    VLDisableFree(sh);
+    VLDisableFree(t);
+    VLDisableFree(v);
+    return 0;
+  }
 
   /* cgs iteration */
   for (ii = 0; ii < itmax; ii++) {
@@ -154,6 +165,24 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   VLDisableFree(t);
   VLDisableFree(v);
 
+  /* converged, rho or omega may be tiny or not even set yet in this case */
+  if (*normres <= tol)
+  {
+    /* r was only updated recursively, so get the true residual of x */
+    lop(r, x, c1, c2);
+    for (j = 0; j < r->n; j++)
+      forallboxes(grid,boxi)
+      {
+        tBox *box = grid->box[boxi];
+        double *pr  = vlldataptr(r,  box, j);
+        double *pb  = vlldataptr(b,  box, j);
+        forallpoints(box,i) pr[i] = pb[i] - pr[i];
+      }
+    *normres = norm2(r);
+    if (*normres <= tol) return ii+1;
+    return itmax+1;
+  }
+
   /* iteration failed */
   if (ii > itmax) return -1;
 
-- 
2.43.0


From 8892ced1b0481dc0fdc3e3c7abee617a2dc08a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 50/65] fix: rtbrent_brak rejects brackets where the function
 is NAN

---
 src/utility/numerics/rtbrent_brak.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/numerics/rtbrent_brak.c b/src/utility/numerics/rtbrent_brak.c
index 74d88c4..cf96224 100644
--- a/src/utility/numerics/rtbrent_brak.c
+++ b/src/utility/numerics/rtbrent_brak.c
@@ -36,8 +36,8 @@ int rtbrent_brak(double *x0, double (*func)(double,void *par),
     return -2*maxits-2;
   }
 
-  /* check if *x0 is within [x1,x2] */
-  if((fa < 0. && fb < 0.) || (fa > 0. && fb > 0.))
+  /* check if root is bracketed and if func values are not NAN */
+  if(!((fa <= 0. && fb >= 0.) || (fa >= 0. && fb <= 0.)))
   {
     if(pr)
     {
-- 
2.43.0


From 46ceaba708d366c287cadaa872a292df041b19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 51/65] fix: newton_linesearch uses row 0 and the matching
 right hand side in its treatment of singular matrices

---
 src/utility/numerics/newton_linesearch.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index 37545ab..8d1c60f 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -124,6 +124,7 @@ int newton_linesearch(int n, double x[], int *check,
       double ma;
       int *idx = calloc(n, sizeof(int));
       if(!idx) { printf("allocation failure!!!"); abort(); exit(1); }
+      for(l=0; l<n; l++) idx[l] = -1; /* no row found yet */
       for(l=0; l<n; l++)
       {
         for(ma=0.0, k=0; k<n; k++)
@@ -143,8 +144,8 @@ int newton_linesearch(int n, double x[], int *check,
         }
         // now we have max ma in fjac[k][l], where k = idx[l]
         k = idx[l];
-        if(k>0) p[l] = p[l]/fjac[k][l];
-        else    p[l] = 0.0;
+        if(k>=0) p[l] = -newton_linesrch_fvec[k]/fjac[k][l];
+        else     p[l] = 0.0;
       } // end l-loop
       free(idx);
     } /* end Sing. treatment */
-- 
2.43.0


From e74fe73a8ceab0469976f2c47ef9238e1aa91dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 52/65] fix: zbrac_P returns the result of rt_brak

---
 src/utility/numerics/NumericUtils_shims.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/NumericUtils_shims.c b/src/utility/numerics/NumericUtils_shims.c
index 80129d6..960bfff 100644
--- a/src/utility/numerics/NumericUtils_shims.c
+++ b/src/utility/numerics/NumericUtils_shims.c
@@ -62,7 +62,7 @@ int WT_newton(double *x, int n, int *check,
 int zbrac_P(double (*func)(double,void *par), double *x1, double *x2,
             void *par)
 {
-  rt_brak(func,par, x1,x2, 50);
+  return rt_brak(func,par, x1,x2, 50);
 }
 
 /* old way of finding root in bracket [x1,x2] */
-- 
2.43.0


From d71b0a1feec1a6527ec0bc609d74e0e47809fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 53/65] fix: odeintegrate and odeintegrateP report failures and
 integrate backwards

---
 src/utility/numerics/GSL_odeint.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utility/numerics/GSL_odeint.c b/src/utility/numerics/GSL_odeint.c
index 8348510..c61aff5 100644
--- a/src/utility/numerics/GSL_odeint.c
+++ b/src/utility/numerics/GSL_odeint.c
@@ -24,6 +24,9 @@ int GSL_odeint(double *xs, double xe, int n, double *y,
   gsl_odeiv2_system sys = { derivsP, NULL, n, pars };
   gsl_odeiv2_driver *drv;
 
+  /* the sign of the step size has to fit the direction */
+  if(xe<*xs) hstart = -fabs(hstart);
+
   /* init GSL driver */
   drv = gsl_odeiv2_driver_alloc_y_new(&sys, step_type,
                                       hstart, epsabs, epsrel);
@@ -126,6 +129,7 @@ double odeintegrate(double y[], int nvar, double x1, double x2,
   stat = GSL_odeint_rk8pd(&xs, xe, nvar, y+1, Shim_derivs_to_derivsP,par,
                           h1, eps, eps);
   xf = xs; /* save final x */
+  if(stat!=G_SUCCESS) *status = -1;
 
   //printf("xs=%g xf=%g xe=%g\n ", xs, xf, xe);
 
@@ -148,7 +152,7 @@ double odeintegrate(double y[], int nvar, double x1, double x2,
       *kcount = *kcount + 1;
 
       //printf("     xs=%g xe=%g\n ", xs,xe);
-      if(xs<xe) break;
+      if(xs!=xe) break;
     }
   }
   //printf("kmax=%d *kcount=%d\n", kmax, *kcount);
@@ -206,6 +210,7 @@ double odeintegrateP(double y[], int nvar, double x1, double x2,
   stat = GSL_odeint_rk8pd(&xs, xe, nvar, y+1, Shim_derivsP_y_to_ym1,shim,
                           h1, eps, eps);
   xf = xs; /* save final x */
+  if(stat!=G_SUCCESS) *status = -1;
 
   //printf("xs=%.17g xf=%.17g xe=%.17g\n ", xs, xf, xe);
   //printf("   ==> y[2]=%g\n", y[2]);
@@ -231,7 +236,7 @@ double odeintegrateP(double y[], int nvar, double x1, double x2,
 
       //printf("     xs=%.17g xe=%.17g\n ", xs,xe);
       //printf("     y[2]=%g\n", y[2]);
-      if(xs<xe) break;
+      if(xs!=xe) break;
     }
   }
   //printf("kmax=%d *kcount=%d\n", kmax, *kcount);
-- 
2.43.0


From 4080300146ba8f2e2b2fd1bcdac6a3f086e7ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 54/65] fix: SphHarm_sin_theta_dtheta_forRealFunc does not read
 beyond the coefficients

---
 src/utility/Spectral/SphericalHarmonics.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/Spectral/SphericalHarmonics.c b/src/utility/Spectral/SphericalHarmonics.c
index 02ef816..b594e95 100644
--- a/src/utility/Spectral/SphericalHarmonics.c
+++ b/src/utility/Spectral/SphericalHarmonics.c
@@ -312,10 +312,10 @@ void SphHarm_sin_theta_dtheta_forRealFunc(double *c, double *csdth, int lmax)
       elp1m = elp1m/( (lp1_2 + 1)*(lp1_2 - 1) );
       elp1m = sqrt(elp1m);
 
-      Rclp1 = c[i+lp1_2];
-      Iclp1 = c[i+lp1_2+1];
-      Rclm1 = c[i-l_2];
-      Iclm1 = c[i-l_2+1];
+      /* c_{l+1}^m is not in c if l=lmax, and c_{l-1}^m does not exist if m=l */
+      Rclp1 = Iclp1 = Rclm1 = Iclm1 = 0.0;
+      if(l<lmax) { Rclp1 = c[i+lp1_2]; Iclp1 = c[i+lp1_2+1]; }
+      if(m<l)    { Rclm1 = c[i-l_2];   Iclm1 = c[i-l_2+1]; }
 
       lm1  = l - 1;
       lp2  = lp1 + 1;
-- 
2.43.0


From ca06c6f00a93749e565bb64306f34069510fbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 55/65] fix: find_external_faces_of_box never ended for boxes
 with one point in a direction

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 596d8fa..91dac95 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -156,7 +156,7 @@ void find_external_faces_of_box(tBox *box, int *extface, int inclOuterBound)
     nd  = (n1)*(dir==1) + (n2)*(dir==2) + (n3)*(dir==3);
 
     /* go over faces, but not edges */
-    for(p=0; p<nd; p+=nd-1)
+    for(p=0; p<nd; p+=(nd>1 ? nd-1 : 1))
     {
       /* pick face index */
       if(p==0) f=2*d;
-- 
2.43.0


From 334fd30d1c49d8424923dc09968d112e08e714fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 56/65] fix: coordinateDependentFilter_Spherical uses a point
 with r>0 to find the latitude

---
 src/utility/Coordinates/coordFilters.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/Coordinates/coordFilters.c b/src/utility/Coordinates/coordFilters.c
index 965c7dc..eeef988 100644
--- a/src/utility/Coordinates/coordFilters.c
+++ b/src/utility/Coordinates/coordFilters.c
@@ -102,10 +102,10 @@ void coordinateDependentFilter_Spherical(tBox *box, tVarList *unew)
     /* set the upper 1-sin(theta) portion of the coeffs c to zero */
     for(j = 0; j < n2; j++)
     {
-      int I0j0 = Index(0,j,0);
-      double x=xp[I0j0];
-      double y=yp[I0j0];
-      double z=zp[I0j0];
+      int Inj0 = Index(n1-1,j,0); /* here r>0, even if there are points at r=0 */
+      double x=xp[Inj0];
+      double y=yp[Inj0];
+      double z=zp[Inj0];
       double r = sqrt(x*x + y*y + z*z);
       double sintheta = sin(acos(z/r));
       int ms, ks;
-- 
2.43.0


From 01093ae378f213be551fe61ea4e2093cb75e69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 57/65] fix: constant and simple excision boundary conditions
 with Runge-Kutta

---
 src/utility/boundary/boundary.c       | 36 ++++++++++++++++++++++-----
 src/utility/boundary/excision.c       | 17 +++++++++++++
 src/utility/boundary/sgrid_boundary.h |  1 +
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/utility/boundary/boundary.c b/src/utility/boundary/boundary.c
index 987c7e8..2f5f255 100644
--- a/src/utility/boundary/boundary.c
+++ b/src/utility/boundary/boundary.c
@@ -250,7 +250,22 @@ int free_BoundaryPointLists(tGrid *grid)
 }
 
 
-/* apply all active boundary conditions after a standard evolution step */
+/* check if var i is in boundary_selectedExcisionVars,
+   with or without an ending like "_r" from rk4 */
+static int selectedExcisionVar(int i)
+{
+  char str[1000];
+  int slen;
+
+  if(Getv("boundary_selectedExcisionVars", VarName(i))) return 1;
+  snprintf(str, 999, "%s", VarName(i));  slen=strlen(str);
+  if(slen<3 || str[slen-2]!='_') return 0;
+  str[slen-2]=0;
+  return Getv("boundary_selectedExcisionVars", str);
+}
+
+/* apply all active boundary conditions after a standard evolution step.
+   If c=0 unew contains the right hand sides and not the new values. */
 void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
 {
   tGrid *grid = unew->grid;
@@ -300,8 +315,11 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
   {
     /* for all variables */
     for (j = 0; j < unew->n; j++)
-      set_boundary_constant(constantBoundaryPointList,
-                            unew->index[j], upre->index[j]);
+      if(c != 0.0)
+        set_boundary_constant(constantBoundaryPointList,
+                              unew->index[j], upre->index[j]);
+      else /* unew is a right hand side, not a new value */
+        set_boundary_value(constantBoundaryPointList, unew->index[j], 0.0);
   }
 
   /* simple excision boundary condition */
@@ -309,7 +327,10 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
   {
     /* for all variables */
     for (j = 0; j < unew->n; j++)
-      set_boundary_simpleExcision(grid, unew->index[j], upre->index[j]);
+      if(c != 0.0)
+        set_boundary_simpleExcision(grid, unew->index[j], upre->index[j]);
+      else /* unew is a right hand side, not a new value */
+        set_boundary_simpleExcision_rhs(grid, unew->index[j]);
   }
 
   /* selectedconstantExcision excision boundary condition */
@@ -319,9 +340,12 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
     for (j = 0; j < unew->n; j++)
     {
       i = unew->index[j];
-      if (Getv("boundary_selectedExcisionVars", VarName(i)))
+      if (!selectedExcisionVar(i)) continue;
+      if(c != 0.0)
         set_boundary_constant(selectedBoundaryPointList,
                               unew->index[j], upre->index[j]);
+      else /* unew is a right hand side, not a new value */
+        set_boundary_value(selectedBoundaryPointList, unew->index[j], 0.0);
     }
   }
 
@@ -341,7 +365,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
     for (j = 0; j < unew->n; j++)
     {
       i = unew->index[j];
-      if (Getv("boundary_selectedExcisionVars", VarName(i)))
+      if (selectedExcisionVar(i))
         set_boundary_VonNeumannExcision(selectedBoundaryPointList,
                                         unew->index[j]);
     }
diff --git a/src/utility/boundary/excision.c b/src/utility/boundary/excision.c
index b84824d..1ff755d 100644
--- a/src/utility/boundary/excision.c
+++ b/src/utility/boundary/excision.c
@@ -24,6 +24,23 @@ void set_boundary_simpleExcision(tGrid *grid, int unew, int upre)
 }
 
 
+/* set simple excision boundary for the right hand side of one variable */
+void set_boundary_simpleExcision_rhs(tGrid *grid, int irhs)
+{
+  int bi, pi, ijk;
+
+  forallboxes(grid,bi)
+  {
+    tBox *box=grid->box[bi];
+    double *rhs = box->v[irhs];
+
+    /* NOTE: This works only if excsion boundary is at i=0: */
+    forPointList_inbox(ExcisionBoundaryPointList, box, pi , ijk)
+      rhs[ijk] = rhs[ijk+1];
+  }
+}
+
+
 /* set VonNeumann excision boundary for one variable */
 void set_boundary_VonNeumannExcision(tPointList *PL, int unew)
 {
diff --git a/src/utility/boundary/sgrid_boundary.h b/src/utility/boundary/sgrid_boundary.h
index c92d867..69cd42f 100644
--- a/src/utility/boundary/sgrid_boundary.h
+++ b/src/utility/boundary/sgrid_boundary.h
@@ -14,6 +14,7 @@ void set_boundary_radiative(tGrid *grid,
 			    int unew, int upre, double c, int ucur,
 			    double var0, double v);
 void set_boundary_simpleExcision(tGrid *grid, int unew, int upre);
+void set_boundary_simpleExcision_rhs(tGrid *grid, int irhs);
 void set_boundary_constant(tPointList *PL, int unew, int upre);
 void set_boundary_value(tPointList *PL, int ui, double value);
 void set_boundary_normalderiv_leftBound(tPointList *PL, int direc, int ui, 
-- 
2.43.0


From 9d2964873442d6de8baa8aece3e51aaf405e6bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 58/65] fix: set_oX_oY_oZ_vars_for_bfaces retries from the
 nearest points if it did not find the place

---
 .../Coordinates/Coordinates_set_bfaces.c      | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 91dac95..31b5fb9 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1843,6 +1843,17 @@ void set_all_bfaces_with_ob_minus1_to_outerbound(tGrid *grid, int b0, int nb)
 }
 
 
+/* check if X,Y,Z is inside box, in periodic directions any value is fine */
+int XYZ_in_box(tBox *box, double X, double Y, double Z)
+{
+  double *bb = box->bbox;
+
+  if(!box->periodic[1] && (dless(X,bb[0]) || dless(bb[1],X))) return 0;
+  if(!box->periodic[2] && (dless(Y,bb[2]) || dless(bb[3],Y))) return 0;
+  if(!box->periodic[3] && (dless(Z,bb[4]) || dless(bb[5],Z))) return 0;
+  return finit(X) && finit(Y) && finit(Z);
+}
+
 /* set the vars oX,oY,oZ for all bfaces in order */
 int set_oX_oY_oZ_vars_for_bfaces(tGrid *grid)
 {
@@ -1893,6 +1904,7 @@ int set_oX_oY_oZ_vars_for_bfaces(tGrid *grid)
           int n2 = box->n2;
           //int n3 = box->n3;
           int i0,j0,k0;
+          double oX[1], oY[1], oZ[1]; /* values at last point are next guess */
           i0 = j0 = k0 = -1000;
 
           enablevar_inbox(box, oXi);
@@ -1901,7 +1913,7 @@ int set_oX_oY_oZ_vars_for_bfaces(tGrid *grid)
           forPointList_inbox(bface->fpts, box, pi, ijk)
           {
             tBox *obox = grid->box[ob];
-            double oX[1], oY[1], oZ[1];
+            int stat;
 
             /* if we do not have an inverse we need some guess for oX,oY,oZ */
             if(obox->XYZ_Of_xyz==NULL)
@@ -1928,7 +1940,23 @@ int set_oX_oY_oZ_vars_for_bfaces(tGrid *grid)
               moveXYZ_off_face(obox, oX,oY,oZ);
             }
             /* get oX,oY,oZ in other box */
-            XYZ_of_xyz(obox, oX,oY,oZ, px[ijk],py[ijk],pz[ijk]);
+            stat = XYZ_of_xyz(obox, oX,oY,oZ, px[ijk],py[ijk],pz[ijk]);
+            /* if this failed start again from the nearest points in obox */
+            if(obox->XYZ_Of_xyz==NULL &&
+               (stat<0 || !XYZ_in_box(obox, *oX,*oY,*oZ)))
+            {
+              int oind;
+              guessXYZ_of_xyz(obox, &oind, oX,oY,oZ, px[ijk],py[ijk],pz[ijk]);
+              stat = XYZ_of_xyz(obox, oX,oY,oZ, px[ijk],py[ijk],pz[ijk]);
+              if(stat<0 || !XYZ_in_box(obox, *oX,*oY,*oZ))
+              {
+                nearestXYZ_of_xyz(obox, &oind, oX,oY,oZ,
+                                  px[ijk],py[ijk],pz[ijk]);
+                moveXYZ_off_face(obox, oX,oY,oZ);
+                stat = XYZ_of_xyz(obox, oX,oY,oZ, px[ijk],py[ijk],pz[ijk]);
+              }
+              i0 = -1000; /* get new guess for next point */
+            }
             box->v[oXi][ijk] = *oX;
             box->v[oYi][ijk] = *oY;
             box->v[oZi][ijk] = *oZ;
-- 
2.43.0


From a81633f314b75b8208fb3f039aa70d12519567f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 59/65] fix: same_fpts requires that all points of both bfaces
 have a partner

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 31b5fb9..87a8997 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1115,8 +1115,10 @@ int set_bits_in_all_bfaces(tGrid *grid)
           AddToPointList(ofpts, obox->b, oind);
       }
 
-      /* now check if ofpts is the same as obface->fpts */
-      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b])
+      /* now check if ofpts is the same as obface->fpts,
+         and if each point in fpts has a partner in ofpts */
+      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b] &&
+         ofpts->npoints[obox->b] == fpts->npoints[box->b])
       {
         /* make an intList point at the list in obface->fpts */
         ilist->n = obface->fpts->npoints[obox->b];
-- 
2.43.0


From 2ea106c17dcf1c059d98b721d525fab1ff8eb1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 60/65] fix: setnormalderiv stays 0 in non-touching bfaces of
 cubes

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 87a8997..779a122 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1435,8 +1435,9 @@ int toggle_setnormalderiv_flag_in_faces4_5_of_cubes(tGrid *grid)
         tBox *obox = NULL;
         tBface *obface = NULL;
 
-        /* do something only on face 4 and 5 */
-        if((f == 4) || (f == 5))
+        /* do something only on face 4 and 5, non-touching bfaces that have
+           another box always need setnormalderiv=0 */
+        if( ((f == 4) || (f == 5)) && (bface->touch || ob<0) )
         {
           if(bface->setnormalderiv) bface->setnormalderiv = 0;
           else                      bface->setnormalderiv = 1;
-- 
2.43.0


From 985af33a3699ea36232b43e59e88632ac28ac7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 61/65] fix: FPsi_2Dinterp_for_bface does not skip points at
 the edge of the range because of round-off

---
 src/utility/boundary/BCs_from_bfaces.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/utility/boundary/BCs_from_bfaces.c b/src/utility/boundary/BCs_from_bfaces.c
index b08ef69..d3f4696 100644
--- a/src/utility/boundary/BCs_from_bfaces.c
+++ b/src/utility/boundary/BCs_from_bfaces.c
@@ -389,7 +389,7 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
   int oYi = bface->oYi;
   int oZi = bface->oZi;
   tBox *obox = NULL;
-  int oCi1, oCi2;
+  int oCi1, oCi2, dC1, dC2;
   double rangeC1[2], rangeC2[2];
   tBface *obface;
   int of, op;
@@ -454,6 +454,8 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
   }
   else errorexit("1<=plN<=3 is required");
   if(oCi1<=0 || oCi2<=0) errorexit("oCi1/2 > 0 is required");
+  dC1 = (plN==1) ? 2 : 1; /* directions of C1 and C2 */
+  dC2 = (plN==3) ? 2 : 3;
 
   /* get coeffs for 2d interpolation from box ob */
   if(bface->setnormalderiv == 0)
@@ -472,9 +474,20 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
     double C2 = box->v[oCi2][ind];
     double Pinterp[4], n[4];
 
-    /* skip point if C1 or C2 are out of their range */
-    if(C1<rangeC1[0] || C1>rangeC1[1]) continue;
-    if(C2<rangeC2[0] || C2>rangeC2[1]) continue;
+    /* skip point if C1 or C2 are out of their range, but do not skip points
+       that are outside only because of round-off */
+    if(!obox->periodic[dC1])
+    {
+      if(dless(C1,rangeC1[0]) || dless(rangeC1[1],C1)) continue;
+      if(C1<rangeC1[0]) C1 = rangeC1[0];
+      if(C1>rangeC1[1]) C1 = rangeC1[1];
+    }
+    if(!obox->periodic[dC2])
+    {
+      if(dless(C2,rangeC2[0]) || dless(rangeC2[1],C2)) continue;
+      if(C2<rangeC2[0]) C2 = rangeC2[0];
+      if(C2>rangeC2[1]) C2 = rangeC2[1];
+    }
 
     if(bface->setnormalderiv == 0)
     {
-- 
2.43.0


From d6646faab52c1fac3de9e29b2c12d826986058bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 62/65] fix: sgrid3d_to_1d and sgrid3d_to_2d write past their
 buffers when a later block is larger than the first

---
 utilities/sgrid3d_to_1d.c | 2 +-
 utilities/sgrid3d_to_2d.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/sgrid3d_to_1d.c b/utilities/sgrid3d_to_1d.c
index b4dbe4e..b236674 100644
--- a/utilities/sgrid3d_to_1d.c
+++ b/utilities/sgrid3d_to_1d.c
@@ -77,7 +77,7 @@ int main(int argc, char **argv)
     fscanline(file, str); /* read til end of line */
     
     /* read the actual data */
-    if(data==NULL) data = calloc(npoints, sizeof(data));
+    data = realloc(data, npoints*sizeof(*data));
     fread(data, sizeof(*data), npoints, file);
   
     if(mode==1)      lm=n1;
diff --git a/utilities/sgrid3d_to_2d.c b/utilities/sgrid3d_to_2d.c
index 6983992..355833d 100644
--- a/utilities/sgrid3d_to_2d.c
+++ b/utilities/sgrid3d_to_2d.c
@@ -77,7 +77,7 @@ int main(int argc, char **argv)
     fscanline(file, str); /* read til end of line */
     
     /* read the actual data */
-    if(data==NULL) data = calloc(npoints, sizeof(data));
+    data = realloc(data, npoints*sizeof(*data));
     fread(data, sizeof(*data), npoints, file);
   
     if(mode==1)      { l1m=n1;  l2m=n2; }
-- 
2.43.0


From f08c7bc9ae83c7f20aeabd62e0784b4560464ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 63/65] fix: Z4secondO refers to parameters Z4secondOy_lapse
 and Z4secondO_shift_stop_time that do not exist

---
 src/physics/Z4secondO/sgrid_Z4secondO.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics/Z4secondO/sgrid_Z4secondO.c b/src/physics/Z4secondO/sgrid_Z4secondO.c
index 51ba9e6..6178004 100644
--- a/src/physics/Z4secondO/sgrid_Z4secondO.c
+++ b/src/physics/Z4secondO/sgrid_Z4secondO.c
@@ -50,7 +50,10 @@ int sgrid_Z4secondO(void)
          
   AddPar("Z4secondO_shift",  "constant",
          "shift equation [constant,gamma0,gamma2]");
-  AddPar("Z4secondOy_lapse", "constant", 
+  AddPar("Z4secondO_lapse", "constant", 
 	 "lapse equation [constant,1+log,harmonic;withshift]");
+
+  AddPar("Z4secondO_shift_stop_time", "-1.0", 
+         "time when shift stops evolving (-1 for don't stop)");
   return 0;
 }
-- 
2.43.0


From d63d1d1a1892dec27553706f6bf5baa58304e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 64/65] fix: read_other_checkpoints aborts when the parameter
 list is empty or starts with a blank

---
 src/utility/checkpoint/read_other_checkpoints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/read_other_checkpoints.c b/src/utility/checkpoint/read_other_checkpoints.c
index 92f2c31..4fd0f54 100644
--- a/src/utility/checkpoint/read_other_checkpoints.c
+++ b/src/utility/checkpoint/read_other_checkpoints.c
@@ -83,7 +83,7 @@ void checkpoint_interpolate_Vars_get_Pars(char *filename,
   /* loop over pars in parlist */
   printf("Setting the following parameters in pdb to values from pdb2:\n");
   NextEntry(0);
-  while( (par=NextEntry(parlist)) != NULL)
+  while( (par=NextEntry(parlist+strspn(parlist, " "))) != NULL)
   {
     /* swap parameter databases, so that we can use e.g. Gets on pdb2 */
     swap_tParameter_pointers(&pdb, &pdb2);
-- 
2.43.0


From 93f2033857ed189e8baf8e678a30cdbbfcc143df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 65/65] fix: J_Poisson3 is not the derivative of F_Poisson3:
 factor Chi missing in d(Chi^2 Psizz)

---
 src/physics/Poisson3/Poisson3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/Poisson3/Poisson3.c b/src/physics/Poisson3/Poisson3.c
index c154540..79081d6 100644
--- a/src/physics/Poisson3/Poisson3.c
+++ b/src/physics/Poisson3/Poisson3.c
@@ -416,7 +416,7 @@ void J_Poisson3(tVarList *VLJlu, tVarList *VLlu,
     forallpoints(box, i)
     {
       JlPsi[i] = Chi[i]*lPsixx[i] + lChi[i]*Psixx[i]  +  lPsiyy[i]  +
-                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*lChi[i]*Psizz[i];
+                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*Chi[i]*lChi[i]*Psizz[i];
       JlChi[i] = lChixx[i] + Psix[i]*lChiyy[i] + lPsix[i]*Chiyy[i] + lChizz[i];
     }
   }
-- 
2.43.0

