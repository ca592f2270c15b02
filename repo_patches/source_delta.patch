From ac6bf8099d01a14fea2722f13a6e9e9aa527739f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:44:31 +0000
Subject: [PATCH 01/94] fix: second derivative of Chebyshev expansions with two
 or three coefficients

The three-coefficient shortcut left out the squared slope of the domain
mapping, and a two-coefficient expansion was re-approximated with zero
basis functions.
---
 c3/lib_funcs/polynomials.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 2808cbb..47f8650 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -2359,7 +2359,7 @@ double cheb_expansion_dderiv_eval(const struct OrthPolyExpansion * poly, double
         return 0.0;
     }
     else if (poly->num_poly == 3){
-        return poly->coeff[2] * 4.0;
+        return poly->coeff[2] * 4.0 * dmult * dmult;
     }
 
     double x_norm = space_mapping_map(poly->space_transform,x);
@@ -2442,7 +2442,7 @@ orth_poly_expansion_dderiv(const struct OrthPolyExpansion * pin)
     for (size_t ii = 0; ii < out->nalloc; ii++){
         out->coeff[ii] = 0.0;
     }
-    if (p->num_poly < 2){
+    if (p->num_poly < 3){
         orth_poly_expansion_free(p); p = NULL;
         return out;
     }
-- 
2.43.0


From 2784e3258829f1810d0f37096e150ccaa3b963aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:44:31 +0000
Subject: [PATCH 02/94] fix: c3vgemv_arr scaled y by beta twice

---
 c3/lib_clinalg/ft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b430784..19e8731 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4777,8 +4777,8 @@ void c3vgemv_arr(int trans, size_t m, size_t n, double alpha, double * A,
 {
     size_t ii;
     assert (*y != NULL);
-    ft1d_array_scale(*y,m,incy,beta);
-        
+
+    // c3vaxpy_arr scales each element of y by beta
     if (trans == 0){
         for (ii = 0; ii < m; ii++){
             c3vaxpy_arr(n,alpha,B,incb,A+ii,lda,beta,&((*y)->ft[ii*incy]),epsilon, opts);
-- 
2.43.0


From ccef1f62b0c57001c3970832be3dec66ff2f540a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:44:31 +0000
Subject: [PATCH 03/94] fix: c3vgemv accumulated into function trains that were
 never allocated

---
 c3/lib_clinalg/ft.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 19e8731..a35b871 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4747,17 +4747,11 @@ void c3vgemv(size_t m, size_t n, double alpha, struct FT1DArray * A, size_t lda,
 
     size_t ii;
     assert (*y != NULL);
-    ft1d_array_scale(*y,m,incy,beta);
-    
-    struct FT1DArray * run = ft1d_array_alloc(m);
     for (ii = 0; ii < m; ii++){
         struct FT1DArray ftatemp;
         ftatemp.ft = A->ft+ii;
-        c3vprodsum(n,1.0,&ftatemp,lda,x,incx,0.0,&(run->ft[ii*incy]),epsilon, opts);
+        c3vprodsum(n,alpha,&ftatemp,lda,x,incx,beta,&((*y)->ft[ii*incy]),epsilon, opts);
     }
-    c3vaxpy(m,alpha,run,1,y,incy,epsilon, opts);
-
-    ft1d_array_free(run); run = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0


From 6013a872c0ae8bf9c0cd7dd262083a5c58abf236 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:44:31 +0000
Subject: [PATCH 04/94] fix: c3gemv freed the caller's function train and lost
 its result

---
 c3/lib_clinalg/ft.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index a35b871..7e25453 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4610,8 +4610,8 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
 
     size_t ii;
     assert (y != NULL);
-    function_train_scale(y,beta);
-    
+    struct FunctionTrain * z = function_train_copy(y);
+    function_train_scale(z,beta);
 
     if (epsilon > 0){
         struct FunctionTrain * runinit = function_train_product(A->ft[0],x);
@@ -4624,7 +4624,7 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             function_train_free(temp); temp = NULL;
             function_train_free(tempround); tempround = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        c3axpy(alpha,run,&z,epsilon,opts);
         function_train_free(run); run = NULL;
         function_train_free(runinit); runinit = NULL;
     }
@@ -4636,10 +4636,15 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             c3axpy(1.0,temp,&run,epsilon,opts);
             function_train_free(temp); temp = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        c3axpy(alpha,run,&z,epsilon,opts);
         function_train_free(run); run = NULL;
     }
-       
+
+    // y is owned by the caller, replace its contents
+    struct FunctionTrain swap = *y;
+    *y = *z;
+    *z = swap;
+    function_train_free(z); z = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0


From aad2f6e560e245efe624598c23bace381fbaaab2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 05/94] fix: function_train_eval_up_to_core left out the last
 requested core

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 7e25453..dd3c3a6 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -700,7 +700,7 @@ void function_train_eval_up_to_core(struct FunctionTrain * ft, size_t core, cons
         ft->cores[ii]->funcs, x[ii],t1);
     
     int onsol = 1;
-    for (ii = 1; ii < core; ii++){
+    for (ii = 1; ii <= core; ii++){
         if (ii%2 == 1){
             function_train_eval_next_core(ft,ii,1,x+ii,0,t1,0,t2,0,t3,0); // zeros because only 1 data point
             onsol = 2;
-- 
2.43.0


From 3ff51996dd91b1db1cf9e196eb232b75b7b77926 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 06/94] fix: function_train_quadratic_aligned built the last
 core with the options of the previous dimension

---
 c3/lib_clinalg/ft.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index dd3c3a6..7f470ac 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2086,6 +2086,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
         }
 
         onDim = dim-1;
+        o = multi_approx_opts_get_aopts(aopts,onDim);
 
         ft->ranks[onDim] = 2;
         ft->ranks[onDim+1] = 1;
-- 
2.43.0


From 1e4eeb61135c8b715d4e6557646cd1fc2ee79f8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 07/94] fix: one-dimensional additive, linear and
 aligned-quadratic function trains

initsum wrote a second function into a one-element core, and none of the
three set the last rank.
---
 c3/lib_clinalg/ft.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 7f470ac..30ce990 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1625,10 +1625,10 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
 
     ft->cores[onDim]->funcs[0] = 
         generic_function_approximate1d(aopt->fc,aopt->aopts,fw);
-    ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
-                                                           aopt->aopts);
-
+    ft->ranks[onDim+1] = 1;
     if (dim > 1){
+        ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
+                                                               aopt->aopts);
         for (onDim = 1; onDim < dim-1; onDim++){
 
             fwrap_set_which_eval(fw,onDim);
@@ -1771,6 +1771,7 @@ function_train_linear(const double * c, size_t ldc,
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
@@ -2051,6 +2052,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
-- 
2.43.0


From 679b3fc6e0fc52d61d3069e3c28ec0be08615da2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:48:47 +0000
Subject: [PATCH 08/94] fix: norm of a univariate function ended the process
 when roundoff made the inner product negative

---
 c3/lib_funcs/functions.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index 5a73e3a..98173eb 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -46,6 +46,7 @@
 #include <string.h>
 #include <math.h>
 #include <assert.h>
+#include <float.h>
 
 #include "stringmanip.h"
 #include "functions.h"
@@ -1711,6 +1712,10 @@ double generic_function_norm(const struct GenericFunction * f)
 {
     double out = generic_function_inner(f,f);
 
+    if ((out < 0.0) && (out > -1e2 * DBL_EPSILON)){
+        // negative only because of roundoff in the inner product
+        out = 0.0;
+    }
     if (out < 0.0){
         fprintf(stderr, "Norm of a function cannot be negative %G\n",out);
         exit(1);
-- 
2.43.0


From 8a5712c6898ebd9d0c05157e6282a6ab13defe0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:50:01 +0000
Subject: [PATCH 09/94] fix: QR and LQ of function arrays produced NaN when
 roundoff made a squared norm negative

---
 c3/lib_clinalg/qmarray.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index b6b2d4a..ee8ac60 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -3930,7 +3930,7 @@ int qmarray_qr(struct Qmarray * A, struct Qmarray ** Q, double ** R,
         }
 
         /* printf("\t sigma = %G\n",sigma); */
-        sigma = sqrt(sigma);
+        sigma = (sigma < 0.0) ? 0.0 : sqrt(sigma); // roundoff can make it negative
         // weird that this line is needed for stabilization
         // Need to add reorthoganlization
         //sigma = sigma + 1e-16;
@@ -4088,7 +4088,7 @@ int qmarray_lq(struct Qmarray * A, struct Qmarray ** Q, double ** L,
                                             V->funcs[kk*nrows+ii]);
         }
 
-        sigma = sqrt(sigma);
+        sigma = (sigma < 0.0) ? 0.0 : sqrt(sigma); // roundoff can make it negative
         // weird that this line is needed for stabilization
         // Need to add reorthoganlization
         //sigma = sigma + ZERO*1e-3;
-- 
2.43.0


From e76ac9c39f9fce7d9db5ee5ae8c055d83acdfa02 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:01:06 +0000
Subject: [PATCH 10/94] fix: strip_blank_ends and strip_ends read past the
 string and mangled leading characters

---
 c3/lib_stringmanip/stringmanip.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 0753621..9de906c 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -53,13 +53,13 @@ void strip_blank_ends(char * strin)
     char * str = strin;
     while (str[ii] == ' ')
     {
-        memmove(str,str+1,strlen(str)+1);
+        memmove(str,str+1,strlen(str));
     }
 
     n = strlen(str);
-    while (str[n]==' ' || str[n]=='\0')
+    while (n > 0 && str[n-1]==' ')
         n--;
-    str[n+1]='\0';
+    str[n]='\0';
 }
 
 void strip_ends(char * strin, char left, char right)
@@ -69,14 +69,14 @@ void strip_ends(char * strin, char left, char right)
     char * str = strin;
     while (str[ii] == left)
     {
-        memmove(str,str+1,strlen(str+1));
+        memmove(str,str+1,strlen(str));
     }
     
     n = strlen(str);
-    while (str[n] == right || str[n]=='\0'){
+    while (n > 0 && str[n-1] == right){
         n--;
     }
-    str[n+1] = '\0';
+    str[n] = '\0';
 }
 
 char * bite_string(char * strin, char tok)
-- 
2.43.0


From e0254cf30599abe6122b49ee6e77e161b40c9de2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:01:30 +0000
Subject: [PATCH 11/94] fix: bite_string2 missed tokens at the start of the
 string or after a partial match

---
 c3/lib_stringmanip/stringmanip.c | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 9de906c..89cf76c 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -110,27 +110,14 @@ char * bite_string(char * strin, char tok)
 char * bite_string2(char * strin, char * tok)
 {
     char * out = NULL;
-    size_t ii = 0;
-    size_t cut = 0;
-    size_t nMatch = 0;
-    for (ii = 0; ii < strlen(strin); ii++){
-        if (strin[ii] == tok[nMatch]){
-            nMatch++;
-        }
-        else{
-            nMatch = 0;
-        }
-        if (nMatch == strlen(tok)){
-            cut = ii+1 - nMatch;
-            break;
-        }
-    }
-    
-    if (cut > 0){
+    char * match = strstr(strin,tok);
+    if (match != NULL){
+        size_t cut = (size_t)(match - strin);
         out = malloc((cut+1)*sizeof(char));
         memmove(out,strin,cut);
         out[cut] = '\0';
-        memmove(strin, strin+cut+strlen(tok), strlen(strin)+1-ii-1);
+        match += strlen(tok);
+        memmove(strin, match, strlen(match)+1);
     }
     return out;
 }
-- 
2.43.0


From 6a6ce8e5c90eff00769d4d4b6e96fecc88bb7e45 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:01:30 +0000
Subject: [PATCH 12/94] fix: readtxt_double_array dropped tab-separated values

---
 c3/lib_stringmanip/stringmanip.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 89cf76c..d62d622 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -344,13 +344,13 @@ double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
     /* printf("number of rows = %zu\n",*nrows); */
     /* printf("number of cols = %zu\n",*ncols); */
 
-    token = strtok(str3," ,\n");
+    token = strtok(str3,"\t ,\n");
     size_t ind = 0;
     /* printf("%s %zu \n",token,ind); */
     while (token != NULL){
         data[ind] = atof(token);
         ind++;
-        token = strtok(NULL," ,\n");
+        token = strtok(NULL,"\t ,\n");
         /* printf("%s %zu\n",token,ind); */
     }
 
-- 
2.43.0


From 70c333399fb34587d13f90fd5b27157d1a3a945c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:01:30 +0000
Subject: [PATCH 13/94] fix: poisson added the remaining mean again and again

---
 c3/lib_array/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 807c867..4bedf06 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -870,7 +870,7 @@ size_t poisson(double mean)
             }
             else{
                 p = p * exp(lleft);
-                lleft -= 1;
+                lleft = 0.0;
             }
         }
 
-- 
2.43.0


From 6c6cbf7beae01f4908194587c96a479361a72b79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:01:30 +0000
Subject: [PATCH 14/94] fix: darray_load left the file open on errors and used
 data a truncated file did not contain

---
 c3/lib_array/array.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 4bedf06..076f573 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -715,16 +715,24 @@ darray_load(char * filename, int type)
         size_t k = fread(&totsize,sizeof(size_t),1,fp);
         if ( k != 1){
             printf("error reading file %s\n",filename);
+            fclose(fp);
             return NULL;
         }
 
         unsigned char * data = malloc(totsize);
         if (data == NULL){
             fprintf(stderr, "can't allocate space for loading density\n");
+            fclose(fp);
             return NULL;
         }
 
         k = fread(data,sizeof(unsigned char),totsize,fp);
+        if (k != totsize){
+            printf("error reading file %s\n",filename);
+            free(data); data = NULL;
+            fclose(fp);
+            return NULL;
+        }
         
         size_t nrows, ncols, tot;
         unsigned char * ptr = deserialize_size_t(data,&nrows);
@@ -733,11 +741,11 @@ darray_load(char * filename, int type)
         assert(tot == (nrows*ncols));
         
         free(data); data = NULL;
-        fclose(fp);
     }
     else{
         fprintf(stderr,"Loading array of type=%d is not implemented\n",type);
     }
+    fclose(fp);
     return value;
 }
 
-- 
2.43.0


From f5f395d05a44033f341e694e468eeb8abab08d9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:01:51 +0000
Subject: [PATCH 15/94] fix: loading a truncated function train or density used
 missing data and left the file open

---
 c3/lib_clinalg/ft.c              | 16 ++++++++++++++++
 c3/lib_probability/probability.c |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 30ce990..640de35 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -461,16 +461,24 @@ struct FunctionTrain * function_train_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        printf("error reading file %s\n",filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct FunctionTrain * ft = NULL;
     function_train_deserialize(data,&ft);
@@ -4161,16 +4169,24 @@ struct FT1DArray * ft1d_array_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        printf("error reading file %s\n",filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct FT1DArray * ft = NULL;
     ft1d_array_deserialize(data,&ft);
diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 1927569..e811ac8 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -984,16 +984,24 @@ struct ProbabilityDensity * probability_density_load(char * filename)
     size_t k = fread(&totsize,sizeof(size_t),1,fp);
     if ( k != 1){
         printf("error reading file %s\n",filename);
+        fclose(fp);
         return NULL;
     }
 
     unsigned char * data = malloc(totsize);
     if (data == NULL){
         fprintf(stderr, "can't allocate space for loading density\n");
+        fclose(fp);
         return NULL;
     }
 
     k = fread(data,sizeof(unsigned char),totsize,fp);
+    if (k != totsize){
+        printf("error reading file %s\n",filename);
+        free(data); data = NULL;
+        fclose(fp);
+        return NULL;
+    }
 
     struct ProbabilityDensity * pdf = NULL;
     probability_density_deserialize(data,&pdf);
-- 
2.43.0


From f99542feb089d1fc11fd7a8e2260ec11d311f9ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:02:27 +0000
Subject: [PATCH 16/94] fix: fejer2 returned Clenshaw-Curtis weights without
 the end points, which do not even integrate a constant

---
 c3/lib_quadrature/quadrature.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c3/lib_quadrature/quadrature.c b/c3/lib_quadrature/quadrature.c
index 944c92c..1aa4ad2 100755
--- a/c3/lib_quadrature/quadrature.c
+++ b/c3/lib_quadrature/quadrature.c
@@ -199,7 +199,14 @@ void fejer2(size_t N, double * pts, double * weights){
 
         clenshaw_curtis(N+2,ptemp,wtemp);
         memmove(pts,ptemp+1,N*sizeof(double));
-        memmove(weights,wtemp+1,N*sizeof(double));
+        for (size_t ii = 0; ii < N; ii++){
+            double theta = M_PI * (double)(ii+1) / (double)(N+1);
+            weights[ii] = 0.0;
+            for (size_t jj = 1; jj <= (N+1)/2; jj++){
+                weights[ii] += sin((2.0*(double)jj-1.0)*theta) / (2.0*(double)jj-1.0);
+            }
+            weights[ii] *= 4.0 * sin(theta) / (double)(N+1);
+        }
         //dprint(N,pts);
         free(ptemp); ptemp = NULL;
         free(wtemp); wtemp = NULL;
-- 
2.43.0


From 902d24b8353be492cb924541748d9e6ea6838856 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 17/94] fix: vec_kron used the wrong leading dimension for its
 output when the factors have different numbers of columns

---
 c3/lib_linalg/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index 8404f1a..e07e0f7 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -666,7 +666,7 @@ void vec_kron(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, out, n);
+                    a, lda, temp, m, scale, out, l);
     free(temp);
 }
 
-- 
2.43.0


From 4afd2ca5b8712ffd4d7f5131d6d5a50a6c4e7d25 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 18/94] fix: maxvol_rhs took pivots from a wrongly strided
 matrix and used them one too large, past the end for square input

---
 c3/lib_linalg/linalg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index e07e0f7..f11a777 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -1427,7 +1427,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
 
     temp2 = calloc_double(n*r);
     memmove(temp2, A, n*r*siz);
-    dgetrf_((int*)&r,(int*)&r, temp2, (int*)&r, ipiv, &info); //lu decomp
+    dgetrf_((int*)&n,(int*)&r, temp2, (int*)&n, ipiv, &info); //lu decomp
     if (info < 0) printf("Input %d of LU is not correct\n ", info);
     //if (info > 0) printf("Rank is too high, suggest lowering it\n");
 
@@ -1449,6 +1449,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
     }
 
     for (ii = 0; ii < r; ii++){
+        ipiv[ii] -= 1; // lapack indices start at one
         jj = (size_t) ipiv[ii];
         
         if (jj != ii){
-- 
2.43.0


From 20452b8293f513ec0a8a64f9e0b52e2ad64a46d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 19/94] fix: ttelem used the size of the second dimension as
 the stride of every later core

---
 c3/lib_tensdecomp/tensortrain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 4cd62f2..c862eb6 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -196,7 +196,7 @@ double ttelem(struct tt * ttc, size_t * elem)
         cblas_dgemv(CblasColMajor, CblasTrans, ttc->ranks[ii+1], 
                 ttc->ranks[ii+2], 1.0, 
                 ttc->cores[ii+1]->vals + elem[ii+1] * ttc->ranks[ii+1],
-                ttc->ranks[ii+1] * ttc->nvals[1],
+                ttc->ranks[ii+1] * ttc->nvals[ii+1],
                 vec, 1, 0.0, temp, 1);
 
         free(vec);
-- 
2.43.0


From 628e140d9394f223b5b9e655dc65f2a030183b6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 20/94] fix: tt_x built its constant cores with rank nvals
 instead of 1

---
 c3/lib_tensdecomp/tensortrain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index c862eb6..c276c87 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -162,7 +162,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // before dimx
     for (ii = 0; ii < dimx; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     // dim x
     new->ranks[dimx] = 1;
@@ -171,7 +171,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // after dimx
     for (ii = dimx+1; ii < dim; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     new->ranks[dim] = 1;
     return new;
-- 
2.43.0


From 32794c9f83829700467c06953ff54f10d5ed7de0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 21/94] fix: tensor_copy_3d kept the untransposed shape when
 transposing

---
 c3/lib_tensor/tensor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index f39b60d..56f5830 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -470,7 +470,7 @@ struct tensor * tensor_copy_3d(const struct tensor * t, int transpose){
         nvals[0] = t->nvals[2];
         nvals[1] = t->nvals[1];
         nvals[2] = t->nvals[0];
-        init_tensor(&out, 3, t->nvals);
+        init_tensor(&out, 3, nvals);
         size_t ii,jj,kk;
         for (ii = 0; ii < nvals[0]; ii++){
             for (jj = 0; jj < nvals[1]; jj++){
-- 
2.43.0


From d14f5ed12adf798be2f760e7b9190844eac18c6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 22/94] fix: tt_cross decoded right indices with the left rank,
 reading past the index set when ranks differ

---
 c3/lib_tensdecomp/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index 402db8a..d96104a 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -634,7 +634,7 @@ process_cores_rl(struct tt * a, size_t kk,
     }
     free(Atemp);
     
-    nValsMulti[0] = opts->ranks[kk];
+    nValsMulti[0] = opts->ranks[kk+1];
     nValsMulti[1] = opts->nvals[kk];
     size_t jj;
     //printf("core = %zu \n",kk);
-- 
2.43.0


From dc138a8adc7e0acc5781b8070c561e9567570f9e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 23/94] fix: initial index sets of tt_cross could lie outside
 the tensor

---
 c3/lib_tensdecomp/cross.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index d96104a..5817809 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -315,14 +315,15 @@ init_cross_opts(size_t dim, size_t *ranks, size_t *nvals)
 void create_naive_index_set(struct index_set * r, size_t * nvals)
 {   
     size_t ii;
-    size_t onDim = 0;
+    size_t onDim, left;
     for ( ii = 0; ii < r->N; ii++)
     {
-        if (nvals[onDim] < (ii+1)){
-            onDim += 1;
-        }
         if( r->indices[ii] != NULL){
-            r->indices[ii][onDim] =  ii;
+            left = ii;
+            for (onDim = 0; onDim < r->dim; onDim++){
+                r->indices[ii][onDim] = left % nvals[onDim];
+                left = left / nvals[onDim];
+            }
         }
     }   
 }
@@ -333,7 +334,7 @@ init_cross_opts_with_naive_set(size_t dim, size_t * ranks, size_t * nvals)
     struct tt_cross_opts * opt = init_cross_opts(dim, ranks, nvals);
     size_t ii;
     for (ii = 0; ii < opt->dim-1; ii++){
-        create_naive_index_set(opt->right[ii], nvals + ii);
+        create_naive_index_set(opt->right[ii], nvals + ii + 1);
         create_naive_index_set(opt->left[ii], nvals);
     }
     return opt;
@@ -873,7 +874,7 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
         }
 
         for (ii = 0; ii < opts->dim-1; ii++){
-            create_naive_index_set(opts->right[ii], opts->nvals + ii);
+            create_naive_index_set(opts->right[ii], opts->nvals + ii + 1);
             create_naive_index_set(opts->left[ii], opts->nvals);
         }
         iter += 1;
-- 
2.43.0


From 3f4c0682d26e546f05f24066b2b3a36be21d7de7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:07:42 +0000
Subject: [PATCH 24/94] fix: ifft overwrote its const input while working and
 mixed up strides

---
 c3/lib_fft/fft.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/c3/lib_fft/fft.c b/c3/lib_fft/fft.c
index ce9921f..35ffe95 100644
--- a/c3/lib_fft/fft.c
+++ b/c3/lib_fft/fft.c
@@ -131,15 +131,16 @@ int fft_base(size_t N, const double complex * x, size_t sx,
 /***********************************************************//**
    IFFT                                                            
 ***************************************************************/
-int ifft_base(size_t N, double complex * x, size_t sx, 
+int ifft_base(size_t N, const double complex * x, size_t sx, 
              double complex * X, size_t sX)
 {
+    double complex * xc = malloc(N * sizeof(double complex));
     for (size_t ii = 0; ii < N; ii++){
-        x[ii] = conj(x[ii*sX]);
+        xc[ii] = conj(x[ii*sx]);
     }
-    int res = fft_base(N,x,sx,X,sX);
+    int res = fft_base(N,xc,1,X,sX);
+    free(xc); xc = NULL;
     for (size_t ii = 0; ii < N; ii++){
-        x[ii*sX] = conj(x[ii*sX]);
         X[ii*sX] = conj(X[ii*sX]);
         X[ii*sX] /= (double)N;
     }
@@ -181,7 +182,7 @@ int fft(size_t N, const double complex * x, size_t sx,
     return res;
 }
 
-int ifft(size_t N, double complex * x, size_t sx, 
+int ifft(size_t N, const double complex * x, size_t sx, 
         double complex * X, size_t sX)
 {
     assert (sx == 1);
-- 
2.43.0


From 4f96f480e460555461b61cbc2c997207d84e300f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:07:42 +0000
Subject: [PATCH 25/94] fix: simpson_w with two points counted a Simpson panel
 that does not exist

---
 c3/lib_quadrature/quadrature.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_quadrature/quadrature.c b/c3/lib_quadrature/quadrature.c
index 1aa4ad2..f3878fc 100755
--- a/c3/lib_quadrature/quadrature.c
+++ b/c3/lib_quadrature/quadrature.c
@@ -93,7 +93,7 @@ double * simpson_w(size_t N, double h)
     }
     if (odd == 0){
         weights[N-1] = 0.5*h;
-        weights[N-2] = 1.0/3.0 * h + 0.5*h;
+        weights[N-2] = (N > 2 ? 1.0/3.0 * h : 0.0) + 0.5*h;
     }
     else{
         weights[N-1] = 1.0 / 3.0 * h;
-- 
2.43.0


From 156830284626e06184c0a0409747590c1461cc3f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:07:42 +0000
Subject: [PATCH 26/94] fix: readtxt_double_array divided by zero on text
 without rows

---
 c3/lib_stringmanip/stringmanip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index d62d622..f99d04a 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -339,7 +339,7 @@ double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
         token = strtok(NULL,"\n");
         *nrows = *nrows + 1;
     }
-    *ncols = ntot / *nrows;
+    *ncols = *nrows > 0 ? ntot / *nrows : 0;
     
     /* printf("number of rows = %zu\n",*nrows); */
     /* printf("number of cols = %zu\n",*ncols); */
-- 
2.43.0


From 0bb2df91ccf28f7f00d892497d38dac9d6f567cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:12 +0000
Subject: [PATCH 27/94] fix: constant-element options took the last node as
 lower bound and left the upper bound uninitialised

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 3a31952..23bf21a 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -110,7 +110,7 @@ struct ConstElemExpAopts * const_elem_exp_aopts_alloc(size_t N, double * x)
     aopts->node_alloc = 0;
     aopts->nodes = x;
     aopts->lb = x[0];
-    aopts->lb = x[N-1];
+    aopts->ub = x[N-1];
         
     aopts->adapt = 0;
     aopts->delta = DBL_MAX;
-- 
2.43.0


From 4f74ad31cc76af5ebbe7f860ce21580ac348b5d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:12 +0000
Subject: [PATCH 28/94] fix: constant-element parameter gradient left an entry
 unset and returned the node instead of the value

---
 c3/lib_funcs/constelm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 23bf21a..a75d6c8 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -753,7 +753,7 @@ int const_elem_exp_param_grad_eval(
             grad[ii*nparam+jj] = 0.0;
         }
 
-        for (size_t jj = indmin+2; jj < nparam; jj++)
+        for (size_t jj = indmin+1; jj < nparam; jj++)
         {
             grad[ii*nparam+jj] = 0.0;
         }
@@ -787,14 +787,14 @@ double const_elem_exp_param_grad_eval2(
         grad[jj] = 0.0;
     }
 
-    for (size_t jj = indmin+2; jj < nparam; jj++)
+    for (size_t jj = indmin+1; jj < nparam; jj++)
     {
         grad[jj] = 0.0;
     }
 
     grad[indmin] = 1.0;
 
-    return f->nodes[indmin];
+    return f->coeff[indmin];
 }
 
 /********************************************************//**
-- 
2.43.0


From 0112199ed3581a0fccaec043be5c717ad603816b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:12 +0000
Subject: [PATCH 29/94] fix: last value of a constant-element derivative was
 computed from an already overwritten neighbour

---
 c3/lib_funcs/constelm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index a75d6c8..8dc1bfb 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -693,11 +693,11 @@ struct ConstElemExp * const_elem_exp_deriv(const struct ConstElemExp * f)
                                                    f->nodes,f->coeff);
 
 
-    le->coeff[0] = (le->coeff[1] - le->coeff[0]) / (le->nodes[1] - le->nodes[0]);
+    le->coeff[0] = (f->coeff[1] - f->coeff[0]) / (le->nodes[1] - le->nodes[0]);
     for (size_t ii = 1; ii < le->num_nodes-1; ii++){
-        le->coeff[ii] = (le->coeff[ii+1] - le->coeff[ii]) / (le->nodes[ii+1] - le->nodes[ii]);
+        le->coeff[ii] = (f->coeff[ii+1] - f->coeff[ii]) / (le->nodes[ii+1] - le->nodes[ii]);
     }
-    le->coeff[le->num_nodes-1] = (le->coeff[le->num_nodes-1] - le->coeff[le->num_nodes-2]) /
+    le->coeff[le->num_nodes-1] = (f->coeff[le->num_nodes-1] - f->coeff[le->num_nodes-2]) /
         (le->nodes[le->num_nodes-1] - le->nodes[le->num_nodes-2]);
 
     return le;
-- 
2.43.0


From 4d0d4527c4f007cf7ddc105daa7edeb2bef6398b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:12 +0000
Subject: [PATCH 30/94] fix: adaptive one-zero element functions lost the
 bounds, the largest zero and their scratch array

---
 c3/lib_funcs/constelm.c | 7 +++++--
 c3/lib_funcs/linelm.c   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 8dc1bfb..f915802 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -1607,6 +1607,8 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
         if (nzeros == 0){
             double * nodes = calloc_double(2);
             double * coeff = calloc_double(2);
+            nodes[0] = opts->lb;
+            nodes[1] = opts->ub;
             struct ConstElemExp * le = const_elem_exp_init(2,nodes,coeff);
             le->coeff[0] = 1.0;
             free(nodes); nodes = NULL;
@@ -1626,7 +1628,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
             if (difflb < 1e-14){
                 onlb = 1;
             }
-            double diffub = fabs(zero_locs[nzeros-1]-opts->ub);
+            double diffub = fabs(sorted_arr[nzeros-1]-opts->ub);
             if (diffub < 1e-14){
                 onub = 1;
             }
@@ -1666,7 +1668,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 nodes[0] = opts->lb;
                 coeff[0] = 0.0;
                 for (size_t jj = 1; jj < nzeros; jj++){
-                    nodes[jj] = sorted_arr[jj-1];
+                    nodes[jj] = sorted_arr[jj];
                     coeff[jj] = 0.0;
                 }
                 nodes[nzeros] = opts->ub;
@@ -1692,6 +1694,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 assert (1 == 0);
             }
             /* print_const_elem_exp(le,3,NULL,stdout); */
+            free(sorted_arr); sorted_arr = NULL;
             return le;
         }
     }
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 746fb23..98a753d 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -2385,6 +2385,8 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
         if (nzeros == 0){
             double * nodes = calloc_double(2);
             double * coeff = calloc_double(2);
+            nodes[0] = opts->lb;
+            nodes[1] = opts->ub;
             struct LinElemExp * le = lin_elem_exp_init(2,nodes,coeff);
             le->coeff[0] = 1.0;
             free(nodes); nodes = NULL;
@@ -2404,7 +2406,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
             if (difflb < 1e-14){
                 onlb = 1;
             }
-            double diffub = fabs(zero_locs[nzeros-1]-opts->ub);
+            double diffub = fabs(sorted_arr[nzeros-1]-opts->ub);
             if (diffub < 1e-14){
                 onub = 1;
             }
@@ -2444,7 +2446,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 nodes[0] = opts->lb;
                 coeff[0] = 0.0;
                 for (size_t jj = 1; jj < nzeros; jj++){
-                    nodes[jj] = sorted_arr[jj-1];
+                    nodes[jj] = sorted_arr[jj];
                     coeff[jj] = 0.0;
                 }
                 nodes[nzeros] = opts->ub;
@@ -2470,6 +2472,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 assert (1 == 0);
             }
             /* print_lin_elem_exp(le,3,NULL,stdout); */
+            free(sorted_arr); sorted_arr = NULL;
             return le;
         }
     }
-- 
2.43.0


From 72748c4cabd7dde3afde755e49fda9df022cca21 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:12 +0000
Subject: [PATCH 31/94] fix: linear-element error estimate used a value
 difference as a slope

---
 c3/lib_funcs/linelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 98a753d..ae89f55 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1735,7 +1735,7 @@ double lin_elem_exp_err_est(struct LinElemExp * f, double * errs, short dir, sho
     double m3,mid3;
     for (size_t ii = 2; ii < f->num_nodes-1; ii++){
         dx2 = (f->nodes[ii+1]-f->nodes[ii]);
-        m3 = (f->coeff[ii+1]-f->coeff[ii]);
+        m3 = (f->coeff[ii+1]-f->coeff[ii])/dx2;
         mid3 = (f->nodes[ii+1] + f->nodes[ii])/2.0;
         if (dir == 1){
             err = (m3-m2)/(mid3-mid2);
-- 
2.43.0


From 9e8d03a5f474e69b88013551dbb49251a458e2fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:12 +0000
Subject: [PATCH 32/94] fix: periodic second derivative used half-integer
 frequencies on an odd number of nodes

---
 c3/lib_funcs/linelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index ae89f55..c92ed5d 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -888,7 +888,7 @@ void lin_elem_exp_dderiv_initialize_fourier(struct LinElemExp * f)
     }
 
     for (size_t ii = 0; ii < nx; ii++){
-        p[ii] = dp * ii - dp * nx / 2.0;
+        p[ii] = dp * ii - dp * (double) (nx / 2);
     }
 
     for (size_t ll=0; ll<nx; ll++){
-- 
2.43.0


From e2b0520bbe5b1f0774a3b9ca985a38bcf305d590 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 33/94] fix: adding a linear-element function on another grid
 kept the stored operator of the old grid

---
 c3/lib_funcs/linelm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index c92ed5d..2619be3 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1524,6 +1524,7 @@ int lin_elem_exp_axpy(double a,
         free(g->nodes); g->nodes = x;
 //        printf("bad!\n");
         free(g->coeff); g->coeff = coeff;
+        free(g->Lp); g->Lp = NULL;
 //        printf("word\n");
     }
     return res;
-- 
2.43.0


From 1c38a496d19c9c5ea8170df0d2805cf33123ccc5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 34/94] fix: gradient of the squared norm of a linear-element
 function was not that of its norm

---
 c3/lib_funcs/linelm.c | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 2619be3..42f0327 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1085,28 +1085,13 @@ lin_elem_exp_squared_norm_param_grad(const struct LinElemExp * f,
         return 0;
     }
 
-    double dx = f->nodes[1]-f->nodes[0];
-    double term1 = ((f->coeff[0]-1.0)/3.0 + f->coeff[1]/2.0) * dx;
-    grad[0] += 2.0 * scale * term1;
-    double dx2,df;
-    for (size_t ii = 1; ii < f->num_nodes-1; ii++){
-        // left side of ii
-        df = f->coeff[ii] - f->coeff[ii-1];
-        grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
-
-        // right side
-        dx2 = dx * dx;
-        term1 = ((f->coeff[ii]-1.0)/3.0 + f->coeff[ii+1]/2.0) * dx;
-        grad[ii] += 2.0 * scale * term1;
-        
-        dx = dx2;
+    // squared norm is the trapezoidal rule of lin_elem_exp_inner
+    for (size_t ii = 0; ii < f->num_nodes; ii++){
+        double left = ii > 0 ? f->nodes[ii-1] : f->nodes[ii];
+        double right = ii+1 < f->num_nodes ? f->nodes[ii+1] : f->nodes[ii];
+        grad[ii] += 2.0 * scale * f->coeff[ii] * 0.5 * (right - left);
     }
 
-    // left side of last node node
-    size_t ii = f->num_nodes-1;
-    df = f->coeff[ii] - f->coeff[ii-1];
-    grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
-
     return 0;
 }
 
-- 
2.43.0


From a5de09f089247137358fc65f0885ba89c198a26e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 35/94] fix: periodic Laplacian of function trains used
 half-integer frequencies on an odd number of nodes

---
 c3/lib_clinalg/diffusion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index b38f5d4..0208cfc 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -776,7 +776,7 @@ static double * compute_Lp(size_t nx, const double * nodes)
     }
 
     for (size_t ii = 0; ii < nx; ii++){
-        p[ii] = dp * ii - dp * nx / 2.0;
+        p[ii] = dp * ii - dp * (double) (nx / 2);
     }
 
     for (size_t ll=0; ll<nx; ll++){
-- 
2.43.0


From df34a38fdf56c0fe7ab9aeff26aa6e7d4a392131 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:31:30 +0000
Subject: [PATCH 36/94] fix: updating a polynomial with a sum of two others
 scaled terms twice or used freed memory

---
 c3/lib_funcs/polynomials.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 47f8650..238ab53 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -4741,7 +4741,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             for (ii = x->num_poly; ii < y->num_poly; ii++){
                 z->coeff[ii] = c*z->coeff[ii] + b*y->coeff[ii];
             }
-            for (ii = x->num_poly; ii < z->num_poly; ii++){
+            for (ii = y->num_poly; ii < z->num_poly; ii++){
                 z->coeff[ii] = c*z->coeff[ii];
             }
         }
@@ -4792,6 +4792,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             fprintf(stderr,"cannot allocate new size fo z-coeff in sum3_up\n");
             exit(1);
         }
+        z->coeff = temp;
         for (ii = 0; ii < z->num_poly; ii++){
             z->coeff[ii] = c*z->coeff[ii]+a*x->coeff[ii]+b*y->coeff[ii];
         }
@@ -4809,6 +4810,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             fprintf(stderr,"cannot allocate new size fo z-coeff in sum3_up\n");
             exit(1);
         }
+        z->coeff = temp;
         for (ii = 0; ii < z->num_poly; ii++){
             z->coeff[ii] = c*z->coeff[ii]+a*x->coeff[ii]+b*y->coeff[ii];
         }
-- 
2.43.0


From a6b8a31bb911ebb142ec1e9f8bde2d5e2207d2e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 37/94] fix: adaptive polynomial approximation read before its
 coefficients when starting with fewer than it checks

---
 c3/lib_funcs/polynomials.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 238ab53..5e975a6 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3945,7 +3945,7 @@ orth_poly_expansion_approx_adapt(const struct OpeOpts * aopts,
     orth_poly_expansion_approx_vec(poly,fw,aopts);
 
     size_t coeffs_too_big = 0;
-    for (ii = 0; ii < aopts->coeffs_check; ii++){
+    for (ii = 0; (ii < aopts->coeffs_check) && (ii < N); ii++){
         if (fabs(poly->coeff[N-1-ii]) > aopts->tol){
             coeffs_too_big = 1;
             break;
@@ -3980,7 +3980,7 @@ orth_poly_expansion_approx_adapt(const struct OpeOpts * aopts,
         }
         sum_coeff_squared = fmax(sum_coeff_squared,ZEROTHRESH);
         /* sum_coeff_squared = 1.0; */
-        for (ii = 0; ii < aopts->coeffs_check; ii++){
+        for (ii = 0; (ii < aopts->coeffs_check) && (ii < N); ii++){
             /* printf("aopts->tol=%3.15G last coefficients %3.15G\n", */
             /*        aopts->tol * sum_coeff_squared, */
            	/* 	  poly->coeff[N-1-ii]); */
-- 
2.43.0


From 55930a0c98a6659908fbfe4e445e2af3549e9ae3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 38/94] fix: gradient of the squared norm of Chebyshev and
 scaled Hermite expansions was not that of their norm

---
 c3/lib_funcs/polynomials.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 5e975a6..8ae8ac5 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3256,23 +3256,23 @@ orth_poly_expansion_squared_norm_param_grad(const struct OrthPolyExpansion * pol
     int res = 1;
 
     
-    // assuming linear transformation
-    double dtransform_dx = space_mapping_map_deriv(poly->space_transform,0.0);
     if (poly->p->ptype == LEGENDRE){
         for (size_t ii = 0; ii < poly->num_poly; ii++){
             //the extra 2 is for the weight
-            grad[ii] += 2.0*scale * poly->coeff[ii] * poly->p->norm(ii) * /* *dtransform_dx * */
+            grad[ii] += 2.0*scale * poly->coeff[ii] * poly->p->norm(ii) *
                          (poly->upper_bound-poly->lower_bound); 
         }
         res = 0;
     }
     else if (poly->p->ptype == HERMITE){
         for (size_t ii = 0; ii < poly->num_poly; ii++){
-            grad[ii] += 2.0*scale * poly->coeff[ii] * poly->p->norm(ii) * dtransform_dx;
+            grad[ii] += 2.0*scale * poly->coeff[ii] * poly->p->norm(ii);
         }
         res = 0;
     }
     else if (poly->p->ptype == CHEBYSHEV){
+        // assuming linear transformation
+        double m = space_mapping_map_inverse_deriv(poly->space_transform,0.0);
         double * temp = calloc_double(poly->num_poly);
         for (size_t ii = 0; ii < poly->num_poly; ii++){
             temp[ii] = 2.0/(1.0 - (double)2*ii*2*ii);
@@ -3288,10 +3288,10 @@ orth_poly_expansion_squared_norm_param_grad(const struct OrthPolyExpansion * pol
                     n2 = jj-ii;
                 }
                 if (n1 % 2 == 0){
-                    grad[ii] += 2.0*scale*temp[n1/2] * dtransform_dx;
+                    grad[ii] += scale*poly->coeff[jj]*temp[n1/2] * m;
                 }
                 if (n2 % 2 == 0){
-                    grad[ii] += 2.0*scale*temp[n2/2] * dtransform_dx;
+                    grad[ii] += scale*poly->coeff[jj]*temp[n2/2] * m;
                 }
             }
         }
-- 
2.43.0


From 3963df169d7171c0a10c691449ffaa325afab985 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 39/94] fix: gradient of the RKHS-regularised regression
 objective was not that of its value

---
 c3/lib_funcs/functions.c   |  2 +-
 c3/lib_funcs/polynomials.c | 58 +++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index 98173eb..22bd745 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -2613,7 +2613,7 @@ double param_RLSRKHSregress_cost(size_t dim, const double * param, double * grad
 
     int res = 0;
     if (grad != NULL){
-        res = generic_function_rkhs_squared_norm_param_grad(opts->gf,opts->lambda,
+        res = generic_function_rkhs_squared_norm_param_grad(opts->gf,0.5*opts->lambda,
                                                             opts->decay_type,
                                                             opts->coeff_decay_param,grad);
         assert (res == 0);
diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 8ae8ac5..329e889 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3435,62 +3435,56 @@ orth_poly_expansion_rkhs_squared_norm_param_grad(const struct OrthPolyExpansion
         exit(1);
     }    
     int res = 1;
+    // assuming linear transformation
+    double m = space_mapping_map_deriv(poly->space_transform,0.0);
     if ((poly->p->ptype == LEGENDRE) || (poly->p->ptype == HERMITE)){
+        double w = (poly->p->ptype == LEGENDRE) ? 2.0*m : 1.0;
         if (decay_type == ALGEBRAIC){
             for (size_t ii = 0; ii < poly->num_poly; ii++){
-                grad[ii] += 2.0*scale * poly->coeff[ii] * pow(decay_param,ii);
+                grad[ii] += 2.0*scale * poly->coeff[ii] * pow(decay_param,ii) * poly->p->norm(ii) * w;
             }   
         }
         else if (decay_type == EXPONENTIAL){
             for (size_t ii = 0; ii < poly->num_poly; ii++){
-                grad[ii] += 2.0*scale * poly->coeff[ii] * pow((double)ii+1.0,-decay_param);
+                grad[ii] += 2.0*scale * poly->coeff[ii] * pow((double)ii+1.0,-decay_param) * poly->p->norm(ii) * w;
             }   
         }
         else{
             for (size_t ii = 0; ii < poly->num_poly; ii++){
-                grad[ii] += 2.0*scale * poly->coeff[ii];
+                grad[ii] += 2.0*scale * poly->coeff[ii] * poly->p->norm(ii) * w;
             }
         }
         res = 0;
     }
     else if (poly->p->ptype == CHEBYSHEV){
-        // THIS COULD BE WRONG!!
         double * temp = calloc_double(poly->num_poly);
         for (size_t ii = 0; ii < poly->num_poly; ii++){
             temp[ii] = 2.0/(1.0 - (double)2*ii*2*ii);
         }
         for (size_t ii = 0; ii < poly->num_poly; ii++){
-            for (size_t jj = 0; jj < poly->num_poly; jj++){
-                size_t n1 = ii+jj;
-                size_t n2;
-                if (ii > jj){
-                    n2 = ii-jj;
-                }
-                else{
-                    n2 = jj-ii;
-                }
-                if (decay_type == ALGEBRAIC){
-                    if (n1 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n1/2]* pow(decay_param,ii);
-                    }
-                    if (n2 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n2/2]* pow(decay_param,ii);
-                    }
-                }
-                else if (decay_type == EXPONENTIAL){
+            double decay = 1.0;
+            if (decay_type == ALGEBRAIC){
+                decay = pow(decay_param,ii);
+            }
+            else if (decay_type == EXPONENTIAL){
+                decay = pow((double)ii+1.0,-decay_param);
+            }
+            // the ii-th term of the norm is the square of
+            // sum_jj coeff[jj] * t_(ii,jj)
+            double temp_sum = 0.0;
+            for (int pass = 0; pass < 2; pass++){
+                for (size_t jj = 0; jj < poly->num_poly; jj++){
+                    size_t n1 = ii+jj;
+                    size_t n2 = (ii > jj) ? ii-jj : jj-ii;
+                    double t = 0.0;
                     if (n1 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n1/2]*pow((double)ii+1.0,-decay_param);
-                    }
-                    if (n2 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n2/2]*pow((double)ii+1.0,-decay_param);
+                        t = temp[n1/2] + temp[n2/2];
                     }
-                }
-                else {
-                    if (n1 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n1/2];
+                    if (pass == 0){
+                        temp_sum += poly->coeff[jj] * t;
                     }
-                    if (n2 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n2/2];
+                    else{
+                        grad[jj] += 2.0*scale*temp_sum*t*decay*m;
                     }
                 }
             }
-- 
2.43.0


From 3dc551b31bdb36a5eb408385e89a32acb3f7bcac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 40/94] fix: gradient of the curvature-penalised regression
 objective was not that of its value

---
 c3/lib_funcs/functions.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index 22bd745..cfa98cf 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -2583,8 +2583,22 @@ double param_RLSD2regress_cost(size_t dim, const double * param, double * grad,
 
     int res = 0;
     if (grad != NULL){
-        res = generic_function_squared_norm_param_grad(gf2,0.5*opts->lambda,grad);
-        assert (res == 0);
+        // the second derivative is linear in the parameters
+        struct GenericFunction * basis = generic_function_copy(opts->gf);
+        double * unit = calloc_double(dim);
+        for (size_t ii = 0; ii < dim; ii++){
+            unit[ii] = 1.0;
+            res = generic_function_update_params(basis,dim,unit);
+            assert (res == 0);
+            unit[ii] = 0.0;
+            struct GenericFunction * b1 = generic_function_deriv(basis);
+            struct GenericFunction * b2 = generic_function_deriv(b1);
+            grad[ii] += opts->lambda * generic_function_inner(gf2,b2);
+            generic_function_free(b1); b1 = NULL;
+            generic_function_free(b2); b2 = NULL;
+        }
+        free(unit); unit = NULL;
+        generic_function_free(basis); basis = NULL;
     }
 
     generic_function_free(gf1); gf1 = NULL;
-- 
2.43.0


From 2f624dcbd9844411d3310c1711a3e35a22b349f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:33:00 +0000
Subject: [PATCH 41/94] fix: maximum of a piecewise polynomial over given nodes
 extrapolated every piece to all nodes

---
 c3/lib_funcs/piecewisepoly.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/c3/lib_funcs/piecewisepoly.c b/c3/lib_funcs/piecewisepoly.c
index 48d03bd..07e8cf5 100755
--- a/c3/lib_funcs/piecewisepoly.c
+++ b/c3/lib_funcs/piecewisepoly.c
@@ -1259,6 +1259,21 @@ double piecewise_poly_absmax(const struct PiecewisePoly * p, double * x, void *
 {
     //printf("here!\n");
     double locfinal, valfinal;
+    if ((optargs != NULL) && (p->leaf != 1)){
+        // maximize over the given nodes, each belongs to one of the pieces
+        struct c3Vector * optnodes = optargs;
+        locfinal = optnodes->elem[0];
+        valfinal = fabs(piecewise_poly_eval(p,locfinal));
+        for (size_t jj = 1; jj < optnodes->size; jj++){
+            double val = fabs(piecewise_poly_eval(p,optnodes->elem[jj]));
+            if (val > valfinal){
+                valfinal = val;
+                locfinal = optnodes->elem[jj];
+            }
+        }
+        *x = locfinal;
+        return valfinal;
+    }
     if ( p->leaf == 1){
         //double lb = piecewise_poly_get_lb(p);
         //double ub = piecewise_poly_get_ub(p);
-- 
2.43.0


From 5f02a2074ca6fec931cd3f1cdf97cd49ba3b77be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:33:00 +0000
Subject: [PATCH 42/94] fix: Fourier approximation doubled its highest mode and
 did not interpolate

---
 c3/lib_funcs/fourier.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_funcs/fourier.c b/c3/lib_funcs/fourier.c
index 35f57f7..da23c21 100644
--- a/c3/lib_funcs/fourier.c
+++ b/c3/lib_funcs/fourier.c
@@ -283,6 +283,9 @@ fourier_expansion_approx_vec(struct OrthPolyExpansion * poly,
     poly->ccoeff[0] = coeff[0]/N;
     for (size_t ii = 1; ii < poly->num_poly; ii++){
         poly->ccoeff[ii] = coeff[ii]/N;
+        if (2*ii == N){ // highest mode is shared by positive and negative frequencies
+            poly->ccoeff[ii] /= 2.0;
+        }
         /* printf("ii = %zu %3.5G %3.5G\n", ii, creal(poly->ccoeff[ii]), */
         /*        cimag(poly->ccoeff[ii])); */
     }
-- 
2.43.0


From 2607b858621301b1b7b13cb9f2fca77087e64661 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:33:45 +0000
Subject: [PATCH 43/94] fix: root of a linear Legendre expansion ignored the
 normalisation of the basis

---
 c3/lib_funcs/polynomials.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 329e889..c0da834 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -5170,7 +5170,7 @@ legendre_expansion_real_roots(struct OrthPolyExpansion * p, size_t * nkeep)
             return real_roots;
         }
         else{
-            double root = -p->coeff[0] / p->coeff[1];
+            double root = -p->coeff[0] / (p->coeff[1] * sqrt(3.0));
             if ( (root >= -1.0-ZEROTHRESH) && (root <= 1.0 - ZEROTHRESH)){
                 if (root <-1.0){
                     root = -1.0;
-- 
2.43.0


From 5578acae99d451a4980600487953473abeeda0bb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:34:57 +0000
Subject: [PATCH 44/94] fix: evaluating more than 1000 polynomials at once
 overran a stack array

---
 c3/lib_funcs/functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index cfa98cf..014ce18 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -1534,7 +1534,7 @@ generic_function_1darray_eval2(size_t n,
     int allpoly = 1;
     struct OrthPolyExpansion * parr[1000];
     for (size_t ii = 0; ii < n; ii++){
-        if (f[ii]->fc != POLYNOMIAL){
+        if ((f[ii]->fc != POLYNOMIAL) || (ii >= 1000)){
             allpoly = 0;
             break;
         }
@@ -1581,7 +1581,7 @@ generic_function_1darray_eval2N(size_t n,
     int allpoly = 1;
     struct OrthPolyExpansion * parr[1000];
     for (size_t ii = 0; ii < n; ii++){
-        if (f[ii]->fc != POLYNOMIAL){
+        if ((f[ii]->fc != POLYNOMIAL) || (ii >= 1000)){
             allpoly = 0;
             break;
         }
-- 
2.43.0


From 78f00724b5cccd814fb6a43c3cdd92b81dc3de0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:27 +0000
Subject: [PATCH 45/94] fix: copying an optimizer overran the gradient-descent
 workspace and lost the stochastic objective and the end of the history

---
 c3/lib_optimization/optimization.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8954b92..8cce247 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -302,6 +302,7 @@ struct c3Opt * c3opt_create(enum c3opt_alg alg)
     opt->d = 0;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
 
     opt->lb = NULL;
@@ -450,6 +451,7 @@ struct c3Opt * c3opt_alloc(enum c3opt_alg alg, size_t d)
     opt->d = d;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
     
     opt->lb = calloc_double(d);
@@ -533,6 +535,7 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     }
     struct c3Opt * opt = c3opt_alloc(old->alg,old->d);
     opt->f = old->f;
+    opt->fsgd = old->fsgd;
     opt->farg = old->farg;
     memmove(opt->lb,old->lb,opt->d*sizeof(double));
     memmove(opt->ub,old->ub,opt->d*sizeof(double));
@@ -545,7 +548,8 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->nlocs   = old->nlocs;
     if ((opt->alg == BFGS) || (opt->alg == BATCHGRAD) || (opt->alg == LBFGS)){
         opt->grad = 1;
-        memmove(opt->workspace,old->workspace,4*opt->d*sizeof(double));
+        size_t nwork = (opt->alg == BATCHGRAD) ? 2*opt->d : 4*opt->d;
+        memmove(opt->workspace,old->workspace,nwork*sizeof(double));
         c3ls_free(opt->ls); opt->ls = NULL;
         opt->ls = c3ls_copy(old->ls);
     }
@@ -571,17 +575,18 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->store_grad  = old->store_grad;
     opt->store_func = old->store_func;
     opt->store_x     = old->store_x;
+    size_t nrows = opt->maxiter > opt->niters ? opt->maxiter : opt->niters;
     if (opt->store_grad == 1){
-        opt->stored_grad = calloc_double(opt->d*sizeof(double)*opt->maxiter);
-        memmove(opt->stored_grad,old->stored_grad,opt->d*sizeof(double)*opt->maxiter);
+        opt->stored_grad = calloc_double(opt->d*sizeof(double)*nrows);
+        memmove(opt->stored_grad,old->stored_grad,opt->d*sizeof(double)*opt->niters);
     }
     if (opt->store_x == 1){
-        opt->stored_x = calloc_double(opt->d*sizeof(double)*opt->maxiter);
-        memmove(opt->stored_x,old->stored_x,opt->d*sizeof(double)*opt->maxiter);
+        opt->stored_x = calloc_double(opt->d*sizeof(double)*nrows);
+        memmove(opt->stored_x,old->stored_x,opt->d*sizeof(double)*opt->niters);
     }
     if (opt->store_func == 1){
-        opt->stored_func = calloc_double(sizeof(double)*opt->maxiter);
-        memmove(opt->stored_func,old->stored_func,sizeof(double)*opt->maxiter);
+        opt->stored_func = calloc_double(sizeof(double)*nrows);
+        memmove(opt->stored_func,old->stored_func,sizeof(double)*opt->niters);
     }
 
     return opt;
-- 
2.43.0


From 3b4a8a0a0389a5a7c282d05a8362686399267820 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:27 +0000
Subject: [PATCH 46/94] fix: printing the optimization history indexed
 gradients and points with the wrong stride

---
 c3/lib_optimization/optimization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8cce247..1a014d7 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -849,12 +849,12 @@ void c3opt_print_stored_values(struct c3Opt * opt, FILE * fp, int width, int pre
         }
         if (opt->store_grad == 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->d+jj]);
             }
         }
         if (opt->store_x== 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->d+jj]);
             }
         }
         fprintf(fp,"\n");
-- 
2.43.0


From ee3785f78233a5a961f2879a8e2442ce63b9ab45 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:27 +0000
Subject: [PATCH 47/94] fix: raising the iteration limit after asking for a
 history overran the history

---
 c3/lib_optimization/optimization.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 1a014d7..ec23d5e 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -724,7 +724,19 @@ int c3opt_get_verbose(struct c3Opt* opt)
 void c3opt_set_maxiter(struct c3Opt * opt , size_t maxiter)
 {
     assert (opt != NULL);
-    opt->maxiter = maxiter;;
+    if (maxiter > opt->maxiter){ // keep room for the history
+        size_t nrows = maxiter > opt->niters ? maxiter : opt->niters;
+        if (opt->stored_grad != NULL){
+            opt->stored_grad = realloc(opt->stored_grad,opt->d*sizeof(double)*nrows*sizeof(double));
+        }
+        if (opt->stored_x != NULL){
+            opt->stored_x = realloc(opt->stored_x,opt->d*sizeof(double)*nrows*sizeof(double));
+        }
+        if (opt->stored_func != NULL){
+            opt->stored_func = realloc(opt->stored_func,sizeof(double)*nrows*sizeof(double));
+        }
+    }
+    opt->maxiter = maxiter;
 }
 
 size_t c3opt_get_maxiter(const struct c3Opt * opt)
-- 
2.43.0


From 65851bb1fd434cb55a8aec2a672ec3de5fe81cc3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:27 +0000
Subject: [PATCH 48/94] fix: setting the history or brute-force options of an
 optimizer twice leaked the first buffers

---
 c3/lib_optimization/optimization.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index ec23d5e..4605def 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -817,6 +817,9 @@ void c3opt_set_storage_options(struct c3Opt * opt, int store_func, int store_gra
     opt->store_grad = store_grad;
     opt->store_x = store_x;
 
+    free(opt->stored_grad); opt->stored_grad = NULL;
+    free(opt->stored_x); opt->stored_x = NULL;
+    free(opt->stored_func); opt->stored_func = NULL;
     if (opt->store_grad == 1){
         opt->stored_grad = calloc_double(opt->d*sizeof(double)*opt->maxiter);
     }
@@ -943,6 +946,7 @@ void c3opt_set_brute_force_vals(struct c3Opt * opt, size_t nvals, double * loc)
         fprintf(stderr,"in order to add brute force values\n");
     }
     opt->nlocs = nvals;
+    free(opt->workspace);
     opt->workspace = calloc_double(nvals * opt->d);
     memmove(opt->workspace,loc,opt->d*nvals*sizeof(double));
 }
-- 
2.43.0


From dfb09d5cb18c2958176aafde7593004fdaab15c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:42 +0000
Subject: [PATCH 49/94] fix: strong Wolfe line search aborted when a step
 decreased the objective, but not sufficiently

---
 c3/lib_optimization/optimization.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 4605def..eeae522 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1574,11 +1574,6 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
         }
         if ((*newf > checkval) || ( (*newf >= f_prev) && (iter > 1))){
             /* printf("found range (%G,%G) \n",t_prev,t); */
-            if (f_prev > *newf){
-                /* printf("f_prev = %G\n",f_prev); */
-                /* printf("*newf = %G\n",*newf); */
-                assert (f_prev < *newf);
-            }
             t = c3opt_ls_zoom(opt,t_prev,f_prev,t,x,dir,newx,fx,dg,grad,newf);
             return t * alpha;
         }
-- 
2.43.0


From 67eef93770ec197b7dc31ca9d77369736e86b034 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:42 +0000
Subject: [PATCH 50/94] fix: strong Wolfe zoom could loop forever and returned
 a step that did not match the returned point

---
 c3/lib_optimization/optimization.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index eeae522..b7027e9 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1448,6 +1448,9 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
         /* printf("(tlow,thigh) = (%3.15G,%3.15G),\n",tl,th); */
 
         t = (tl + th)/2.0;
+        if ((t == tl) || (t == th)){ // interval can not be split further
+            break;
+        }
         c3opt_ls_x_move(d,t,dir,x,newx,lb,ub);
 
         fcurr = c3opt_eval(opt,newx,grad);
@@ -1472,8 +1475,10 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
             fl = fcurr;
         }
     }
-    /* printf("out bad\n"); */
-    return tlow;
+    // nothing satisfies both conditions, return the best of the interval
+    c3opt_ls_x_move(d,tl,dir,x,newx,lb,ub);
+    *fval = c3opt_eval(opt,newx,grad);
+    return tl;
 }
 
 /***********************************************************//**
-- 
2.43.0


From 7707d3978dd503445c6fb7a0f8958fc960ac71c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:42 +0000
Subject: [PATCH 51/94] fix: L-BFGS with one stored vector, and freeing an
 empty L-BFGS list, dereferenced NULL

---
 c3/lib_optimization/optimization.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index b7027e9..c2dd2b1 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2397,7 +2397,7 @@ void c3opt_lbfgs_list_insert(struct c3opt_lbfgs_list * list, size_t iter,
     }
     else{//(list->size == 0){
         new->next = NULL;
-        new->prev = NULL;
+        new->prev = (list->m == 1) ? new : NULL;
         list->size = 1;
     }
     
@@ -2512,13 +2512,11 @@ void c3opt_lbfgs_list_free(struct c3opt_lbfgs_list * list)
         struct c3opt_lbfgs_data * current = list->most_recent;
         struct c3opt_lbfgs_data * next;
         c3opt_lbfgs_data_free_contents(current);
-        current->prev = NULL;
         for (size_t ii = 1; ii < list->size; ii++){
             next = current->next;
             free(current); current=NULL;
             current = next;
             c3opt_lbfgs_data_free_contents(current);
-            current->prev = NULL;
         }
         free(current); current = NULL;
         free(list); list = NULL;
-- 
2.43.0


From 58f3a5c9ba6777574a3cc397982be65a90c085e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:58:26 +0000
Subject: [PATCH 52/94] fix: L-BFGS divided by zero curvature and aborted when
 its direction was not a descent direction

---
 c3/lib_optimization/optimization.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index c2dd2b1..cd25818 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2577,6 +2577,10 @@ void lbfgs_hg(size_t iter, size_t m, size_t dx, double hoscale, int scale,
             }
         }
         assert (kk == jj); // just to make sure
+        if (fabs(rhoinv) < 1e-30){ // no curvature information in this pair
+            alpha[ii] = 0.0;
+            continue;
+        }
         alpha[ii] = 1.0/rhoinv * cblas_ddot(dx,s,1,q,1);
         cblas_daxpy(dx,-alpha[ii],y,1,q,1);
     }
@@ -2596,6 +2600,9 @@ void lbfgs_hg(size_t iter, size_t m, size_t dx, double hoscale, int scale,
         
         c3opt_lbfgs_list_step_back(list,&kk,&s,&y,&rhoinv); // oldest to newest
         
+        if (fabs(rhoinv) < 1e-30){
+            continue;
+        }
         beta = 1.0/rhoinv * cblas_ddot(dx,y,1,q,1);
         cblas_daxpy(dx,(alpha[ii]-beta),s,1,q,1);
     }
@@ -2719,6 +2726,10 @@ int c3_opt_lbfgs(struct c3Opt * opt,
         lbfgs_hg(iter+1,m,d,1.0,scale,alpha,grad,workspace+d,list);
         for (size_t ii = 0; ii < d; ii++){ workspace[d+ii] *= -1;}
         eta = cblas_ddot(d,grad,1,workspace+d,1);
+        if (!(eta <= 0.0)){ // not a descent direction, use -gradient
+            for (size_t ii = 0; ii < d; ii++){ workspace[d+ii] = -grad[ii];}
+            eta = cblas_ddot(d,grad,1,workspace+d,1);
+        }
         onbound = 0;
         for (size_t ii = 0; ii < d; ii++){
             if ((x[ii] <= lb[ii]) || (x[ii] >= ub[ii])){
-- 
2.43.0


From 77876b64673cdf2224083c86d34d7f524dfe7f79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:58:46 +0000
Subject: [PATCH 53/94] fix: BFGS with backtracking followed ascent directions
 of non-convex objectives uphill

---
 c3/lib_optimization/optimization.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index cd25818..b4e7747 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2138,6 +2138,10 @@ int c3_opt_damp_bfgs(struct c3Opt * opt,
         
 
         eta = cblas_ddot(d,grad,1,workspace+d,1);
+        if (!(eta <= 0.0)){ // not a descent direction, use -gradient
+            for (size_t ii = 0; ii < d; ii++){ workspace[d+ii] = -grad[ii];}
+            eta = cblas_ddot(d,grad,1,workspace+d,1);
+        }
         onbound = 0;
         for (size_t ii = 0; ii < d; ii++){
             if ((x[ii] <= lb[ii]) || (x[ii] >= ub[ii])){
-- 
2.43.0


From 619c78692014d26c7ce8974ecebe0431b99e3ccc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:13:01 +0000
Subject: [PATCH 54/94] fix: box-constrained BFGS updated its Hessian with a
 step it had not taken

---
 c3/lib_optimization/optimization.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index b4e7747..2ca6761 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -3188,8 +3188,9 @@ int box_damp_bfgs(size_t d,
             printf("sc = %G\n",sc);
             printf("%G,%G\n",x[0],x[1]);
         }
+        // the step actually taken (after projection onto the box)
         double * s = space+d;
-        cblas_dscal(d,sc,s,1);
+        for (size_t ii = 0; ii < d; ii++){ s[ii] = x[ii] - space[ii]; }
 
         if (res != 0){
             return res;
-- 
2.43.0


From 99c502327b97ceec596eec6a4adfa6a52b42d573 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:28:47 +0000
Subject: [PATCH 55/94] fix: parameter gradient of inner products was not in
 the measure of the inner product for Legendre and Chebyshev

---
 c3/lib_funcs/polynomials.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index c0da834..eac840e 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3219,8 +3219,28 @@ orth_poly_expansion_param_grad_inner(const struct OrthPolyExpansion * a,
    if (a->num_poly > b->num_poly)
        n = b->num_poly;
    
+   if (a->p->ptype == CHEBYSHEV){
+       // the basis is not orthogonal with respect to dx
+       double m = space_mapping_map_inverse_deriv(a->space_transform,0.0);
+       for (size_t ii = 0; ii < a->num_poly; ii++){
+           inner_vals[ii] = 0.0;
+           for (size_t jj = ii % 2; jj < b->num_poly; jj += 2){
+               double n1 = (double)ii + (double)jj;
+               double n2 = (double)ii - (double)jj;
+               inner_vals[ii] += b->coeff[jj] * m *
+                   (1.0/(1.0-n1*n1) + 1.0/(1.0-n2*n2));
+           }
+       }
+       return a->num_poly;
+   }
+
+   double scale = 1.0;
+   if (a->p->ptype == LEGENDRE){
+       // basis is orthogonal with respect to dx/(ub-lb)
+       scale = a->upper_bound - a->lower_bound;
+   }
    for (size_t ii = 0; ii < n; ii++){
-       inner_vals[ii] = b->coeff[ii];
+       inner_vals[ii] = scale * b->coeff[ii] * a->p->norm(ii);
    }
 
    /* in case polynomial b had fewer coefficients */
-- 
2.43.0


From eacebd6eea18e7de21547249e0c8f5f145db5c45 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:28:47 +0000
Subject: [PATCH 56/94] fix: value returned with the parameter gradient ignored
 Kristoffel weighting

---
 c3/lib_funcs/polynomials.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index eac840e..5a2a45c 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3194,6 +3194,7 @@ double orth_poly_expansion_param_grad_eval2(
             grad[jj] /= sqrt(den / ( (double) poly->num_poly ));
             /* grad[jj] /= sqrt(den); */
         }
+        out /= sqrt(den / ( (double) poly->num_poly ));
     }
     return out;    
 }
-- 
2.43.0


From 888e1a53327d8b4a6461bffeaf8749dbcd8e60be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:28:47 +0000
Subject: [PATCH 57/94] fix: Hessian-vector product returned zero instead of
 the evaluation

---
 c3/lib_superlearn/parameterization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index 9b9cff7..7790713 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -1672,7 +1672,7 @@ double ft_param_hessvec(struct FTparam * ftp, const double * x,
     /* double * d2_evals = calloc_double(maxrank*maxrank*ftp->nparams); */
 
 
-    double eval = 0.0;
+    double eval = function_train_eval(ft,x);
 
     // Precompute all relavent info
     for (size_t ii = 0; ii < ftp->dim; ii++){
-- 
2.43.0


From 6063ef44271cb8612c6882897e5d279bd6042737 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:32:13 +0000
Subject: [PATCH 58/94] fix: function value history of alternating least
 squares was too small for the final iterate of each solve

---
 c3/lib_superlearn/regress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 6c547d8..90b7a9b 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -547,7 +547,7 @@ c3_regression_run_als(struct FTparam * ftp, struct RegressOpts * ropts, struct c
     double * stored_fvals = NULL;
     size_t nepochs = 0;
     if (c3opt_get_store_func(optimizer) == 1){
-        stored_fvals = calloc_double(2 * ropts->max_als_sweeps * ftp->dim * c3opt_get_maxiter(optimizer));
+        stored_fvals = calloc_double(2 * ropts->max_als_sweeps * ftp->dim * (c3opt_get_maxiter(optimizer)+1));
     }
     
     size_t maxrank = function_train_get_maxrank(ftp->ft);
-- 
2.43.0


From 850ea1f42d6e05d8243fd73aa7e10cf6829902ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:32:13 +0000
Subject: [PATCH 59/94] fix: stored function values leaked when regression
 options were used for more than one fit

---
 c3/lib_superlearn/learning_options.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_superlearn/learning_options.c b/c3/lib_superlearn/learning_options.c
index b8d91b6..c67d03d 100644
--- a/c3/lib_superlearn/learning_options.c
+++ b/c3/lib_superlearn/learning_options.c
@@ -257,6 +257,9 @@ void regress_opts_add_stored_vals(struct RegressOpts * opts, size_t nepochs, dou
 {
     assert (opts != NULL);
     opts->nepochs = nepochs;
+    if (opts->stored_fvals != fvals){
+        free(opts->stored_fvals); opts->stored_fvals = NULL;
+    }
     opts->stored_fvals = fvals;
 }
 
-- 
2.43.0


From b9313b5cff7765cb885e8f4b5aaa22acf2c273a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:34:31 +0000
Subject: [PATCH 60/94] fix: rank adaptation read past the rounded parameters
 and misplaced them when restricting the new ranks

---
 c3/lib_superlearn/regress.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 90b7a9b..ded72d4 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -1372,9 +1372,12 @@ ft_regress_run_rankadapt(struct FTRegress * ftr,
         
         kicked = 0;
 
+        // the block kept from the previous fit is that of the rounded function
+        for (size_t ii = 1; ii <= ft->dim; ii++){
+            ftr->regopts->restrict_rank_opt[ii-1] = ftr_ranks[ii];
+        }
         for (size_t ii = 1; ii < ft->dim; ii++){
             if (ftr_ranks[ii] == ranks[ii]){
-                ftr->regopts->restrict_rank_opt[ii-1] = ranks[ii];
                 ranks[ii] += kickrank;
                 if (ranks[ii] > maxrank){
                     ranks[ii] = maxrank;
-- 
2.43.0


From 8f2bcb1bc49b995ea6390d4ed965929f5b0bfdd5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:35:24 +0000
Subject: [PATCH 61/94] fix: function value history of alternating least
 squares also needs room for the starting value

---
 c3/lib_superlearn/regress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index ded72d4..55f0b8d 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -547,7 +547,7 @@ c3_regression_run_als(struct FTparam * ftp, struct RegressOpts * ropts, struct c
     double * stored_fvals = NULL;
     size_t nepochs = 0;
     if (c3opt_get_store_func(optimizer) == 1){
-        stored_fvals = calloc_double(2 * ropts->max_als_sweeps * ftp->dim * (c3opt_get_maxiter(optimizer)+1));
+        stored_fvals = calloc_double(2 * ropts->max_als_sweeps * ftp->dim * (c3opt_get_maxiter(optimizer)+2));
     }
     
     size_t maxrank = function_train_get_maxrank(ftp->ft);
-- 
2.43.0


From 7cf0aeca4d50f280a58348033eafa56e5230f9ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:37:53 +0000
Subject: [PATCH 62/94] fix: gradient of a sum of objectives ignored their
 weights and depended on their order

---
 c3/lib_superlearn/objective_functions.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/c3/lib_superlearn/objective_functions.c b/c3/lib_superlearn/objective_functions.c
index 2a1ce6a..3332ce6 100644
--- a/c3/lib_superlearn/objective_functions.c
+++ b/c3/lib_superlearn/objective_functions.c
@@ -121,13 +121,29 @@ double objective_eval(size_t nparam, const double * param, double * grad,
             grad[ii] = 0.0;
         }
     }
+    // every objective adds to (and may rescale) its own gradient
+    double * obj_grad = NULL;
+    if (grad != NULL){
+        obj_grad = calloc_double(nparam);
+    }
+
     double out = 0.0;
     while (obj != NULL){
-        out += obj->weight * obj->func(nparam,param,grad,N,ind,data,mem,obj->arg);
+        if (grad != NULL){
+            for (size_t ii = 0; ii < nparam; ii++){
+                obj_grad[ii] = 0.0;
+            }
+        }
+        out += obj->weight * obj->func(nparam,param,obj_grad,N,ind,data,mem,obj->arg);
+        if (grad != NULL){
+            for (size_t ii = 0; ii < nparam; ii++){
+                grad[ii] += obj->weight * obj_grad[ii];
+            }
+        }
         obj = obj->next;
     }
+    free(obj_grad); obj_grad = NULL;
     
-    /* printf("OUT = %G\n",out); */
     return out;
 }
 
-- 
2.43.0


From 48c8522aa612279f6e17f660753769829920585a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:41:34 +0000
Subject: [PATCH 63/94] fix: strong Wolfe search aborted when the first step
 changed the value by less than roundoff

---
 c3/lib_optimization/optimization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 2ca6761..2ca8261 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1594,7 +1594,7 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
             return t*alpha;
         }
         else if (dg2 >= 0.0){
-            assert (*newf < f_prev);
+            // *newf <= f_prev up to roundoff
             t = c3opt_ls_zoom(opt,t,*newf,t_prev,x,dir,newx,fx,dg,grad,newf);
             return t * alpha;
         }
-- 
2.43.0


From 3a623a6c92e2af5af1ef2819286ba89063350359 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:23:35 +0000
Subject: [PATCH 64/94] fix: qmatqmat stored its entries transposed and out of
 bounds for non-square results

---
 c3/lib_clinalg/qmarray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index ee8ac60..0daaf81 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -958,7 +958,7 @@ qmatqmat(const struct Qmarray * a, const struct Qmarray * b)
     for (jj = 0; jj < b->nrows; jj++){
         for (ii = 0; ii < a->ncols; ii++){
             // c[jj*a->ncols+ii] = a[:,ii]^T b[jj,:]
-            c->funcs[ii*c->nrows+jj] =  generic_function_sum_prod(b->ncols, 1, 
+            c->funcs[jj*c->nrows+ii] =  generic_function_sum_prod(b->ncols, 1,
                     a->funcs + ii*a->nrows, b->nrows, b->funcs + jj);
         }
     }
@@ -1218,8 +1218,7 @@ qmarray_vec_kron(const double * a,const struct Qmarray * b,const struct Qmarray
 
     struct Qmarray * temp = qmatm(b,a,c->nrows); // b->ncols * c->ncols
     //printf("got qmatm\n");
-    //d = qmaqma(temp,c);
-    d = qmatqmat(c,temp);
+    d = qmaqma(temp,c);
     qmarray_free(temp); temp = NULL;
     return d;
 }
-- 
2.43.0


From adf416fa4bf5da511cc9b289f8f2d35364f3d601 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:27:48 +0000
Subject: [PATCH 65/94] fix: heterogeneous-rank cross initialisation read past
 its default start points

---
 c3/lib_interface/approximate.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/c3/lib_interface/approximate.c b/c3/lib_interface/approximate.c
index 825ce9a..29e6fc5 100644
--- a/c3/lib_interface/approximate.c
+++ b/c3/lib_interface/approximate.c
@@ -308,21 +308,21 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
         ft_cross_args_free(c3a->fca); c3a->fca = NULL;
     }
 
+    // right sets need init_ranks[ii] points in dimension ii, left sets init_ranks[ii+1]
     double ** start = NULL;
+    double ** startl = NULL;
     if (startin != NULL){
         start = startin;
+        startl = startin;
     }
     else{
         start = malloc_dd(c3a->dim);
+        startl = malloc_dd(c3a->dim);
         for (size_t ii = 0; ii < c3a->dim; ii++){
             double lb = multi_approx_opts_get_dim_lb(c3a->fapp, ii);
             double ub = multi_approx_opts_get_dim_ub(c3a->fapp, ii);
-			if (ii == 0) {
-				start[ii] = linspace(lb, ub, init_ranks[1]);
-			}
-			else {
-				start[ii] = linspace(lb, ub, init_ranks[ii]);
-			}
+            start[ii] = linspace(lb, ub, init_ranks[ii]);
+            startl[ii] = linspace(lb, ub, init_ranks[ii+1]);
         }
     }
     
@@ -335,7 +335,7 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
     
     size_t * ranks = ft_cross_args_get_ranks(c3a->fca);
     cross_index_array_initialize(c3a->dim,c3a->isr,0,1,ranks,(void**)start,sizeof(double));
-    cross_index_array_initialize(c3a->dim,c3a->isl,0,0,ranks+1,(void**)start,sizeof(double));
+    cross_index_array_initialize(c3a->dim,c3a->isl,0,0,ranks+1,(void**)startl,sizeof(double));
     if (c3a->ftref != NULL){
         function_train_free(c3a->ftref); c3a->ftref = NULL;
     }
@@ -345,6 +345,7 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
 
     if (startin == NULL){
         free_dd(c3a->dim, start);
+        free_dd(c3a->dim, startl);
     }
 }
 
-- 
2.43.0


From d397476c51b3d929e2b508a8fbc091be33cc7dbd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:27:48 +0000
Subject: [PATCH 66/94] fix: re-initialising cross approximation leaked the
 previous index sets

---
 c3/lib_interface/approximate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c3/lib_interface/approximate.c b/c3/lib_interface/approximate.c
index 29e6fc5..2fafdec 100644
--- a/c3/lib_interface/approximate.c
+++ b/c3/lib_interface/approximate.c
@@ -269,6 +269,10 @@ void c3approx_init_cross(struct C3Approx * c3a, size_t init_rank, int verbose,
     ft_cross_args_set_round_tol(c3a->fca,1e-14);
     
     size_t * ranks = ft_cross_args_get_ranks(c3a->fca);
+    for (size_t ii = 0; ii < c3a->dim; ii++){
+        cross_index_free(c3a->isl[ii]); c3a->isl[ii] = NULL;
+        cross_index_free(c3a->isr[ii]); c3a->isr[ii] = NULL;
+    }
     cross_index_array_initialize(c3a->dim,c3a->isr,0,1,ranks,(void**)start,sizeof(double));
     cross_index_array_initialize(c3a->dim,c3a->isl,0,0,ranks+1,(void**)start,sizeof(double));
     if (c3a->ftref != NULL){
@@ -334,6 +338,10 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
     ft_cross_args_set_round_tol(c3a->fca,1e-14);
     
     size_t * ranks = ft_cross_args_get_ranks(c3a->fca);
+    for (size_t ii = 0; ii < c3a->dim; ii++){
+        cross_index_free(c3a->isl[ii]); c3a->isl[ii] = NULL;
+        cross_index_free(c3a->isr[ii]); c3a->isr[ii] = NULL;
+    }
     cross_index_array_initialize(c3a->dim,c3a->isr,0,1,ranks,(void**)start,sizeof(double));
     cross_index_array_initialize(c3a->dim,c3a->isl,0,0,ranks+1,(void**)startl,sizeof(double));
     if (c3a->ftref != NULL){
-- 
2.43.0


From 6d0f046d4e870fb8165b8ecfc654f37a7da8d94f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 67/94] fix: evaluating a fiber of an index function leaked its
 points

---
 c3/lib_funcs/fwrap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index da00cdb..4fc57eb 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -497,6 +497,7 @@ int fwrap_eval_fiber(size_t nevals, const void * x, double * out, void * fwin)
         for (size_t ii = 0; ii < nevals; ii++){
             out[ii] = fw->intf(xeval + ii*fw->d,fw->fargs);
         }
+        free(xeval);
     }
     else{
         const double * xin = x;
-- 
2.43.0


From 62784296fd127244416670f919eb07d2f804b971 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:35:18 +0000
Subject: [PATCH 68/94] fix: merging two index sets always used the first left
 index

---
 c3/lib_clinalg/indmanage.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c3/lib_clinalg/indmanage.c b/c3/lib_clinalg/indmanage.c
index 19e3796..a11370a 100644
--- a/c3/lib_clinalg/indmanage.c
+++ b/c3/lib_clinalg/indmanage.c
@@ -439,7 +439,6 @@ cross_index_merge(struct CrossIndex * left, struct CrossIndex * right)
     struct CrossNode * cl = left->nodes;
     struct CrossNode * cr = right->nodes;
     for (size_t ii = 0; ii < right->n;ii++){
-        cl = left->nodes;
         vals[ii] = calloc_double(d);
         memmove(vals[ii],cl->x,dl*sizeof(double));
         memmove(vals[ii]+dl,cr->x,dr*sizeof(double));
-- 
2.43.0


From e3752d28065b747c1ac9f8a3b965812d038a7206 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:37:21 +0000
Subject: [PATCH 69/94] fix: saving to a full device reported success

---
 c3/lib_array/array.c             |  9 +++++++--
 c3/lib_clinalg/ft.c              | 16 ++++++++++++----
 c3/lib_probability/probability.c |  8 ++++++--
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 076f573..51f03dc 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -685,8 +685,13 @@ darray_save(size_t rows, size_t cols, double * arr, char * filename, int type)
         }
     
     }
-    fclose(fp);
-
+    // a failed write (e.g., full disk) must not be reported as a success
+    int failed = ferror(fp);
+    int closed = fclose(fp);
+    if ((failed != 0) || (closed != 0)){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 640de35..cccf160 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -434,10 +434,14 @@ int function_train_save(struct FunctionTrain * ft, char * filename)
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = function_train_serialize(ptr,ft,NULL);
 
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t k = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    int closed = fclose(fp);
+    if ((k != totsize+sizeof(size_t)) || (closed != 0)){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
@@ -4142,10 +4146,14 @@ int ft1d_array_save(struct FT1DArray * ft, char * filename)
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = ft1d_array_serialize(ptr,ft,NULL);
 
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t k = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    int closed = fclose(fp);
+    if ((k != totsize+sizeof(size_t)) || (closed != 0)){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index e811ac8..e585071 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -957,10 +957,14 @@ int probability_density_save(struct ProbabilityDensity * pdf, char * filename)
     unsigned char * ptr = serialize_size_t(data,totsize);
     ptr = probability_density_serialize(ptr,pdf,NULL);
     
-    fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
+    size_t k = fwrite(data,sizeof(unsigned char),totsize+sizeof(size_t),fp);
 
     free(data); data = NULL;
-    fclose(fp);
+    int closed = fclose(fp);
+    if ((k != totsize+sizeof(size_t)) || (closed != 0)){
+        fprintf(stderr, "error writing file %s\n", filename);
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From 5ac6c10b92190985afbc0336f307a76d923aca20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:40:46 +0000
Subject: [PATCH 70/94] fix: sum of one-dimensional function trains was
 malformed and leaked

---
 c3/lib_clinalg/ft.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index cccf160..4177f46 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2863,6 +2863,16 @@ function_train_sum(const struct FunctionTrain * a,
                    const struct FunctionTrain * b)
 {
     struct FunctionTrain * ft = function_train_alloc(a->dim);
+
+    if (a->dim == 1){
+        // only one core so there are no inner ranks to stack along
+        ft->ranks[0] = 1;
+        ft->ranks[1] = 1;
+        ft->cores[0] = qmarray_alloc(1,1);
+        ft->cores[0]->funcs[0] = generic_function_daxpby(1.0,a->cores[0]->funcs[0],
+                                                         1.0,b->cores[0]->funcs[0]);
+        return ft;
+    }
     
     // first core
     ft->cores[0] = qmarray_stackh(a->cores[0], b->cores[0]);
-- 
2.43.0


From 5933515bf5ce4eda71e28e1d4706628bef7bc4bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:41:57 +0000
Subject: [PATCH 71/94] fix: perturbed evaluation of a one-dimensional function
 train read out of bounds

---
 c3/lib_clinalg/ft.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 4177f46..7cebfc9 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1347,7 +1347,11 @@ double function_train_eval_co_perturb(struct FunctionTrain * ft,
         generic_function_1darray_eval2(
             ft->cores[ii]->nrows * ft->cores[ii]->ncols,
             ft->cores[ii]->funcs, pert[2*ii+1], t2);
-        if (ii == 0){
+        if (dim == 1){
+            vals[0] = t1[0];
+            vals[1] = t2[0];
+        }
+        else if (ii == 0){
             vals[ii] = cblas_ddot(ft->ranks[1],t1,1,bprod[1],1);
             vals[ii+1] = cblas_ddot(ft->ranks[1],t2,1,bprod[1],1);
         }
@@ -1501,7 +1505,11 @@ double function_train_eval_co_perturb_ind(struct FunctionTrain * ft,
         generic_function_1darray_eval2_ind(
             ft->cores[ii]->nrows * ft->cores[ii]->ncols,
             ft->cores[ii]->funcs, pert[2*ii+1], t2);
-        if (ii == 0){
+        if (dim == 1){
+            vals[0] = t1[0];
+            vals[1] = t2[0];
+        }
+        else if (ii == 0){
             vals[ii] = cblas_ddot(ft->ranks[1],t1,1,bprod[1],1);
             vals[ii+1] = cblas_ddot(ft->ranks[1],t2,1,bprod[1],1);
         }
-- 
2.43.0


From f237b265865fba5485f2bd640ef0dc4d815bc83a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:41:57 +0000
Subject: [PATCH 72/94] fix: rounding a one-dimensional function train read out
 of bounds

---
 c3/lib_clinalg/ft.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 7cebfc9..51a0c4e 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2608,6 +2608,9 @@ function_train_round(struct FunctionTrain * ain, double epsilon,
     if (normain < ZEROTHRESH){
         return function_train_constant(0.0, aopts);
     }
+    if (ain->dim == 1){
+        return function_train_copy(ain); // no ranks to round
+    }
     struct OneApproxOpts * o = NULL;
     struct FunctionTrain * a = function_train_copy(ain);
 //    size_t ii;
@@ -2709,6 +2712,9 @@ function_train_round_maxrank_all(struct FunctionTrain * ain, double epsilon,
     if (normain < ZEROTHRESH){
         return function_train_constant(0.0, aopts);
     }
+    if (ain->dim == 1){
+        return function_train_copy(ain); // no ranks to round
+    }
     struct OneApproxOpts * o = NULL;
     struct FunctionTrain * a = function_train_copy(ain);
 //    size_t ii;
-- 
2.43.0


From 26a949ae92a8eeea076beb5dc52c0f3bc62055a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 73/94] fix: gradient of a one-dimensional function train was
 zero

---
 c3/lib_clinalg/ft.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 51a0c4e..b0bd9bc 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4366,8 +4366,10 @@ void function_train_gradient_eval(const struct FunctionTrain * ft,
         ind_rl += r2;
     }
 
-    backind = 0;
-    out[backind] = cblas_ddot(ranks[1],grads_lr,1,evals_rl + ind_rl, 1);
+    if (dim > 1){
+        backind = 0;
+        out[backind] = cblas_ddot(ranks[1],grads_lr,1,evals_rl + ind_rl, 1);
+    }
 
     free(evals_lr); evals_lr = NULL;
     free(evals_rl); evals_rl = NULL;
-- 
2.43.0


From 921e475a7b7e0fda6e9518f302da6c87e4788615 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:55:35 +0000
Subject: [PATCH 74/94] fix: standard and multivariate normal densities could
 not be built (unknown function kind, options never set)

---
 c3/lib_probability/probability.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index e585071..28e6d78 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1065,6 +1065,7 @@ struct ProbabilityDensity * probability_density_standard_normal(size_t dim)
     struct LinElemExpAopts * opts = lin_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,delta,hmin);
     struct OneApproxOpts * qmopts = one_approx_opts_alloc(LINELM,opts);
     struct MultiApproxOpts * fopts = multi_approx_opts_alloc(dim);
+    multi_approx_opts_set_all_same(fopts,qmopts);
     
     /* size_t init_rank = 3; */
     /* double round_tol = 1e-3; */
@@ -1076,7 +1077,7 @@ struct ProbabilityDensity * probability_density_standard_normal(size_t dim)
     /* struct FtApproxArgs * fapp = c3approx_get_approx_args(c3a); */
     
     struct ProbabilityDensity * pdf = probability_density_alloc();
-    struct Fwrap * fw = fwrap_create(1,"MOVEC");
+    struct Fwrap * fw = fwrap_create(1,"mo-vec");
     fwrap_set_mofvec(fw,pdf_stdmvn_helper,&dim);
     
     pdf->pdf = function_train_rankone(fopts,fw);
-- 
2.43.0


From 2036544dd59fd1d6d428f706550ee96a4dcb48a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:55:35 +0000
Subject: [PATCH 75/94] fix: a copied linear transform lost its matrix type and
 could not be inverted

---
 c3/lib_probability/probability.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 28e6d78..3f0290d 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -645,6 +645,8 @@ struct LinearTransform * linear_transform_copy(struct LinearTransform * lt)
 {
     struct LinearTransform * newlt = 
         linear_transform_alloc(lt->dimin, lt->dimout, lt->A, lt->b, lt->det);
+    newlt->mt = lt->mt;
+    newlt->mti = lt->mti;
 
     if (lt->Ainv != NULL){
         newlt->Ainv = calloc_double(lt->dimin*lt->dimout);
-- 
2.43.0


From 451daf31d22ea4d73166e689b293dd8703297399 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:55:50 +0000
Subject: [PATCH 76/94] fix: serializing a density without a linear transform
 dereferenced NULL

---
 c3/lib_probability/probability.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 3f0290d..a214ccd 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -893,7 +893,10 @@ probability_density_serialize(unsigned char * ser,
     if (totSizeIn != NULL){
         size_t size_pdf, size_lt;
         function_train_serialize(NULL,pdf->pdf,&size_pdf);
-        linear_transform_serialize(NULL,pdf->lt,&size_lt);
+        size_lt = 0;
+        if (pdf->transform == 1){
+            linear_transform_serialize(NULL,pdf->lt,&size_lt);
+        }
         totSize = size_pdf + size_lt + sizeof(int) + sizeof(enum pdf_type);
         *totSizeIn = totSize;
         return ser;
@@ -903,7 +906,9 @@ probability_density_serialize(unsigned char * ser,
     ptr = serialize_int(ptr,pdf->transform);
     ptr = serialize_int(ptr,pdf->type);
     ptr = function_train_serialize(ptr,pdf->pdf,NULL);
-    ptr = linear_transform_serialize(ptr,pdf->lt,NULL);
+    if (pdf->transform == 1){
+        ptr = linear_transform_serialize(ptr,pdf->lt,NULL);
+    }
     return ptr;
 }
 
@@ -926,7 +931,9 @@ probability_density_deserialize(unsigned char * ser,
     ptr = deserialize_int(ptr,&ptype);
     (*pdf)->type = (enum pdf_type) ptype;
     ptr = function_train_deserialize(ptr,&((*pdf)->pdf));
-    ptr = linear_transform_deserialize(ptr,&((*pdf)->lt));
+    if ((*pdf)->transform == 1){
+        ptr = linear_transform_deserialize(ptr,&((*pdf)->lt));
+    }
     
     return ptr;
 }
-- 
2.43.0


From 3330b9c0240f81aeed88aaf2926af420a21a7399 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:55:50 +0000
Subject: [PATCH 77/94] fix: sampling a standard normal density dereferenced a
 NULL transform

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index a214ccd..0999597 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1165,6 +1165,9 @@ double * probability_density_sample(struct ProbabilityDensity * pdf)
         for (ii = 0; ii < dim; ii++){
             norm[ii] = randn();
         }
+        if (pdf->transform == 0){
+            return norm;
+        }
         out = linear_transform_apply(dim,dim,pdf->lt->A,
                             norm,pdf->lt->b);
         free(norm); norm = NULL;
-- 
2.43.0


From d643b1c7bdb437e443769aadfb3777af80892441 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:55:50 +0000
Subject: [PATCH 78/94] fix: laplace approximation leaked the optimizer and its
 bounds

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 0999597..6f97847 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1227,6 +1227,9 @@ probability_density_laplace(double (*f)(size_t,const double *,double*,void *),
     struct ProbabilityDensity * pdf =
         probability_density_mvn(dim, mean, cov);
 
+    c3opt_free(opt); opt = NULL;
+    free(lb); lb = NULL;
+    free(ub); ub = NULL;
     free(mean); mean = NULL;
     free(hess); hess = NULL;
     free(cov); cov= NULL;
-- 
2.43.0


From 237d9e97b96b280ed26a7d284ca6450165f47a35 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:55:50 +0000
Subject: [PATCH 79/94] fix: inverse normal cdf used the wrong central rational
 form and stopped refining on the sign of the step

---
 c3/lib_probability/probability_utils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c3/lib_probability/probability_utils.c b/c3/lib_probability/probability_utils.c
index 9e30a9c..1116383 100644
--- a/c3/lib_probability/probability_utils.c
+++ b/c3/lib_probability/probability_utils.c
@@ -114,7 +114,7 @@ double icdfnorm_rational(double pin)
     else if (p <= p_high){
         double r = p - 0.5;
         double q = r*r;
-        val = (((((a1*q+a2)*q + a3)*q + a4)*q + a5)*q + a6)*q;
+        val = (((((a1*q+a2)*q + a3)*q + a4)*q + a5)*q + a6)*r;
         val /= (((((b1*q + b2)*q + b3)*q + b4)*q + b5)*q + 1.0);
 
     }
@@ -138,13 +138,16 @@ double icdfnorm_rational(double pin)
 double icdfnorm(double p)
 {
     double val = icdfnorm_rational(p);
+    if (p == 0.0 || p == 1.0){
+        return val;
+    }
     double e = 0.5 * erfc(-val/sqrt(2.0))-p;
     double u = e * sqrt(2.0*M_PI) * exp(val * val / 2.0);
     double dval = u/(1+val*u/2.0);
     //printf("dval = %G\n",dval);
     val -= dval;
 
-    while (dval > 1e-15){
+    for (size_t ii = 0; ii < 20 && fabs(dval) > 1e-15 * fabs(val); ii++){
 
         e = 0.5 * erfc(-val/sqrt(2.0))-p;
         u = e * sqrt(2.0*M_PI) * exp(val * val / 2.0);
-- 
2.43.0


From f44f0dd516d64f7635535297b9564ece22aae086 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:01:09 +0000
Subject: [PATCH 80/94] fix: releasing a Laplace operator dereferenced NULL for
 more than one dimension and leaked

---
 c3/lib_clinalg/diffusion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index 0208cfc..ad1a595 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -829,8 +829,8 @@ void destroy_operator_for_laplace(struct OperatorForLaplace * op)
 {
     if (op != NULL) {
         for (size_t ii = 0; ii < op->dim; ii++){
-            free(op->op[ii]); op->op = NULL;
-            free(op->opLP[ii]); op->opLP = NULL;
+            free(op->op[ii]); op->op[ii] = NULL;
+            free(op->opLP[ii]); op->opLP[ii] = NULL;
         } 
         free(op->op); op->op = NULL;
         free(op->opLP); op->opLP = NULL;
-- 
2.43.0


From 960121f71a127ee74821ccd4549cd9febd58919b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:01:09 +0000
Subject: [PATCH 81/94] fix: periodic second derivatives exited on uniform
 grids whose spacing differs by rounding

---
 c3/lib_clinalg/diffusion.c | 2 +-
 c3/lib_funcs/linelm.c      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index ad1a595..6b4c0a1 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -755,7 +755,7 @@ static double * compute_Lp(size_t nx, const double * nodes)
     double dx = nodes[1] - nodes[0];    /* Assumes constant dx. */
     for (size_t ii = 1; ii < nx-1; ii++){
         double dx2 = nodes[ii+1] - nodes[ii];
-        if (fabs(dx2-dx) > 1e-15){
+        if (fabs(dx2-dx) > 1e-8*fabs(dx)){
             fprintf(stderr, "Lp only works for uniform spacing\n");
             fprintf(stderr, "%3.15G %3.15G\n", dx, dx2);
             exit(1);
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 42f0327..e5ff667 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -855,7 +855,7 @@ void lin_elem_exp_dderiv_initialize_fourier(struct LinElemExp * f)
     double dx = f->nodes[1] - f->nodes[0];    // assumes constant dx for now.
     for (size_t ii = 1; ii < f->num_nodes-1; ii++){
         double dx2 = f->nodes[ii+1] - f->nodes[ii];
-        if (fabs(dx2-dx) > 1e-15){
+        if (fabs(dx2-dx) > 1e-8*fabs(dx)){
             fprintf(stderr, "lin_elem_exp_dderiv_periodic only defined for uniform spacing\n");
             fprintf(stderr, "%3.15G %3.15G\n", dx, dx2);
             exit(1);
@@ -922,7 +922,7 @@ lin_elem_exp_dderiv_periodic(struct LinElemExp * f)
     double dx = f->nodes[1] - f->nodes[0];    
     for (size_t ii = 1; ii < f->num_nodes-1; ii++){
         double dx2 = f->nodes[ii+1] - f->nodes[ii];
-        if (fabs(dx2-dx) > 1e-15){
+        if (fabs(dx2-dx) > 1e-8*fabs(dx)){
             fprintf(stderr, "lin_elem_exp_dderiv_periodic only defined for uniform spacing\n");
             fprintf(stderr, "%3.15G %3.15G\n", dx, dx2);
             exit(1);
-- 
2.43.0


From 88f5e96d401dcc7af561e64c1d76809dbdfd92dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:02:12 +0000
Subject: [PATCH 82/94] fix: Laplacian and diffusion of a one-dimensional train
 were malformed and leaked

---
 c3/lib_clinalg/diffusion.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index 6b4c0a1..99f4f04 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -452,6 +452,14 @@ struct FunctionTrain * exact_diffusion(
     struct Qmarray * l1 = qmarray_kron(a->cores[0],ddf[0]);
     struct Qmarray * l2 = qmarray_kron(da[0],df[0]);
     qmarray_axpy(1.0,l1,l2);
+    if (dim == 1){
+        out->cores[0] = l2;
+        qmarray_free(l1); l1 = NULL;
+        qmarray_free(da[0]); free(da); da = NULL;
+        qmarray_free(df[0]); free(df); df = NULL;
+        qmarray_free(ddf[0]); free(ddf); ddf = NULL;
+        return out;
+    }
     struct Qmarray * l3 = qmarray_kron(a->cores[0],f->cores[0]);
     out->cores[0] = qmarray_stackh(l2,l3);
     out->ranks[1] = out->cores[0]->ncols;
@@ -535,6 +543,13 @@ struct FunctionTrain * exact_laplace(const struct FunctionTrain * fin,
         ddf[ii] = qmarray_dderiv(f->cores[ii]);
     }
 
+    if (dim == 1){
+        out->cores[0] = ddf[0];
+        free(ddf); ddf = NULL;
+        function_train_free(f);
+        return out;
+    }
+
     out->cores[0] = qmarray_stackh(ddf[0], f->cores[0]);
     out->ranks[1] = out->cores[0]->ncols;
 
@@ -604,6 +619,12 @@ exact_laplace_periodic(struct FunctionTrain * f,
         ddf[ii] = qmarray_dderiv_periodic(f->cores[ii]);
     }
 
+    if (dim == 1){
+        out->cores[0] = ddf[0];
+        free(ddf); ddf = NULL;
+        return out;
+    }
+
     out->cores[0] = qmarray_stackh(ddf[0], f->cores[0]);
     out->ranks[1] = out->cores[0]->ncols;
 
@@ -676,6 +697,12 @@ exact_laplace_op(struct FunctionTrain * f,
         ddf[ii] = qmarray_operate_elements(f->cores[ii], op[ii]);
     }
 
+    if (dim == 1){
+        out->cores[0] = ddf[0];
+        free(ddf); ddf = NULL;
+        return out;
+    }
+
     out->cores[0] = qmarray_stackh(ddf[0], f->cores[0]);
     out->ranks[1] = out->cores[0]->ncols;
 
-- 
2.43.0


From b08670ff026885db65001641c8ada94b0c347625 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:12:43 +0000
Subject: [PATCH 83/94] fix: reading arrays of numbers from text in two threads
 mixed their contents

---
 c3/lib_stringmanip/stringmanip.c | 35 ++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index f99d04a..925e19d 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -310,19 +310,36 @@ char * mystrdup(char * str)
     return p ? memcpy(p, str, len) : NULL;
 }
 
+/* Reentrant replacement of strtok: the position is kept by the caller */
+static char * next_token(char ** pos, const char * delim)
+{
+    char * start = *pos + strspn(*pos,delim);
+    if (*start == '\0'){
+        *pos = start;
+        return NULL;
+    }
+    char * end = start + strcspn(start,delim);
+    if (*end != '\0'){
+        *end = '\0';
+        end++;
+    }
+    *pos = end;
+    return start;
+}
+
 double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
 {
     char * token;
+    char * pos;
     
     char * str2 = mystrdup(str);
     char * str3 = mystrdup(str);
 
-    /* char *save1,*save2,*save3;; */
-    
-    token = strtok(str,"\t ,\n");
+    pos = str;
+    token = next_token(&pos,"\t ,\n");
     size_t ntot = 0;
     while (token != NULL){
-        token = strtok(NULL,"\t ,\n");
+        token = next_token(&pos,"\t ,\n");
         ntot++;
     }
     /* printf("total = %zu\n",ntot); */
@@ -333,10 +350,11 @@ double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
         exit(1);
     }
 
-    token = strtok(str2,"\n");
+    pos = str2;
+    token = next_token(&pos,"\n");
     *nrows = 0;
     while (token != NULL){
-        token = strtok(NULL,"\n");
+        token = next_token(&pos,"\n");
         *nrows = *nrows + 1;
     }
     *ncols = *nrows > 0 ? ntot / *nrows : 0;
@@ -344,13 +362,14 @@ double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
     /* printf("number of rows = %zu\n",*nrows); */
     /* printf("number of cols = %zu\n",*ncols); */
 
-    token = strtok(str3,"\t ,\n");
+    pos = str3;
+    token = next_token(&pos,"\t ,\n");
     size_t ind = 0;
     /* printf("%s %zu \n",token,ind); */
     while (token != NULL){
         data[ind] = atof(token);
         ind++;
-        token = strtok(NULL,"\t ,\n");
+        token = next_token(&pos,"\t ,\n");
         /* printf("%s %zu\n",token,ind); */
     }
 
-- 
2.43.0


From 06e8be866e14952a4bc51eee6d78820178236657 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:12:43 +0000
Subject: [PATCH 84/94] fix: reading a three-dimensional tensor only used the
 first seven characters of each line

---
 c3/lib_tensor/tensor.c | 40 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index 56f5830..bcfd470 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -117,46 +117,24 @@ struct tensor * read_tensor_3d(FILE * fp)
     struct tensor * a;
 
     size_t nvals[3];
-    nvals[0] = (size_t)( fgetc(fp)-'0');
-    fgetc(fp); 
-    nvals[1] = (size_t) ( fgetc(fp)-'0');
-    fgetc(fp); 
-    nvals[2] = (size_t) ( fgetc(fp)-'0');
-    //iprint(3, nvals);
-    init_tensor(&a, 3, nvals);
-    fgetc(fp);
-    char * buffer= malloc(2*nvals[2] * sizeof(double)/sizeof(char) * sizeof(char));
-    char * pch;    
-
-    buffer = fgets(buffer, sizeof(buffer), fp);
-    if (buffer == NULL){
+    if (fscanf(fp,"%zu %zu %zu",nvals,nvals+1,nvals+2) != 3){
         fprintf(stderr, "failed to read in the 3d tensor file.\n");
         exit(1);
     }
-    pch = strtok(buffer, " \n");
+    //iprint(3, nvals);
+    init_tensor(&a, 3, nvals);
 
     for (ii = 0; ii < nvals[1]; ii++){
         for (jj = 0; jj < nvals[0]; jj++){
-            kk = 0;
-            while (pch != NULL)
-            {
-                sscanf(pch, "%lf",
-                    &(a->vals[jj + ii * nvals[0] + kk * nvals[0] * nvals[1]]));
-                //printf("%f ",(a->vals[jj + ii * nvals[0] + kk * nvals[0] * nvals[1]]));
-                //printf("%s ", pch);
-                pch = strtok(NULL, " \n");
-                kk++;
-            }
-            buffer = fgets(buffer, sizeof(buffer), fp);
-            if (buffer == NULL){
-                fprintf(stderr, "failed to read in the 3d tensor file.\n");
-                exit(1);
+            for (kk = 0; kk < nvals[2]; kk++){
+                if (fscanf(fp,"%lf",
+                    &(a->vals[jj + ii * nvals[0] + kk * nvals[0] * nvals[1]])) != 1){
+                    fprintf(stderr, "failed to read in the 3d tensor file.\n");
+                    exit(1);
+                }
             }
-            //printf("\n");
         }
     }
-    free(buffer);
-    //printf("%s ", buffer);
 
     return a;
 }
-- 
2.43.0


From 743336d8ef12637a47322d196fd11c6552cd91a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:43:22 +0000
Subject: [PATCH 85/94] fix: applying operators to a function train lost its
 first rank

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b0bd9bc..a44c257 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -261,7 +261,7 @@ function_train_operate(const struct FunctionTrain * ft,
 {
 
     struct FunctionTrain * ft_out = function_train_alloc(ft->dim);
-    ft_out->ranks[1] = ft->ranks[1];
+    ft_out->ranks[0] = ft->ranks[0];
     for (size_t ii = 0; ii < ft_out->dim; ii++){
         ft_out->cores[ii] = qmarray_operate_elements(ft->cores[ii],
                                                      op[ii]);
-- 
2.43.0


From 55babd5aa7cbe398b0d5918368b90bac2c56fd0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:43:22 +0000
Subject: [PATCH 86/94] fix: setting new nodes in element options kept the
 bounds of the old nodes

---
 c3/lib_funcs/constelm.c | 2 ++
 c3/lib_funcs/linelm.c   | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index f915802..2f28fc9 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -239,6 +239,8 @@ void const_elem_exp_aopts_set_nodes(struct ConstElemExpAopts * aopts,
     aopts->node_alloc = 0;
     if (N > 0){
         aopts->nodes = nodes;
+        aopts->lb = nodes[0];
+        aopts->ub = nodes[N-1];
     }
 }
 
diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index e5ff667..f928f76 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -242,6 +242,8 @@ void lin_elem_exp_aopts_set_nodes(struct LinElemExpAopts * aopts,
     aopts->node_alloc = 0;
     if (N > 0){
         aopts->nodes = nodes;
+        aopts->lb = nodes[0];
+        aopts->ub = nodes[N-1];
     }
 }
 
@@ -269,7 +271,10 @@ void lin_elem_exp_aopts_set_nodes_copy(struct LinElemExpAopts * aopts,
     aopts->node_alloc = 1;
     aopts->nodes = calloc_double(N);
     memmove(aopts->nodes,nodes,N*sizeof(double));
-
+    if (N > 0){
+        aopts->lb = nodes[0];
+        aopts->ub = nodes[N-1];
+    }
 }
 
 /********************************************************//**
-- 
2.43.0


From b7dad23141ba3a84d153ea464dd7e1ca0d4f0087 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:04:29 +0000
Subject: [PATCH 87/94] fix: product of a polynomial and a piecewise polynomial
 was labelled a polynomial

---
 c3/lib_funcs/funcs_mixed.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/funcs_mixed.c b/c3/lib_funcs/funcs_mixed.c
index ce8c82a..48a592a 100644
--- a/c3/lib_funcs/funcs_mixed.c
+++ b/c3/lib_funcs/funcs_mixed.c
@@ -230,6 +230,7 @@ generic_function_prod(struct GenericFunction * a, struct GenericFunction * b)
             bp = b->f;
         }
 
+        out->fc = PIECEWISE;
         out->f = piecewise_poly_prod(ap, bp);
     }
     else{
-- 
2.43.0


From 251e54ad34c9530a0b582c5882384f3b4c833d63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:55:55 +0000
Subject: [PATCH 88/94] fix: QR of a quasimatrix with a dependent column
 returned non-orthonormal functions

---
 c3/lib_clinalg/quasimatrix.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/quasimatrix.c b/c3/lib_clinalg/quasimatrix.c
index 640a7e4..03118dd 100644
--- a/c3/lib_clinalg/quasimatrix.c
+++ b/c3/lib_clinalg/quasimatrix.c
@@ -616,8 +616,12 @@ quasimatrix_householder(struct Quasimatrix * A,
         /* printf("norm of e = %G\n",generic_function_norm(e)); */
         v = generic_function_daxpby(rho,e,-1.0,x);
         /* printf("got v\n"); */
-        // skip step improve orthogonality
-        // improve orthogonality
+        // improve orthogonality: without this the roundoff left of a
+        // dependent column becomes a reflector that spoils Q
+        for (jj = 0; jj < ii; jj++){
+            temp1 = generic_function_inner(E->funcs[jj],v);
+            generic_function_axpy(-temp1,E->funcs[jj],v);
+        }
 
         sigma = generic_function_norm(v);
 
-- 
2.43.0


From 480497f5fe88786aab76c750305ff27b661fe048 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 89/94] fix: adaptive discrete cross raised ranks beyond the
 largest possible rank

---
 c3/lib_tensdecomp/cross.c | 49 ++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index 5817809..9df55c4 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -790,12 +790,44 @@ tt_cross(void (*A)(size_t, size_t *, size_t, double *, void *),
     return a;
 }
 
+/* Increase the ranks that were not reduced by rounding, up to the largest rank
+   each one can have. Returns 1 if there was nothing to increase, otherwise 0 */
+static int kick_ranks(struct tt_cross_opts * opts, const struct tt * rounded,
+                      size_t kickrank)
+{
+    int done = 1;
+    size_t ii, cap;
+    size_t * ranks = calloc_size_t(opts->dim+1);
+    memmove(ranks, opts->ranks, (opts->dim+1) * sizeof(size_t));
+    for (ii = 1; ii < opts->dim; ii++){
+        if (opts->ranks[ii] == rounded->ranks[ii]) {
+            ranks[ii] += kickrank;
+        }
+        cap = ranks[ii-1] * opts->nvals[ii-1];
+        if (ranks[ii] > cap){
+            ranks[ii] = cap;
+        }
+    }
+    for (ii = opts->dim-1; ii > 0; ii--){
+        cap = ranks[ii+1] * opts->nvals[ii];
+        if (ranks[ii] > cap){
+            ranks[ii] = cap;
+        }
+        if (ranks[ii] > opts->ranks[ii]){
+            done = 0;
+        }
+        opts->ranks[ii] = ranks[ii];
+    }
+    free(ranks);
+    return done;
+}
+
 struct tt *
 tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *), 
     struct tt_cross_opts * opts, size_t kickrank, size_t maxiter, 
     double epsilon, void * args)
 {
-    int done = 1;
+    int done;
     size_t ii, jj;
     struct tt * a;
     struct tt * rounded;
@@ -805,12 +837,7 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
     a = tt_cross(A,opts,args);
     rounded = tt_round(a, epsilon);
     freett(a);
-    for (ii = 1; ii < rounded->dim; ii++){
-        if (opts->ranks[ii] == rounded->ranks[ii]) {
-            done = 0;
-            opts->ranks[ii] += kickrank;
-        }
-    }
+    done = kick_ranks(opts,rounded,kickrank);
     
     if (maxiter == 0){
         return rounded;
@@ -878,16 +905,10 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
             create_naive_index_set(opts->left[ii], opts->nvals);
         }
         iter += 1;
-        done = 1;
         a = tt_cross(A,opts,args);
         rounded = tt_round(a, epsilon);
         freett(a);
-        for (ii = 1; ii < rounded->dim; ii++){
-            if (opts->ranks[ii] == rounded->ranks[ii]) {
-                done = 0;
-                opts->ranks[ii] += kickrank;
-            }
-        }
+        done = kick_ranks(opts,rounded,kickrank);
         if (iter > maxiter){
             done = 1;
         }
-- 
2.43.0


From 7b15c2294dedf1cc71e396c2fb2eda63d9cd23d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:35:43 +0000
Subject: [PATCH 90/94] fix: rank adaptive regression read past the parameters
 of a rounded function with shortened polynomials

---
 c3/lib_superlearn/regress.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 55f0b8d..8f9ea9f 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -1394,6 +1394,17 @@ ft_regress_run_rankadapt(struct FTRegress * ftr,
             free(ranks); ranks = NULL;
             break;
         }
+        // rounding may shorten univariate functions, the parameterization has all of their parameters
+        for (size_t ii = 0; ii < ftround->dim; ii++){
+            size_t nuni = multi_approx_opts_get_dim_nparams(ftr->ftp->approx_opts,ii);
+            for (size_t col = 0; col < ftr_ranks[ii+1]; col++){
+                for (size_t row = 0; row < ftr_ranks[ii]; row++){
+                    if (qmarray_func_get_nparams(ftround->cores[ii],row,col) < nuni){
+                        qmarray_uni_pad_params(ftround->cores[ii],row,col,nuni);
+                    }
+                }
+            }
+        }
         size_t nparams_rounded = function_train_get_nparams(ftround);
         if (ftr->regopts->verbose > 0){
             printf("Kicked ranks: "); iprint_sz(ftr->dim+1,ranks);
-- 
2.43.0


From dcdf6039d2992274d1533b40dcb3a5149dcda279 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:38:15 +0000
Subject: [PATCH 91/94] fix: Householder QR and LQ of function arrays did not
 orthogonalise against the previous direction

---
 c3/lib_clinalg/qmarray.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index 0daaf81..c9c7ca6 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -2513,9 +2513,9 @@ qmarray_householder(struct Qmarray * A, struct Qmarray * E,
         //print_qmarray(E,0,NULL);
         // improve orthogonality
         //*
-        if (ii > 1){
+        if (ii > 0){
             struct Quasimatrix * tempv = NULL;
-            for (jj = 0; jj < ii-1; jj++){
+            for (jj = 0; jj < ii; jj++){
                 //printf("jj=%zu (max is %zu) \n",jj, ii-1);
                 tempv = quasimatrix_copy(v);
                 struct GenericFunction ** tvfuncs = NULL;
@@ -2787,9 +2787,9 @@ qmarray_householder_rows(struct Qmarray * A, struct Qmarray * E,
         
         // improve orthogonality
         //*
-        if (ii > 1){
+        if (ii > 0){
             struct Quasimatrix * tempv = NULL;
-            for (jj = 0; jj < ii-1; jj++){
+            for (jj = 0; jj < ii; jj++){
                 tempv = quasimatrix_copy(v);
                 struct GenericFunction ** tvfuncs = quasimatrix_get_funcs(tempv);
                 temp1 =  generic_function_inner_sum(A->ncols,1,tvfuncs,E->nrows,
-- 
2.43.0


From f4ab2d8c6839af9d3bf0026a5369679684d69a65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 10:30:47 +0000
Subject: [PATCH 92/94] fix: rq_with_rmult honours the leading dimension of a

---
 c3/lib_linalg/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index f11a777..975564e 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -253,7 +253,7 @@ rq_with_rmult(size_t m, size_t n, double * a, size_t lda, size_t bm,
     if (info) printf("error in QR computation  %d ",info);
      
     cblas_dtrmm(CblasColMajor, CblasRight, CblasUpper, CblasNoTrans, CblasNonUnit, bm, bn, 1.0, 
-           a+(n-m)*m, m, b, ldb);
+           a+(n-m)*lda, lda, b, ldb);
 
     //printf("m=%d n=%d\n ", m, n);
     dorgrq_((int*)&m,(int*)&n, (int*)&tau_size, a, (int*)&lda, tau, work, (int*)&lwork, &info); // third element is min(n,m)
-- 
2.43.0


From e8350c8dd7b451220a752a4449167d87633cce44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 10:30:47 +0000
Subject: [PATCH 93/94] fix: rounding a zero orthogonal expansion reduces it to
 one term

---
 c3/lib_funcs/polynomials.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 5a2a45c..1f91f59 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3552,7 +3552,7 @@ void orth_poly_expansion_round(struct OrthPolyExpansion ** p)
             if (fabs((*p)->coeff[jj]) < thresh){
                 (*p)->coeff[jj] = 0.0;
             }
-            if (fabs((*p)->coeff[jj])/maxcoeff < thresh){
+            if ((maxcoeff == 0.0) || (fabs((*p)->coeff[jj])/maxcoeff < thresh)){
                 (*p)->coeff[jj] = 0.0;
             }
             else{
-- 
2.43.0


From 5e51793618ebc747c5c81a4a12470e24294238b1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 10:30:47 +0000
Subject: [PATCH 94/94] fix: threshold rounding of an orthogonal expansion is
 relative to its norm

---
 c3/lib_funcs/polynomials.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 1f91f59..e7c4d62 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3617,8 +3617,11 @@ void orth_poly_expansion_roundt(struct OrthPolyExpansion ** p, double thresh)
     /*         maxval = fabs((*p)->coeff[jj]); */
     /*     } */
 	/* } */
+    for (jj = 0; jj < (*p)->num_poly; jj++){
+        sum += pow((*p)->coeff[jj],2);
+    }
     size_t keep = (*p)->num_poly;
-    if (sum <= thresh){
+    if (sum <= 0.0){
         keep = 1;
     }
     else{
-- 
2.43.0

