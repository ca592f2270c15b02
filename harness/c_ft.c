/* Function-train level monitors: algebra, rounding, integration, evaluation paths, gradients, constructors. */
#include "model.h"
#include <assert.h>
#define TY_ALL (M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW))
#define TY_NOPW (TY_ALL&~M(T_PW))
#define RT 1e-10
static char*spdesc(struct sp**s,size_t d){static __thread char b[128];b[0]=0;for(size_t i=0;i<d&&i<8;i++){strcat(b,tname[s[i]->t]);if(i+1<d)strcat(b,",");}return b;}
static void sigr(const char*n,const size_t*r,size_t d){char b[80]="";for(size_t i=0;i<=d;i++){char t[2*MD];snprintf(t,16,"%zu.",r[i]);if(strlen(b)<60)strcat(b,t);}vh_sig("%s%s",n,b);}
static size_t rdim(void){return vr_chance(0.15)?vr_int(6,12):vr_chance(0.08)?1:vr_int(2,5);}
/* pointwise comparison of a library FT with a reference value function */
#define NPT 6
static void cmp_pt(const char*key,struct FunctionTrain*ft,const double*x,double want,double mag){
    double got=function_train_eval(ft,x);CLOSE(key,got,want,RT*(mag+fabs(want))+1e-280);
}

CASE(ft_sum,"P03",260,4000,0){
    size_t d=rdim();struct sp**s=spv_rand(d,TY_ALL,vr_chance(0.5));
    struct mft*a=mft_rand(s,d,4),*b=mft_rand(s,d,4);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("a",a->r,d);sigr("b",b->r,d);
    struct FunctionTrain*fa=mft_ft(a),*fb=mft_ft(b);
    double X[NPT][MD];for(int i=0;i<NPT;i++)spv_x(s,d,X[i]);
    double a0=function_train_eval(fa,X[0]),b0=function_train_eval(fb,X[0]);
    struct FunctionTrain*c=function_train_sum(fa,fb);
    ft_wellformed("sum-shape",c,d);
    for(size_t k=1;k<d;k++)EQZ("sum-ranks",c->ranks[k],a->r[k]+b->r[k]);
    for(int i=0;i<NPT;i++){double m=mft_mag(a,X[i])+mft_mag(b,X[i]);
        cmp_pt("sum",c,X[i],mft_eval(a,X[i])+mft_eval(b,X[i]),m);
        cmp_pt("eval",fa,X[i],mft_eval(a,X[i]),mft_mag(a,X[i]));}
    double sc=vr_val();function_train_scale(c,sc);
    for(int i=0;i<NPT;i++){double m=mft_mag(a,X[i])+mft_mag(b,X[i]);cmp_pt("scale",c,X[i],sc*(mft_eval(a,X[i])+mft_eval(b,X[i])),m*fabs(sc));}
    double a1=function_train_eval(fa,X[0]),b1=function_train_eval(fb,X[0]);
    SAMEBYTES("sum-inputs-changed",&a0,&a1,8);SAMEBYTES("sum-inputs-changed",&b0,&b1,8);
    /* self-sum */
    struct FunctionTrain*e=function_train_sum(fa,fa);
    for(int i=0;i<3;i++)cmp_pt("sum-self",e,X[i],2*mft_eval(a,X[i]),2*mft_mag(a,X[i]));
    function_train_free(e);function_train_free(c);
    function_train_free(fa);function_train_free(fb);mft_free(a);mft_free(b);spv_free(s,d);
}
#define TY_PROD (M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_PW))
/* points at which the product of two members of a LIN space must be exact: its nodes */
static void prod_x(struct sp**s,size_t d,double*x){spv_x(s,d,x);for(size_t k=0;k<d;k++)if(s[k]->t==T_LIN)x[k]=s[k]->x[vr_int(0,s[k]->n-1)];}
CASE(ft_product,"P03",220,3000,0){
    size_t d=vr_big(1,4,11);struct sp**s=spv_rand(d,TY_PROD,vr_chance(0.5));
    struct mft*a=mft_rand(s,d,3),*b=mft_rand(s,d,3);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("a",a->r,d);sigr("b",b->r,d);
    struct FunctionTrain*fa=mft_ft(a),*fb=mft_ft(b);
    struct FunctionTrain*c=function_train_product(fa,fb);
    ft_wellformed("prod-shape",c,d);
    for(size_t k=1;k<d;k++)EQZ("prod-ranks",c->ranks[k],a->r[k]*b->r[k]);
    for(int i=0;i<NPT;i++){double x[MD];prod_x(s,d,x);double m=mft_mag(a,x)*mft_mag(b,x);
        cmp_pt("prod",c,x,mft_eval(a,x)*mft_eval(b,x),100*m);
        cmp_pt("prod-input",fa,x,mft_eval(a,x),mft_mag(a,x));cmp_pt("prod-input",fb,x,mft_eval(b,x),mft_mag(b,x));}
    function_train_free(c);function_train_free(fa);function_train_free(fb);mft_free(a);mft_free(b);spv_free(s,d);
}
/* random expression over a pool of FTs, checked pointwise after every step (rounding within the accumulated budget) */
CASE(ft_expr,"P03 P04 P08",90,1200,VH_SLOW){
    size_t d=vr_int(1,4);int wr=vr_chance(0.7);unsigned ty=M(T_LIN)|M(T_CONST)|M(T_LEG)|(wr?0:M(T_CHEB))|M(T_HERM); /* Chebyshev only without rounding */
    struct sp**s=spv_rand(d,ty,vr_chance(0.4));
    for(size_t k=0;k<d;k++)if(s[k]->n>14){sp_free(s[k]);s[k]=sp_make(T_LIN,0,1,6);}
    struct MultiApproxOpts*mo=spv_mopts(s,d);
    enum{P=3};struct mft*m[P];struct FunctionTrain*f[P];
    struct rule*r=rules_make(s,d,16);size_t N=rules_size(r,d);
    double*ref[P];double err[P];
    vh_sig("d%zu %s",d,spdesc(s,d));
    for(int i=0;i<P;i++){m[i]=mft_rand(s,d,2);f[i]=mft_ft(m[i]);ref[i]=mft_full(m[i],r);err[i]=0;}
    int nprod=0;double amp=0;for(int i=0;i<P;i++)amp=dmax(amp,full_norm(ref[i],r,d));
    char ops[32];int no=0;
    for(int st=0;st<6;st++){
        int i=(int)vr_int(0,P-1),j=(int)vr_int(0,P-1),op=(int)vr_int(0,wr?4:3);
        struct FunctionTrain*n=NULL;
        if(N>60000)break;
        if(op==1&&(nprod>=1))op=0;
        if(op==0){ops[no++]='+';n=function_train_sum(f[i],f[j]);for(size_t p=0;p<N;p++)ref[i][p]=ref[i][p]+ref[j][p];err[i]=err[i]+err[j];}
        else if(op==1){ops[no++]='*';nprod++;n=function_train_product(f[i],f[j]);double mi=0,mj=0;for(size_t p=0;p<N;p++){mi=dmax(mi,fabs(ref[i][p]));mj=dmax(mj,fabs(ref[j][p]));}
            if(err[i]>0||err[j]>0){function_train_free(n);ops[no-1]='.';nprod--;continue;}
            for(size_t p=0;p<N;p++)ref[i][p]*=ref[j][p];}
        else if(op==2){ops[no++]='s';double sc=vr_norm();n=function_train_copy(f[i]);function_train_scale(n,sc);for(size_t p=0;p<N;p++)ref[i][p]*=sc;err[i]*=fabs(sc);}
        else if(op==3){ops[no++]='a';if(i==j)continue;double al=vr_norm();n=function_train_copy(f[i]);c3axpy(al,f[j],&n,0.0,mo);for(size_t p=0;p<N;p++)ref[i][p]+=al*ref[j][p];err[i]+=fabs(al)*err[j];}
        else {size_t ok=1;for(size_t k=1;k<d;k++)if(f[i]->ranks[k]>12)ok=0;
            for(size_t k=1;k<d;k++){size_t nb=s[k]->maxn;if(f[i]->ranks[k]>nb*f[i]->ranks[k+1]||f[i]->ranks[k]>s[k-1]->maxn*f[i]->ranks[k-1])ok=0;}
            if(!ok||full_norm(ref[i],r,d)<1e-3)continue;
            ops[no++]='r';double eps=pow(10,-vr_unif(3,24));double nn=full_norm(ref[i],r,d);
            n=function_train_round(f[i],eps,mo);
            for(size_t k=1;k<d;k++)TRUE_("expr-round-rank",n->ranks[k]<=f[i]->ranks[k]);
            err[i]+=sqrt(sqrt((double)d-1)*eps*(nn+err[i]))*1.01;}
        ops[no]=0;
        function_train_free(f[i]);f[i]=n;
        ft_wellformed("expr-shape",n,d);
        double*t=ft_full(n,r);double dn=full_diffnorm(t,ref[i],r,d),nn=full_norm(ref[i],r,d);
        if(!TRUE_("expr-error",dn<=err[i]+1e-9*(nn+amp)))vh_fail("expr-detail","err %.3g budget %.3g norm %.3g ops %s",dn,err[i],nn,ops);
        vh_obs(dn>1e-6*nn?1:0);
        free(t);
    }
    vh_sig("%s",no?ops:"-");
    for(int i=0;i<P;i++){mft_free(m[i]);function_train_free(f[i]);free(ref[i]);}
    rules_free(r,d);multi_approx_opts_free(mo);spv_free(s,d);
}
/* vector (BLAS-like) operations */
static struct FT1DArray*mkarr(struct sp**s,size_t d,size_t n,struct mft***ms){struct FT1DArray*a=ft1d_array_alloc(n);*ms=malloc(n*sizeof(void*));for(size_t i=0;i<n;i++){(*ms)[i]=mft_rand(s,d,2);a->ft[i]=mft_ft((*ms)[i]);}return a;}
static void frarr(struct mft**ms,size_t n){for(size_t i=0;i<n;i++)mft_free(ms[i]);free(ms);}
CASE(ft_vecops,"P03 P10",160,2000,0){
    size_t d=vr_big(2,3,9);struct sp**s=spv_rand(d,M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB),vr_chance(0.5));
    for(size_t k=0;k<d;k++)if(s[k]->n>14){sp_free(s[k]);s[k]=sp_make(T_LIN,-1,1,5);}
    struct MultiApproxOpts*mo=spv_mopts(s,d);
    size_t n=vr_big(1,3,9),incx=vr_int(1,2),incy=vr_int(1,2);
    struct mft**mx,**my,**mz;
    size_t nx=(n-1)*incx+1+vr_int(0,2),ny=(n-1)*incy+1+vr_int(0,2);
    struct FT1DArray*X=mkarr(s,d,nx,&mx),*Y=mkarr(s,d,ny,&my),*Z=mkarr(s,d,1,&mz);
    double al=vr_chance(0.5)?vr_val():vr_coef(),be=vr_chance(0.5)?vr_val():vr_coef();
    int op=(int)vr_int(0,6);double eps=0;double xu[MD];prod_x(s,d,xu);double*vx=ft1d_array_eval(X,xu),*vy=ft1d_array_eval(Y,xu);
    vh_sig("op%d d%zu n%zu ix%zu iy%zu %s",op,d,n,incx,incy,spdesc(s,d));
    double x[MD];
    switch(op){
    case 0: { c3vaxpy(n,al,X,incx,&Y,incy,eps,mo);
        for(int t=0;t<4;t++){prod_x(s,d,x);double*ev=ft1d_array_eval(Y,x);double*e2=malloc(8*Y->size);ft1d_array_eval2(Y,x,e2);
            for(size_t i=0;i<Y->size;i++){int hit=(i%incy==0)&&i/incy<n;size_t k=i/incy;double w=mft_eval(my[i],x)+(hit?al*mft_eval(mx[k*incx],x):0);double mg=mft_mag(my[i],x)+(hit?fabs(al)*mft_mag(mx[k*incx],x):0);
                CLOSE("vaxpy",ev[i],w,RT*mg+1e-290);CLOSE("vaxpy",e2[i],w,RT*mg+1e-290);}
            free(ev);free(e2);}
        break;}
    case 1: { double*y=vh_dvec(n*incy);c3vaxpy_arr(n,al,X,incx,y,incy,be,&Z->ft[0],eps,mo);
        for(int t=0;t<4;t++){prod_x(s,d,x);double w=be*mft_eval(mz[0],x),mg=fabs(be)*mft_mag(mz[0],x);for(size_t i=0;i<n;i++){w+=al*y[i*incy]*mft_eval(mx[i*incx],x);mg+=fabs(al*y[i*incy])*mft_mag(mx[i*incx],x);}
            cmp_pt("vaxpy_arr",Z->ft[0],x,w,mg);}
        free(y);break;}
    case 2: { c3vprodsum(n,al,X,incx,Y,incy,be,&Z->ft[0],eps,mo);
        for(int t=0;t<4;t++){prod_x(s,d,x);double w=be*mft_eval(mz[0],x),mg=fabs(be)*mft_mag(mz[0],x);for(size_t i=0;i<n;i++){w+=al*mft_eval(mx[i*incx],x)*mft_eval(my[i*incy],x);mg+=fabs(al)*mft_mag(mx[i*incx],x)*mft_mag(my[i*incy],x);}
            cmp_pt("vprodsum",Z->ft[0],x,w,100*mg);}
        break;}
    case 3: { size_t k=vr_int(1,X->size);ft1d_array_scale(X,n,incx,al);
        for(int t=0;t<4;t++){prod_x(s,d,x);for(size_t i=0;i<X->size;i++){int hit=i%incx==0&&i/incx<n;double f=hit?al:1;cmp_pt("arrscale",X->ft[i],x,f*mft_eval(mx[i],x),fabs(f)*mft_mag(mx[i],x));}}
        (void)k;break;}
    case 4: { c3gemv(al,n,X,incx,Y->ft[0],be,Z->ft[0],eps,mo);
        for(int t=0;t<4;t++){prod_x(s,d,x);double w=be*mft_eval(mz[0],x),mg=fabs(be)*mft_mag(mz[0],x);for(size_t i=0;i<n;i++){w+=al*mft_eval(mx[i*incx],x)*mft_eval(my[0],x);mg+=fabs(al)*mft_mag(mx[i*incx],x)*mft_mag(my[0],x);}
            cmp_pt("gemv",Z->ft[0],x,w,100*mg);}
        break;}
    case 5: { /* y_i <- alpha sum_j A_ij b_j + beta y_i */
        size_t m=n;size_t nb=n;int tr=(int)vr_int(0,1);size_t lda=n+vr_int(0,1);double*A=vh_dvec(lda*n);
        c3vgemv_arr(tr,m,nb,al,A,lda,X,incx,be,&Y,incy,eps,mo);
        for(int t=0;t<4;t++){prod_x(s,d,x);for(size_t i=0;i<m;i++){double w=be*mft_eval(my[i*incy],x),mg=fabs(be)*mft_mag(my[i*incy],x);
            for(size_t j=0;j<nb;j++){double a=tr?A[i*lda+j]:A[j*lda+i];w+=al*a*mft_eval(mx[j*incx],x);mg+=fabs(al*a)*mft_mag(mx[j*incx],x);}
            cmp_pt("vgemv_arr",Y->ft[i*incy],x,w,mg);}}
        free(A);break;}
    case 6: { size_t m=vr_big(1,2,9);struct mft**mA;struct FT1DArray*A=mkarr(s,d,m*n,&mA);struct mft**mw;struct FT1DArray*W=mkarr(s,d,m*incy,&mw);
        c3vgemv(m,n,al,A,m,X,incx,be,&W,incy,eps,mo);
        for(int t=0;t<4;t++){prod_x(s,d,x);for(size_t i=0;i<m;i++){double w=be*mft_eval(mw[i*incy],x),mg=fabs(be)*mft_mag(mw[i*incy],x);
            for(size_t j=0;j<n;j++){w+=al*mft_eval(mA[i+j*m],x)*mft_eval(mx[j*incx],x);mg+=fabs(al)*mft_mag(mA[i+j*m],x)*mft_mag(mx[j*incx],x);}
            cmp_pt("vgemv",W->ft[i*incy],x,w,100*mg);}}
        ft1d_array_free(A);frarr(mA,m*n);ft1d_array_free(W);frarr(mw,m*incy);break;}
    }
    if(op!=3)for(size_t i=0;i<X->size;i++)CLOSE("operand-changed",function_train_eval(X->ft[i],xu),vx[i],0);
    if(op==2||op==4)for(size_t i=0;i<Y->size;i++)CLOSE("operand-changed",function_train_eval(Y->ft[i],xu),vy[i],0);
    free(vx);free(vy);
    frarr(mx,nx);frarr(my,ny);frarr(mz,1);
    ft1d_array_free(X);ft1d_array_free(Y);ft1d_array_free(Z);
    multi_approx_opts_free(mo);spv_free(s,d);
}
/* the same operations with rounding: compared with the exact result computed without rounding */
CASE(ft_vecround,"P03 P04",40,700,VH_SLOW){
    size_t d=vr_big(2,3,4);struct sp**s=malloc(d*sizeof*s);for(size_t k=0;k<d;k++)s[k]=sp_make((int[]){T_LIN,T_CONST,T_LEG}[vr_int(0,2)],-1,vr_unif(0.5,1.5),vr_int(5,8));
    struct MultiApproxOpts*mo=spv_mopts(s,d);size_t n=vr_big(1,3,9),incx=vr_int(1,2),incy=vr_int(1,2),nx=(n-1)*incx+1+vr_int(0,1),ny=(n-1)*incy+1+vr_int(0,1);
    struct mft**mx,**my,**mz;struct FT1DArray*X=mkarr(s,d,nx,&mx),*Y=mkarr(s,d,ny,&my),*Z=mkarr(s,d,1,&mz);
    if(vr_chance(0.6))for(size_t i=0;i<nx;i++){struct mft*q=mft_rand(s,d,2);struct FunctionTrain*g=mft_ft(q);function_train_scale(g,pow(10,-(double)vr_int(2,6)));struct FunctionTrain*h=function_train_sum(X->ft[i],g);function_train_free(X->ft[i]);X->ft[i]=h;function_train_free(g);mft_free(q);}
    double al=vr_coef(),be=vr_coef(),eps=pow(10,-(double)vr_int(8,14)),xu[MD];int op=(int)vr_int(0,5);prod_x(s,d,xu);
    double*vx=ft1d_array_eval(X,xu),*vy=ft1d_array_eval(Y,xu),*y=vh_dvec(n*incy);size_t lda=n+vr_int(0,1);double*A=vh_dvec(lda*n);int tr=vr_chance(0.5);
    vh_sig("op%d d%zu n%zu ix%zu iy%zu e%d",op,d,n,incx,incy,(int)log10(eps));
    struct FT1DArray*R[2];for(int v=0;v<2;v++){double e=v?eps:0;struct FT1DArray*W=op==0||op==4?ft1d_array_copy(Y):ft1d_array_copy(Z);
        switch(op){case 0:c3vaxpy(n,al,X,incx,&W,incy,e,mo);break;case 1:c3vaxpy_arr(n,al,X,incx,y,incy,be,&W->ft[0],e,mo);break;case 2:c3vprodsum(n,al,X,incx,Y,incy,be,&W->ft[0],e,mo);break;
        case 3:c3gemv(al,n,X,incx,Y->ft[0],be,W->ft[0],e,mo);break;case 4:c3vgemv_arr(tr,n,n,al,A,lda,X,incx,be,&W,incy,e,mo);break;default:c3axpy(al,X->ft[0],&W->ft[0],e,mo);}
        R[v]=W;}
    /* every rounding contributes at most (d-1)^(1/4) sqrt(eps * norm of what is rounded) */
    double N=0;for(size_t i=0;i<nx;i++)N+=function_train_norm2(X->ft[i]);double NY=0;for(size_t i=0;i<ny;i++)NY+=function_train_norm2(Y->ft[i]);
    double amp=0;for(size_t i=0;i<lda*n;i++)amp=dmax(amp,fabs(A[i]));for(size_t i=0;i<n*incy;i++)amp=dmax(amp,fabs(y[i]));
    for(size_t i=0;i<R[0]->size;i++){double nz=function_train_norm2(R[0]->ft[i]),e=function_train_norm2diff(R[0]->ft[i],R[1]->ft[i]);
        double tot=nz+(1+fabs(be))*(NY+function_train_norm2(Z->ft[0]))+(1+fabs(al))*(1+amp)*N*(op==2||op==3?30*(1+NY):1),b=(2.0*(double)n+2)*1.5*sqrt(eps)*sqrt(tot)*(1+fabs(al))+1e-6*tot;
        if(!(e<=b))vh_fail("rounded-op","operation %d with rounding %g differs from the exact result by %g (allowed %g)",op,eps,e,b);
        ft_wellformed("rounded-wellformed",R[1]->ft[i],d);}
    for(size_t i=0;i<nx;i++)CLOSE("operand-changed",function_train_eval(X->ft[i],xu),vx[i],0);for(size_t i=0;i<ny;i++)CLOSE("operand-changed",function_train_eval(Y->ft[i],xu),vy[i],0);
    free(vx);free(vy);free(y);free(A);frarr(mx,nx);frarr(my,ny);frarr(mz,1);ft1d_array_free(X);ft1d_array_free(Y);ft1d_array_free(Z);ft1d_array_free(R[0]);ft1d_array_free(R[1]);multi_approx_opts_free(mo);spv_free(s,d);
}
/* ---------------------------------------------------------------- rounding */
static int round_ok(const size_t*r,struct sp**s,size_t d){ /* shapes a QR-based rounding can represent */
    for(size_t k=1;k<d;k++){if(r[k]>s[k]->maxn*r[k+1])return 0;if(r[k]>s[k-1]->maxn*r[k-1])return 0;}
    return 1;
}
CASE(ft_round,"P04",220,3000,0){
    size_t d=vr_int(2,4);struct sp**s;struct mft*a;
    do{ s=spv_rand(d,M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_HERM),vr_chance(0.4));
        for(size_t k=0;k<d;k++)if(s[k]->n>14){sp_free(s[k]);s[k]=sp_make(T_LIN,0,2,7);}
        a=mft_rand(s,d,4);
        if(round_ok(a->r,s,d))break;
        mft_free(a);spv_free(s,d);}while(1);
    struct MultiApproxOpts*mo=spv_mopts(s,d);
    struct rule*r=rules_make(s,d,2);
    struct FunctionTrain*f=mft_ft(a);
    /* redundancy: f + g with g spanning part of f, or a copy */
    double*ref=mft_full(a,r);size_t N=rules_size(r,d);
    int red=(int)vr_int(0,2);
    if(red==1){double c=vr_norm();struct FunctionTrain*g=function_train_copy(f);function_train_scale(g,c);struct FunctionTrain*h=function_train_sum(f,g);
        if(round_ok(h->ranks,s,d)){function_train_free(f);f=h;for(size_t p=0;p<N;p++)ref[p]*=1+c;}else function_train_free(h);function_train_free(g);}
    if(red==2){ /* add a small perturbation */
        struct mft*b=mft_rand(s,d,2);double*rb=mft_full(b,r);double sc=pow(10,-vr_unif(1,8));
        struct FunctionTrain*g=mft_ft(b);function_train_scale(g,sc);struct FunctionTrain*h=function_train_sum(f,g);
        if(round_ok(h->ranks,s,d)){function_train_free(f);f=h;for(size_t p=0;p<N;p++)ref[p]+=sc*rb[p];}else function_train_free(h);function_train_free(g);free(rb);mft_free(b);}
    double eps=vr_chance(0.1)?0.5:vr_chance(0.3)?1e-27:pow(10,-vr_unif(1,22));double bud=0;
    vh_sig("d%zu %s red%d eps%d",d,spdesc(s,d),red,(int)floor(log10(eps)));sigr("r",f->ranks,d);
    /* Chebyshev inner products are formed from rounded products: functions of norm below ~1e-7 count as zero */
    int has_cheb=0;for(size_t k=0;k<d;k++)has_cheb|=s[k]->t==T_CHEB;
    double nn=full_norm(ref,r,d);
    bud=sqrt(sqrt((double)d-1)*eps*nn)*(1+1e-6)+1e-11*nn+1e-14; if(has_cheb)bud+=1e-6*(nn+1); /* squared singular values up to eps*norm/sqrt(d-1) are dropped at each of the d-1 cuts */
    double*before=ft_full(f,r);
    struct FunctionTrain*g=function_train_round(f,eps,mo);
    double*after=ft_full(f,r);SAMEBYTES("round-input-changed",before,after,8*N);
    ft_wellformed("round-shape",g,d);
    double*t=ft_full(g,r);double dn=full_diffnorm(t,ref,r,d);
    if(!(dn<=bud)&&nn>=1e-3)vh_fail("round-error","error %.3g for eps %.3g norm %.3g budget %.3g [%s]",dn,eps,nn,bud,spdesc(s,d));
    TRUE_("round-checked",1);
    for(size_t k=1;k<d;k++)TRUE_("round-ranks",g->ranks[k]<=f->ranks[k]&&g->ranks[k]>=1);
    if(red==1&&f->ranks[1]>a->r[1]&&eps*nn>1e-22*nn*nn)for(size_t k=1;k<d;k++){TRUE_("round-redundant",g->ranks[k]<=a->r[k]);}
    /* ranks: never more than the smallest rank whose discarded energy is below the threshold */
    double etail=0;size_t mr=vr_int(1,4);double rt=has_cheb?1e-6*(1+nn)*(1+nn):1e-13*nn*nn+1e-28;double delta=eps*nn/sqrt((double)d-1);
    for(size_t k=1;k<d;k++){double*tl;size_t ns=full_tails(ref,r,d,k,&tl);size_t need=1;while(need<ns&&tl[need]+rt>=delta)need++;
        if(g->ranks[k]>need&&need<ns)vh_fail("round-rank-excess","rank %zu kept at cut %zu, %zu suffices (tail %.3g delta %.3g) [%s]",g->ranks[k],k,need,tl[need],delta,spdesc(s,d));
        etail+=dmax(tl[mr<ns?mr:ns],delta);free(tl);}
    double x[MD];for(int i=0;i<3;i++){spv_x(s,d,x);double mg;double w=ft_eval_ref(g,x,&mg);cmp_pt("round-eval",g,x,w,mg);}
    /* rounding again changes nothing beyond the tolerance and never raises the ranks */
    struct FunctionTrain*g2=function_train_round(g,eps,mo);
    for(size_t k=1;k<d;k++)TRUE_("round2-ranks",g2->ranks[k]<=g->ranks[k]);
    struct FunctionTrain*g3=function_train_round_maxrank_all(f,eps,mo,mr);
    ft_wellformed("roundmax-shape",g3,d);
    int fits=1;for(size_t k=1;k<d;k++){TRUE_("roundmax-ranks",g3->ranks[k]<=mr&&g3->ranks[k]<=f->ranks[k]);if(g->ranks[k]>mr)fits=0;}
    double*t3=ft_full(g3,r);double d3=full_diffnorm(t3,ref,r,d);
    if(!(d3*d3<=etail*(1+1e-6)+rt)&&nn>=1e-3)vh_fail("roundmax-optimal","squared error %.3g, discarded energy %.3g, maxrank %zu [%s]",d3*d3,etail,mr,spdesc(s,d));
    if(fits){if(!(d3<=bud)&&nn>=1e-3)vh_fail("roundmax-error","error %.3g eps %.3g budget %.3g",d3,eps,bud);}
    else { vh_hit("round:maxrank-binding");
        /* truncated SVD is an orthogonal projection: never larger than the input, error at most the norm; d==2: best rank-mr */
        double n3=full_norm(t3,r,d);TRUE_("roundmax-projection",n3<=nn*(1+1e-9)+1e-14+(has_cheb?1e-6*(1+nn):0)&&d3<=nn*(1+1e-9)+1e-14+(has_cheb?1e-6*(1+nn):0));
        CLOSE("roundmax-pythagoras",d3*d3+n3*n3,nn*nn,(has_cheb?1e-6*(1+nn)*nn:1e-9*nn*nn)+1e-25);
    }
    int bind=0;for(size_t k=1;k<d;k++)if(g->ranks[k]<f->ranks[k])bind=1;if(bind)vh_hit("round:rank-reduced");
    free(t);free(t3);free(ref);free(before);free(after);
    function_train_free(f);function_train_free(g);function_train_free(g2);function_train_free(g3);
    rules_free(r,d);mft_free(a);multi_approx_opts_free(mo);spv_free(s,d);
}
/* Chebyshev: inner products go through rounded products (absolute cut-off ~1e-7), so only well-scaled, non-redundant trains and a loose bound */
CASE(ft_round_cheb,"P04",60,600,0){
    size_t d=2;struct sp*s[2];for(size_t k=0;k<d;k++)s[k]=vr_chance(0.7)?sp_make(T_CHEB,-1,vr_chance(0.5)?1:3,vr_int(2,5)):sp_make(T_LEG,0,1,vr_int(2,5));
    struct MultiApproxOpts*mo=spv_mopts(s,d);struct rule*r=rules_make(s,d,2);
    /* rank 2: (T0 + b T1)(y0) + c*T1*(y1) */
    double c=vr_unif(0.2,2),b=vr_unif(-0.3,0.3);
    struct mft*a=mft_rand(s,d,2);
    int two=a->r[1]==2;
    for(size_t k=0;k<d;k++)for(size_t j=0;j<a->r[k]*a->r[k+1];j++){struct m1*q=&a->f[k][j];for(size_t i=0;i<q->n;i++)q->c[i]=0;if(q->n<2){two=0;q->c[0]=1;continue;}q->c[j%2]=k?c:1;if(j%2==0)q->c[1]=b;}
    struct FunctionTrain*f=mft_ft(a),*g=function_train_round(f,1e-12,mo);
    double*ref=mft_full(a,r),*t=ft_full(g,r);double nn=full_norm(ref,r,d),dn=full_diffnorm(t,ref,r,d);
    vh_sig("%s r%zu",spdesc(s,d),a->r[1]);
    if(!(dn<=1e-5*nn))vh_fail("round-error","error %.3g norm %.3g [%s]",dn,nn,spdesc(s,d));
    TRUE_("round-ranks",g->ranks[1]<=a->r[1]);
    if(two)EQZ("round-keeps",g->ranks[1],2);
    free(ref);free(t);function_train_free(f);function_train_free(g);mft_free(a);rules_free(r,d);multi_approx_opts_free(mo);sp_free(s[0]);sp_free(s[1]);
}
/* the documentation calls the tolerance relative; fixed input, see known_findings.jsonl */
CASE(ft_round_relative,"P04",1,1,0){
    struct sp*sv[2];for(int k=0;k<2;k++)sv[k]=sp_make(T_LIN,0,1,2);
    struct MultiApproxOpts*mo=spv_mopts(sv,2);
    struct FunctionTrain*one=function_train_constant(1.0,mo);
    double s1[2]={1e-3,0.0},o1[2]={0,0};
    struct FunctionTrain*lin=function_train_linear(s1,1,o1,1,mo);
    double s2[2]={0,1.0};struct FunctionTrain*lin2=function_train_linear(s2,1,o1,1,mo);
    struct FunctionTrain*pr=function_train_product(lin,lin2),*f=function_train_sum(one,pr);
    struct rule*r=rules_make(sv,2,2);double*ref=ft_full(f,r);double nn=full_norm(ref,r,2);
    double eps=1e-5;struct FunctionTrain*g=function_train_round(f,eps,mo);
    double*t=ft_full(g,r);double dn=full_diffnorm(t,ref,r,2);
    vh_sig("fixed input");
    TRUE_("relative-ran",nn>0.5&&nn<2);
    if(!(dn<=eps*nn*(1+1e-6)))vh_fail("relative-bound","relative error %.3g for tolerance %.3g",dn/nn,eps);
    free(ref);free(t);function_train_free(one);function_train_free(lin);function_train_free(lin2);function_train_free(pr);function_train_free(f);function_train_free(g);
    rules_free(r,2);multi_approx_opts_free(mo);sp_free(sv[0]);sp_free(sv[1]);
}
/* ---------------------------------------------------------------- integration and inner products */
static double mft_contract(const struct mft*f,double(*g)(const struct m1*),double*mag){
    double v[MD]={1},w[MD],va[MD]={1},wa[MD];
    for(size_t k=0;k<f->d;k++){for(size_t j=0;j<f->r[k+1];j++){w[j]=wa[j]=0;for(size_t i=0;i<f->r[k];i++){double e=g(&f->f[k][j*f->r[k]+i]);w[j]+=v[i]*e;wa[j]+=va[i]*fabs(e);}}memcpy(v,w,sizeof v);memcpy(va,wa,sizeof va);}
    if(mag)*mag=va[0];return v[0];
}
static double selfnorm(const struct m1*m){return sqrt(fabs(m1_inner(m,m)));}
static double mft_inner(const struct mft*a,const struct mft*b,double*mag){
    double v[MD*MD]={0},w[MD*MD];v[0]=1;double va[MD*MD]={0},wa[MD*MD];va[0]=1;
    for(size_t k=0;k<a->d;k++){size_t a0=a->r[k],a1=a->r[k+1],b0=b->r[k],b1=b->r[k+1];
        for(size_t i1=0;i1<a1;i1++)for(size_t j1=0;j1<b1;j1++){double s=0,sa=0;
            for(size_t i=0;i<a0;i++)for(size_t j=0;j<b0;j++){const struct m1*p=&a->f[k][i1*a0+i],*q=&b->f[k][j1*b0+j];double e=m1_inner(p,q);s+=v[i*MD+j]*e;sa+=va[i*MD+j]*selfnorm(p)*selfnorm(q);}
            w[i1*MD+j1]=s;wa[i1*MD+j1]=sa;}
        memcpy(v,w,sizeof v);memcpy(va,wa,sizeof va);}
    if(mag)*mag=va[0];return v[0];
}
CASE(ft_integrate,"P05",200,2500,0){
    size_t d=rdim();struct sp**s=spv_rand(d,TY_ALL,vr_chance(0.5));
    struct mft*a=mft_rand(s,d,4);struct FunctionTrain*f=mft_ft(a);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("r",a->r,d);
    double mg,w=mft_contract(a,m1_integral,&mg);
    /* scale: norms of the pieces, since the integral of one piece may vanish by symmetry */
    double sc=1;for(size_t k=0;k<d;k++){double mx=0;for(size_t j=0;j<a->r[k]*a->r[k+1];j++)mx=dmax(mx,selfnorm(&a->f[k][j]));sc*=(mx+1e-30)*sqrt(s[k]->ub-s[k]->lb+1)*(double)a->r[k];}
    double got=function_train_integrate(f);
    CLOSE("integrate",got,w,1e-9*(mg+sc)+1e-13);
    double got2=function_train_integrate(f);SAMEBYTES("integrate-repeat",&got,&got2,8);
    /* linearity through the library's own algebra */
    struct mft*b=mft_rand(s,d,3);struct FunctionTrain*g=mft_ft(b),*h=function_train_sum(f,g);
    double mgb,wb=mft_contract(b,m1_integral,&mgb);
    double scb=1;for(size_t k=0;k<d;k++){double mx=0;for(size_t j=0;j<b->r[k]*b->r[k+1];j++)mx=dmax(mx,selfnorm(&b->f[k][j]));scb*=(mx+1e-30)*sqrt(s[k]->ub-s[k]->lb+1)*(double)b->r[k];}
    CLOSE("integrate-sum",function_train_integrate(h),w+wb,1e-9*(mg+mgb+sc+scb)+1e-13);
    function_train_free(f);function_train_free(g);function_train_free(h);mft_free(a);mft_free(b);spv_free(s,d);
}
static double wint(const struct m1*m){const struct sp*s=m->sp;if(s->t==T_HERM)return m1_integral(m);return m1_integral(m)/(s->ub-s->lb);}
CASE(ft_integrate_weighted,"P05",120,1500,0){
    size_t d=vr_big(2,5,12);struct sp**s=spv_rand(d,M(T_LEG)|M(T_HERM)|M(T_FOUR),vr_chance(0.5));
    struct mft*a=mft_rand(s,d,3);struct FunctionTrain*f=mft_ft(a);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("r",a->r,d);
    double mg,w=mft_contract(a,wint,&mg);double sc=1;for(size_t k=0;k<d;k++)sc*=3.*(double)a->r[k];
    CLOSE("integrate-weighted",function_train_integrate_weighted(f),w,1e-9*(mg+sc));
    /* contraction over a subset leaves the partially integrated function */
    size_t nc=vr_int(1,d-1),dims[MD],keep[MD],nk=0;int c[MD]={0};
    while(1){size_t k=0;for(size_t i=0;i<d;i++)k+=(size_t)c[i];if(k==nc)break;c[vr_int(0,d-1)]=1;}
    size_t q=0;for(size_t i=0;i<d;i++){if(c[i])dims[q++]=i;else keep[nk++]=i;}
    char cs[2*MD]="";for(size_t i=0;i<d;i++)cs[i]=c[i]?'1':'0';cs[d]=0;vh_sig("c%s",cs);
    struct FunctionTrain*g=function_train_integrate_weighted_subset(f,nc,dims);
    ft_wellformed("subset-shape",g,nk);
    for(int t=0;t<4;t++){
        double x[MD],y[MD];spv_x(s,d,x);for(size_t i=0;i<nk;i++)y[i]=x[keep[i]];
        double v[MD]={1},ww[MD],va[MD]={1},wa[MD];
        for(size_t k=0;k<d;k++){for(size_t j=0;j<a->r[k+1];j++){ww[j]=wa[j]=0;for(size_t i=0;i<a->r[k];i++){const struct m1*m=&a->f[k][j*a->r[k]+i];double e=c[k]?wint(m):m1_eval(m,x[k]);double ea=c[k]?2*selfnorm(m)/sqrt(s[k]->t==T_HERM?1:s[k]->ub-s[k]->lb):m1_mag(m,x[k]);ww[j]+=v[i]*e;wa[j]+=va[i]*ea;}}memcpy(v,ww,sizeof v);memcpy(va,wa,sizeof va);}
        CLOSE("subset",function_train_eval(g,y),v[0],1e-9*va[0]+1e-200);
    }
    function_train_free(g);function_train_free(f);mft_free(a);spv_free(s,d);
}
CASE(ft_inner,"P05",160,2500,0){
    size_t d=vr_big(1,5,12);struct sp**s=spv_rand(d,TY_ALL&~M(T_FOUR),vr_chance(0.5));
    struct mft*a=mft_rand(s,d,3),*b=mft_rand(s,d,3);struct FunctionTrain*f=mft_ft(a),*g=mft_ft(b);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("a",a->r,d);sigr("b",b->r,d);
    double mg,w=mft_inner(a,b,&mg);/* Chebyshev inner products go through a product that flushes coefficients below an absolute threshold (~1.5e-8) */
    double ch=0;for(size_t k=0;k<d;k++)if(s[k]->t==T_CHEB)ch=1e-6;
    double tol=1e-10*mg+1e-290+ch*(1+mg);
    CLOSE("inner",function_train_inner(f,g),w,tol);
    CLOSE("inner-sym",function_train_inner(g,f),w,tol);
    CLOSE("dot",c3dot(f,g),w,tol);
    CLOSE("inner2",function_train_inner2(f,g),w,tol);
    CLOSE("inner-rl",function_train_inner_rl(f,g),w,tol);
    double m2,n2=mft_inner(a,a,&m2);
    double nn=function_train_norm2(f);
    CLOSE("norm2",nn*nn,fabs(n2),1e-10*m2+1e-290+ch*(1+m2));
    double mb,nb=mft_inner(b,b,&mb);
    /* ||f-g||^2 */
    double dd=function_train_norm2diff(f,g);
    CLOSE("norm2diff",dd*dd,fabs(n2+nb-2*w),1e-9*(m2+mb+mg)+1e-290+ch*(1+m2+mb+mg));
    if(nb>1e-3*mb&&nb>1e-14&&(!ch||nb>0.1)&&(n2+nb-2*w)>1e-3*(m2+mb+mg)){double rd=function_train_relnorm2diff(f,g);CLOSE("relnorm2diff",rd*rd,(n2+nb-2*w)/nb,1e-5*(n2+nb-2*w)/nb+20*ch*(1+m2+mb+mg)/nb);}
    CLOSE("selfdiff",function_train_norm2diff(f,f),0,1e-6*sqrt(m2)+1e-140+sqrt(ch*(1+m2)));
    function_train_free(f);function_train_free(g);mft_free(a);mft_free(b);spv_free(s,d);
}
/* ---------------------------------------------------------------- evaluation paths */
CASE(ft_evalpaths,"P25",220,3000,0){
    size_t d=rdim();struct sp**s=spv_rand(d,TY_ALL,vr_chance(0.5));
    struct mft*a=mft_rand(s,d,vr_chance(0.1)?6:4);struct FunctionTrain*f=mft_ft(a);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("r",a->r,d);
    size_t N=vr_chance(0.1)?vr_int(60,140):vr_int(1,9);double*X=malloc(N*d*8),*E=malloc(N*8);
    for(size_t i=0;i<N;i++)spv_x(s,d,X+i*d);
    int order=(int)vr_int(0,2);
    if(order==0)function_train_evals(f,N,X,E);
    for(size_t i=0;i<N;i++)cmp_pt("eval",f,X+i*d,mft_eval(a,X+i*d),mft_mag(a,X+i*d));
    if(order!=0)function_train_evals(f,N,X,E);
    for(size_t i=0;i<N;i++)CLOSE("evals",E[i],mft_eval(a,X+i*d),RT*mft_mag(a,X+i*d)+1e-290);
    /* smaller then larger batches through the same object: scratch space must grow */
    if(order==2){size_t N2=N*3;double*X2=malloc(N2*d*8),*E2=malloc(N2*8);for(size_t i=0;i<N2;i++)spv_x(s,d,X2+i*d);function_train_evals(f,N2,X2,E2);
        for(size_t i=0;i<N2;i++)CLOSE("evals-grow",E2[i],mft_eval(a,X2+i*d),RT*mft_mag(a,X2+i*d)+1e-290);free(X2);free(E2);}
    /* center and one-at-a-time perturbations */
    double p[2*MD],vals[2*MD];for(size_t k=0;k<d;k++){p[2*k]=sp_x(s[k]);p[2*k+1]=sp_x(s[k]);}
    for(int rep=0;rep<2;rep++){
        double*x=X+(rep&&N>1?d:0);
        double c=function_train_eval_co_perturb(f,x,p,vals);
        CLOSE("co-perturb-center",c,mft_eval(a,x),RT*mft_mag(a,x)+1e-290);
        for(size_t k=0;k<d;k++)for(int e=0;e<2;e++){double y[MD];memcpy(y,x,d*8);y[k]=p[2*k+e];CLOSE("co-perturb",vals[2*k+e],mft_eval(a,y),RT*mft_mag(a,y)+1e-290);}
    }
    {size_t c=vr_int(0,d-1),od=0;double o[2*MD];double*x=X;function_train_eval_up_to_core(f,c,x,o,&od);
     EQZ("upto-dim",od,a->r[c+1]);double v[MD]={1},w[MD],va[MD]={1},wa[MD];
     for(size_t k=0;k<=c;k++){for(size_t j=0;j<a->r[k+1];j++){w[j]=wa[j]=0;for(size_t i=0;i<a->r[k];i++){w[j]+=v[i]*m1_eval(&a->f[k][j*a->r[k]+i],x[k]);wa[j]+=va[i]*m1_mag(&a->f[k][j*a->r[k]+i],x[k]);}}memcpy(v,w,sizeof v);memcpy(va,wa,sizeof va);}
     for(size_t j=0;j<od&&j<MD;j++)CLOSE("upto",o[j],v[j],RT*va[j]+1e-290);}
    /* accessors */
    EQZ("dim",function_train_get_dim(f),d);size_t mr=0;double av=0;for(size_t k=0;k<=d;k++){EQZ("rank",function_train_get_rank(f,k),a->r[k]);EQZ("ranks",function_train_get_ranks(f)[k],a->r[k]);if(a->r[k]>mr)mr=a->r[k];if(k>0&&k<d)av+=a->r[k];}
    EQZ("maxrank",function_train_get_maxrank(f),mr);
    (void)av;
    free(X);free(E);function_train_free(f);mft_free(a);spv_free(s,d);
}
CASE(ft_evalind,"P25",160,2000,0){
    size_t d=vr_big(1,5,12);struct sp**s=spv_rand(d,T_NODAL,vr_chance(0.5));
    struct mft*a=mft_rand(s,d,4);struct FunctionTrain*f=mft_ft(a);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("r",a->r,d);
    for(int t=0;t<5;t++){
        size_t ind[MD];double x[MD];for(size_t k=0;k<d;k++){ind[k]=vr_int(0,s[k]->n-1);x[k]=s[k]->x[ind[k]];}
        double w=mft_eval(a,x),mg=mft_mag(a,x);
        CLOSE("eval-ind",function_train_eval_ind(f,ind),w,RT*mg+1e-290);
        size_t dv=vr_int(0,d-1),N=vr_int(1,s[dv]->n);size_t*li=malloc(N*sizeof(size_t));double*o=malloc(N*8);
        for(size_t i=0;i<N;i++)li[i]=vr_int(0,s[dv]->n-1);
        function_train_eval_fiber_ind(f,ind,N,li,dv,o);
        for(size_t i=0;i<N;i++){double y[MD];memcpy(y,x,sizeof y);y[dv]=s[dv]->x[li[i]];CLOSE("fiber-ind",o[i],mft_eval(a,y),RT*mft_mag(a,y)+1e-290);}
        size_t p[2*MD];double v[2*MD];for(size_t k=0;k<d;k++){p[2*k]=vr_int(0,s[k]->n-1);p[2*k+1]=vr_int(0,s[k]->n-1);}
        double c=function_train_eval_co_perturb_ind(f,ind,p,v);
        CLOSE("co-perturb-ind-center",c,w,RT*mg+1e-290);
        for(size_t k=0;k<d;k++)for(int e=0;e<2;e++){double y[MD];memcpy(y,x,sizeof y);y[k]=s[k]->x[p[2*k+e]];CLOSE("co-perturb-ind",v[2*k+e],mft_eval(a,y),RT*mft_mag(a,y)+1e-290);}
        free(li);free(o);
    }
    function_train_free(f);mft_free(a);spv_free(s,d);
}
CASE(ft_nodal,"P25 P06",80,800,0){
    size_t d=vr_big(1,4,12);struct sp**s=spv_rand(d,T_NODAL,vr_chance(0.5));
    struct mft*a=mft_rand(s,d,3);struct FunctionTrain*f=mft_ft(a);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("r",a->r,d);
    size_t N[MD];double*x[MD];for(size_t k=0;k<d;k++){N[k]=vr_big(2,6,15);x[k]=malloc(8*N[k]);vr_sorted(N[k],s[k]->lb,s[k]->ub,x[k],0.2);}
    struct FunctionTrain*g=function_train_create_nodal(f,N,x);
    ft_wellformed("nodal-shape",g,d);
    for(int t=0;t<6;t++){size_t ind[MD];double y[MD];int amb=0;for(size_t k=0;k<d;k++){ind[k]=vr_int(0,N[k]-1);y[k]=x[k][ind[k]];
            if(s[k]->t==T_CONST)for(size_t i=0;i+1<s[k]->n;i++)if(fabs(0.5*(s[k]->x[i]+s[k]->x[i+1])-y[k])<1e-9*(s[k]->ub-s[k]->lb))amb=1;}
        if(amb)continue;
        double w=mft_eval(a,y),mg=mft_mag(a,y);
        CLOSE("nodal",function_train_eval(g,y),w,RT*mg+1e-12);CLOSE("nodal-ind",function_train_eval_ind(g,ind),w,RT*mg+1e-12);}
    for(size_t k=0;k<d;k++)free(x[k]);
    function_train_free(g);function_train_free(f);mft_free(a);spv_free(s,d);
}
/* ---------------------------------------------------------------- gradients */
#define TY_DER (M(T_LIN)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW))
static double m1_derm(const struct m1*m){ /* magnitude scale of the derivative: Markov-type bound */
    const struct sp*s=m->sp;double n=(double)m->n,mx=0;
    if(s->t==T_LIN){for(size_t i=0;i+1<s->n;i++)mx=dmax(mx,(fabs(m->c[i+1])+fabs(m->c[i]))/(s->x[i+1]-s->x[i]));return mx;}
    if(s->t==T_PW){double h=1e300;for(size_t i=0;i+1<s->n;i++)h=dmin(h,s->x[i+1]-s->x[i]);for(size_t i=0;i<m->n*(s->n-1);i++)mx+=fabs(m->c[i]);return mx*n*n*sqrt(2*n+1)*2/h;}
    if(s->t==T_FOUR){for(size_t i=0;i<m->n;i++)mx+=2*cabs(m->cc[i]);return mx*n*2*M_PI/(s->ub-s->lb);}
    for(size_t i=0;i<m->n;i++)mx+=fabs(m->c[i]);
    if(s->t==T_HERM)return mx*200*n*n;
    return mx*n*n*sqrt(2*n+1)*2/(s->ub-s->lb);
}
static double gmag(const struct mft*f,const double*x,size_t kk){
    double v[MD]={1},w[MD];for(size_t k=0;k<f->d;k++){for(size_t j=0;j<f->r[k+1];j++){w[j]=0;for(size_t i=0;i<f->r[k];i++){const struct m1*m=&f->f[k][j*f->r[k]+i];w[j]+=v[i]*(k==kk?m1_derm(m):m1_mag(m,x[k]));}}memcpy(v,w,sizeof v);}
    return v[0];}
static void der_x(struct sp**s,size_t d,double*x){ /* away from kinks */
    for(size_t k=0;k<d;k++){ if(s[k]->t==T_LIN||s[k]->t==T_PW){size_t i=vr_int(0,s[k]->n-2);x[k]=s[k]->x[i]+(s[k]->x[i+1]-s[k]->x[i])*vr_unif(0.05,0.95);} else x[k]=sp_x(s[k]); }
}
CASE(ft_gradient,"P09 P25",200,2500,0){
    size_t d=rdim();struct sp**s=spv_rand(d,M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW),vr_chance(0.5));
    struct mft*a=mft_rand(s,d,4);struct FunctionTrain*f=mft_ft(a);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("r",a->r,d);
    struct FT1DArray*g=function_train_gradient(f);
    EQZ("grad-size",g->size,d);
    int evalok=1;for(size_t k=0;k<d;k++)if(s[k]->t==T_PW)evalok=1;
    for(int t=0;t<4;t++){double x[MD];der_x(s,d,x);
        double out[MD];if(evalok)function_train_gradient_eval(f,x,out);
        double*ga=ft1d_array_eval(g,x);
        for(size_t k=0;k<d;k++){double w=mft_grad(a,x,k),m=gmag(a,x,k);
            CLOSE("gradient",ga[k],w,1e-9*m+1e-280);
            if(evalok)CLOSE("gradient-eval",out[k],w,1e-9*m+1e-280);}
        free(ga);}
    ft1d_array_free(g);function_train_free(f);mft_free(a);spv_free(s,d);
}
/* piecewise-linear gradients: one-sided element slopes; the representation of the derivative is class specific, so only
   gradient_eval (defined pointwise) is compared, inside elements */
CASE(ft_gradient_lin,"P09",120,1500,0){
    size_t d=vr_big(1,5,12);struct sp**s=spv_rand(d,M(T_LIN),0);
    struct mft*a=mft_rand(s,d,4);struct FunctionTrain*f=mft_ft(a);
    vh_sig("d%zu",d);sigr("r",a->r,d);for(size_t k=0;k<d;k++)vh_sig("n%zu",s[k]->n);
    for(int t=0;t<4;t++){double x[MD];der_x(s,d,x);double out[MD];function_train_gradient_eval(f,x,out);
        for(size_t k=0;k<d;k++)CLOSE("gradient-eval-lin",out[k],mft_grad(a,x,k),1e-9*gmag(a,x,k)+1e-280);}
    function_train_free(f);mft_free(a);spv_free(s,d);
}
CASE(ft_hessian,"P09",60,700,0){
    size_t d=vr_big(1,4,9);struct sp**s=spv_rand(d,M(T_LEG)|M(T_CHEB),vr_chance(0.5));
    struct mft*a=mft_rand(s,d,3);struct FunctionTrain*f=mft_ft(a);
    vh_sig("d%zu %s",d,spdesc(s,d));sigr("r",a->r,d);
    struct FT1DArray*H=function_train_hessian(f);EQZ("hess-size",H->size,d*d);
    struct FT1DArray*D=function_train_hessian_diag(f);EQZ("hessd-size",D->size,d);
    struct FT1DArray*g=function_train_gradient(f);
    struct FT1DArray*J=ft1d_array_jacobian(g);
    for(int t=0;t<3;t++){double x[MD];for(size_t k=0;k<d;k++)x[k]=vr_unif(s[k]->lb+0.2*(s[k]->ub-s[k]->lb),s[k]->ub-0.2*(s[k]->ub-s[k]->lb));
        double*h=ft1d_array_eval(H,x),*dd=ft1d_array_eval(D,x),*jj=ft1d_array_eval(J,x);
        for(size_t i=0;i<d;i++)for(size_t j=0;j<d;j++){
            double hs=(s[j]->ub-s[j]->lb)*1e-4,xp[MD],xm[MD];memcpy(xp,x,sizeof x);memcpy(xm,x,sizeof x);xp[j]+=hs;xm[j]-=hs;
            double w=(mft_grad(a,xp,i)-mft_grad(a,xm,i))/(2*hs);
            double sc=gmag(a,x,i)*64*16*2/(s[j]->ub-s[j]->lb); /* Markov bound for degree <= 8 */
            CLOSE("hessian",h[i*d+j],w,2e-6*sc+1e-250);CLOSE("hessian-sym",h[i*d+j],h[j*d+i],1e-9*sc+1e-250);
            CLOSE("jacobian",jj[i*d+j],h[i*d+j],1e-9*sc+1e-250);
            if(i==j)CLOSE("hessian-diag",dd[i],h[i*d+i],1e-9*sc+1e-250);}
        free(h);free(dd);free(jj);}
    ft1d_array_free(H);ft1d_array_free(D);ft1d_array_free(g);ft1d_array_free(J);function_train_free(f);mft_free(a);spv_free(s,d);
}
CASE(ft_jacobian,"P09",40,700,0){ /* Jacobian of an array of trains, any number of outputs; Christoffel weights */
    size_t d=vr_big(1,5,11),n=vr_big(1,6,11);struct sp**s=spv_rand(d,M(T_LEG)|M(T_CHEB),vr_chance(0.5));struct mft**ms;struct FT1DArray*A=mkarr(s,d,n,&ms),*J=ft1d_array_jacobian(A);
    vh_sig("d%zu n%zu",d,n);EQZ("jac-size",J->size,n*d);
    for(int t=0;t<3;t++){double x[MD];spv_x(s,d,x);double*j=ft1d_array_eval(J,x);for(size_t k=0;k<d;k++)for(size_t i=0;i<n;i++)CLOSE("jacobian-entry",j[k*n+i],mft_grad(ms[i],x,k),1e-9*gmag(ms[i],x,k)+1e-280);free(j);}
    ft1d_array_free(J);ft1d_array_free(A);frarr(ms,n);spv_free(s,d);
}
CASE(ft_christoffel,"P25 P11",30,500,0){ /* with the weighting switched on a train evaluates to its value over the weight */
    size_t d=vr_big(1,6,11);struct sp**s=malloc(d*sizeof*s);for(size_t k=0;k<d;k++)s[k]=sp_make(vr_chance(0.6)?T_LEG:T_HERM,-1,vr_unif(0.5,2),vr_int(1,6));
    struct mft*a=mft_rand(s,d,3);for(size_t k=0;k<d;k++)for(size_t i=0;i<a->r[k]*a->r[k+1];i++){m1_free(&a->f[k][i]);a->f[k][i]=m1_rand_n(s[k],s[k]->maxn);}
    struct FunctionTrain*f=mft_ft(a);vh_sig("d%zu",d);EQZ("inactive",function_train_is_kristoffel_active(f),0);
    for(int t=0;t<3;t++){double x[MD];spv_x(s,d,x);double v=mft_eval(a,x),m=mft_mag(a,x),w=1;
        for(size_t k=0;k<d;k++){double q=0;for(size_t i=0;i<s[k]->maxn;i++){struct m1 e=m1_rand_n(s[k],s[k]->maxn);for(size_t j=0;j<e.n;j++)e.c[j]=i==j;double b=m1_eval(&e,x[k]);q+=b*b;m1_free(&e);}w*=sqrt(q/(double)s[k]->maxn);}
        CLOSE("weight",function_train_get_kristoffel_weight(f,x),w,1e-10*w);
        function_train_activate_kristoffel(f);EQZ("active",function_train_is_kristoffel_active(f),1);CLOSE("weighted-eval",function_train_eval(f,x)*w,v,1e-9*m);
        function_train_deactivate_kristoffel(f);EQZ("inactive",function_train_is_kristoffel_active(f),0);CLOSE("unweighted-eval",function_train_eval(f,x),v,1e-10*m);}
    function_train_free(f);mft_free(a);spv_free(s,d);
}
/* ---------------------------------------------------------------- constructors */
CASE(ft_constructors,"P28",220,2500,0){
    int op=(int)vr_int(0,6);
    size_t d=rdim();if(op==0||op==1||op==3||op==6){if(vr_chance(0.06))d=1;}else if(d==1)d=2;
    unsigned ty=M(T_LEG)|M(T_CHEB)|M(T_HERM);if(op!=2&&op!=3&&op!=5)ty|=M(T_LIN);if(op==0||op==6)ty|=M(T_CONST);
    struct sp**s=spv_rand(d,ty,vr_chance(0.6));
    for(size_t k=0;k<d;k++)if(s[k]->t>=T_LEG&&s[k]->maxn<3){double l=s[k]->lb,u=s[k]->ub;int t=s[k]->t;sp_free(s[k]);s[k]=sp_make(t,l,u,vr_int(3,6));}
    struct MultiApproxOpts*mo=spv_mopts(s,d);
    double c[2*MD],o[2*MD],Q[MD*MD];for(int i=0;i<2*MD;i++){c[i]=vr_val();o[i]=vr_norm();}for(int i=0;i<MD*MD;i++)Q[i]=vr_norm();
    size_t ldc=vr_int(1,2),lda=vr_int(1,2);
    vh_sig("op%d d%zu %s",op,d,spdesc(s,d));
    struct FunctionTrain*f=NULL;double cst=vr_chance(0.2)?0:vr_val();
    size_t rk[MD+1];rk[0]=rk[d]=1;for(size_t k=1;k<d;k++)rk[k]=vr_int(1,4);
    switch(op){
    case 0:f=function_train_constant(cst,mo);break;
    case 1:f=function_train_linear(c,ldc,o,lda,mo);break;
    case 2:f=function_train_quadratic(Q,o,mo);break;
    case 3:f=function_train_quadratic_aligned(c,o,mo);break;
    case 4:f=function_train_rankone_prod(c,mo);break;
    case 5:f=function_train_linear(o,1,c,1,mo);function_train_linear_update(f,c,ldc,o,lda);break;
    case 6:f=function_train_zeros(mo,rk);break;
    }
    for(size_t k=0;k<d;k++)for(size_t j=0;j<f->ranks[k]*f->ranks[k+1];j++){struct GenericFunction*g=f->cores[k]->funcs[j];
        TRUE_("ctor-class",g->fc==s[k]->o->fc);
        if(s[k]->t!=T_HERM){CLOSE("ctor-domain",generic_function_get_lb(g),s[k]->lb,1e-12);CLOSE("ctor-domain",generic_function_get_ub(g),s[k]->ub,1e-12);}}
    ft_wellformed("ctor-shape",f,d);
    for(int t=0;t<6;t++){
        double x[MD];spv_x(s,d,x);
        /* nodal classes reproduce a polynomial at their nodes (piecewise linear ones reproduce linear functions everywhere) */
        for(size_t k=0;k<d;k++)if(s[k]->t==T_CONST||(s[k]->t==T_LIN&&(op==2||op==3)))x[k]=s[k]->x[vr_int(0,s[k]->n-1)];
        double w=0,m=0;
        switch(op){
        case 0:w=cst;m=fabs(cst);break;
        case 1: case 5:for(size_t k=0;k<d;k++){w+=c[k*ldc]*x[k]+o[k*lda];m+=fabs(c[k*ldc])*(fabs(x[k])+fabs(s[k]->lb)+fabs(s[k]->ub))+fabs(o[k*lda]);}break;
        case 2:for(size_t i=0;i<d;i++)for(size_t j=0;j<d;j++){double q=Q[i*d+j];w+=q*(x[i]-o[i])*(x[j]-o[j]);m+=fabs(q)*(fabs(s[i]->lb)+fabs(s[i]->ub)+fabs(o[i]))*(fabs(s[j]->lb)+fabs(s[j]->ub)+fabs(o[j]));}break;
        case 3:for(size_t i=0;i<d;i++){w+=c[i]*(x[i]-o[i])*(x[i]-o[i]);m+=fabs(c[i])*pow(fabs(s[i]->lb)+fabs(s[i]->ub)+fabs(o[i]),2);}break;
        case 4:w=m=1;for(size_t k=0;k<d;k++){w*=c[k]*x[k];m*=fabs(c[k])*(fabs(s[k]->lb)+fabs(s[k]->ub));}break;
        case 6:w=m=0;break;
        }
        CLOSE(op==0?"constant":op==1?"linear":op==2?"quadratic":op==3?"quadratic-aligned":op==4?"rankone-prod":op==5?"linear-update":"zeros",function_train_eval(f,x),w,1e-10*m+1e-280);
    }
    function_train_free(f);multi_approx_opts_free(mo);spv_free(s,d);
}
/* rank-one product and additive functions built from univariate callbacks */
struct uni{double a[MD],b[MD];int kind[MD];size_t calls;double lb[MD],ub[MD];int outside;};
static double unif(struct uni*u,size_t k,double x){switch(u->kind[k]){case 0:return u->a[k];case 1:return u->a[k]+u->b[k]*x;default:return u->a[k]+u->b[k]*x*x;}}
static int unicb(size_t N,size_t dim,const double*x,double*out,void*arg){ /* evaluate the function of dimension `dim` */
    struct uni*u=arg;for(size_t i=0;i<N;i++){if(x[i]<u->lb[dim]-1e-9||x[i]>u->ub[dim]+1e-9)u->outside=1;out[i]=unif(u,dim,x[i]);u->calls++;}return 0;}
struct uarg{struct uni*u;size_t k;};
static int uarr(size_t N,const double*x,double*out,void*arg){struct uarg*a=arg;return unicb(N,a->k,x,out,a->u);}
CASE(ft_rankone_initsum,"P28",120,1500,0){
    size_t d=vr_chance(0.08)?1:vr_big(2,5,12);struct sp**s=spv_rand(d,M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB),vr_chance(0.6));
    for(size_t k=0;k<d;k++)if(s[k]->t>=T_LEG&&s[k]->maxn<4){double l=s[k]->lb,u=s[k]->ub;int t=s[k]->t;sp_free(s[k]);s[k]=sp_make(t,l,u,vr_int(4,6));}
    struct MultiApproxOpts*mo=spv_mopts(s,d);struct uni u;memset(&u,0,sizeof u);struct uarg ua[MD];
    for(size_t k=0;k<d;k++){u.a[k]=vr_norm();u.b[k]=vr_norm();u.kind[k]=(int)vr_int(0,2);u.lb[k]=s[k]->lb;u.ub[k]=s[k]->ub;ua[k].u=&u;ua[k].k=k;}
    int sum=(int)vr_int(0,1),arr=(int)vr_int(0,1);vh_sig("%s %s d%zu %s",sum?"sum":"prod",arr?"array-vec":"mo-vec",d,spdesc(s,d));
    struct Fwrap*fw;
    if(arr){fw=fwrap_create(1,"array-vec");fwrap_set_num_funcs(fw,d);for(size_t k=0;k<d;k++)fwrap_set_func_array(fw,k,uarr,&ua[k]);}
    else {fw=fwrap_create(1,"mo-vec");fwrap_set_mofvec(fw,unicb,&u);}
    struct FunctionTrain*f=sum?function_train_initsum(mo,fw):function_train_rankone(mo,fw);
    ft_wellformed("ctor-shape",f,d);
    TRUE_("callback-outside-domain",!u.outside);
    for(int t=0;t<5;t++){double x[MD];spv_x(s,d,x);double w=sum?0:1,m=w;
        for(size_t k=0;k<d;k++){if(s[k]->t==T_LIN||s[k]->t==T_CONST)x[k]=s[k]->x[vr_int(0,s[k]->n-1)];
            double v=unif(&u,k,x[k]),mv=fabs(u.a[k])+fabs(u.b[k])*pow(fabs(s[k]->lb)+fabs(s[k]->ub)+1,2);if(sum){w+=v;m+=mv;}else{w*=v;m*=mv;}}
        CLOSE(sum?"initsum":"rankone",function_train_eval(f,x),w,1e-9*m);}
    function_train_free(f);fwrap_destroy(fw);multi_approx_opts_free(mo);spv_free(s,d);
}
