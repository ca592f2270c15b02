/* Homogeneity: multiplying a function, train or matrix by a power of two multiplies every (bi)linear result by that power of two,
   and stretching the domain by a power of two does the same to integrals and derivatives.  Catches absolute thresholds. */
#include "model.h"
typedef struct GenericFunction GF;typedef struct Qmarray QA;
static double pow2(int lim){int k=(int)vr_int(1,(size_t)lim);return ldexp(1.0,vr_chance(0.6)?-k:k);}
static struct m1 m1_scaled(const struct m1*f,double S){struct m1 g=*f;size_t n=f->sp->t==T_PW?(f->sp->n-1)*f->n:f->n;g.c=NULL;g.cc=NULL;
    if(f->c){g.c=malloc(8*n);for(size_t i=0;i<n;i++)g.c[i]=S*f->c[i];}
    if(f->cc){g.cc=malloc(n*sizeof*g.cc);for(size_t i=0;i<n;i++)g.cc[i]=S*f->cc[i];}return g;}
static double mmax(const struct m1*f){double m=0;for(int i=0;i<9;i++)m=dmax(m,m1_mag(f,f->sp->lb+(f->sp->ub-f->sp->lb)*i/8.0));return m;}
CASE(scale_fn,"P11 P12 P05 P27",60,1500,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_PW));struct m1 f=m1_rand(s),g=m1_rand(s);double S=pow2(20);struct m1 h=m1_scaled(&f,S);
    if(s->t==T_LEG||s->t==T_CHEB||s->t==T_HERM)f.c[0]+=f.c[0]<0?-1:1,h.c[0]=S*f.c[0];
    GF*F=m1_gf(&f),*G=m1_gf(&g),*H=m1_gf(&h);double mf=mmax(&f),mg=mmax(&g),L=s->t==T_HERM?1:s->ub-s->lb;
    vh_sig("%s %d",tname[s->t],(int)(log2(S)/5));
    for(int k=0;k<5;k++){double x=sp_x(s);CLOSE("eval",generic_function_1d_eval(H,x),S*generic_function_1d_eval(F,x),1e-12*S*m1_mag(&f,x));
        if(s->t!=T_CONST){double dv=m1_deriv(&f,x),e=1e-9*S*mf/L*(double)(f.n*f.n+4*s->n*s->n);(void)dv;CLOSE("deriv-eval",generic_function_deriv_eval(H,x),S*generic_function_deriv_eval(F,x),e*1e-2);}}
    double rel=s->t==T_CHEB?1e-5:1e-10; /* Chebyshev inner products go through an adaptive rule */
    CLOSE("integral",generic_function_integrate(H),S*generic_function_integrate(F),1e-11*S*mf*L);
    if(s->t!=T_CHEB){
    CLOSE("inner",generic_function_inner(H,G),S*generic_function_inner(F,G),rel*S*mf*mg*L);
    CLOSE("inner",generic_function_inner(G,H),S*generic_function_inner(G,F),rel*S*mf*mg*L);
    double nf=generic_function_norm(F);CLOSE("norm",generic_function_norm(H),S*nf,rel*S*nf+1e-9*S*mf);
    GF*G2=generic_function_copy(G);generic_function_scale(S,G2);
    double nd=generic_function_norm2diff(F,G);CLOSE("norm2diff",generic_function_norm2diff(H,G2),S*nd,1e-7*S*(mf+mg)*sqrt(L)+rel*S*nd);
    GF*a[2]={F,G},*b[2]={H,G2};double an=generic_function_array_norm(2,1,a);CLOSE("array-norm",generic_function_array_norm(2,1,b),S*an,rel*S*an+1e-9*S*(mf+mg));
    generic_function_free(G2);}
    if(s->t!=T_PW&&s->t!=T_HERM&&s->t!=T_LEG&&s->t!=T_CHEB){
        struct c3Vector*cv=NULL;if(s->t==T_KER||vr_chance(0.5)){double z[7];size_t nz=(s->t==T_KER)?7:2;for(size_t i=0;i<nz;i++)z[i]=s->t==T_KER?s->lb+(s->ub-s->lb)*(double)i/6.0:s->x[i];cv=c3vector_alloc(nz,z);}
        double x1=NAN,x2=NAN,v1=generic_function_absmax(F,&x1,cv),v2=generic_function_absmax(H,&x2,cv);CLOSE("absmax",v2,S*v1,1e-12*S*mf);
        c3vector_free(cv);}
    GF*R=generic_function_copy(H);generic_function_axpy(1.0/S,G,R);generic_function_scale(1.0/S,R);
    for(int k=0;k<3;k++){double x=sp_x(s);CLOSE("axpy",generic_function_1d_eval(R,x),m1_eval(&f,x)+m1_eval(&g,x)/S/S,1e-11*(m1_mag(&f,x)+m1_mag(&g,x)/S/S)+(s->t>=T_LEG?1e-15/S:0));}
    if(s->t!=T_KER){GF*P=generic_function_prod(H,G),*Q=generic_function_prod(F,G);
        for(int k=0;k<3;k++){double x=sp_x(s);CLOSE("prod",generic_function_1d_eval(P,x),S*generic_function_1d_eval(Q,x),1e-9*S*mf*mg+(s->t>=T_LEG?1e-13:0));}
        generic_function_free(P);generic_function_free(Q);}
    generic_function_free(R);generic_function_free(F);generic_function_free(G);generic_function_free(H);m1_free(&f);m1_free(&g);m1_free(&h);sp_free(s);
}
CASE(scale_domain,"P11 P12 P13",60,1500,0){ /* the same function on a stretched interval */
    static const int tt[5]={T_LIN,T_CONST,T_KER,T_LEG,T_CHEB};int t=tt[vr_int(0,4)];size_t n=t>=T_LEG?vr_int(1,8):vr_int(2,9);double lb=vr_unif(-2,1),ub=lb+vr_unif(0.5,3),S=pow2(14);
    struct sp*s=sp_make(t,lb,ub,n),*q=sp_make(t,lb*S,ub*S,n);if(s->x)for(size_t i=0;i<n;i++)q->x[i]=S*s->x[i];
    if(t==T_KER){kernel_approx_opts_free(q->aopts);q->width=s->width*S;q->scale=s->scale;q->aopts=kernel_approx_opts_gauss(n,q->x,q->scale,q->width);kernel_approx_opts_set_lb(q->aopts,q->lb);kernel_approx_opts_set_ub(q->aopts,q->ub);
        one_approx_opts_free(q->o);q->o=one_approx_opts_alloc(KERNEL,q->aopts);}
    struct m1 f=m1_rand_n(s,n),g=m1_rand_n(s,n),f2=f,g2=g;f2.sp=g2.sp=q;GF*F=m1_gf(&f),*G=m1_gf(&g),*F2=m1_gf(&f2),*G2=m1_gf(&g2);double mf=mmax(&f),mg=mmax(&g),L=ub-lb;
    vh_sig("%s n%zu %d",tname[t],n,(int)(log2(S)/5));
    for(int k=0;k<5;k++){double x=sp_x(s);CLOSE("eval",generic_function_1d_eval(F2,S*x),generic_function_1d_eval(F,x),1e-11*mf*(double)(n*n));
        if(t!=T_CONST)CLOSE("deriv-eval",S*generic_function_deriv_eval(F2,S*x),generic_function_deriv_eval(F,x),1e-10*mf/L*(double)(100+n*n*n*n));}
    CLOSE("integral",generic_function_integrate(F2),S*generic_function_integrate(F),1e-11*S*mf*L);
    double rel=t==T_CHEB?1e-5:1e-10;
    CLOSE("inner",generic_function_inner(F2,G2),S*generic_function_inner(F,G),rel*S*mf*mg*L);
    double nf=generic_function_norm(F);CLOSE("norm",generic_function_norm(F2),sqrt(S)*nf,sqrt(S)*(rel*nf+1e-9*mf));
    if(t==T_LIN||t==T_CONST||t==T_LEG){size_t m=t==T_LEG?vr_int(1,6):n;GF*o[9];generic_function_array_orth(m,o,q->o->fc,q->aopts);
        for(size_t i=0;i<m;i++)for(size_t j=0;j<=i;j++)CLOSE("orthonormal",generic_function_inner(o[i],o[j]),i==j,1e-9);
        for(size_t i=0;i<m;i++)generic_function_free(o[i]);}
    if(t==T_LIN||t==T_CONST){GF*D=generic_function_deriv(F),*D2=generic_function_deriv(F2);double hm=L;for(size_t i=0;i+1<n;i++)hm=dmin(hm,s->x[i+1]-s->x[i]);
        for(size_t i=0;i<n;i++)CLOSE("deriv",S*generic_function_1d_eval_ind(D2,i),generic_function_1d_eval_ind(D,i),1e-9*(mf/hm+fabs(generic_function_1d_eval_ind(D,i))));
        generic_function_free(D);generic_function_free(D2);
        GF*A=generic_function_copy(G),*A2=generic_function_copy(G2);generic_function_axpy(-1,F,A);generic_function_axpy(-1,F2,A2);for(size_t i=0;i<n;i++)CLOSE("axpy",generic_function_1d_eval_ind(A2,i),generic_function_1d_eval_ind(A,i),0);
        generic_function_free(A);generic_function_free(A2);}
    generic_function_free(F);generic_function_free(G);generic_function_free(F2);generic_function_free(G2);m1_free(&f);m1_free(&g);sp_free(s);sp_free(q);
}
CASE(scale_train,"P03 P04 P05 P09 P25",30,700,VH_SLOW){
    size_t d=vr_int(2,5);struct sp**s=spv_rand(d,M(T_LIN)|M(T_CONST)|M(T_LEG),vr_chance(0.5));struct mft*a=mft_rand(s,d,3),*b=mft_rand(s,d,3);
    struct FunctionTrain*f=mft_ft(a),*g=mft_ft(b),*h=function_train_copy(f),*g2;double S=pow2(14),*x=malloc(8*d);vh_sig("d%zu %d",d,(int)(log2(S)/5));
    if(vr_chance(0.5))function_train_scale(h,S);else {size_t k=vr_int(0,d-1);generic_function_array_scale(S,h->cores[k]->funcs,h->ranks[k]*h->ranks[k+1]);}
    g2=function_train_copy(g);function_train_scale(g2,S);
    double sc=0;for(int i=0;i<4;i++){spv_x(s,d,x);double m=mft_mag(a,x);sc=dmax(sc,m);CLOSE("eval",function_train_eval(h,x),S*function_train_eval(f,x),1e-12*S*m);}
    CLOSE("integral",function_train_integrate(h),S*function_train_integrate(f),1e-11*S*(fabs(function_train_integrate(f))+1e-3)*(1+sc));
    double nf=function_train_norm2(f),ng=function_train_norm2(g);
    if(nf>1e-3&&ng>1e-3&&S*nf>2e-5&&S*ng>2e-5){
        CLOSE("norm",function_train_norm2(h),S*nf,1e-6*S*nf);
        double in=function_train_inner(f,g);CLOSE("inner",function_train_inner(h,g),S*in,1e-9*S*nf*ng);CLOSE("inner",function_train_inner(g,h),S*in,1e-9*S*nf*ng);
        double nd=function_train_norm2diff(f,g);CLOSE("norm2diff",function_train_norm2diff(h,g2),S*nd,3e-5*S*(nf+ng));
        if(S*ng>1e-6&&ng>1e-2*nf)CLOSE("relnorm2diff",function_train_relnorm2diff(h,g2),function_train_relnorm2diff(f,g),1e-4*(1+nf/ng)*(1+nf/ng));
        struct MultiApproxOpts*mo=spv_mopts(s,d);struct FunctionTrain*r1=function_train_round(f,1e-6,mo),*r2=function_train_round(h,1e-6,mo);
        double e1=function_train_norm2diff(f,r1),e2=function_train_norm2diff(h,r2),q1=sqrt(sqrt((double)d-1)*1e-6*nf),q2=sqrt(sqrt((double)d-1)*1e-6*nf*S);
        if(!(e1<=1.001*q1+1e-6*nf))vh_fail("round-error","distance %g bound %g",e1,q1);
        if(!(e2<=1.001*q2+1e-6*nf*S))vh_fail("round-error","distance %g bound %g of a scaled train",e2,q2);
        for(size_t k=1;k<d;k++)TRUE_("round-ranks",r2->ranks[k]<=h->ranks[k]);
        function_train_free(r1);function_train_free(r2);multi_approx_opts_free(mo);}
    int con=0;for(size_t k=0;k<d;k++)if(s[k]->t==T_CONST)con=1;
    if(!con){double*g1=malloc(8*d),*gg=malloc(8*d);spv_x(s,d,x);function_train_gradient_eval(f,x,g1);function_train_gradient_eval(h,x,gg);double gm=0;for(size_t k=0;k<d;k++)gm=dmax(gm,fabs(g1[k]));
        for(size_t k=0;k<d;k++)CLOSE("gradient",gg[k],S*g1[k],1e-8*S*(gm+1e3*mft_mag(a,x)));free(g1);free(gg);}
    function_train_free(f);function_train_free(g);function_train_free(h);function_train_free(g2);mft_free(a);mft_free(b);free(x);spv_free(s,d);
}
CASE(scale_qm,"P10",30,700,VH_SLOW){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_LEG));size_t nr=vr_int(1,3),nc=vr_int(1,3);double S=pow2(16);int lq=vr_chance(0.5);
    if(s->t==T_LEG&&s->maxn<4){sp_free(s);s=sp_make(T_LEG,-1,1,6);}
    if(s->n<4&&s->t!=T_LEG){int t=s->t;sp_free(s);s=sp_make(t,0,2,6);}
    QA*A=qmarray_alloc(nr,nc),*B=qmarray_alloc(nr,nc);for(size_t i=0;i<nr*nc;i++){struct m1 f=m1_rand_n(s,s->maxn);for(size_t j=0;j<f.n;j++)f.c[j]=vr_norm();A->funcs[i]=m1_gf(&f);struct m1 g=m1_scaled(&f,S);B->funcs[i]=m1_gf(&g);m1_free(&f);m1_free(&g);}
    size_t n=lq?nr:nc;vh_sig("%s %zux%zu lq%d %d",tname[s->t],nr,nc,lq,(int)(log2(S)/5));
    double na=qmarray_norm2(A);CLOSE("norm",qmarray_norm2(B),S*na,1e-10*S*na);
    QA*C=qmarray_copy(A),*D=qmarray_copy(B),*Q=NULL,*P=NULL;double*R=NULL,*T=NULL;
    if(lq){EQZ("status",qmarray_lq(C,&Q,&R,s->o),0);EQZ("status",qmarray_lq(D,&P,&T,s->o),0);}else{EQZ("status",qmarray_qr(C,&Q,&R,s->o),0);EQZ("status",qmarray_qr(D,&P,&T,s->o),0);}
    /* product of the factors of the scaled input */
    QA*W=lq?mqma(T,P,n):qmam(P,T,n);double e=qmarray_norm2diff(W,B);if(!(e<=1e-8*S*na))vh_fail("factors","relative error %g of the factors of a scaled array, scale %g",e/S/na,S);
    double*gr=lq?qmaqmat_integrate(P,P):qmatqma_integrate(P,P);for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++)CLOSE("orthonormal",gr[i*n+j],i==j,1e-8);
    free(gr);qmarray_free(W);qmarray_free(Q);qmarray_free(P);qmarray_free(C);qmarray_free(D);free(R);free(T);
    if(!lq&&nr*s->maxn>=nc){QA*U=NULL;QA*E=qmarray_copy(B);double lam[3],vt[9];qmarray_svd(E,&U,lam,vt,s->o);QA*E1=qmarray_copy(A),*U1=NULL;double l1[3],v1[9];qmarray_svd(E1,&U1,l1,v1,s->o);
        for(size_t i=0;i<nc;i++)CLOSE("singular-values",lam[i],S*l1[i],1e-9*S*na);qmarray_free(U);qmarray_free(E);qmarray_free(U1);qmarray_free(E1);}
    qmarray_free(A);qmarray_free(B);sp_free(s);
}
CASE(scale_dense,"P17",40,900,0){
    size_t m=vr_int(1,7),n=vr_int(1,7),r=m<n?m:n;double S=pow2(22),*A=vh_dvec(m*n),*B=malloc(8*m*n);for(size_t i=0;i<m*n;i++)B[i]=S*A[i];vh_sig("%zux%zu %d",m,n,(int)(log2(S)/5));
    double fro=0;for(size_t i=0;i<m*n;i++)fro+=A[i]*A[i];fro=sqrt(fro);
    double*a=malloc(8*m*n),*b=malloc(8*m*n),u1[49],u2[49],v1[49],v2[49],s1[7],s2[7];
    memcpy(a,A,8*m*n);memcpy(b,B,8*m*n);svd(m,n,m,a,u1,s1,v1);svd(m,n,m,b,u2,s2,v2);for(size_t i=0;i<r;i++)CLOSE("singular-values",s2[i],S*s1[i],1e-12*S*fro);
    memcpy(a,A,8*m*n);memcpy(b,B,8*m*n);double dl=vr_unif(0.01,0.9)*fro,*p1,*p2,*q1,*q2,*t1,*t2;size_t r1=truncated_svd(m,n,m,a,&p1,&q1,&t1,dl),r2=truncated_svd(m,n,m,b,&p2,&q2,&t2,S*S*dl);EQZ("truncated-rank",r2,r1);
    if(r1==r2)for(size_t i=0;i<r1;i++)CLOSE("truncated-values",q2[i],S*q1[i],1e-12*S*fro);
    free(p1);free(p2);free(q1);free(q2);free(t1);free(t2);
    if(s1[r-1]>1e-3*s1[0]){memcpy(b,B,8*m*n);double*P=calloc(m*n,8);EQZ("pinv-rank",pinv(m,n,m,b,P,1e-10),r);double e=0;
        for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){double v=0;for(size_t k=0;k<n;k++)for(size_t l=0;l<m;l++)v+=B[i+k*m]*P[k+l*n]*B[l+j*m];e=dmax(e,fabs(v-B[i+j*m]));}
        CLOSE("pinv",e,0,1e-8*S*fro);free(P);}
    free(A);free(B);free(a);free(b);
}
