#include "model.h"
#include <assert.h>
const char *tname[T_N]={"lin","const","ker","leg","cheb","herm","four","pw"};

static const struct { double a,b; } BNDS[]={{-1,1},{0,1},{-2,3},{0.5,0.75},{-10,-4},{-1e-2,2e-2},{0,50}};
struct sp *sp_make(int t,double lb,double ub,size_t n){
    struct sp*s=calloc(1,sizeof*s);s->t=t;s->lb=lb;s->ub=ub;s->n=n;s->std=1;
    if(t==T_LIN||t==T_CONST||t==T_KER||t==T_PW){s->x=malloc(n*sizeof(double));vr_sorted(n,lb,ub,s->x,0.15);}
    switch(t){
    case T_LIN: s->maxn=n;s->aopts=lin_elem_exp_aopts_alloc(n,s->x);s->o=one_approx_opts_alloc(LINELM,s->aopts);break;
    case T_CONST: s->maxn=n;s->aopts=const_elem_exp_aopts_alloc(n,s->x);s->o=one_approx_opts_alloc(CONSTELM,s->aopts);break;
    case T_KER: s->maxn=n;s->scale=vr_unif(0.5,2);s->width=(ub-lb)*vr_unif(0.1,0.6);
        s->aopts=kernel_approx_opts_gauss(n,s->x,s->scale,s->width);
        kernel_approx_opts_set_lb(s->aopts,lb);kernel_approx_opts_set_ub(s->aopts,ub);
        s->o=one_approx_opts_alloc(KERNEL,s->aopts);break;
    case T_LEG: case T_CHEB: case T_FOUR: {s->maxn=n;
        struct OpeOpts*p=ope_opts_alloc(t==T_LEG?LEGENDRE:t==T_CHEB?CHEBYSHEV:FOURIER);
        ope_opts_set_lb(p,lb);ope_opts_set_ub(p,ub);ope_opts_set_start(p,t==T_FOUR?17:n);if(t!=T_FOUR)ope_opts_set_maxnum(p,3*n+5);ope_opts_set_tol(p,1e-13);
        ope_opts_set_nparams(p,n);
        s->aopts=p;s->o=one_approx_opts_alloc(POLYNOMIAL,p);break;}
    case T_HERM: {s->maxn=n;struct OpeOpts*p=ope_opts_alloc(HERMITE);
        ope_opts_set_start(p,n);ope_opts_set_maxnum(p,3*n+5);ope_opts_set_nparams(p,n);
        s->aopts=p;s->mean=0;s->std=1;s->lb=-3;s->ub=3;s->o=one_approx_opts_alloc(POLYNOMIAL,p);break;}
    case T_PW: {s->maxn=5;struct PwPolyOpts*p=pw_poly_opts_alloc(LEGENDRE,lb,ub);
        pw_poly_opts_set_maxorder(p,7);pw_poly_opts_set_coeffs_check(p,2);pw_poly_opts_set_tol(p,1e-13);
        pw_poly_opts_set_nregions(p,3);
        s->aopts=p;s->o=one_approx_opts_alloc(PIECEWISE,p);break;}
    }
    return s;
}
struct sp *sp_rand(unsigned types){
    int t;do{t=(int)vr_int(0,T_N-1);}while(!(types&M(t)));
    double lb,ub;
    if(vr_chance(0.6)){size_t k=vr_int(0,sizeof BNDS/sizeof*BNDS-1);lb=BNDS[k].a;ub=BNDS[k].b;}
    else {lb=vr_unif(-5,5);ub=lb+exp(vr_unif(-2,2));}
    size_t n;
    switch(t){
    case T_LIN: case T_CONST: n=vr_chance(0.15)?vr_int(2,3):vr_int(3,14); if(vr_chance(0.05))n=vr_int(30,80); break;
    case T_KER: n=vr_int(2,9);if(vr_chance(0.06))n=vr_int(10,24);break;
    case T_PW: n=vr_int(2,5);if(vr_chance(0.06))n=vr_int(6,12);break;
    case T_FOUR: n=vr_int(2,8);if(vr_chance(0.06))n=vr_int(9,17);break;
    default: n=vr_int(1,8);if(vr_chance(0.06))n=vr_int(9,t==T_HERM?11:16);
    }
    return sp_make(t,lb,ub,n);
}
void sp_free(struct sp*s){
    if(!s)return;
    switch(s->t){
    case T_LIN: lin_elem_exp_aopts_free(s->aopts);break;
    case T_CONST: const_elem_exp_aopts_free(s->aopts);break;
    case T_KER: kernel_approx_opts_free(s->aopts);break;
    case T_PW: pw_poly_opts_free(s->aopts);break;
    default: ope_opts_free(s->aopts);
    }
    one_approx_opts_free(s->o);free(s->x);free(s);
}
double sp_x(const struct sp*s){
    double u=vr_u01();
    if(u<0.06)return s->lb;
    if(u<0.12)return s->ub;
    /* at nodes piecewise-constant and piecewise-polynomial functions may legitimately take either side's value;
       for those classes stay away from ambiguous points */
    if(s->x&&u<0.3&&(s->t==T_LIN||s->t==T_KER))return s->x[vr_int(0,s->n-1)];
    for(int tries=0;tries<50;tries++){
        double x=vr_unif(s->lb,s->ub);int bad=0;
        if(s->t==T_CONST)for(size_t i=0;i+1<s->n;i++){double m=0.5*(s->x[i]+s->x[i+1]);if(fabs(x-m)<1e-9*(s->ub-s->lb))bad=1;}
        if(s->t==T_PW)for(size_t i=0;i<s->n;i++)if(fabs(x-s->x[i])<1e-9*(s->ub-s->lb))bad=1;
        if(!bad)return x;
    }
    return 0.5*(s->lb+s->ub)+1e-3*(s->ub-s->lb);
}
struct m1 m1_rand_n(const struct sp*s,size_t n){
    struct m1 f={s,n,NULL,NULL};
    if(s->t==T_FOUR){f.cc=calloc(n,sizeof(double complex));f.cc[0]=vr_norm();for(size_t i=1;i<n;i++)if(!s->band||2*i<=n-1)f.cc[i]=vr_norm()/(1.+(double)i)+((s->band&&2*i==n-1)?0:I*vr_norm()/(1.+(double)i));}
    else if(s->t==T_PW){ /* n coefficients on each of the n-1 pieces */
        f.n=n;f.c=calloc((s->n-1)*n,sizeof(double));for(size_t i=0;i<(s->n-1)*n;i++)f.c[i]=vr_norm();}
    else {f.c=calloc(n,sizeof(double));
        int style=(int)vr_int(0,9);
        for(size_t i=0;i<n;i++)f.c[i]=style==0?0.0:style==1?(vr_chance(0.5)?0.0:vr_norm()):style==2?1.0+0.1*vr_norm():style==3?(double)vr_int(0,4)-2.0:vr_norm();
        if(style==0)f.c[0]=vr_chance(0.3)?0.0:vr_norm();
    }
    return f;
}
struct m1 m1_rand(const struct sp*s){
    size_t n=s->maxn;
    if(s->t>=T_LEG)n=vr_int(1,s->maxn); if(s->t==T_FOUR)n=s->band?s->maxn:vr_int(2,s->maxn<2?2:s->maxn);
    return m1_rand_n(s,n);
}
void m1_free(struct m1*f){free(f->c);free(f->cc);f->c=NULL;f->cc=NULL;}
struct GenericFunction *m1_gf(const struct m1*f){
    const struct sp*s=f->sp;struct GenericFunction*g=NULL;
    if(s->t==T_FOUR){
        g=generic_function_alloc(1,POLYNOMIAL);
        struct OrthPolyExpansion*p=orth_poly_expansion_init(FOURIER,f->n,s->lb,s->ub);
        for(size_t i=0;i<f->n;i++)p->ccoeff[i]=f->cc[i];
        g->f=p;g->fargs=NULL;
    } else if(s->t==T_PW){
        g=generic_function_alloc(1,PIECEWISE);g->fargs=NULL;
        struct PiecewisePoly*p=piecewise_poly_alloc();
        if(s->n==2){p->ope=orth_poly_expansion_init(LEGENDRE,f->n,s->lb,s->ub);for(size_t i=0;i<f->n;i++)p->ope->coeff[i]=f->c[i];}
        else{
            p->leaf=0;p->nbranches=s->n-1;p->branches=piecewise_poly_array_alloc(s->n-1);
            for(size_t k=0;k<s->n-1;k++){p->branches[k]=piecewise_poly_alloc();
                p->branches[k]->ope=orth_poly_expansion_init(LEGENDRE,f->n,s->x[k],s->x[k+1]);
                for(size_t i=0;i<f->n;i++)p->branches[k]->ope->coeff[i]=f->c[k*f->n+i];}
        }
        g->f=p;
    } else g=generic_function_create_with_params(s->o->fc,s->aopts,f->n,f->c);
    return g;
}
static void leg_all(size_t n,double y,double*P,double*dP){ /* orthonormal wrt dx/2 */
    double p0=1,p1=y,d0=0,d1=1;
    for(size_t k=0;k<n;k++){
        double p,d;
        if(k==0){p=1;d=0;}else if(k==1){p=y;d=1;}else{p=((2.*k-1)*y*p1-(k-1.)*p0)/k;d=d0+(2.*k-1)*p1;p0=p1;p1=p;d0=d1;d1=d;}
        double s=sqrt(2.*k+1);P[k]=p*s;if(dP)dP[k]=d*s;
    }
}
static void cheb_all(size_t n,double y,double*P,double*dP){
    double a=1,b=y,da=0,db=1;
    for(size_t k=0;k<n;k++){double p,d;if(k==0){p=1;d=0;}else if(k==1){p=y;d=1;}else{p=2*y*b-a;d=2*b+2*y*db-da;a=b;b=p;da=db;db=d;}P[k]=p;if(dP)dP[k]=d;}
}
static void herm_all(size_t n,double y,double*P,double*dP){
    double a=1,b=y,fac=1;double prev=0;
    for(size_t k=0;k<n;k++){double p;if(k==0)p=1;else if(k==1)p=y;else{p=y*b-(k-1.)*a;a=b;b=p;}
        if(k>0)fac*=(double)k;P[k]=p/sqrt(fac);if(dP)dP[k]=k==0?0:sqrt((double)k)*prev;prev=P[k];}
}
#define NB 128
static size_t pw_piece(const struct sp*s,double x){size_t k=0;while(k+2<s->n&&x>s->x[k+1])k++;return k;}
static double ev(const struct m1*f,double x,int der,int ab){
    const struct sp*s=f->sp;double B[NB],D[NB];double out=0;size_t n=f->n;const double*c=f->c;double slope=1;
    switch(s->t){
    case T_LIN:{
        if(x<s->x[0]||x>s->x[s->n-1])return 0;
        size_t k=0;while(k+2<s->n&&x>s->x[k+1])k++;
        double h=s->x[k+1]-s->x[k],w=(x-s->x[k])/h;
        if(der)return (c[k+1]-c[k])/h;
        return ab?(1-w)*fabs(c[k])+w*fabs(c[k+1]):(1-w)*c[k]+w*c[k+1];}
    case T_CONST:{
        if(der)return 0;
        size_t b=0;for(size_t i=1;i<s->n;i++)if(fabs(x-s->x[i])<fabs(x-s->x[b]))b=i;
        return ab?fabs(c[b]):c[b];}
    case T_KER:
        for(size_t i=0;i<n;i++){double dx=(x-s->x[i])/s->width,e=s->scale*exp(-dx*dx);double v=c[i]*e;if(der)v*=-2*dx/s->width;out+=ab?fabs(v):v;}
        return out;
    case T_LEG: case T_CHEB:{
        double y=(2*x-s->lb-s->ub)/(s->ub-s->lb);slope=2/(s->ub-s->lb);
        (s->t==T_LEG?leg_all:cheb_all)(n,y,B,D);break;}
    case T_HERM: slope=1/s->std;herm_all(n,(x-s->mean)/s->std,B,D);break;
    case T_PW:{size_t k=pw_piece(s,x);c=f->c+k*n;double a=s->x[k],b=s->x[k+1];slope=2/(b-a);leg_all(n,(2*x-a-b)/(b-a),B,D);break;}
    case T_FOUR:{
        double y=2*M_PI*(x-s->lb)/(s->ub-s->lb);slope=2*M_PI/(s->ub-s->lb);
        if(!der)out=ab?cabs(f->cc[0]):creal(f->cc[0]);
        for(size_t k=1;k<n;k++){double complex e=cexp(I*(double)k*y);
            double complex v=f->cc[k]*e; if(der)v*=I*(double)k*slope;
            out+=ab?2*cabs(v):2*creal(v);}
        return out;}
    }
    for(size_t i=0;i<n;i++){double v=c[i]*(der?D[i]*slope:B[i]);out+=ab?fabs(v):v;}
    return out;
}
double m1_eval(const struct m1*f,double x){return ev(f,x,0,0);}
double m1_mag(const struct m1*f,double x){return ev(f,x,0,1);}
double m1_deriv(const struct m1*f,double x){return ev(f,x,1,0);}

double *gl_nodes(size_t n,double**w){
    double*x=malloc(n*sizeof(double));*w=malloc(n*sizeof(double));
    for(size_t i=0;i<n;i++){double z=cos(M_PI*(i+0.75)/(n+0.5)),pp=1;
        for(int it=0;it<100;it++){double p1=1,p2=0;for(size_t j=0;j<n;j++){double p3=p2;p2=p1;p1=((2.*j+1)*z*p2-j*p3)/(j+1.);}
            pp=n*(z*p1-p2)/(z*z-1);double z1=z;z=z1-p1/pp;if(fabs(z-z1)<1e-15)break;}
        x[n-1-i]=z;(*w)[n-1-i]=2/((1-z*z)*pp*pp);}
    return x;
}
/* composite Gauss-Legendre of g over [a,b] */
static double quad(double(*g)(double,void*),void*p,double a,double b,size_t np){
    static __thread double*x=NULL,*w=NULL;
    if(!x){x=gl_nodes(24,&w);}
    double out=0,h=(b-a)/np;
    for(size_t k=0;k<np;k++)for(int i=0;i<24;i++)out+=0.5*h*w[i]*g(a+h*(k+0.5*(1+x[i])),p);
    return out;
}
struct two{const struct m1*a,*b;};
static double g2(double x,void*p){struct two*t=p;return m1_eval(t->a,x)*(t->b?m1_eval(t->b,x):1.0);}
static double g2w(double x,void*p){struct two*t=p;return g2(x,p)*exp(-0.5*x*x)/sqrt(2*M_PI)*(t?1:0);}
static double brk(double(*g)(double,void*),void*p,const struct sp*s){
    double out=0;for(size_t i=0;i+1<s->n;i++)out+=quad(g,p,s->x[i],s->x[i+1],1);return out;}
double m1_integral(const struct m1*f){
    const struct sp*s=f->sp;struct two t={f,NULL};
    switch(s->t){
    case T_LIN: return brk(g2,&t,s);
    case T_CONST:{double out=0;for(size_t i=0;i<s->n;i++){double l=i?0.5*(s->x[i]+s->x[i-1]):s->lb,r=i+1<s->n?0.5*(s->x[i]+s->x[i+1]):s->ub;out+=f->c[i]*(r-l);}return out;}
    case T_PW: return brk(g2,&t,s);
    case T_HERM: return quad(g2w,&t,-12,12,24);
    default: return quad(g2,&t,s->lb,s->ub,8);
    }
}
double m1_inner(const struct m1*a,const struct m1*b){
    const struct sp*s=a->sp;struct two t={a,b};
    switch(s->t){
    case T_LIN:{ /* documented: trapezoidal rule on the union of the nodes */
        double out=0;size_t na=s->n,nb=b->sp->n;double*u=malloc((na+nb)*sizeof(double));size_t n=0,i=0,j=0;
        while(i<na||j<nb){double v;if(j>=nb||(i<na&&s->x[i]<=b->sp->x[j]))v=s->x[i++];else v=b->sp->x[j++];if(n==0||v>u[n-1]+1e-14)u[n++]=v;}
        for(size_t k=0;k+1<n;k++)out+=0.5*(u[k+1]-u[k])*(g2(u[k],&t)+g2(u[k+1],&t));
        free(u);return out;}
    case T_CONST:{double out=0;for(size_t i=0;i<s->n;i++){double l=i?0.5*(s->x[i]+s->x[i-1]):s->lb,r=i+1<s->n?0.5*(s->x[i]+s->x[i+1]):s->ub;out+=a->c[i]*b->c[i]*(r-l);}return out;}
    case T_PW:{ double out=0; const struct sp*q=b->sp; for(size_t i=0;i+1<s->n;i++)for(size_t j=0;j+1<q->n;j++){double l=dmax(s->x[i],q->x[j]),r=dmin(s->x[i+1],q->x[j+1]);if(r>l)out+=quad(g2,&t,l,r,1);}return out;}
    case T_HERM: return quad(g2w,&t,-12,12,24);
    default: return quad(g2,&t,s->lb,s->ub,8);
    }
}

/* ------------------------------------------------------------ function trains */
struct sp **spv_rand(size_t d,unsigned types,int mixed){
    struct sp**s=malloc(d*sizeof*s);
    unsigned tt=types;if(!mixed){int t;do{t=(int)vr_int(0,T_N-1);}while(!(types&M(t)));tt=M(t);}
    for(size_t i=0;i<d;i++)s[i]=sp_rand(tt);
    return s;
}
void spv_free(struct sp**s,size_t d){for(size_t i=0;i<d;i++)sp_free(s[i]);free(s);}
void spv_x(struct sp**s,size_t d,double*x){for(size_t i=0;i<d;i++)x[i]=sp_x(s[i]);}
struct MultiApproxOpts *spv_mopts(struct sp**s,size_t d){struct MultiApproxOpts*m=multi_approx_opts_alloc(d);for(size_t i=0;i<d;i++)multi_approx_opts_set_dim(m,i,s[i]->o);return m;}
struct mft *mft_rand(struct sp**sp,size_t d,size_t maxr){
    struct mft*f=malloc(sizeof*f);f->d=d;f->sp=sp;f->r=malloc((d+1)*sizeof(size_t));f->f=malloc(d*sizeof*f->f);
    f->r[0]=f->r[d]=1;for(size_t i=1;i<d;i++)f->r[i]=vr_int(1,maxr);
    if(maxr>2&&d>1&&vr_chance(0.08))f->r[vr_int(1,d-1)]=vr_int(1,maxr>MR?maxr:MR); /* one large rank */
    for(size_t i=0;i<d;i++){f->f[i]=malloc(f->r[i]*f->r[i+1]*sizeof(struct m1));for(size_t j=0;j<f->r[i]*f->r[i+1];j++)f->f[i][j]=m1_rand(sp[i]);}
    return f;
}
void mft_free(struct mft*f){for(size_t i=0;i<f->d;i++){for(size_t j=0;j<f->r[i]*f->r[i+1];j++)m1_free(&f->f[i][j]);free(f->f[i]);}free(f->f);free(f->r);free(f);}
struct FunctionTrain *mft_ft(const struct mft*f){
    struct FunctionTrain*ft=function_train_alloc(f->d);
    for(size_t i=0;i<=f->d;i++)ft->ranks[i]=f->r[i];
    for(size_t i=0;i<f->d;i++){ft->cores[i]=qmarray_alloc(f->r[i],f->r[i+1]);for(size_t j=0;j<f->r[i]*f->r[i+1];j++)ft->cores[i]->funcs[j]=m1_gf(&f->f[i][j]);}
    return ft;
}
static double mft_ev(const struct mft*f,const double*x,int ab,long der){
    size_t mr=1;for(size_t i=0;i<=f->d;i++)if(f->r[i]>mr)mr=f->r[i];
    double*v=calloc(mr,sizeof(double)),*w=calloc(mr,sizeof(double));v[0]=1;
    for(size_t k=0;k<f->d;k++){
        for(size_t j=0;j<f->r[k+1];j++){w[j]=0;for(size_t i=0;i<f->r[k];i++){const struct m1*m=&f->f[k][j*f->r[k]+i];double e=ab?m1_mag(m,x[k]):((long)k==der?m1_deriv(m,x[k]):m1_eval(m,x[k]));w[j]+=v[i]*e;}}
        double*t=v;v=w;w=t;
    }
    double out=v[0];free(v);free(w);return out;
}
double mft_eval(const struct mft*f,const double*x){return mft_ev(f,x,0,-1);}
double mft_mag(const struct mft*f,const double*x){return mft_ev(f,x,1,-1);}
double mft_grad(const struct mft*f,const double*x,size_t k){return mft_ev(f,x,0,(long)k);}
void ft_wellformed(const char*key,const struct FunctionTrain*ft,size_t d){
    if(!TRUE_(key,ft!=NULL))return;
    EQZ(key,ft->dim,d);EQZ(key,ft->ranks[0],1);EQZ(key,ft->ranks[d],1);
    for(size_t i=0;i<d;i++){
        if(!TRUE_(key,ft->cores[i]!=NULL))return;
        EQZ(key,ft->cores[i]->nrows,ft->ranks[i]);EQZ(key,ft->cores[i]->ncols,ft->ranks[i+1]);
        for(size_t j=0;j<ft->ranks[i]*ft->ranks[i+1];j++)TRUE_(key,ft->cores[i]->funcs[j]!=NULL&&ft->cores[i]->funcs[j]->f!=NULL);
    }
}
double ft_eval_ref(const struct FunctionTrain*f,const double*x,double*mag){
    size_t mr=1;for(size_t i=0;i<=f->dim;i++)if(f->ranks[i]>mr)mr=f->ranks[i];
    double*v=calloc(4*mr,sizeof(double)),*w=v+mr,*va=v+2*mr,*wa=v+3*mr;void*base=v;v[0]=va[0]=1;
    for(size_t k=0;k<f->dim;k++){
        for(size_t j=0;j<f->ranks[k+1];j++){w[j]=wa[j]=0;for(size_t i=0;i<f->ranks[k];i++){double e=generic_function_1d_eval(f->cores[k]->funcs[j*f->ranks[k]+i],x[k]);w[j]+=v[i]*e;wa[j]+=va[i]*fabs(e);}}
        double*t=v;v=w;w=t;t=va;va=wa;wa=t;
    }
    double out=v[0];if(mag)*mag=va[0];free(base);return out;
}

/* ------------------------------------------------------------ full-grid reference */
extern void dstev_(char*,int*,double*,double*,double*,int*,double*,int*);
static void ghermite(size_t n,double*x,double*w){ /* probabilists' weight, total mass 1 */
    int N=(int)n,info;double*e=calloc(n+1,8),*z=calloc(n*n,8),*wk=calloc(2*n+2,8);
    for(size_t i=0;i<n;i++){x[i]=0;e[i]=sqrt((double)(i+1));}
    dstev_("V",&N,x,e,z,&N,wk,&info);
    for(size_t i=0;i<n;i++)w[i]=z[i*n]*z[i*n];
    free(e);free(z);free(wk);
}
struct rule *rules_make(struct sp**sp,size_t d,size_t extra){
    struct rule*r=calloc(d,sizeof*r);
    for(size_t k=0;k<d;k++){
        struct sp*s=sp[k];size_t n;
        switch(s->t){
        case T_LIN: case T_CONST:
            n=s->n;r[k].n=n;r[k].x=malloc(n*8);r[k].w=malloc(n*8);
            for(size_t i=0;i<n;i++){double l=i?0.5*(s->x[i]+s->x[i-1]):s->lb,u=i+1<n?0.5*(s->x[i]+s->x[i+1]):s->ub;r[k].x[i]=s->x[i];r[k].w[i]=u-l;}
            break;
        case T_PW: {size_t g=s->maxn+extra+1;double*w,*x=gl_nodes(g,&w);n=g*(s->n-1);r[k].n=n;r[k].x=malloc(n*8);r[k].w=malloc(n*8);
            for(size_t p=0;p+1<s->n;p++)for(size_t i=0;i<g;i++){double h=s->x[p+1]-s->x[p];r[k].x[p*g+i]=s->x[p]+h*0.5*(1+x[i]);r[k].w[p*g+i]=0.5*h*w[i];}
            free(x);free(w);break;}
        case T_HERM: n=s->maxn+extra+1;r[k].n=n;r[k].x=malloc(n*8);r[k].w=malloc(n*8);ghermite(n,r[k].x,r[k].w);break;
        case T_FOUR: n=4*s->maxn+5;r[k].n=n;r[k].x=malloc(n*8);r[k].w=malloc(n*8);
            for(size_t i=0;i<n;i++){r[k].x[i]=s->lb+(s->ub-s->lb)*(i+0.5)/n;r[k].w[i]=(s->ub-s->lb)/n;}break;
        default: {n=s->t==T_KER?40:s->maxn+extra+1;double*w,*x=gl_nodes(n,&w);r[k].n=n;r[k].x=x;r[k].w=w;
            for(size_t i=0;i<n;i++){x[i]=s->lb+(s->ub-s->lb)*0.5*(1+x[i]);w[i]*=0.5*(s->ub-s->lb);}}
        }
    }
    return r;
}
void rules_free(struct rule*r,size_t d){for(size_t k=0;k<d;k++){free(r[k].x);free(r[k].w);}free(r);}
size_t rules_size(const struct rule*r,size_t d){size_t n=1;for(size_t k=0;k<d;k++)n*=r[k].n;return n;}
static double *full_(size_t d,const size_t*ranks,const struct rule*r,double(*g)(const void*,size_t,size_t,double),const void*ctx){
    /* T: npts x rank */
    double*T=malloc(8);T[0]=1;size_t np=1;
    for(size_t k=0;k<d;k++){
        size_t r0=ranks[k],r1=ranks[k+1],n=r[k].n;
        double*C=malloc(n*r0*r1*8);
        for(size_t q=0;q<n;q++)for(size_t j=0;j<r0*r1;j++)C[q*r0*r1+j]=g(ctx,k,j,r[k].x[q]);
        double*N=calloc(np*n*r1,8);
        for(size_t j=0;j<r1;j++)for(size_t q=0;q<n;q++)for(size_t i=0;i<r0;i++){double c=C[q*r0*r1+j*r0+i];double*o=N+(j*n+q)*np,*t=T+i*np;for(size_t p=0;p<np;p++)o[p]+=c*t[p];}
        free(C);free(T);T=N;np*=n;
    }
    return T;
}
static double g_ft(const void*c,size_t k,size_t j,double x){const struct FunctionTrain*f=c;return generic_function_1d_eval(f->cores[k]->funcs[j],x);}
static double g_mft(const void*c,size_t k,size_t j,double x){const struct mft*f=c;return m1_eval(&f->f[k][j],x);}
double *ft_full(const struct FunctionTrain*ft,const struct rule*r){return full_(ft->dim,ft->ranks,r,g_ft,ft);}
double *mft_full(const struct mft*f,const struct rule*r){return full_(f->d,f->r,r,g_mft,f);}
double full_inner(const double*a,const double*b,const struct rule*r,size_t d,double*av){
    size_t n=rules_size(r,d);double s=0,sa=0;
    for(size_t p=0;p<n;p++){size_t t=p;double w=1;for(size_t k=0;k<d;k++){w*=r[k].w[t%r[k].n];t/=r[k].n;}double v=w*a[p]*(b?b[p]:1);s+=v;sa+=fabs(v);}
    if(av)*av=sa;return s;
}
double full_norm(const double*t,const struct rule*r,size_t d){return sqrt(fabs(full_inner(t,t,r,d,NULL)));}
double full_diffnorm(const double*a,const double*b,const struct rule*r,size_t d){size_t n=rules_size(r,d);double*c=malloc(n*8);for(size_t i=0;i<n;i++)c[i]=a[i]-b[i];double o=full_norm(c,r,d);free(c);return o;}

extern void dsyev_(char*,char*,int*,double*,int*,double*,double*,int*,int*);
size_t full_tails(const double*t,const struct rule*r,size_t d,size_t k,double**tail){
    size_t m=1,n=1;for(size_t i=0;i<k;i++)m*=r[i].n;for(size_t i=k;i<d;i++)n*=r[i].n;
    size_t N=m*n;double*a=malloc(N*8);
    for(size_t p=0;p<N;p++){size_t q=p;double w=1;for(size_t i=0;i<d;i++){w*=r[i].w[q%r[i].n];q/=r[i].n;}a[p]=t[p]*sqrt(fabs(w));}
    size_t s=m<n?m:n;double*g=calloc(s*s,8);
    for(size_t i=0;i<s;i++)for(size_t j=0;j<=i;j++){double v=0;if(m<n)for(size_t q=0;q<n;q++)v+=a[i+q*m]*a[j+q*m];else for(size_t q=0;q<m;q++)v+=a[q+i*m]*a[q+j*m];g[i+j*s]=g[j+i*s]=v;}
    double*w=malloc(s*8);int info,si=(int)s,lw=(int)(8*s+64);double*wk=malloc(lw*8);
    dsyev_("N","U",&si,g,&si,w,wk,&lw,&info);
    *tail=calloc(s+1,8);double sum=0;for(size_t i=0;i<s;i++){sum+=w[i]>0?w[i]:0;(*tail)[s-1-i]=sum;}
    free(a);free(g);free(w);free(wk);return s;
}
