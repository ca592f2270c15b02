/* Regression monitors. The optimizer entry point is wrapped at link time: whenever the library starts a minimisation, the
   monitor probes the objective it handed over (value, gradient, with and without gradient, batch or per sample) against an
   independent model of the parameterised function train, and checks the point the optimizer returned. */
#include "model.h"
#include "lib_optimization.h"
#include "learning_options.h"
#include "parameterization.h"
#include "superlearn_util.h"
#include "objective_functions.h"
#include "superlearn.h"
#include "regress.h"
#define NMAX 40
#define DMAX 10
struct lc{size_t d,r[DMAX+1];struct sp**s;int ad[DMAX];size_t np[DMAX],off[DMAX+1],n;   /* np: parameters per univariate function; off: start of a core */
    size_t N;double*x,*y;const double*w;int type,obj,kr;double reg;
    struct FTparam*ftp;struct RegressOpts*ro;int sgd;size_t events,probes;int active;double first,last;};
static int(*real_hook)(struct c3Opt*,double*,double*)=NULL;
static __thread struct lc*C;
int __real_c3opt_minimize(struct c3Opt*,double*,double*);
int __wrap_c3opt_minimize(struct c3Opt*o,double*x,double*v);
/* ---- independent model ---- */
static double u_ev(const struct lc*c,size_t k,const double*p,double x,double*mag){
    struct sp t=*c->s[k];struct m1 m={&t,t.maxn,(double*)p,NULL};if(c->ad[k])t.x=(double*)p+t.n;
    double v=m1_eval(&m,x),g=m1_mag(&m,x);
    if(c->kr){double q=0;for(size_t j=0;j<t.maxn;j++){double*e=calloc(t.maxn,8);e[j]=1;struct m1 b={&t,t.maxn,e,NULL};double z=m1_eval(&b,x);q+=z*z;free(e);}
        q=sqrt(q/(double)t.maxn);v/=q;g/=q;}
    *mag=g;return v;}
static double f_ev(const struct lc*c,const double*p,const double*x,double*mag){
    double L[12]={1},M[12]={1},L2[12],M2[12];
    for(size_t k=0;k<c->d;k++){const double*q=p+c->off[k];
        for(size_t j=0;j<c->r[k+1];j++){L2[j]=M2[j]=0;for(size_t i=0;i<c->r[k];i++){double g,v=u_ev(c,k,q,x[k],&g);L2[j]+=L[i]*v;M2[j]+=M[i]*g;q+=c->np[k];}}
        memcpy(L,L2,sizeof L);memcpy(M,M2,sizeof M);}
    *mag=M[0];return L[0];}
static double kweight(const struct lc*c,const double*x){double w=1;for(size_t k=0;k<c->d;k++){size_t n=c->s[k]->maxn;double q=0;for(size_t j=0;j<n;j++){double*e=calloc(n,8);e[j]=1;struct m1 b={c->s[k],n,e,NULL};double z=m1_eval(&b,x[k]);q+=z*z;free(e);}w*=sqrt(q/(double)n);}return w;}
/* objective: mean weighted squared misfit (all samples or one) + 0.5*reg*sum of squared norms of the univariate functions of the active cores */
static double objv(const struct lc*c,const double*p,long one,double*mag){
    double s=0,m=0;
    for(size_t i=0;i<c->N;i++){if(one>=0&&(size_t)one!=i)continue;double g,v=f_ev(c,p,c->x+i*c->d,&g),y=c->y[i];if(c->kr)y/=kweight(c,c->x+i*c->d);
        double w=c->w?c->w[i]:1;s+=w*(y-v)*(y-v);m+=fabs(w)*(fabs(y)+g)*(fabs(y)+g);}
    if(one<0){s/=(double)c->N;m/=(double)c->N;}
    if(c->obj==FTLS_SPARSEL2)for(size_t k=0;k<c->d;k++){if(c->active>=0&&(size_t)c->active!=k)continue;
        for(const double*q=p+c->off[k];q<p+c->off[k+1];q+=c->np[k]){struct m1 a={c->s[k],c->s[k]->maxn,(double*)q,NULL};double n2=m1_inner(&a,&a),q2=0;for(size_t j=0;j<c->np[k];j++)q2+=q[j]*q[j];
            s+=0.5*c->reg*n2;m+=0.5*c->reg*(n2+(c->s[k]->t==T_CHEB?1e4*q2+1e3:0));}}
    *mag=m;return s;}
static double dobj(const struct lc*c,double*p,size_t j,long one,double*tol){
    double o=p[j],mp,mm;size_t k=0;while(j>=c->off[k+1])k++;
    if(c->ad[k]&&(j-c->off[k])%c->np[k]>=c->s[k]->n){ /* a kernel centre: nonlinear */
        double h=1e-3*c->s[k]->width,D[2];for(int l=0;l<2;l++){p[j]=o+h;double a=objv(c,p,one,&mp);p[j]=o-h;double b=objv(c,p,one,&mm);D[l]=(a-b)/(2*h);h/=2;}p[j]=o;
        *tol=1e-6*(mp+mm)/c->s[k]->width;return (4*D[1]-D[0])/3;}
    p[j]=o+1;double a=objv(c,p,one,&mp);p[j]=o-1;double b=objv(c,p,one,&mm);p[j]=o;*tol=1e-11*(mp+mm);return (a-b)/2;}
/* full parameter vector with the vector under optimization substituted */
static double*fullp(const struct lc*c,const double*v){double*p=malloc(c->n*8);
    if(c->active<0)memcpy(p,v,c->n*8);else{memcpy(p,c->ftp->params,c->n*8);memcpy(p+c->off[c->active],v,(c->off[c->active+1]-c->off[c->active])*8);}
    return p;}
static int hook(struct c3Opt*o,double*x,double*val){
    struct lc*c=C;c->active=c->type==ALS?(int)c->ro->als_active_core:-1;c->events++;
    size_t nv=c->active<0?c->n:c->off[c->active+1]-c->off[c->active],base=c->active<0?0:c->off[c->active];
    TRUE_("regress-guess",memcmp(x,c->ftp->params+base,nv*8)==0||c->active<0);
    double m0,*p0=fullp(c,x),F0=objv(c,p0,-1,&m0);free(p0);
    if(c->events<=6){ /* probe the objective */
        c->probes++;double*v=malloc(nv*8),*g=malloc(nv*8);for(size_t i=0;i<nv;i++)v[i]=x[i]+vr_norm()*0.5;
        double*p=fullp(c,v),m,t;long one=-1;double F,f,f0;
        if(c->sgd){one=(long)vr_int(0,c->N-1);F=objv(c,p,one,&m);f=c3opt_eval_stoch(o,(size_t)one,v,g);f0=c3opt_eval_stoch(o,(size_t)one,v,NULL);}
        else{F=objv(c,p,-1,&m);if(vr_chance(0.5)){f=c3opt_eval(o,v,g);f0=c3opt_eval(o,v,NULL);}else{f0=c3opt_eval(o,v,NULL);f=c3opt_eval(o,v,g);}}
        CLOSE("objective-value",f,F,1e-10*m);CLOSE("objective-value-nograd",f0,F,1e-10*m);
        for(int l=0;l<8;l++){size_t j=vr_int(0,nv-1);double w=dobj(c,p,base+j,one,&t);CLOSE("objective-gradient",g[j],w,t+1e-9*m);}
        free(v);free(g);free(p);
    }
    int r=__real_c3opt_minimize(o,x,val);
    double*p1=fullp(c,x),m1,F1=objv(c,p1,-1,&m1);free(p1);
    if(!c->sgd){if(!TRUE_("regress-descends",F1<=F0+1e-9*(m0+m1)+1e-18))vh_fail("regress-descends-detail","%.17g -> %.17g mag %g %g ret %d",F0,F1,m0,m1,r);CLOSE("regress-reported",*val,F1,1e-9*m1);}
    if(c->events==1)c->first=F0;c->last=F1;
    return r;}
int __wrap_c3opt_minimize(struct c3Opt*o,double*x,double*v){return real_hook?real_hook(o,x,v):__real_c3opt_minimize(o,x,v);}

/* ---- generation ---- */
static unsigned lc_types(int obj,int kr){return kr?M(T_LEG):M(T_LIN)|M(T_KER)|M(T_LEG)|M(T_HERM)|M(T_CHEB)|(obj==FTLS?M(T_CONST):0);}
static struct MultiApproxOpts*lc_gen(struct lc*c,size_t dmin_,size_t dmax_,int kr,int obj,int adapt){
    memset(c,0,sizeof*c);c->d=dmin_==dmax_?dmin_:(size_t)vr_big(dmin_,dmax_,dmax_+4);c->kr=kr;c->obj=obj;
    c->s=malloc(c->d*sizeof(void*));int same=vr_chance(0.4);unsigned ty=lc_types(obj,kr);
    struct sp*f=sp_rand(adapt?M(T_KER):ty);if(f->n>9){sp_free(f);f=sp_make(kr?T_LEG:T_LIN,-1,2,vr_int(2,8));}
    c->s[0]=f;for(size_t k=1;k<c->d;k++){c->s[k]=same?sp_make(f->t,f->lb,f->ub,f->t==T_HERM?vr_int(1,5):f->n):sp_rand(adapt&&vr_chance(0.5)?M(T_KER):ty);if(c->s[k]->n>9){sp_free(c->s[k]);c->s[k]=sp_make(kr?T_LEG:T_LIN,0,1,vr_int(2,8));}}
    if(adapt)for(size_t k=0;k<c->d;k++)if(c->s[k]->t==T_KER&&(k==0||vr_chance(0.7))){c->ad[k]=1;kernel_approx_opts_set_center_adapt(c->s[k]->aopts,1);}
    c->r[0]=c->r[c->d]=1;for(size_t k=1;k<c->d;k++)c->r[k]=vr_int(1,c->d>5?3:4);if(c->d>1&&vr_chance(0.1))c->r[vr_int(1,c->d-1)]=vr_int(5,9);
    for(size_t k=0;k<c->d;k++){c->np[k]=c->ad[k]?2*c->s[k]->n:c->s[k]->maxn;c->off[k+1]=c->off[k]+c->np[k]*c->r[k]*c->r[k+1];}
    c->n=c->off[c->d];
    c->N=vr_chance(0.2)?vr_int(1,4):vr_int(5,NMAX);c->x=malloc(c->N*c->d*8);c->y=malloc(c->N*8);
    for(size_t i=0;i<c->N;i++){spv_x(c->s,c->d,c->x+i*c->d);double t=0;for(size_t k=0;k<c->d;k++)t+=c->x[i*c->d+k]/(1+fabs(c->s[k]->ub));c->y[i]=sin(t)+0.2*vr_norm();}
    if(vr_chance(0.3)){double*w=malloc(c->N*8);for(size_t i=0;i<c->N;i++)w[i]=vr_unif(0.1,3);if(vr_chance(0.3))w[0]=0;c->w=w;}
    return spv_mopts(c->s,c->d);}
static double*lc_par(const struct lc*c,double sc){double*p=malloc(c->n*8);
    for(size_t k=0;k<c->d;k++)for(size_t j=c->off[k];j<c->off[k+1];j++){size_t e=(j-c->off[k])%c->np[k];p[j]=c->ad[k]&&e>=c->s[k]->n?c->s[k]->x[e-c->s[k]->n]+0.05*(c->s[k]->ub-c->s[k]->lb)*vr_norm():sc*vr_norm();}
    return p;}
static void lc_done(struct lc*c,struct MultiApproxOpts*mo){free(c->x);free(c->y);free((void*)c->w);multi_approx_opts_free(mo);spv_free(c->s,c->d);}
static const char*lc_desc(const struct lc*c){static __thread char b[128];b[0]=0;for(size_t k=0;k<c->d;k++){strcat(b,tname[c->s[k]->t]);if(c->ad[k])strcat(b,"*");if(k+1<c->d)strcat(b,",");}return b;}
static struct c3Opt*lc_opt(struct lc*c,double*p,int alg,size_t mi){
    struct c3Opt*o=c3opt_create((enum c3opt_alg)alg);c3opt_set_maxiter(o,mi);c3opt_set_gtol(o,1e-7);c3opt_set_relftol(o,1e-9);c3opt_set_absxtol(o,1e-12);
    if(alg==SGD){ /* a rate far below the inverse curvature, so that the plain iteration cannot diverge */
        double Lm=1;for(size_t i=0;i<c->N;i++){double L=0,m;for(size_t j=0;j<c->n;j++){double q=p[j];p[j]=q+1e-3;double a=f_ev(c,p,c->x+i*c->d,&m);p[j]=q-1e-3;double b=f_ev(c,p,c->x+i*c->d,&m);p[j]=q;L+=(a-b)*(a-b)*2.5e5;}
            if(c->w)L*=c->w[i];Lm=dmax(Lm,L);}
        double dom=1;for(size_t k=0;k<c->d;k++)dom=dmax(dom,c->s[k]->ub-c->s[k]->lb);
        c3opt_set_sgd_nsamples(o,c->N);c3opt_set_sgd_learn_rate(o,1e-4/(Lm+c->reg*dom*10));}
    else if(vr_chance(0.4))c3opt_ls_set_alg(o,(enum c3opt_ls_alg)vr_int(0,2));
    return o;}

CASE(learn_fit,"P16 P15",60,1200,VH_SLOW){
    struct lc c;int ad=vr_chance(0.2),kr=!ad&&vr_chance(0.1),type=vr_chance(0.5)?AIO:ALS,obj=(!ad&&!kr&&vr_chance(0.45))?FTLS_SPARSEL2:FTLS;
    if(kr||ad)type=AIO; /* alternating sweeps need a norm, not available for moving centres */
    struct MultiApproxOpts*mo=lc_gen(&c,2,type==AIO?4:5,kr,obj,ad);c.type=type;c.reg=pow(10,vr_unif(-4,1));
    int alg=c.N>1&&vr_chance(0.2)?SGD:(int)vr_int(0,2);c.sgd=alg==SGD;size_t mi=vr_int(1,c.sgd?4:15);
    vh_sig("%s %s alg%d N%zu d%zu %s w%d k%d",type==AIO?"aio":"als",obj==FTLS?"ls":"sparse",alg,c.N,c.d,lc_desc(&c),c.w!=NULL,kr);
    double*p=lc_par(&c,0.7);c.ftp=ft_param_alloc(c.d,mo,p,c.r);
    c.ro=regress_opts_create(c.d,type,obj);regress_opts_set_regularization_weight(c.ro,c.reg);regress_opts_set_sample_weights(c.ro,c.w);
    regress_opts_set_max_als_sweep(c.ro,vr_int(1,2));regress_opts_set_als_conv_tol(c.ro,1e-8);regress_opts_set_kristoffel(c.ro,kr);
    struct c3Opt*o=lc_opt(&c,p,alg,mi);int store=!c.sgd&&vr_chance(0.4);if(store)c3opt_set_storage_options(o,1,0,0);
    int reps=(int)vr_int(1,2);double*y0=malloc(c.N*8);memcpy(y0,c.y,c.N*8);
    for(int rep=0;rep<reps;rep++){
        double m0,m1;c.active=-1;double F0=objv(&c,c.ftp->params,-1,&m0);c.events=0;
        C=&c;real_hook=hook;struct FunctionTrain*ft=c3_regression_run(c.ftp,c.ro,o,c.N,c.x,c.y);real_hook=NULL;
        TRUE_("regress-ran",c.events>0);
        c.active=-1;double F1=objv(&c,c.ftp->params,-1,&m1);
        if(!c.sgd)TRUE_("fit-not-worse",F1<=F0+1e-9*(m0+m1)+1e-18);
        c.kr=0;for(int t=0;t<3;t++){const double*xx=c.x+vr_int(0,c.N-1)*c.d;double g,v=f_ev(&c,c.ftp->params,xx,&g);CLOSE("fit-result",function_train_eval(ft,xx),v,1e-9*g);CLOSE("fit-parameters",function_train_eval(c.ftp->ft,xx),v,1e-9*g);}c.kr=kr;
        if(store&&type==ALS){size_t ne=regress_opts_get_nepochs(c.ro);TRUE_("als-history",ne>0);double*h=regress_opts_get_stored_fvals(c.ro);for(size_t i=0;i<ne;i++)TRUE_("als-history-values",h[i]>=-1e-12&&h[i]<1e300);CLOSE("als-history-end",h[ne-1]>=0?0:h[ne-1],0,0);}
        vh_obs(F1);vh_obs((double)c.events);
        function_train_free(ft);
    }
    SAMEBYTES("data-unchanged",y0,c.y,c.N*8);free(y0);
    vh_hit(type==AIO?"fit-aio":"fit-als");
    c3opt_free(o);regress_opts_free(c.ro);ft_param_free(c.ftp);free(p);lc_done(&c,mo);
}
/* alternating sweeps: the sweep limit and the convergence threshold decide how many one-core problems are solved, the cores
   are visited in order, and the stored history is the concatenation of the histories of these problems */
static __thread struct{size_t n,nh;int core[400];double h[20000];struct RegressOpts*ro;struct FTparam*ftp;int store;double val;}AL;
static int als_hook(struct c3Opt*o,double*x,double*val){
    if(AL.n<400)AL.core[AL.n]=(int)AL.ro->als_active_core;AL.n++;
    int r=__real_c3opt_minimize(o,x,val);AL.val=*val;
    if(AL.store)for(size_t i=0;i<c3opt_get_niters(o);i++)if(AL.nh<20000)AL.h[AL.nh++]=c3opt_get_stored_function(o,i);
    return r;}
CASE(learn_als,"P16 P15",40,800,VH_SLOW){
    struct lc c;struct MultiApproxOpts*mo=lc_gen(&c,2,5,0,FTLS,0);c.type=ALS;vh_sig("d%zu N%zu %s w%d",c.d,c.N,lc_desc(&c),c.w!=NULL);
    double*p=lc_par(&c,0.7);size_t maxs=vr_int(1,4),one=0;
    for(int mode=0;mode<3;mode++){ /* 0: one sweep allowed, 1: never converged, 2: converged at once */
        c.ftp=ft_param_alloc(c.d,mo,p,c.r);c.ro=regress_opts_create(c.d,ALS,FTLS);regress_opts_set_sample_weights(c.ro,c.w);
        regress_opts_set_max_als_sweep(c.ro,mode==0?1:maxs);regress_opts_set_als_conv_tol(c.ro,mode==2?1e300:-1);
        struct c3Opt*o=c3opt_create(BFGS);c3opt_set_maxiter(o,vr_int(1,6));c3opt_set_gtol(o,1e-9);c3opt_set_absxtol(o,1e-13);c3opt_set_relftol(o,1e-12);AL.store=vr_chance(0.5);if(AL.store)c3opt_set_storage_options(o,1,0,0);
        AL.n=AL.nh=0;AL.ro=c.ro;AL.ftp=c.ftp;real_hook=als_hook;struct FunctionTrain*ft=c3_regression_run(c.ftp,c.ro,o,c.N,c.x,c.y);real_hook=NULL;
        if(mode==0)one=AL.n;
        double no=function_train_norm2(ft);
        int ch=0;for(size_t k=0;k<c.d;k++)ch|=c.s[k]->t==T_CHEB; /* Chebyshev norms carry noise */
        if(no>1e-8&&isfinite(no)&&!(ch&&mode==2))EQZ(mode==0?"als-one-sweep":mode==1?"als-sweeps":"als-converged",AL.n,mode==1?maxs*one:one);
        int seen[DMAX]={0};for(size_t i=0;i<AL.n&&i<400;i++){TRUE_("als-core",AL.core[i]>=0&&(size_t)AL.core[i]<c.d);seen[AL.core[i]]=1;}for(size_t k=0;k<c.d;k++)TRUE_("als-all-cores",seen[k]);
        if(AL.store&&AL.nh<20000){size_t ne=regress_opts_get_nepochs(c.ro);EQZ("als-history-length",ne,AL.nh);if(ne==AL.nh&&ne){SAMEBYTES("als-history",regress_opts_get_stored_fvals(c.ro),AL.h,8*ne);for(size_t i=1;i<ne;i++)TRUE_("als-history-descends",AL.h[i]<=AL.h[i-1]+1e-9*(1+fabs(AL.h[i-1])));}}
        c.active=-1;double m,F=objv(&c,c.ftp->params,-1,&m);CLOSE("als-final",AL.val,F,1e-9*m);
        function_train_free(ft);c3opt_free(o);regress_opts_free(c.ro);ft_param_free(c.ftp);
    }
    free(p);lc_done(&c,mo);
}
/* the parameterised function train on its own: every evaluation form, gradient, Hessian, parameter views */
CASE(learn_param,"P16 P14",90,1500,0){
    struct lc c;int ad=vr_chance(0.2),kr=!ad&&vr_chance(0.1);struct MultiApproxOpts*mo=lc_gen(&c,2,5,kr,FTLS,ad);c.active=-1;
    vh_sig("d%zu %s n%zu k%d",c.d,lc_desc(&c),c.n,kr);
    double*p=lc_par(&c,1);struct FTparam*f=ft_param_alloc(c.d,mo,vr_chance(0.7)?p:NULL,c.r);ft_param_update_params(f,p);c.ftp=f;
    EQZ("param-count",ft_param_get_nparams(f),c.n);EQZ("param-dim",ft_param_get_dim(f),c.d);
    for(size_t k=0;k<c.d;k++)EQZ("param-percore",ft_param_get_nparams_per_core(f)[k],c.off[k+1]-c.off[k]);
    double*q=malloc(c.n*8+80);EQZ("param-get",ft_param_get_params(f,c.n+7,q),c.n);SAMEBYTES("param-get-values",q,p,c.n*8);
    size_t fe=vr_int(1,c.n);memset(q,0,c.n*8);EQZ("param-get-few",ft_param_get_params(f,fe,q),fe);SAMEBYTES("param-get-few-values",q,p,fe*8);
    if(kr)function_train_activate_kristoffel(f->ft);
    double*g=malloc(c.n*8),*ge=malloc(c.n*8),*mem=malloc(2*c.n*8+1000),*ev=malloc(2*c.n*8+1000);
    enum FTPARAM_ST st=ft_param_extract_structure(f);int lin=1;for(size_t k=0;k<c.d;k++)if(c.ad[k])lin=0;TRUE_("structure",(st==LINEAR_ST)==lin);
    size_t i=vr_int(0,c.N-1);const double*x=c.x+i*c.d;double mg,v=f_ev(&c,p,x,&mg);
    for(size_t j=0;j<c.n;j++)g[j]=NAN;
    double e=ft_param_gradeval(f,x,g,ge,mem,ev);CLOSE("gradeval-value",e,v,1e-10*mg);CLOSE("param-eval",function_train_eval(f->ft,x),v,1e-10*mg);
    /* exact derivative: f is affine in every linear parameter */
    double*gr=malloc(c.n*8),*gt=malloc(c.n*8);for(size_t j=0;j<c.n;j++){double o=p[j],ma,mb;size_t k=0;while(j>=c.off[k+1])k++;
        int cen=c.ad[k]&&(j-c.off[k])%c.np[k]>=c.s[k]->n;double h=cen?1e-3*c.s[k]->width:1,D[2];
        for(int l=0;l<2;l++){p[j]=o+h;double a=f_ev(&c,p,x,&ma);p[j]=o-h;double b=f_ev(&c,p,x,&mb);D[l]=(a-b)/(2*h);h/=2;}
        p[j]=o;gr[j]=cen?(4*D[1]-D[0])/3:D[0];gt[j]=cen?1e-6*(ma+mb)/c.s[k]->width:1e-11*(ma+mb);
        CLOSE("gradeval-gradient",g[j],gr[j],gt[j]);}
    if(lin){struct SLMemManager*mm=sl_mem_manager_alloc(c.d,c.N,c.n,st);sl_mem_manager_check_structure(mm,f,c.x);
        double*lv=sl_mem_manager_get_lin_structure_vals(mm)+i*c.n;
        CLOSE("eval-lin",ft_param_eval_lin(f,lv,mem),v,1e-10*mg);for(size_t j=0;j<c.n;j++)g[j]=NAN;
        CLOSE("gradeval-lin",ft_param_gradeval_lin(f,lv,g,mem,ev),v,1e-10*mg);for(size_t j=0;j<c.n;j++)CLOSE("gradeval-lin-gradient",g[j],gr[j],gt[j]);
        sl_mem_manager_free(mm);}
    /* the same, one core at a time, with running products from both sides */
    {double*lr[DMAX+1],*rl[DMAX+1],ce[128];for(size_t k=0;k<c.d;k++){lr[k]=calloc(12,8);rl[k]=calloc(12,8);}
        struct SLMemManager*mm=NULL;double*lv=NULL;if(lin&&vr_chance(0.5)){mm=sl_mem_manager_alloc(c.d,c.N,c.n,st);sl_mem_manager_check_structure(mm,f,c.x);lv=sl_mem_manager_get_lin_structure_vals(mm)+i*c.n;}
        for(size_t k=c.d-1;k>0;k--){if(lv)process_sweep_right_left_lin(f,k,lv,k+1<c.d?rl[k+1]:NULL,rl[k]);else process_sweep_right_left(f,k,x[k],ce,k+1<c.d?rl[k+1]:NULL,rl[k]);}
        for(size_t k=0;k+1<c.d;k++){if(lv)process_sweep_left_right_lin(f,k,lv,k?lr[k-1]:NULL,lr[k]);else process_sweep_left_right(f,k,x[k],ce,k?lr[k-1]:NULL,lr[k]);}
        for(size_t k=0;k<c.d;k++){double*L=k?lr[k-1]:NULL,*R=k+1<c.d?rl[k+1]:NULL;for(size_t j=0;j<c.n;j++)g[j]=NAN;double vv;
            if(lv){vv=ft_param_core_eval_lin(f,k,L,R,lv);CLOSE("core-eval-lin",vv,v,1e-10*mg);vv=ft_param_core_gradeval_lin(f,k,g,L,R,lv);}
            else vv=ft_param_core_gradeval(f,k,x[k],g,L,R,ge);
            CLOSE("core-gradeval",vv,v,1e-10*mg);for(size_t j=c.off[k];j<c.off[k+1];j++)CLOSE("core-gradient",g[j-c.off[k]],gr[j],gt[j]);}
        sl_mem_manager_free(mm);for(size_t k=0;k<c.d;k++){free(lr[k]);free(rl[k]);}}
    {size_t nb=vr_int(1,c.N);double*G=malloc(nb*c.n*8);ft_param_gradevals(f,nb,c.x,G,ge,mem,ev);size_t b=vr_int(0,nb-1);ft_param_gradeval(f,c.x+b*c.d,g,ge,mem,ev);{double gm=0;for(size_t z=0;z<c.n;z++)gm=fmax(gm,fabs(g[z]));for(size_t z=0;z<c.n;z++)CLOSE("gradevals",G[b*c.n+z],g[z],1e-12*(fabs(g[z])+1e-3*gm));};free(G);}
    if(lin&&!kr){ /* Hessian times vector: derivative of the gradient along the vector */
        double*vv=vh_dvec(c.n),*hv=malloc(c.n*8),*P=malloc(c.n*8);CLOSE("hessvec-value",ft_param_hessvec(f,x,vv,hv),v,1e-10*mg);
        static const double co[6]={0,5.0/6,-5.0/21,5.0/84,-5.0/504,1.0/1260};size_t jj[4];double want[4]={0},sc[4]={0};for(int l=0;l<4;l++)jj[l]=vr_int(0,c.n-1);
        for(int t=-5;t<=5;t++){double cw=t<0?-co[-t]:co[t];for(size_t j=0;j<c.n;j++)P[j]=p[j]+0.5*t*vv[j];
            for(int l=0;l<4;l++){double ma,mb,o=P[jj[l]];P[jj[l]]=o+1;double a=f_ev(&c,P,x,&ma);P[jj[l]]=o-1;double b=f_ev(&c,P,x,&mb);P[jj[l]]=o;want[l]+=cw*(a-b);sc[l]+=fabs(cw)*(ma+mb);}}
        for(int l=0;l<4;l++)CLOSE("hessvec",hv[jj[l]],want[l],1e-10*sc[l]);
        free(vv);free(hv);free(P);}
    if(kr)function_train_deactivate_kristoffel(f->ft);
    c.kr=0;
    /* partial updates */
    size_t k=vr_int(0,c.d-1);double*pc=lc_par(&c,1);ft_param_update_core_params(f,k,pc+c.off[k]);memcpy(p+c.off[k],pc+c.off[k],(c.off[k+1]-c.off[k])*8);
    SAMEBYTES("core-update",ft_param_get_params_ref(f),p,c.n*8);v=f_ev(&c,p,x,&mg);CLOSE("core-update-eval",function_train_eval(f->ft,x),v,1e-10*mg);
    size_t rs[DMAX];for(size_t z=0;z<c.d;z++)rs[z]=vr_int(0,4);
    size_t nr=0,onr=0,oni=0;double*in=malloc(c.n*8),*out=malloc(c.n*8);
    for(size_t z=0;z<c.d;z++)for(size_t b=0;b<c.r[z+1];b++)for(size_t a=0;a<c.r[z];a++){int o=(b>=rs[z])||(z>0&&a>=rs[z-1]);
        double*dst=p+c.off[z]+(b*c.r[z]+a)*c.np[z],*src=pc+c.off[z]+(b*c.r[z]+a)*c.np[z];for(size_t l=0;l<c.np[z];l++){double nvl=src[l]+(c.ad[z]?0:1);dst[l]=nvl;if(o)out[onr++]=nvl;else in[oni++]=nvl;}if(o)nr+=c.np[z];}
    EQZ("restricted-count",ft_param_get_nparams_restrict(f,rs),nr);
    if(vr_chance(0.5)){ft_param_update_restricted_ranks(f,out,rs);ft_param_update_inside_restricted_ranks(f,in,rs);}else{ft_param_update_inside_restricted_ranks(f,in,rs);ft_param_update_restricted_ranks(f,out,rs);}
    SAMEBYTES("restricted-update",f->params,p,c.n*8);v=f_ev(&c,p,x,&mg);CLOSE("restricted-eval",function_train_eval(f->ft,x),v,1e-10*mg);
    {struct FTparam*cp=ft_param_copy(f);CLOSE("param-copy",function_train_eval(cp->ft,x),v,1e-10*mg);ft_param_update_params(f,pc);CLOSE("param-copy-independent",function_train_eval(cp->ft,x),v,1e-10*mg);SAMEBYTES("param-copy-values",cp->params,p,c.n*8);ft_param_free(cp);}
    {double*r=ft_param_get_params_ref(f);r[c.n-1]+=0.5;pc[c.n-1]+=0.5;ft_param_self_update_params(f);v=f_ev(&c,pc,x,&mg);CLOSE("self-update",function_train_eval(f->ft,x),v,1e-10*mg);CLOSE("get-one",ft_param_get_param(f,c.n-1),pc[c.n-1],0);}
    free(in);free(out);free(pc);free(q);free(g);free(ge);free(mem);free(ev);free(gr);free(gt);ft_param_free(f);free(p);lc_done(&c,mo);
}
/* initial guesses, wrapping of existing trains, gradient of inner products */
CASE(learn_init,"P16 P14",60,900,0){
    struct lc c;struct MultiApproxOpts*mo=lc_gen(&c,2,4,0,FTLS,0);c.active=-1;
    vh_sig("d%zu %s N%zu",c.d,lc_desc(&c),c.N);
    struct FTparam*f=ft_param_alloc(c.d,mo,NULL,c.r);
    int exact=1;for(size_t k=0;k<c.d;k++)if(c.s[k]->t==T_KER)exact=0;
    double val=vr_val();ft_param_create_constant(f,val,0.0);
    if(exact)for(int t=0;t<3;t++){double x[DMAX];spv_x(c.s,c.d,x);CLOSE("init-constant",function_train_eval(f->ft,x),val,1e-10*(fabs(val)+1));}
    int lin=1,big=c.N>c.d+2;for(size_t k=0;k<c.d;k++)if(c.s[k]->t==T_KER||c.s[k]->t==T_CONST||((c.s[k]->t==T_LEG||c.s[k]->t==T_CHEB||c.s[k]->t==T_HERM)&&c.s[k]->maxn<2))lin=0;for(size_t k=1;k<c.d;k++)if(c.r[k]<2)lin=0;
    if(lin&&big){ /* data on a plane: the start is that plane */
        double a[DMAX],b=vr_norm();for(size_t k=0;k<c.d;k++)a[k]=vr_norm();
        for(size_t i=0;i<c.N;i++){c.y[i]=b;for(size_t k=0;k<c.d;k++){c.x[i*c.d+k]=vr_unif(c.s[k]->lb,c.s[k]->ub);c.y[i]+=a[k]*c.x[i*c.d+k];}}
        unsigned sd=7;double*x0=malloc(c.N*c.d*8);memcpy(x0,c.x,c.N*c.d*8);
        ft_param_create_from_lin_ls(f,c.N,c.x,c.y,0.0,vr_chance(0.5)?&sd:NULL);SAMEBYTES("init-data",x0,c.x,c.N*c.d*8);free(x0);
        for(int t=0;t<3;t++){double x[DMAX],w=b,m=fabs(b);spv_x(c.s,c.d,x);for(size_t k=0;k<c.d;k++){w+=a[k]*x[k];m+=fabs(a[k])*(fabs(c.s[k]->lb)+fabs(c.s[k]->ub));}
            CLOSE("init-plane",function_train_eval(f->ft,x),w,1e-6*m);}
        vh_hit("init-plane");}
    ft_param_free(f);
    { /* wrap an existing train */
        struct mft*m=mft_rand(c.s,c.d,3);struct FunctionTrain*ft=mft_ft(m);double x[DMAX];spv_x(c.s,c.d,x);double w=mft_eval(m,x),mg=mft_mag(m,x);
        int nok=1;for(size_t k=0;k<c.d;k++)if(c.s[k]->t==T_LIN||c.s[k]->t==T_CONST||c.s[k]->t==T_KER){}(void)nok;
        struct FTparam*h=ft_param_alloc_with_ft(ft,mo);CLOSE("wrap-eval",function_train_eval(h->ft,x),w,1e-10*mg+1e-12);
        size_t tot=0;for(size_t k=0;k<c.d;k++)tot+=m->r[k]*m->r[k+1]*multi_approx_opts_get_dim_nparams(mo,k);EQZ("wrap-count",ft_param_get_nparams(h),tot);
        double*p=malloc(tot*8);ft_param_get_params(h,tot,p);ft_param_update_params(h,p);CLOSE("wrap-roundtrip",function_train_eval(h->ft,x),w,1e-10*mg+1e-12);
        int pol=1;for(size_t k=0;k<c.d;k++)if(!(M(c.s[k]->t)&(M(T_LEG)|M(T_HERM)|M(T_CHEB))))pol=0;
        if(pol){struct mft*mb=mft_rand(c.s,c.d,3);struct FunctionTrain*G=mft_ft(mb);double*g=malloc(tot*8),tol=0;for(size_t k=0;k<c.d;k++)if(c.s[k]->t==T_CHEB)tol=1e-6;
            double v=ft_param_grad_inner(h,G,g),in=function_train_inner(h->ft,G),sc=function_train_norm2(h->ft)*function_train_norm2(G);CLOSE("inner-value",v,in,1e-9*sc+tol*(1+sc));
            for(int l=0;l<6;l++){size_t j=vr_int(0,tot-1);double o=p[j];p[j]=o+1;ft_param_update_params(h,p);double a=function_train_inner(h->ft,G),na=function_train_norm2(h->ft);p[j]=o-1;ft_param_update_params(h,p);double b=function_train_inner(h->ft,G);p[j]=o;ft_param_update_params(h,p);
                CLOSE("inner-gradient",g[j],(a-b)/2,(1e-9+tol)*(na+1)*(function_train_norm2(G)+1)*10);}
            free(g);function_train_free(G);mft_free(mb);vh_hit("inner-gradient");}
        free(p);ft_param_free(h);mft_free(m);}
    lc_done(&c,mo);
}
/* the high-level interface: cross validation, grid search, rank adaptation */
static double ls_err(struct FunctionTrain*ft,size_t d,size_t n,const double*x,const double*y,double*nn){double e=0;for(size_t i=0;i<n;i++){double v=function_train_eval(ft,x+i*d);e+=(y[i]-v)*(y[i]-v);*nn+=y[i]*y[i];}return e;}
static double own_cv(struct lc*c,struct FTparam*start,struct RegressOpts*ro,struct c3Opt*o,size_t kf){
    size_t b=c->N/kf,s=0,d=c->d;double e=0,nn=0;
    for(size_t f=0;f<kf;f++){size_t n=f==kf-1?c->N-s:b;double*x=malloc((c->N+1)*d*8),*y=malloc((c->N+1)*8);size_t t=0;
        for(size_t i=0;i<c->N;i++)if(i<s||i>=s+n){memcpy(x+t*d,c->x+i*d,d*8);y[t++]=c->y[i];}
        struct FTparam*p=ft_param_copy(start);struct FunctionTrain*ft=c3_regression_run(p,ro,o,t,x,y);e+=ls_err(ft,d,n,c->x+s*d,c->y+s,&nn);
        function_train_free(ft);ft_param_free(p);free(x);free(y);s+=n;}
    return e/nn;}
CASE(learn_cv,"P16",30,500,VH_SLOW){
    struct lc c;int obj=vr_chance(0.4)?FTLS_SPARSEL2:FTLS;struct MultiApproxOpts*mo=lc_gen(&c,2,3,0,FTLS_SPARSEL2,0);c.obj=obj;free((void*)c.w);c.w=NULL;int type=vr_chance(0.5)?AIO:ALS;
    if(c.N<4)c.N=c.N; size_t kf=vr_int(2,5);if(kf>c.N)kf=c.N;if(kf<2){lc_done(&c,mo);return;}
    int alg=(int)vr_int(0,2);size_t mi=vr_int(1,4);c.reg=0.01;
    vh_sig("%d obj%d alg%d N%zu kf%zu d%zu %s",type,obj,alg,c.N,kf,c.d,lc_desc(&c));
    struct c3Opt*o=NULL;double*p=lc_par(&c,0.6);o=lc_opt(&c,p,alg,mi);
    struct FTRegress*R=ft_regress_alloc(c.d,mo,c.r);ft_regress_set_alg_and_obj(R,(enum REGTYPE)type,(enum REGOBJ)obj);ft_regress_set_regularization_weight(R,c.reg);ft_regress_set_max_als_sweep(R,1);ft_regress_set_seed(R,3);
    EQZ("regress-dim",ft_regress_get_dim(R),c.d);CLOSE("regress-weight",ft_regress_get_regularization_weight(R),c.reg,0);
    ft_regress_update_params(R,p);
    struct CrossValidate*cv=cross_validate_init(c.N,c.d,c.x,c.y,kf,0);
    struct FTparam*st=ft_param_alloc(c.d,mo,p,c.r);struct RegressOpts*ro=regress_opts_create(c.d,type,obj);regress_opts_set_regularization_weight(ro,c.reg);regress_opts_set_max_als_sweep(ro,1);
    double e=cross_validate_run(cv,R,o),w=own_cv(&c,st,ro,o,kf);
    CLOSE("cv-error",e,w,1e-9*fabs(w));
    size_t np;double*pp=ft_regress_get_params(R,&np);EQZ("cv-params-count",np,c.n);SAMEBYTES("cv-restores-start",pp,p,c.n*8);free(pp);
    /* the fit itself through the high-level call equals the low-level one */
    struct FunctionTrain*a=ft_regress_run(R,o,c.N,c.x,c.y),*b=c3_regression_run(st,ro,o,c.N,c.x,c.y);
    for(int t=0;t<3;t++){double x[DMAX];spv_x(c.s,c.d,x);double u=function_train_eval(a,x),v=function_train_eval(b,x);SAMEBYTES("run-same",&u,&v,8);}
    function_train_free(a);function_train_free(b);
    if(vr_chance(0.4)){ /* grid search keeps the best candidate */
        size_t nr=vr_int(2,3),rk[3]={1,2,3},best=0;double be=INFINITY;size_t swap=vr_int(0,2);if(swap<nr){size_t t=rk[0];rk[0]=rk[swap];rk[swap]=t;}
        for(size_t l=0;l<nr;l++){size_t q=nr-1-l;size_t rr[DMAX+1];rr[0]=rr[c.d]=1;for(size_t k=1;k<c.d;k++)rr[k]=rk[q];
            struct FTRegress*Q=ft_regress_alloc(c.d,mo,rr);ft_regress_set_alg_and_obj(Q,(enum REGTYPE)type,(enum REGOBJ)obj);ft_regress_set_regularization_weight(Q,c.reg);ft_regress_set_max_als_sweep(Q,1);ft_regress_set_seed(Q,3);
            double eq=cross_validate_run(cv,Q,o);if(eq<be*0.999999999){be=eq;best=rk[q];}ft_regress_free(Q);}
        struct CVOptGrid*G=cv_opt_grid_init(1);cv_opt_grid_set_verbose(G,0);cv_opt_grid_add_param(G,"rank",nr,rk);cross_validate_grid_opt(cv,G,R,o);
        size_t*fr=function_train_get_ranks(ft_param_get_ft(ft_regress_get_ft_param(R)));for(size_t k=1;k<c.d;k++)EQZ("grid-best-rank",fr[k],best);
        cv_opt_grid_free(G);vh_hit("grid");}
    vh_obs(e);
    cross_validate_free(cv);ft_param_free(st);regress_opts_free(ro);ft_regress_free(R);c3opt_free(o);free(p);lc_done(&c,mo);
}
CASE(learn_rankadapt,"P16",16,250,VH_SLOW){
    struct lc c;int obj=vr_chance(0.4)?FTLS_SPARSEL2:FTLS;struct MultiApproxOpts*mo=lc_gen(&c,2,3,0,FTLS_SPARSEL2,0);c.obj=obj;free((void*)c.w);c.w=NULL;int type=vr_chance(0.5)?AIO:ALS;
    if(c.N<6){lc_done(&c,mo);return;}
    size_t rmax=vr_int(2,4);for(size_t k=0;k<c.d;k++)if(c.s[k]->maxn<rmax)rmax=c.s[k]->maxn;
    for(size_t k=1;k<c.d;k++)c.r[k]=rmax<2?1:vr_int(1,2);size_t kick=vr_int(1,2);int alg=(int)vr_int(0,1),fin=vr_chance(0.5),rest=vr_chance(0.4);
    vh_sig("%d obj%d N%zu d%zu %s max%zu kick%zu fin%d res%d",type,obj,c.N,c.d,lc_desc(&c),rmax,kick,fin,rest);
    struct c3Opt*o=lc_opt(&c,NULL,alg,vr_int(2,8));
    struct FTRegress*R=ft_regress_alloc(c.d,mo,c.r);ft_regress_set_alg_and_obj(R,(enum REGTYPE)type,(enum REGOBJ)obj);ft_regress_set_regularization_weight(R,1e-3);ft_regress_set_max_als_sweep(R,1);ft_regress_set_seed(R,5);
    ft_regress_set_adapt(R,1);ft_regress_set_maxrank(R,rmax);ft_regress_set_kickrank(R,kick);ft_regress_set_roundtol(R,pow(10,-vr_unif(1,9)));ft_regress_set_kfold(R,vr_int(2,4));ft_regress_set_finalize(R,fin);ft_regress_set_opt_restrict(R,rest);
    struct FunctionTrain*ft=ft_regress_run(R,o,c.N,c.x,c.y);
    ft_wellformed("adapt-shape",ft,c.d);
    for(size_t k=1;k<c.d;k++)TRUE_("adapt-maxrank",ft->ranks[k]<=rmax);
    struct FunctionTrain*g=ft_param_get_ft(ft_regress_get_ft_param(R));
    for(int t=0;t<3;t++){double x[DMAX];spv_x(c.s,c.d,x);double u=function_train_eval(ft,x),v=function_train_eval(g,x);CLOSE("adapt-param-match",u,v,1e-8*(fabs(u)+fabs(v))+1e-10);vh_obs(u);}
    function_train_free(ft);ft_regress_free(R);c3opt_free(o);lc_done(&c,mo);
}
/* weighted sums of objectives */
struct qo{size_t n;double*c,s;};
static double q_obj(size_t n,const double*p,double*g,size_t N,size_t*ind,struct Data*dt,struct SLMemManager*m,void*a){struct qo*q=a;double v=0;(void)N;(void)ind;(void)dt;(void)m;for(size_t i=0;i<n;i++){double t=p[i]-q->c[i];v+=q->s*t*t;if(g)g[i]+=2*q->s*t;}return v;}
struct mp{struct FTparam*ftp;struct RegressOpts*opts;size_t d;double*ev,*gr;size_t calls,badn;}; /* linear model y=p.x */
static int q_map(size_t n,const double*p,size_t N,size_t*ind,struct SLMemManager*mm,struct Data*dt,double**ev,double**gr,void*a){struct mp*m=a;(void)mm;m->calls++;if(n!=m->d)m->badn++;
    const double*x=data_get_subset_ref(dt,N,ind);for(size_t i=0;i<N;i++){double s=0;for(size_t j=0;j<n;j++){s+=p[j]*x[i*n+j];m->gr[i*n+j]=x[i*n+j];}m->ev[i]=s;}
    *ev=m->ev;if(gr)*gr=m->gr;return 0;}
CASE(learn_objective,"P16 P15",80,1200,0){
    size_t d=vr_big(1,5,12),N=vr_big(1,12,40),K=vr_big(1,4,9);double*x=vh_dvec(N*d),*y=vh_dvec(N),*p=vh_dvec(d),*w=NULL;
    if(vr_chance(0.4)){w=malloc(N*8);for(size_t i=0;i<N;i++)w[i]=vr_unif(0,2);}
    struct Data*dt=data_alloc(N,d);data_set_xy(dt,x,y);EQZ("data-n",data_get_N(dt),N);
    struct RegressOpts*ro=regress_opts_create(d,AIO,FTLS);regress_opts_set_sample_weights(ro,w);
    struct mp m={NULL,ro,d,malloc(N*8),malloc(N*d*8),0,0};struct LeastSquaresArgs ls={q_map,&m};
    struct qo q[9];double wt[9];int kind[9];struct ObjectiveFunction*o=NULL;
    for(size_t k=0;k<K;k++){kind[k]=vr_chance(0.5);wt[k]=vr_chance(0.3)?1:vr_unif(-1,3);q[k].n=d;q[k].c=vh_dvec(d);q[k].s=vr_unif(0.1,2);objective_function_add(&o,wt[k],kind[k]?c3_objective_function_least_squares:q_obj,kind[k]?(void*)&ls:(void*)&q[k]);}
    vh_sig("d%zu N%zu K%zu w%d",d,N,K,w!=NULL);
    size_t*ind=NULL,n=N;if(vr_chance(0.5)){n=vr_int(1,N);ind=malloc(n*sizeof(size_t));for(size_t i=0;i<n;i++)ind[i]=vr_int(0,N-1);}
    struct SLP slp;memset(&slp,0,sizeof slp);slp.objective_function=o;slp.data=dt;slp.nparams=d;
    double*g=malloc(d*8);for(size_t j=0;j<d;j++)g[j]=NAN;
    double v=objective_eval(d,p,g,n,ind,&slp),v0=objective_eval(d,p,NULL,n,ind,&slp);
    double W=0,mg=0,*G=calloc(d,8);for(size_t k=0;k<K;k++){if(!kind[k]){for(size_t j=0;j<d;j++){double t=p[j]-q[k].c[j];W+=wt[k]*q[k].s*t*t;mg+=fabs(wt[k])*q[k].s*t*t;G[j]+=wt[k]*2*q[k].s*t;}}
        else for(size_t i=0;i<n;i++){size_t s=ind?ind[i]:i;double r=y[s],ws=(w?w[s]:1)/(double)n;for(size_t j=0;j<d;j++)r-=p[j]*x[s*d+j];W+=wt[k]*ws*r*r;mg+=fabs(wt[k])*ws*r*r;for(size_t j=0;j<d;j++)G[j]-=wt[k]*2*ws*r*x[s*d+j];}}
    CLOSE("sum-objective",v,W,1e-11*(mg+1));CLOSE("sum-objective-nograd",v0,W,1e-11*(mg+1));for(size_t j=0;j<d;j++)CLOSE("sum-gradient",g[j],G[j],1e-10*(mg+fabs(G[j])+10));EQZ("map-dim",m.badn,0);
    const double*sx=data_get_subset_ref(dt,n,ind);for(size_t i=0;i<n;i++)SAMEBYTES("subset",sx+i*d,x+(ind?ind[i]:i)*d,d*8);
    for(size_t k=0;k<K;k++)free(q[k].c);
    objective_function_free(&o);data_free(dt);regress_opts_free(ro);free(m.ev);free(m.gr);free(ind);free(g);free(G);free(x);free(y);free(p);free(w);
}
