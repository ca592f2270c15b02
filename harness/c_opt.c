/* Optimizer monitors: the objective callback is the probe (it records every point the optimizer visits). */
#include "model.h"
#include "lib_optimization.h"
#define DM 16
struct ob{size_t d;int kind;double A[DM*DM],c[DM],w[DM*2],b0;double lb[DM],ub[DM];int box;
    size_t nev,ng,oob,badd;double best;double bestx[DM];double gscale;
    /* least squares samples for the stochastic objective */
    size_t ns;double*rows,*rhs;size_t badind;size_t*trace;size_t ntrace,captrace;};
static double ob_val(const struct ob*o,const double*x,double*g){
    size_t d=o->d;double v=o->b0;
    if(g)for(size_t i=0;i<d;i++)g[i]=0;
    if(o->kind==0||o->kind==1){
        for(size_t i=0;i<d;i++){double s=0;for(size_t j=0;j<d;j++)s+=o->A[i+j*d]*(x[j]-o->c[j]);v+=0.5*s*(x[i]-o->c[i]);if(g)g[i]+=s;}
        if(o->kind==1)for(size_t k=0;k<2;k++){double t=0;for(size_t i=0;i<d;i++)t+=o->w[k*d+i]*(x[i]-o->c[i]);
            v+=fabs(t)+log1p(exp(-2*fabs(t)))-log(2);if(g)for(size_t i=0;i<d;i++)g[i]+=tanh(t)*o->w[k*d+i];}
    }else if(o->kind==2){ /* Rosenbrock chain (d>=2) */
        for(size_t i=0;i+1<d;i++){double a=x[i+1]-x[i]*x[i],b=1-x[i];v+=10*a*a+b*b;if(g){g[i]+=-40*x[i]*a-2*b;g[i+1]+=20*a;}}
        if(d==1){v+=(1-x[0])*(1-x[0]);if(g)g[0]=-2*(1-x[0]);}
    }else if(o->kind==3){ /* bounded below, many stationary points */
        for(size_t i=0;i<d;i++){double t=x[i]-o->c[i];v+=0.5*t*t+cos(2*t);if(g)g[i]+=t-2*sin(2*t);}
    }else{ /* linear */
        for(size_t i=0;i<d;i++){v+=o->c[i]*x[i];if(g)g[i]+=o->c[i];}
    }
    return v;}
static double ob_f(size_t d,const double*x,double*g,void*a){struct ob*o=a;if(d!=o->d)o->badd++;
    o->nev++;if(g)o->ng++;
    if(o->box)for(size_t i=0;i<o->d;i++)if(!(x[i]>=o->lb[i]&&x[i]<=o->ub[i])){o->oob++;break;}
    double v=ob_val(o,x,g);if(g)for(size_t i=0;i<d;i++)g[i]*=o->gscale;
    if(o->nev==1||v<o->best){o->best=v;memcpy(o->bestx,x,8*d);}return v;}
static double ob_fl(double*x,void*a){struct ob*o=a;return ob_f(o->d,x,NULL,a);}
static int ob_gl(double*x,double*g,void*a){struct ob*o=a;o->ng++;ob_val(o,x,g);return 0;}
static int ob_hl(double*x,double*h,void*a){struct ob*o=a;(void)x;memcpy(h,o->A,8*o->d*o->d);return 0;}
static double*ob_gm(double*x,void*a){struct ob*o=a;double*g=malloc(8*o->d);ob_val(o,x,g);return g;}
static double*ob_hm(double*x,void*a){struct ob*o=a;double*h=malloc(8*o->d*o->d);memcpy(h,o->A,8*o->d*o->d);(void)x;return h;}
static __thread double ob_cond;
static void ob_gen(struct ob*o,int kind,int box,double*x0){
    memset(o,0,sizeof*o);o->d=vr_big(1,6,13);o->kind=kind;o->box=box;o->gscale=1;o->b0=vr_chance(0.4)?0:vr_unif(-5,5);
    size_t d=o->d;double m=vr_unif(0.2,1),s=vr_unif(0.1,1.5);
    double L[DM*DM];for(size_t i=0;i<d*d;i++)L[i]=vr_norm()*s;
    for(size_t i=0;i<d;i++)for(size_t j=0;j<d;j++){double t=(i==j)*m;for(size_t k=0;k<d;k++)t+=L[i+k*d]*L[j+k*d];o->A[i+j*d]=t;}
    for(size_t i=0;i<d;i++)o->c[i]=vr_norm();for(size_t i=0;i<2*d;i++)o->w[i]=vr_norm();
    double tr=0;for(size_t i=0;i<d;i++)tr+=o->A[i+i*d];ob_cond=tr/m;
    for(size_t i=0;i<d;i++){o->lb[i]=-1e30;o->ub[i]=1e30;x0[i]=o->c[i]+2*vr_norm();}
    if(kind==2)for(size_t i=0;i<d;i++)x0[i]=vr_unif(-1.5,1.5);
    if(kind==4)o->box=1;
    if(o->box)for(size_t i=0;i<d;i++){double a=vr_unif(-3,3);o->lb[i]=a;o->ub[i]=a+vr_unif(0.1,4);if(vr_chance(0.15)&&kind!=4)o->ub[i]=1e30;
        if(vr_chance(0.1))o->lb[i]=o->c[i];
        double u=dmin(o->ub[i],o->lb[i]+5);x0[i]=vr_unif(o->lb[i],u);if(vr_chance(0.12))x0[i]=o->lb[i];if(vr_chance(0.05))x0[i]=u;if(o->ub[i]<o->lb[i])o->ub[i]=o->lb[i]+1,x0[i]=o->lb[i];}
}
static struct c3Opt*ob_opt(struct ob*o,enum c3opt_alg alg,int ls){
    struct c3Opt*p;
    if(vr_chance(0.3)){p=c3opt_create(alg);c3opt_set_nvars(p,o->d);}else p=c3opt_alloc(alg,o->d);
    if(o->box){c3opt_add_lb(p,o->lb);c3opt_add_ub(p,o->ub);}
    c3opt_add_objective(p,ob_f,o);
    if(ls>=0)c3opt_ls_set_alg(p,(enum c3opt_ls_alg)ls);
    return p;}
static const char*AN[]={"bfgs","lbfgs","grad","brute","sgd"},*LN[]={"bt","sw","ww"};

/* ---- the main contract ---- */
static void opt_run(int kind,int box,int conv){
    struct ob o;double x0[DM],x[DM],f=NAN;ob_gen(&o,kind,box,x0);size_t d=o.d;
    enum c3opt_alg alg=(enum c3opt_alg)vr_int(0,2);int ls=(int)vr_int(0,2);
    struct c3Opt*p=ob_opt(&o,alg,ls);
    size_t mi=conv?(alg==BATCHGRAD?3000:400):vr_int(1,60);c3opt_set_maxiter(p,mi);
    double rf=conv?1e-13:pow(10,-vr_unif(2,12));c3opt_set_relftol(p,rf);c3opt_set_gtol(p,conv?1e-10:pow(10,-vr_unif(2,12)));
    if(conv)c3opt_set_absxtol(p,1e-12);
    if(vr_chance(0.4)){c3opt_ls_set_alpha(p,vr_unif(0.01,0.45));c3opt_ls_set_beta(p,vr_unif(0.5,0.95));}
    size_t m=40;if(alg==LBFGS){if(vr_chance(0.6)){m=vr_big(1,6,15);c3opt_set_nvectors_store(p,m);}if(vr_chance(0.5))c3opt_set_lbfgs_scale(p,1);}
    int store=vr_chance(0.5);if(store)c3opt_set_storage_options(p,1,1,1);
    vh_sig("%s %s k%d d%zu box%d it%zu m%zu st%d",AN[alg],LN[ls],kind,d,o.box,mi>60?0:mi,m,store);
    memcpy(x,x0,8*d);
    struct c3Opt*q=NULL;if(vr_chance(0.3))q=c3opt_copy(p);
    double f0=ob_val(&o,x0,NULL);
    int res=c3opt_minimize(p,x,&f);
    size_t nev=o.nev,ng=o.ng;
    vh_obs_arr(d,x);vh_obs(f);vh_hit(res==-1?"opt-maxiter":res==1?"opt-ftol":res==2?"opt-xtol":res==3?"opt-gtol":"opt-other");
    TRUE_("return-code",res>=-1&&res<=3);
    EQZ("dimension-passed",o.badd,0);EQZ("visited-outside-bounds",o.oob,0);
    for(size_t i=0;i<d;i++)TRUE_("result-in-bounds",x[i]>=o.lb[i]&&x[i]<=o.ub[i]);
    double fx=ob_val(&o,x,NULL),sc=fabs(f0)+fabs(o.b0)+1;
    CLOSE("reported-minimum-is-value-at-result",f,fx,1e-12*sc);
    TRUE_("no-worse-than-start",f<=f0+1e-7*sc);
    EQZ("nevals",c3opt_get_nevals(p),nev);EQZ("ngvals",c3opt_get_ngvals(p),ng);
    size_t ni=c3opt_get_niters(p);TRUE_("iteration-budget",ni>=1&&ni<=mi+2);
    if(res!=-1&&ni>mi+2)TRUE_("maxiter-code",0);
    if(res==-1)TRUE_("maxiter-code",ni>=mi);
    if(store){
        CLOSE("stored-first",c3opt_get_stored_function(p,0),f0,1e-13*sc);CLOSE("stored-last",c3opt_get_stored_function(p,ni-1),f,1e-13*sc);
        double prev=f0;for(size_t i=1;i<ni;i++){double v=c3opt_get_stored_function(p,i);TRUE_("history-descends",v<=prev+1e-7*sc);prev=v;}
        char*path=vh_path("hist.txt");FILE*fp=fopen(path,"w");c3opt_print_stored_values(p,fp,0,17);fclose(fp);
        fp=fopen(path,"r");char line[4096];if(!fgets(line,sizeof line,fp))line[0]=0;
        size_t row=0;while(row<ni+1){size_t k;double v[1+2*DM];if(fscanf(fp,"%zu",&k)!=1)break;int ok=1;for(size_t i=0;i<1+2*d;i++)if(fscanf(fp,"%lf",v+i)!=1)ok=0;if(!TRUE_("printed-row",ok&&k==row))break;
            double g[DM];double fv=ob_val(&o,v+1+d,g);double gs=1;for(size_t i=0;i<d;i++)gs+=fabs(g[i]);
            CLOSE("printed-function",v[0],fv,1e-11*sc);CLOSE("printed-function-stored",v[0],c3opt_get_stored_function(p,row),1e-13*sc);
            for(size_t i=0;i<d;i++)CLOSE("printed-gradient",v[1+i],g[i],1e-10*gs);
            if(row==0)for(size_t i=0;i<d;i++)CLOSE("printed-start",v[1+d+i],x0[i],1e-13*(1+fabs(x0[i])));
            if(row==ni-1)for(size_t i=0;i<d;i++)CLOSE("printed-end",v[1+d+i],x[i],1e-13*(1+fabs(x[i])));
            row++;}
        fclose(fp);EQZ("printed-rows",row,ni);
    }
    if(conv&&!o.box){ /* strictly convex, unconstrained: the minimiser is c */
        double tol=(res==-1)?1e300:1e-5;
        if(alg!=BATCHGRAD&&!(alg==LBFGS&&d>6))TRUE_("converges-within-budget",res!=-1);
        TRUE_("reaches-minimum",f-o.b0<=tol*(1+f0-o.b0));
    }
    if(q){ /* a copy taken before the run performs exactly the same run */
        struct c3Opt*r=vr_chance(0.5)?c3opt_copy(p):NULL;
        if(r){EQZ("copy-niters",c3opt_get_niters(r),ni);EQZ("copy-maxiter",c3opt_get_maxiter(r),mi);if(store)for(size_t i=0;i<ni;i++)CLOSE("copy-history",c3opt_get_stored_function(r,i),c3opt_get_stored_function(p,i),0);}
        c3opt_free(p);p=NULL;o.nev=o.ng=0;double y[DM],fy=NAN;memcpy(y,x0,8*d);
        int r2=c3opt_minimize(q,y,&fy);TRUE_("copy-same-code",r2==res);SAMEBYTES("copy-same-run",y,x,8*d);EQZ("copy-same-evals",o.nev,nev);
        c3opt_free(q);
        if(r){memcpy(y,x0,8*d);r2=c3opt_minimize(r,y,&fy);TRUE_("copy-same-code",r2==res);SAMEBYTES("copy-after-run",y,x,8*d);c3opt_free(r);}
    }else if(vr_chance(0.3)){ /* the same object can be used again */
        o.nev=o.ng=0;double y[DM],fy=NAN;memcpy(y,x0,8*d);int r2=c3opt_minimize(p,y,&fy);
        TRUE_("rerun-same-code",r2==res);SAMEBYTES("rerun-same-run",y,x,8*d);EQZ("rerun-nevals",c3opt_get_nevals(p),o.nev);
    }
    if(p)c3opt_free(p);
}
CASE(opt_convex,"P15",400,6000,0){opt_run((int)vr_int(0,1),0,1);}
CASE(opt_budget,"P15",400,6000,0){opt_run((int)vr_int(0,1),0,0);}
CASE(opt_box,"P15",400,6000,0){opt_run((int)(vr_chance(0.3)?4:vr_int(0,1)),1,0);}
CASE(opt_nonconvex,"P15",400,6000,0){opt_run((int)vr_int(2,3),vr_chance(0.3),0);}
/* one variable with bounds: the solution is known */
CASE(opt_box1d,"P15",300,5000,0){
    struct ob o;double x0[DM],x[DM],f=NAN;do ob_gen(&o,(int)vr_int(0,1),1,x0);while(o.d!=1);
    if(o.ub[0]>1e29)o.ub[0]=o.lb[0]+10;
    enum c3opt_alg alg=(enum c3opt_alg)vr_int(0,2);int ls=(int)vr_int(0,2);struct c3Opt*p=ob_opt(&o,alg,ls);
    c3opt_set_relftol(p,1e-12);c3opt_set_maxiter(p,2000);c3opt_set_absxtol(p,1e-12);
    double sol=dmin(o.ub[0],dmax(o.lb[0],o.c[0])),fs=ob_val(&o,&sol,NULL),f0=ob_val(&o,x0,NULL);x[0]=x0[0];
    vh_sig("%s %s k%d at%d",AN[alg],LN[ls],o.kind,sol==o.lb[0]?0:sol==o.ub[0]?2:1);
    int res=c3opt_minimize(p,x,&f);vh_obs(x[0]);
    TRUE_("return-code",res>=-1&&res<=3);EQZ("visited-outside-bounds",o.oob,0);
    if(res!=-1)TRUE_("box-minimum",f-fs<=1e-5*(1+f0-fs));CLOSE("reported-minimum-is-value-at-result",f,ob_val(&o,x,NULL),1e-12*(1+fabs(f0)));
    c3opt_free(p);
}
/* ---- line searches used directly ---- */
CASE(opt_linesearch,"P15",500,8000,0){
    struct ob o;double x[DM],dir[DM],g[DM],nx[DM],g0[DM],nf=NAN;int info=99;int kind=(int)vr_int(0,3);ob_gen(&o,kind,vr_chance(0.3),x);size_t d=o.d;
    struct c3Opt*p=ob_opt(&o,BFGS,-1);double al=vr_unif(1e-4,0.45),be=vr_unif(al+0.05,0.95);c3opt_ls_set_alpha(p,al);c3opt_ls_set_beta(p,be);
    c3opt_set_absxtol(p,1e-14);size_t lm=0;if(vr_chance(0.25)){lm=vr_int(2,12);c3opt_ls_set_maxiter(p,lm);EQZ("linesearch-maxiter",c3opt_ls_get_maxiter(p),lm);}
    double fx=ob_val(&o,x,g);for(size_t i=0;i<d;i++)dir[i]=-g[i]*vr_unif(0.2,1.5)*pow(10,vr_unif(-1.5,1));
    if(vr_chance(0.06))for(size_t i=0;i<d;i++)dir[i]=-dir[i];
    double dg=0;for(size_t i=0;i<d;i++)dg+=g[i]*dir[i];memcpy(g0,g,8*d);
    double xs[DM],ds[DM];memcpy(xs,x,8*d);memcpy(ds,dir,8*d);
    int strong=vr_chance(0.5);vh_sig("%s k%d d%zu box%d",strong?"sw":"ww",kind,d,o.box);
    double r=strong?c3opt_ls_strong_wolfe(p,x,fx,g,dir,nx,&nf,&info):c3opt_ls_wolfe_bisect(p,x,fx,g,dir,nx,&nf,&info);
    SAMEBYTES("base-point-kept",x,xs,8*d);SAMEBYTES("direction-kept",dir,ds,8*d);EQZ("visited-outside-bounds",o.oob,0);if(lm)TRUE_("linesearch-budget",o.nev<=4*(lm+2)+(strong?1200:0));
    double t=r/al;vh_obs(r);
    if(dg>1e-15){TRUE_("ascent-refused",info==-4);SAMEBYTES("ascent-refused-x",nx,x,8*d);TRUE_("ascent-refused-f",nf==fx&&r==0);}
    else{
        TRUE_("linesearch-info",info==0||info==1);
        double gn[DM];double fn=ob_val(&o,nx,gn),sc=1+fabs(fx);
        CLOSE("linesearch-value",nf,fn,1e-12*sc);double gs=1;for(size_t i=0;i<d;i++)gs+=fabs(gn[i]);
        if(info==0||!strong)for(size_t i=0;i<d;i++)CLOSE("linesearch-gradient",g[i],gn[i],1e-12*gs);
        if(info==0){
            for(size_t i=0;i<d;i++){double w=dmin(o.ub[i],dmax(o.lb[i],x[i]+t*dir[i]));CLOSE("linesearch-point",nx[i],w,1e-9*(1+fabs(w)+fabs(t*dir[i])));}
            double mv=0;for(size_t i=0;i<d;i++)mv+=fabs(nx[i]-x[i]);
            TRUE_("sufficient-decrease",nf<=fx+al*t*dg+1e-11*sc||(strong&&o.box));
            TRUE_("linesearch-no-worse",nf<=fx+1e-11*sc);
            double d2=0;for(size_t i=0;i<d;i++)d2+=gn[i]*dir[i];
            if(!strong)TRUE_("weak-curvature",d2>=be*dg-1e-9*fabs(dg)-1e-13);
            else if(!o.box&&mv>1e-10&&dg<-1e-8)TRUE_("strong-curvature",fabs(d2)<=be*fabs(dg)*(1+1e-9)+1e-13||t>0.999);
        }
    }
    c3opt_free(p);
}
/* ---- exhaustive search ---- */
CASE(opt_brute,"P15",200,3000,0){
    struct ob o;double x[DM],f=NAN;ob_gen(&o,(int)vr_int(0,3),0,x);size_t d=o.d,n=vr_int(1,60);double*v=vh_dvec(n*d);if(vr_chance(0.4))for(size_t i=0;i<n*d;i++)v[i]=rint(v[i]);
    struct c3Opt*p=vr_chance(0.5)?c3opt_alloc(BRUTEFORCE,d):c3opt_create(BRUTEFORCE);c3opt_set_nvars(p,d);c3opt_add_objective(p,ob_f,&o);
    if(vr_chance(0.3)){double*w=vh_dvec((n+3)*d);c3opt_set_brute_force_vals(p,n+3,w);free(w);}
    c3opt_set_brute_force_vals(p,n,v);TRUE_("is-brute",c3opt_is_bruteforce(p)&&!c3opt_is_sgd(p));
    if(vr_chance(0.4)){struct c3Opt*q=c3opt_copy(p);c3opt_free(p);p=q;}
    double*vs=malloc(8*n*d);memcpy(vs,v,8*n*d);for(size_t i=0;i<n*d;i++)v[i]=NAN; /* the list is the optimizer's own */
    vh_sig("d%zu n%zu k%d",d,n>8?9:n,o.kind);
    int res=c3opt_minimize(p,x,&f);TRUE_("return-code",res==0);
    double best=INFINITY;size_t bi=0;for(size_t i=0;i<n;i++){double t=ob_val(&o,vs+i*d,NULL);if(t<best)best=t,bi=i;}
    CLOSE("brute-minimum",f,best,0);SAMEBYTES("brute-first-minimiser",x,vs+bi*d,8*d);EQZ("brute-evaluations",o.nev,n);
    c3opt_free(p);free(v);free(vs);
}
/* ---- derivative checker ---- */
CASE(opt_checkderiv,"P15",200,3000,0){
    struct ob o;double x[DM],dif[DM];ob_gen(&o,(int)vr_int(0,3),0,x);size_t d=o.d;struct c3Opt*p=ob_opt(&o,vr_chance(0.5)?BFGS:LBFGS,-1);
    int wrong=vr_chance(0.5);o.gscale=wrong?vr_unif(0.3,0.9):1;double xs[DM];memcpy(xs,x,8*d);
    double g[DM],gn=0;ob_val(&o,x,g);for(size_t i=0;i<d;i++)gn+=g[i]*g[i];
    vh_sig("d%zu k%d wrong%d",d,o.kind,wrong);
    double a=c3opt_check_deriv(p,x,1e-5),b=c3opt_check_deriv_each(p,x,1e-5,dif);
    SAMEBYTES("point-kept",x,xs,8*d);CLOSE("both-checkers-agree",a,b,1e-9*(1+fabs(b)));
    double want=(1-o.gscale)*sqrt(gn);if(gn>1)want/=sqrt(gn);
    double sc=1+sqrt(gn)+fabs(ob_val(&o,x,NULL));
    CLOSE("checker-reports-error",a,want,2e-4*sc);for(size_t i=0;i<d;i++)CLOSE("checker-each",dif[i],(1-o.gscale)*g[i],2e-4*sc);
    EQZ("checker-evals",c3opt_get_nevals(p),2*(2*d+1));
    c3opt_free(p);
}
/* ---- curvature-pair list of the limited-memory method ---- */
CASE(opt_lbfgs_list,"P15",300,4000,0){
    size_t d=vr_big(1,5,12),m=vr_big(1,6,14),n=vr_big(0,14,40);struct c3opt_lbfgs_list*l=c3opt_lbfgs_list_alloc(m,d);
    double*xs=vh_dvec((n+1)*d),*gs=vh_dvec((n+1)*d);vh_sig("d%zu m%zu n%zu",d,m,n);
    for(size_t k=0;k<n;k++){
        c3opt_lbfgs_list_insert(l,k,xs+(k+1)*d,xs+k*d,gs+(k+1)*d,gs+k*d);
        if(vr_chance(0.5)||k+1==n){
            size_t sz=k+1<m?k+1:m,it;double*s,*y,r;
            for(int pass=0;pass<2;pass++){c3opt_lbfgs_reset_step(l);
            for(size_t j=0;j<sz;j++){size_t w=pass?k+1-sz+j:k-j;if(pass)c3opt_lbfgs_list_step_back(l,&it,&s,&y,&r);else c3opt_lbfgs_list_step(l,&it,&s,&y,&r);
                EQZ("pair-order",it,w);double rr=0;for(size_t i=0;i<d;i++){double S=xs[(w+1)*d+i]-xs[w*d+i],Y=gs[(w+1)*d+i]-gs[w*d+i];CLOSE("pair-s",s[i],S,1e-14);CLOSE("pair-y",y[i],Y,1e-14);rr+=S*Y;}
                CLOSE("pair-product",r,rr,1e-12*(1+fabs(rr)));}}
        }}
    FILE*fp=fopen(vh_path("l.txt"),"w");c3opt_lbfgs_list_print(l,fp,3,5);fclose(fp);
    c3opt_lbfgs_list_free(l);free(xs);free(gs);
}
/* ---- stochastic gradient: trace of sample indices ---- */
static double sg_f(size_t d,size_t ind,const double*x,double*g,void*a){struct ob*o=a;if(d!=o->d)o->badd++;if(ind>=o->ns){o->badind++;ind=0;}
    o->nev++;if(g)o->ng++;
    if(o->ntrace<o->captrace)o->trace[o->ntrace++]=2*ind+(g!=NULL);
    double r=-o->rhs[ind];for(size_t i=0;i<d;i++)r+=o->rows[ind*d+i]*x[i];if(g)for(size_t i=0;i<d;i++)g[i]=r*o->rows[ind*d+i];return 0.5*r*r;}
CASE(opt_sgd,"P15 P16",150,2000,0){
    struct ob o;memset(&o,0,sizeof o);size_t d=o.d=vr_big(1,4,12),n=o.ns=vr_int(2,40);o.rows=vh_dvec(n*d);o.rhs=vh_dvec(n);o.captrace=400000;o.trace=malloc(o.captrace*sizeof(size_t));
    double xt[DM];for(size_t i=0;i<d;i++)xt[i]=vr_norm();for(size_t i=0;i<n;i++){double s=0.1*vr_norm();for(size_t j=0;j<d;j++)s+=o.rows[i*d+j]*xt[j];o.rhs[i]=s;}
    struct c3Opt*p=vr_chance(0.5)?c3opt_alloc(SGD,d):c3opt_create(SGD);c3opt_set_nvars(p,d);c3opt_add_objective_stoch(p,sg_f,&o);
    c3opt_set_sgd_nsamples(p,n);EQZ("nsamples",c3opt_get_sgd_nsamples(p),n);size_t mi=vr_int(1,30);c3opt_set_maxiter(p,mi);double lr=pow(10,-vr_unif(2,4));c3opt_set_sgd_learn_rate(p,lr);
    c3opt_set_relftol(p,pow(10,-vr_unif(3,12)));int store=vr_chance(0.5);if(store)c3opt_set_storage_options(p,1,0,0);TRUE_("is-sgd",c3opt_is_sgd(p));
    if(vr_chance(0.3)){struct c3Opt*q=c3opt_copy(p);c3opt_free(p);p=q;}
    vh_sig("d%zu n%zu it%zu st%d",d,n,mi,store);
    double x[DM],x0[DM],f=NAN;for(size_t i=0;i<d;i++)x[i]=x0[i]=xt[i]+3*vr_norm();
    int res=c3opt_minimize(p,x,&f);vh_obs_arr(d,x);vh_obs(f);
    TRUE_("return-code",res>=-1&&res<=3);EQZ("sample-index-range",o.badind,0);EQZ("dimension-passed",o.badd,0);
    EQZ("nevals",c3opt_get_nevals(p),o.nev);EQZ("ngvals",c3opt_get_ngvals(p),o.ng);
    size_t ntr=(size_t)lrint((double)n/1.1);
    /* trace specification: [n values] (ntr distinct gradients, then the same ntr values, then the n-ntr others) per epoch */
    size_t pos=0;if(store)pos=n;int ok=1;size_t ep=0;size_t lastpos=0;
    while(pos+ntr+n<=o.ntrace&&ok){char seen[64]={0};lastpos=pos+ntr;
        for(size_t i=0;i<ntr;i++){size_t v=o.trace[pos+i];if(!(v&1)||seen[v/2])ok=0;seen[v/2]=1;}
        for(size_t i=0;i<n;i++){size_t v=o.trace[pos+ntr+i];if(v&1)ok=0;else{if(i<ntr){if(seen[v/2]!=1)ok=0;}else if(seen[v/2]!=0)ok=0;seen[v/2]=2;}}
        pos+=ntr+n;ep++;}
    TRUE_("epoch-trace",ok);EQZ("epoch-trace-complete",pos,o.ntrace);TRUE_("epoch-count",ep>=1&&ep<=mi);
    EQZ("epochs-reported",c3opt_get_niters(p),ep+(store?1:0));
    if(ok&&ep){double tr=0;struct ob o2=o;o2.captrace=0;for(size_t i=0;i<ntr;i++)tr+=sg_f(d,o.trace[lastpos+i]/2,x,NULL,&o2);tr/=(double)ntr;CLOSE("sgd-training-error",f,tr,1e-11*(1+tr));
        if(store)CLOSE("sgd-stored-error",c3opt_get_stored_function(p,ep),f,1e-12*(1+fabs(f)));}
    double a0=0,a1=0;{struct ob o2=o;o2.captrace=0;for(size_t i=0;i<n;i++){a0+=sg_f(d,i,x0,NULL,&o2);a1+=sg_f(d,i,x,NULL,&o2);}}
    if(a0>0.3*(double)n)TRUE_("sgd-improves",a1<=a0*1.001+1e-9);
    c3opt_free(p);free(o.rows);free(o.rhs);free(o.trace);
}
/* ---- stand-alone routines ---- */
CASE(opt_legacy,"P15",300,4000,0){
    struct ob o;double x0[DM],x[DM],g[DM],sp[4*DM],H[DM*DM],f=NAN;int which=(int)vr_int(0,4);int box=which==1||which==2||which==3;
    ob_gen(&o,(which==0||which==2||which==4)?0:(int)vr_int(0,1),box,x0);size_t d=o.d;memcpy(x,x0,8*d);
    double al=vr_unif(0.05,0.4),be=vr_unif(0.3,0.8);double f0=ob_val(&o,x0,NULL),sc=1+fabs(f0);int res=0;
    vh_sig("%s d%zu k%d",which==0?"gd":which==1?"pg":which==2?"newton-box":which==3?"bfgs-box":"newton",d,o.kind);
    if(which==4){double*y=malloc(8*d);memcpy(y,x0,8*d);newton(&y,d,vr_chance(0.5)?1.0:vr_unif(0.5,1),1e-10,ob_gm,ob_hm,&o);for(size_t i=0;i<d;i++)CLOSE("newton-solution",y[i],o.c[i],1e-7);free(y);return;}
    if(which==0)res=gradient_descent(d,x,&f,g,sp,ob_fl,&o,ob_gl,&o,1e-4,5000,200,al,be,0);
    if(which==1)res=box_pg_descent(d,o.lb,o.ub,x,&f,g,sp,ob_fl,&o,ob_gl,&o,1e-6,5000,200,al,be,0);
    if(which==2)res=box_damp_newton(d,o.lb,o.ub,x,&f,g,H,sp,ob_fl,&o,ob_gl,&o,ob_hl,&o,1e-10,200,200,al,be,0);
    if(which==3){for(size_t i=0;i<d*d;i++)H[i]=(i%(d+1)==0);res=box_damp_bfgs(d,o.lb,o.ub,x,&f,g,H,sp,ob_fl,&o,ob_gl,1e-10,500,200,al,be,0);}
    vh_obs_arr(d,x);vh_obs(f);
    TRUE_("legacy-code",res==0||res==1);vh_hit(res?"legacy-stopped":"legacy-converged");
    if(box){EQZ("visited-outside-bounds",o.oob,0);for(size_t i=0;i<d;i++)TRUE_("result-in-bounds",x[i]>=o.lb[i]&&x[i]<=o.ub[i]);}
    CLOSE("reported-minimum-is-value-at-result",f,ob_val(&o,x,NULL),1e-12*sc);TRUE_("no-worse-than-start",f<=f0+1e-7*sc);
    if(which==0&&res==0){double gn=0,gg[DM];ob_val(&o,x,gg);for(size_t i=0;i<d;i++)gn+=gg[i]*gg[i];TRUE_("gd-stationary",sqrt(gn)<=1.01e-4);}
}
CASE(opt_backtrack,"P15",300,4000,0){
    struct ob o;double x[DM],dir[DM],g[DM],nx[DM],nf=NAN;int info=99;ob_gen(&o,(int)vr_int(0,3),vr_chance(0.5),x);size_t d=o.d;
    double fx=ob_val(&o,x,g),al=vr_unif(0.01,0.45),be=vr_unif(0.2,0.9);double k=vr_unif(0.1,1.5)*pow(10,vr_unif(-2,1));for(size_t i=0;i<d;i++)dir[i]=-k*g[i];
    double dg=0;for(size_t i=0;i<d;i++)dg+=g[i]*dir[i];double xs[DM];memcpy(xs,x,8*d);
    size_t mi=vr_int(3,150);int bad=vr_chance(0.1);vh_sig("d%zu k%d box%d mi%zu bad%d",d,o.kind,o.box,mi>20?0:mi,bad);
    if(bad){double r;double A=vr_chance(0.5)?0.0:0.5+vr_u01();nf=123;for(size_t i=0;i<d;i++)nx[i]=7;
        r=o.box?backtrack_line_search_bc(d,o.lb,o.ub,x,fx,dir,nx,&nf,g,A,be,ob_fl,&o,mi,&info):backtrack_line_search(d,x,fx,dir,nx,&nf,g,A,be,ob_fl,&o,mi,&info);
        TRUE_("bad-alpha-refused",info==-1&&r==0&&o.nev==0);return;}
    double r=o.box?backtrack_line_search_bc(d,o.lb,o.ub,x,fx,dir,nx,&nf,g,al,be,ob_fl,&o,mi,&info):backtrack_line_search(d,x,fx,dir,nx,&nf,g,al,be,ob_fl,&o,mi,&info);
    double t=o.box?r/al:r;SAMEBYTES("base-point-kept",x,xs,8*d);TRUE_("backtrack-info",info==0||info==1);EQZ("visited-outside-bounds",o.box?o.oob:0,0);
    TRUE_("backtrack-budget",o.nev<=mi);CLOSE("backtrack-value",nf,ob_val(&o,nx,NULL),1e-12*(1+fabs(fx)));
    for(size_t i=0;i<d;i++){double w=x[i]+t*dir[i];if(o.box)w=dmin(o.ub[i],dmax(o.lb[i],w));CLOSE("backtrack-point",nx[i],w,1e-10*(1+fabs(w)));}
    if(info==0)TRUE_("backtrack-armijo",nf<=fx+al*t*dg+1e-11*(1+fabs(fx)));
    else TRUE_("backtrack-exhausted",nf>fx+al*t*dg-1e-11*(1+fabs(fx)));
    if(t<0.999&&info==0){double tp=t/be,y[DM];for(size_t i=0;i<d;i++){y[i]=x[i]+tp*dir[i];if(o.box)y[i]=dmin(o.ub[i],dmax(o.lb[i],y[i]));}TRUE_("backtrack-first-acceptable",ob_val(&o,y,NULL)>=fx+al*tp*dg-1e-9*(1+fabs(fx)));}
}
