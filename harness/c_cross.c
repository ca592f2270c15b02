/* Cross approximation of black-box functions, function wrappers, index sets. */
#include "model.h"
#include "approximate.h"
typedef struct FunctionTrain FT;
/* ---- monitored target: counts and range-checks every requested point ---- */
struct tgt { size_t d; const double *lb,*ub; struct mft*m; int kind; double w[MD],c; size_t calls,outside,wrongfun; size_t which; double xb[MD]; };
static double tgt_val(const struct tgt*t,const double*x){
    if(t->m)return mft_eval(t->m,x);
    double s=0;for(size_t i=0;i<t->d;i++)s+=t->w[i]*x[i];
    double p=1;
    switch(t->kind){case 0:return sin(s+t->c);case 1:return exp(-fabs(t->c)*s*0.5)+0.5;case 2:for(size_t i=0;i<t->d;i++)p*=1+t->w[i]*x[i]*x[i]*0.5;return p+s;
        case 3:return s*s+t->c*s+1;default:for(size_t i=0;i<t->d;i++)p*=cos(t->w[i]*x[i]);return p;}
}
static void tgt_see(struct tgt*t,const double*x){t->calls++;for(size_t i=0;i<t->d;i++){double e=1e-12*(t->ub[i]-t->lb[i]);if(!(x[i]>=t->lb[i]-e&&x[i]<=t->ub[i]+e)){if(!t->outside)memcpy(t->xb,x,8*t->d);t->outside++;}}}
static double cb_f(const double*x,void*a){struct tgt*t=a;tgt_see(t,x);return tgt_val(t,x);}
static int cb_vec(size_t n,const double*x,double*o,void*a){struct tgt*t=a;for(size_t i=0;i<n;i++)o[i]=cb_f(x+i*t->d,a);return 0;}
static int cb_mo(size_t n,size_t w,const double*x,double*o,void*a){struct tgt*t=a;if(w!=t->which)t->wrongfun++;return cb_vec(n,x,o,a);}
static int cb_bad(size_t n,const double*x,double*o,void*a){(void)x;struct tgt*t=a;t->wrongfun++;for(size_t i=0;i<n;i++)o[i]=1e30;return 0;}
static struct Fwrap*tgt_wrap(struct tgt*t,int type){
    struct Fwrap*w;t->which=0;
    switch(type){
    case 0:w=fwrap_create(t->d,"general");fwrap_set_f(w,cb_f,t);break;
    case 1:w=fwrap_create(t->d,"general-vec");fwrap_set_fvec(w,cb_vec,t);break;
    case 2:w=fwrap_create(t->d,"mo-vec");fwrap_set_mofvec(w,cb_mo,t);t->which=vr_big(0,5,20);fwrap_set_which_eval(w,t->which);EQZ("which-eval",fwrap_get_which_eval(w),t->which);break;
    default:w=fwrap_create(t->d,"array-vec");{size_t n=vr_big(1,4,12);fwrap_set_num_funcs(w,n);t->which=vr_int(0,n-1);for(size_t i=0;i<n;i++)fwrap_set_func_array(w,i,i==t->which?cb_vec:cb_bad,t);fwrap_set_which_eval(w,t->which);}
    }
    EQZ("wrap-dim",fwrap_get_d(w),t->d);
    return w;
}
static void cap_ranks(struct sp**s,size_t d,size_t*r){
    for(int it=0;it<4;it++)for(size_t k=1;k<d;k++){size_t a=r[k-1]*s[k-1]->maxn,b=r[k+1]*s[k]->maxn;if(r[k]>a)r[k]=a;if(r[k]>b)r[k]=b;}
}
static void run_cross(struct sp**s,size_t d,struct tgt*t,const size_t*trank,size_t R,int adapt,double rel,const char*sig){
    int type=(int)vr_int(0,3),het=!adapt&&(vr_chance(0.4)||R>s[0]->maxn||R>s[d-1]->maxn),redo=vr_chance(0.3),nodes=vr_chance(0.35),ownstart=vr_chance(0.5);
    double*lb=malloc(8*d),*ub=malloc(8*d);for(size_t i=0;i<d;i++){lb[i]=s[i]->lb;ub[i]=s[i]->ub;}t->lb=lb;t->ub=ub;t->d=d;
    struct Fwrap*w=tgt_wrap(t,type);
    struct C3Approx*c=c3approx_create(CROSS,d);struct c3Vector**nd=calloc(d,sizeof*nd);
    for(size_t i=0;i<d;i++)c3approx_set_approx_opts_dim(c,i,s[i]->o);
    EQZ("approx-dim",c3approx_get_dim(c),d);
    for(size_t i=0;i<d;i++){if(s[i]->t!=T_HERM&&(!nodes||vr_chance(0.3)))continue;
        size_t n=vr_int(12,40);double*x=linspace(s[i]->lb,s[i]->ub,n);
        nd[i]=(s[i]->t==T_LIN||s[i]->t==T_CONST)?c3vector_alloc(s[i]->n,s[i]->x):c3vector_alloc(n,x);free(x);c3approx_set_opt_opts_dim(c,i,nd[i]);}
    char tr[40]="";for(size_t i=1;i<d;i++)sprintf(tr+strlen(tr),"%zu",trank[i]);
    vh_sig("%s d%zu tr%s R%zu adapt%d type%d het%d nodes%d own%d redo%d",sig,d,tr,R,adapt,type,het,nodes,ownstart,redo);
    size_t init=adapt?vr_int(1,R<2?R:2):R;
    double**st=NULL;if(ownstart){st=malloc(d*sizeof*st);for(size_t i=0;i<d;i++){st[i]=malloc(8*R);for(size_t k=0;k<R;k++)st[i][k]=s[i]->lb+(s[i]->ub-s[i]->lb)*((double)k+vr_unif(0.1,0.9))/(double)R;}}
    FT*ft=NULL;
    for(int rep=0;rep<1+redo;rep++){function_train_free(ft);
        if(het)c3approx_init_cross_het(c,trank,0,st);else c3approx_init_cross(c,init,0,st);
        c3approx_set_cross_tol(c,1e-10);c3approx_set_round_tol(c,1e-12);c3approx_set_cross_maxiter(c,adapt?4:6);c3approx_set_verbose(c,0);
        if(adapt){c3approx_set_adapt_kickrank(c,vr_int(1,3));c3approx_set_adapt_maxrank_all(c,R);}
        t->calls=0;ft=c3approx_do_cross(c,w,adapt);TRUE_("result",ft!=NULL);TRUE_("evaluated",t->calls>0);}
    ft_wellformed("cross-wellformed",ft,d);
    if(t->outside)vh_fail("outside","%zu requests outside the box, first x0=%g",t->outside,t->xb[0]);
    EQZ("wrong-function",t->wrongfun,0);
    for(size_t k=1;k<d;k++){if(adapt){if(ft->ranks[k]>R)vh_fail("rank-cap","rank[%zu]=%zu cap %zu",k,ft->ranks[k],R);}else if(ft->ranks[k]!=(het?trank[k]:R))vh_fail("fixed-rank","rank[%zu]=%zu",k,ft->ranks[k]);}
    double*x=malloc(8*d),sc=0,tol;
    for(int k=0;k<60;k++){spv_x(s,d,x);sc=dmax(sc,fabs(tgt_val(t,x)));}
    if(sc==0&&t->m){sc=1;}
    tol=rel*sc+1e-9;
    int judge=1;if(adapt)for(size_t k=1;k<d;k++)if(trank[k]!=R)judge=0;   /* rank adaptation is a heuristic: an inner rank larger than its neighbours can be missed */
    if(!adapt&&!het)for(size_t k=0;k<d;k++)if(s[k]->t==T_CONST)for(size_t l=1;l<d;l++)if(trank[l]!=R)judge=0; /* start points that fall into one cell, next to a bond of lower rank, hide the structure */
    {double l2=sc;for(size_t k=0;k<d;k++)l2*=sqrt(s[k]->ub-s[k]->lb);if(t->m&&l2<1e-2)judge=0;} /* functions of tiny norm: Chebyshev inner products carry an absolute error */
    if(judge)vh_hit(adapt?"judged-adaptive":"judged-fixed");
    for(int k=0;judge&&k<25;k++){
        spv_x(s,d,x);if(!t->m)for(size_t i=0;i<d;i++)if(s[i]->t==T_LIN||s[i]->t==T_CONST)x[i]=s[i]->x[vr_int(0,s[i]->n-1)];
        double got=function_train_eval(ft,x);CLOSE(adapt?"adaptive":"fixed",got,tgt_val(t,x),tol);}
    free(x);function_train_free(ft);c3approx_destroy(c);for(size_t i=0;i<d;i++)c3vector_free(nd[i]);free(nd);
    if(st){for(size_t i=0;i<d;i++)free(st[i]);free(st);}
    fwrap_destroy(w);free(lb);free(ub);
}
CASE(cross_lowrank,"P06",30,600,VH_SLOW){
    size_t d=vr_big(2,4,8);struct sp**s=spv_rand(d,M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB),vr_chance(0.5));
    struct mft*m=mft_rand(s,d,d>5?2:3);struct tgt t={0};t.m=m;
    /* generic coefficients: cross approximation is a sampling method and may legitimately miss structure that vanishes at all its sampled fibers */
    for(size_t k=0;k<d;k++)for(size_t i=0;i<m->r[k]*m->r[k+1];i++)for(size_t j=0;j<m->f[k][i].n;j++)m->f[k][i].c[j]=vr_norm();
    size_t r[MD+1];memcpy(r,m->r,8*(d+1));cap_ranks(s,d,r);size_t R=1;for(size_t k=1;k<d;k++)if(r[k]>R)R=r[k];
    int adapt=vr_chance(0.5);for(size_t k=0;k<d;k++)if(R>s[k]->maxn)adapt=0;
    run_cross(s,d,&t,r,R,adapt,1e-7,tname[s[0]->t]);
    mft_free(m);spv_free(s,d);
}
CASE(cross_smooth,"P06",15,300,VH_SLOW){
    size_t d=vr_big(2,6,10);struct sp**s=malloc(d*sizeof*s);int tt[4]={T_LIN,T_CONST,T_LEG,T_CHEB};
    for(size_t i=0;i<d;i++){int t=tt[vr_int(0,3)];double lb=vr_unif(-1,0.2),ub=lb+vr_unif(0.7,1.6);s[i]=sp_make(t,lb,ub,(t==T_LIN||t==T_CONST)?vr_int(5,20):7);if(t>=T_LEG){ope_opts_set_maxnum(s[i]->aopts,30);ope_opts_set_tol(s[i]->aopts,1e-10);}}
    struct tgt t={0};t.kind=(int)vr_int(0,4);t.c=vr_unif(-1,1);for(size_t i=0;i<d;i++)t.w[i]=vr_unif(0.3,1.5);
    size_t r[MD+1]={1},R=t.kind==0||t.kind==2?2:t.kind==3?3:1;if(t.kind==1||t.kind==2)R+=1;
    for(size_t k=1;k<d;k++)r[k]=R;r[d]=1;
    run_cross(s,d,&t,r,R,vr_chance(0.5),1e-5,t.kind==0?"sin":t.kind==1?"exp":t.kind==2?"prod+sum":t.kind==3?"square":"cos");
    spv_free(s,d);
}
/* ---- cross approximation through its own argument object: per-dimension rank caps, copies, switching adaptation, stopping rule ---- */
static double nonlow(const double*x,void*a){struct tgt*t=a;tgt_see(t,x);double s=0.3;for(size_t i=0;i<t->d;i++)s+=t->w[i]*(x[i]-t->lb[i])/(t->ub[i]-t->lb[i]);return t->kind?1.0/s:sqrt(s)+0.2*sin(3*s);}
static FT*args_run(struct FtCrossArgs*ca,struct sp**s,size_t d,struct tgt*t,struct MultiApproxOpts*mo){
    struct CrossIndex*l[MD],*r[MD];double*st[MD];size_t*rk=ft_cross_args_get_ranks(ca),mr=1;for(size_t k=0;k<=d;k++)if(rk[k]>mr)mr=rk[k];
    for(size_t k=0;k<d;k++){l[k]=r[k]=NULL;st[k]=linspace(s[k]->lb,s[k]->ub,mr);}
    cross_index_array_initialize(d,r,0,1,rk,(void**)st,sizeof(double));cross_index_array_initialize(d,l,0,0,rk+1,(void**)st,sizeof(double));
    struct Fwrap*w=fwrap_create(d,"general");fwrap_set_f(w,nonlow,t);struct FiberOptArgs*fo=fiber_opt_args_init(d);FT*ref=function_train_constant(1.0,mo);
    FT*f=ftapprox_cross_rankadapt(w,ca,l,r,mo,fo,ref);
    for(size_t k=0;k<d;k++){cross_index_free(l[k]);cross_index_free(r[k]);free(st[k]);}
    fwrap_destroy(w);fiber_opt_args_free(fo);function_train_free(ref);return f;}
static struct sp**cross_spaces(size_t d,double*lb,double*ub){struct sp**s=malloc(d*sizeof*s);
    for(size_t i=0;i<d;i++){int t=vr_chance(0.5)?T_LIN:T_LEG;lb[i]=vr_unif(-1,0.2);ub[i]=lb[i]+vr_unif(0.7,1.6);s[i]=sp_make(t,lb[i],ub[i],t==T_LIN?vr_int(9,16):8);if(t==T_LEG){ope_opts_set_maxnum(s[i]->aopts,20);ope_opts_set_tol(s[i]->aopts,1e-10);}}return s;}
CASE(cross_args,"P06 P08",12,250,VH_SLOW){
    size_t d=vr_big(2,5,9),init[MD+1],cap[MD+1];double lb[MD],ub[MD];struct sp**s=cross_spaces(d,lb,ub);struct MultiApproxOpts*mo=spv_mopts(s,d);
    struct tgt t={0};t.d=d;t.lb=lb;t.ub=ub;t.kind=(int)vr_int(0,1);for(size_t i=0;i<d;i++)t.w[i]=vr_unif(0.3,2);
    size_t r0=vr_int(1,3);struct FtCrossArgs*a=ft_cross_args_alloc(d,r0);init[0]=init[d]=1;for(size_t k=1;k<d;k++){init[k]=r0;if(vr_chance(0.4)){init[k]=vr_int(1,3);ft_cross_args_set_rank(a,k,init[k]);}}
    int adapt=vr_chance(0.7);if(adapt)ft_cross_args_set_adaptation(a);else ft_cross_args_set_no_adaptation(a);
    if(vr_chance(0.5)){size_t c=vr_int(3,5);ft_cross_args_set_maxrank_all(a,c);for(size_t k=1;k<d;k++)cap[k]=c;for(size_t k=1;k<d;k++)if(vr_chance(0.4)){cap[k]=vr_int(init[k],6);ft_cross_args_set_maxrank_ind(a,cap[k],k-1);}}
    else for(size_t k=1;k<d;k++){cap[k]=vr_int(init[k],6);ft_cross_args_set_maxrank_ind(a,cap[k],k-1);}
    double er=vr_chance(0.5)?1e-3:1e-8;ft_cross_args_set_round_tol(a,er);ft_cross_args_set_kickrank(a,vr_int(1,3));ft_cross_args_set_maxiter(a,vr_int(1,3));ft_cross_args_set_cross_tol(a,1e-9);
    struct FtCrossArgs*b=ft_cross_args_copy(a);int first=vr_chance(0.5);
    vh_sig("d%zu adapt%d r%zu er%d",d,adapt,r0,er>1e-5);
    for(size_t k=0;k<=d;k++)EQZ("args-copy-ranks",ft_cross_args_get_ranks(b)[k],init[k]);
    FT*f,*g;if(first){f=args_run(a,s,d,&t,mo);ft_cross_args_free(a);a=NULL;g=args_run(b,s,d,&t,mo);}else{g=args_run(b,s,d,&t,mo);for(size_t k=0;k<=d;k++)EQZ("args-copy-shared",ft_cross_args_get_ranks(a)[k],init[k]);f=args_run(a,s,d,&t,mo);}
    if(t.outside)vh_fail("outside","%zu requests outside the box",t.outside);
    ft_wellformed("cross-wellformed",f,d);ft_wellformed("cross-wellformed",g,d);
    for(size_t k=1;k<d;k++){EQZ("args-copy-result-ranks",g->ranks[k],f->ranks[k]);if(adapt){if(f->ranks[k]>cap[k])vh_fail("args-cap","rank[%zu]=%zu cap %zu",k,f->ranks[k],cap[k]);}else EQZ("args-fixed-rank",f->ranks[k],init[k]);}
    double x[MD];for(int q=0;q<6;q++){spv_x(s,d,x);double v=function_train_eval(f,x);CLOSE("args-copy-result",function_train_eval(g,x),v,0);vh_obs(v);}
    function_train_free(f);function_train_free(g);ft_cross_args_free(a);ft_cross_args_free(b);multi_approx_opts_free(mo);spv_free(s,d);
}
CASE(cross_stop,"P06",8,160,VH_SLOW){ /* iterating stops only when two successive sweeps agree to the tolerance, or at the iteration limit */
    size_t d=vr_big(2,4,7),R=vr_int(1,2),N=6;double lb[MD],ub[MD];struct sp**s=cross_spaces(d,lb,ub);struct MultiApproxOpts*mo=spv_mopts(s,d);
    struct tgt t={0};t.d=d;t.lb=lb;t.ub=ub;t.kind=(int)vr_int(0,1);for(size_t i=0;i<d;i++)t.w[i]=vr_unif(0.3,2);
    double tol=pow(10,-(double)vr_int(1,6));FT*f[8];size_t calls[8];vh_sig("d%zu R%zu tol%d",d,R,(int)log10(tol));
    for(size_t m=1;m<=N;m++){struct FtCrossArgs*a=ft_cross_args_alloc(d,R);ft_cross_args_set_no_adaptation(a);ft_cross_args_set_maxiter(a,m);ft_cross_args_set_cross_tol(a,m==N?tol:1e-300);t.calls=0;f[m]=args_run(a,s,d,&t,mo);calls[m]=t.calls;ft_cross_args_free(a);}
    /* the run with the tolerance must coincide with one of the runs of fixed length */
    size_t hit=0;double x[MD];for(size_t m=1;m<N&&!hit;m++)if(calls[m]==calls[N]){int same=1;for(int q=0;q<4;q++){spv_x(s,d,x);if(function_train_eval(f[m],x)!=function_train_eval(f[N],x))same=0;}if(same)hit=m;}
    if(hit>=2){double e=function_train_relnorm2diff(f[hit],f[hit-1]);if(!(e<=1.01*tol+1e-7))vh_fail("stop-early","stopped after sweep %zu although sweeps differ by %g, tolerance %g",hit,e,tol);vh_hit("stopped-by-tolerance");}
    else if(hit==1){FT*one=function_train_constant(1.0,mo);double e=function_train_relnorm2diff(f[1],one);if(!(e<=1.01*tol+1e-7))vh_fail("stop-first","stopped after the first sweep although it differs from the reference by %g, tolerance %g",e,tol);function_train_free(one);}
    for(size_t m=1;m<=N;m++)function_train_free(f[m]);multi_approx_opts_free(mo);spv_free(s,d);
}
/* ---- function wrappers ---- */
static double ix_f(const size_t*i,void*a){struct tgt*t=a;double v=0.5;t->calls++;for(size_t k=0;k<t->d;k++)v=v*1.37+(double)i[k]*(1+(double)k);return v;}
CASE(fw_points,"P06",60,1500,0){
    size_t d=vr_big(1,5,13),n=vr_big(1,7,20),nf=vr_big(1,5,14),k=vr_int(0,d-1);struct tgt t={0};double lb[MD],ub[MD];for(size_t i=0;i<d;i++){lb[i]=-9;ub[i]=9;t.w[i]=vr_norm();}
    t.d=d;t.lb=lb;t.ub=ub;t.kind=(int)vr_int(0,4);t.c=vr_norm();int type=(int)vr_int(0,4);
    vh_sig("t%d d%zu k%zu n%zu f%zu",type,d,k,n,nf);
    if(type<4){
        struct Fwrap*w=tgt_wrap(&t,type);double*x=vh_dvec(n*d),*o=calloc(n,8),*y=vh_dvec(n);
        EQZ("eval-status",fwrap_eval(n,x,o,w),0);EQZ("eval-calls",t.calls,n);
        for(size_t i=0;i<n;i++)CLOSE("eval",o[i],tgt_val(&t,x+i*d),0);
        for(int rep=0;rep<2;rep++){ /* fibers, twice with the same wrapper */
            k=vr_int(0,d-1);double**f=malloc(nf*sizeof*f);fwrap_initialize_fiber_approx(w,k,nf);
            for(size_t j=0;j<nf;j++){f[j]=vh_dvec(d);fwrap_add_fiber(w,j,k,k?f[j]:NULL,d-1-k,k<d-1?f[j]+k+1:NULL);}
            for(int q=0;q<4;q++){size_t j=vr_int(0,nf-1);fwrap_set_which_fiber(w,j);size_t m=vr_int(1,n);t.calls=0;
                EQZ("fiber-status",fwrap_eval(m,y,o,w),0);EQZ("fiber-calls",t.calls,m);
                for(size_t i=0;i<m;i++){double z[MD];memcpy(z,f[j],8*d);z[k]=y[i];CLOSE("fiber",o[i],tgt_val(&t,z),0);}}
            fwrap_clean_fiber_approx(w);for(size_t j=0;j<nf;j++)free(f[j]);free(f);
            t.calls=0;fwrap_eval(n,x,o,w);for(size_t i=0;i<n;i++)CLOSE("eval-after-fibers",o[i],tgt_val(&t,x+i*d),0);}
        EQZ("wrong-function",t.wrongfun,0);fwrap_destroy(w);free(x);free(o);free(y);
    } else {
        struct Fwrap*w=fwrap_create(d,"general-index");fwrap_set_findex(w,ix_f,&t);size_t*x=malloc(n*d*sizeof*x),y[20];double*o=calloc(n,8);
        for(size_t i=0;i<n*d;i++)x[i]=vr_int(0,40);for(size_t i=0;i<20;i++)y[i]=vr_int(0,40);
        EQZ("eval-status",fwrap_eval(n,x,o,w),0);for(size_t i=0;i<n;i++)CLOSE("eval-index",o[i],ix_f(x+i*d,&t),0);
        size_t f[14][MD];fwrap_initialize_fiber_approx(w,k,nf);for(size_t j=0;j<nf;j++){for(size_t i=0;i<d;i++)f[j][i]=vr_int(0,40);fwrap_add_fiber(w,j,k,k?f[j]:NULL,d-1-k,k<d-1?f[j]+k+1:NULL);}
        for(int q=0;q<4;q++){size_t j=vr_int(0,nf-1);fwrap_set_which_fiber(w,j);EQZ("fiber-status",fwrap_eval(n,y,o,w),0);
            for(size_t i=0;i<n;i++){size_t z[MD];memcpy(z,f[j],d*sizeof*z);z[k]=y[i];CLOSE("fiber-index",o[i],ix_f(z,&t),0);}}
        fwrap_clean_fiber_approx(w);fwrap_destroy(w);free(x);free(o);
    }
}
/* several functions behind one wrapper, each with arguments of its own; large batches with repeated and nearly repeated points; callback failures */
struct fwarg { struct tgt*t; size_t id; double add; int ret; size_t calls; };
static int fa_vec(size_t n,const double*x,double*o,void*a){struct fwarg*w=a;w->calls+=n;for(size_t i=0;i<n;i++)o[i]=tgt_val(w->t,x+i*w->t->d)+w->add;return w->ret;}
static int fa_mo(size_t n,size_t k,const double*x,double*o,void*a){struct fwarg*w=(struct fwarg*)a+k;return fa_vec(n,x,o,w);}
CASE(fw_many,"P06",40,900,0){
    size_t d=vr_big(1,5,13),n=vr_chance(0.5)?vr_int(1,9):vr_int(10,200),nfun=vr_big(1,5,12);struct tgt t={0};t.d=d;t.kind=(int)vr_int(0,4);t.c=vr_norm();for(size_t i=0;i<d;i++)t.w[i]=vr_norm();
    struct fwarg a[12];for(size_t i=0;i<12;i++){a[i].t=&t;a[i].id=i;a[i].add=10.0*(double)i+vr_norm();a[i].ret=0;a[i].calls=0;}
    int type=(int)vr_int(0,3);struct Fwrap*w;double*x=malloc(8*n*d),*o=malloc(8*n);size_t which=0;
    for(size_t i=0;i<n;i++){ /* points that repeat or differ from a neighbour in a single coordinate */
        if(i&&vr_chance(0.6)){memcpy(x+i*d,x+(i-1)*d,8*d);if(vr_chance(0.8))x[i*d+vr_int(0,d-1)]=vr_norm();}else for(size_t k=0;k<d;k++)x[i*d+k]=vr_norm();}
    vh_sig("t%d d%zu n%d f%zu",type,d,(int)(n>9),nfun);
    switch(type){
    case 0:w=fwrap_create(d,"array-vec");fwrap_set_num_funcs(w,nfun);for(size_t i=0;i<nfun;i++)fwrap_set_func_array(w,i,fa_vec,a+i);break;
    case 1:w=fwrap_create(d,"mo-vec");fwrap_set_mofvec(w,fa_mo,a);break;
    case 2:w=fwrap_create(d,"general-vec");fwrap_set_fvec(w,fa_vec,a);nfun=1;break;
    default:w=fwrap_create(d,"general-index");fwrap_set_findex(w,ix_f,&t);nfun=1;
    }
    if(type<3)for(int rep=0;rep<4;rep++){
        if(nfun>1||type<2){which=vr_int(0,nfun-1);fwrap_set_which_eval(w,which);EQZ("which-eval",fwrap_get_which_eval(w),which);}
        for(size_t i=0;i<12;i++){a[i].calls=0;a[i].ret=0;}
        a[which].ret=vr_chance(0.3)?1:0;
        int fib=vr_chance(0.5);
        if(!fib){int st=fwrap_eval(n,x,o,w);EQZ("many-status",st!=0,a[which].ret!=0);
            for(size_t i=0;i<n;i++)CLOSE("many-eval",o[i],tgt_val(&t,x+i*d)+a[which].add,0);}
        else {size_t k=vr_int(0,d-1),nf=vr_big(1,6,14);double f[14][MD],*y=malloc(8*n);
            for(size_t i=0;i<n;i++)y[i]=i&&vr_chance(0.3)?y[i-1]:vr_norm();
            fwrap_initialize_fiber_approx(w,k,nf);for(size_t j=0;j<nf;j++){for(size_t i=0;i<d;i++)f[j][i]=j&&vr_chance(0.5)?f[j-1][i]:vr_norm();}
            for(size_t jj=0;jj<nf;jj++){size_t j=nf-1-jj;fwrap_add_fiber(w,j,k,k?f[j]:NULL,d-1-k,k<d-1?f[j]+k+1:NULL);}
            for(int q=0;q<3;q++){size_t j=vr_int(0,nf-1);fwrap_set_which_fiber(w,j);int st=fwrap_eval(n,y,o,w);EQZ("many-fiber-status",st!=0,a[which].ret!=0);
                for(size_t i=0;i<n;i++){double z[MD];memcpy(z,f[j],8*d);z[k]=y[i];CLOSE("many-fiber",o[i],tgt_val(&t,z)+a[which].add,0);}}
            fwrap_clean_fiber_approx(w);free(y);}
        for(size_t i=0;i<12;i++)if(i!=which)EQZ("many-other-called",a[i].calls,0);
        EQZ("many-calls",a[which].calls,fib?3*n:n);
    } else {
        size_t*ix=malloc(n*d*sizeof*ix);for(size_t i=0;i<n;i++){if(i&&vr_chance(0.6)){memcpy(ix+i*d,ix+(i-1)*d,d*sizeof*ix);if(vr_chance(0.8))ix[i*d+vr_int(0,d-1)]=vr_int(0,3);}else for(size_t k=0;k<d;k++)ix[i*d+k]=vr_int(0,3);}
        EQZ("many-status",fwrap_eval(n,ix,o,w),0);EQZ("many-calls",t.calls,n);for(size_t i=0;i<n;i++)CLOSE("many-index",o[i],ix_f(ix+i*d,&t),0);
        size_t k=vr_int(0,d-1),f[MD],*y=malloc(n*sizeof*y);for(size_t i=0;i<d;i++)f[i]=vr_int(0,9);for(size_t i=0;i<n;i++)y[i]=vr_int(0,3);
        fwrap_initialize_fiber_approx(w,k,1);fwrap_add_fiber(w,0,k,k?f:NULL,d-1-k,k<d-1?f+k+1:NULL);fwrap_set_which_fiber(w,0);t.calls=0;
        EQZ("many-fiber-status",fwrap_eval(n,y,o,w),0);EQZ("many-calls",t.calls,n);for(size_t i=0;i<n;i++){f[k]=y[i];CLOSE("many-fiber-index",o[i],ix_f(f,&t),0);}
        fwrap_clean_fiber_approx(w);free(y);free(ix);
    }
    vh_obs_arr(n,o);fwrap_destroy(w);free(x);free(o);
}
/* ---- left and right index sets ---- */
static void ci_check(const char*key,struct CrossIndex*c,size_t i,size_t n,const double*x){size_t m=0;double*v=cross_index_get_node_value(c,i,&m);EQZ(key,m,n);if(m==n)SAMEBYTES(key,v,x,n*8);}
CASE(ci_sets,"P06",60,1500,0){
    size_t d=vr_big(1,4,12),n=vr_big(1,5,14),ne=vr_big(1,5,14);struct CrossIndex*c=cross_index_alloc(d);double x[14][MD],e[14],z[MD];vh_sig("d%zu n%zu e%zu",d,n,ne);
    for(size_t i=0;i<n;i++){for(size_t k=0;k<d;k++)x[i][k]=vr_norm();cross_index_add_index(c,d,x[i],8);}
    for(size_t i=0;i<14;i++)e[i]=vr_norm();
    struct CrossIndex*cc=cross_index_copy(c);size_t cl=vr_big(0,3,10);cross_index_copylast(c,cl);EQZ("copylast-n",c->n,n+cl);EQZ("copy-n",cc->n,n);
    for(size_t i=0;i<n+cl;i++)ci_check("copylast",c,i,d,x[i<n?i:n-1]);
    for(size_t i=0;i<n;i++)ci_check("copy",cc,i,d,x[i]);
    for(int left=0;left<2;left++){ /* left==0: new coordinate at the end, otherwise in front */
        size_t pi[14];for(size_t i=0;i<ne;i++)pi[i]=vr_int(0,n-1);
        struct CrossIndex*a=cross_index_create_nested_ind(left,ne,pi,e,cc);EQZ("nested-n",a->n,ne);EQZ("nested-d",a->d,d+1);
        for(size_t i=0;i<ne;i++){memcpy(z+(left?1:0),x[pi[i]],8*d);z[left?0:d]=e[i];ci_check("nested-ind",a,i,d+1,z);}
        int method=(int)vr_int(0,2);size_t sz=method==2?vr_int(1,ne):vr_int(1,n*ne);
        struct CrossIndex*b=cross_index_create_nested(method,left,sz,ne,e,cc);EQZ("nested-all-n",b->n,sz);
        for(size_t i=0;i<sz;i++){size_t o,q;if(method==1){o=i/ne;q=i%ne;}else if(method==0){o=i%n;q=i/n;}else{o=i<n?i:0;q=i;}
            memcpy(z+(left?1:0),x[o],8*d);z[left?0:d]=e[q];ci_check("nested-all",b,i,d+1,z);}
        if(left==1){ double**m=cross_index_merge_wspace(cc,a);size_t D=d+d+2;EQZ("dims",a->d+cc->d+1,D);
            for(size_t i=0;i<a->n;i++)for(size_t j=0;j<n;j++){double*v=m[i*n+j];size_t q;double*r=cross_index_get_node_value(a,i,&q);SAMEBYTES("merge-left",v,x[j],8*d);CLOSE("merge-gap",v[d],0,0);SAMEBYTES("merge-right",v+d+1,r,8*(d+1));free(v);}free(m);
            m=cross_index_merge_wspace(NULL,a);for(size_t i=0;i<a->n;i++){size_t q;SAMEBYTES("merge-only-right",m[i]+1,cross_index_get_node_value(a,i,&q),8*(d+1));free(m[i]);}free(m);
            m=cross_index_merge_wspace(cc,NULL);for(size_t i=0;i<n;i++){SAMEBYTES("merge-only-left",m[i],x[i],8*d);free(m[i]);}free(m);
            struct CrossIndex*s2=cross_index_create_nested_ind(1,n,(size_t[14]){0},e,cc);m=cross_index_merge(cc,s2);
            for(size_t i=0;i<n;i++){size_t q;SAMEBYTES("merge-pair-left",m[i],x[i],8*d);SAMEBYTES("merge-pair-right",m[i]+d,cross_index_get_node_value(s2,i,&q),8*(d+1));free(m[i]);}free(m);cross_index_free(s2);}
        cross_index_free(a);cross_index_free(b);}
    cross_index_free(c);cross_index_free(cc);
    /* initial sets of a whole sweep */
    size_t D=vr_big(2,5,12),r[MD+1]={1};for(size_t k=1;k<D;k++)r[k]=vr_big(1,4,12);r[D]=1;double*v[MD];for(size_t k=0;k<D;k++)v[k]=vh_dvec(12);
    struct CrossIndex*R[MD],*L[MD];cross_index_array_initialize(D,R,0,1,r,(void**)v,8);cross_index_array_initialize(D,L,0,0,r+1,(void**)v,8);
    for(size_t k=0;k<D;k++){
        if(k==D-1)TRUE_("right-null",R[k]==NULL);else {EQZ("right-n",R[k]->n,r[k+1]);EQZ("right-d",R[k]->d,D-1-k);for(size_t i=0;i<R[k]->n;i++){size_t q;double*w=cross_index_get_node_value(R[k],i,&q);CLOSE("right-first",w[0],v[k+1][i],0);
            if(D-1-k>1){size_t o=i<R[k+1]->n?i:0;size_t q2;SAMEBYTES("right-nested",w+1,cross_index_get_node_value(R[k+1],o,&q2),8*(D-2-k));}}}
        if(k==0)TRUE_("left-null",L[k]==NULL);else {EQZ("left-n",L[k]->n,r[k]);EQZ("left-d",L[k]->d,k);for(size_t i=0;i<L[k]->n;i++){size_t q;double*w=cross_index_get_node_value(L[k],i,&q);CLOSE("left-last",w[k-1],v[k-1][i],0);
            if(k>1){size_t o=i<L[k-1]->n?i:0;size_t q2;SAMEBYTES("left-nested",w,cross_index_get_node_value(L[k-1],o,&q2),8*(k-1));}}}
    }
    for(size_t k=0;k<D;k++){cross_index_free(R[k]);cross_index_free(L[k]);free(v[k]);}
}
