/* Differential operators on trains (Laplacian, diffusion, user operators) and alternating (DMRG) evaluation of operators. */
#include "model.h"
#include "lib_optimization.h"
#include "dmrg.h"
#include "dmrgprod.h"
#include "diffusion.h"
typedef struct GenericFunction GF;typedef struct FunctionTrain FT;
typedef GF*(*uop)(const GF*,size_t k,void*);
/* sum over k of the train with the k-th core transformed, evaluated core by core; mag: sum of absolute terms */
static double opsum(const FT*f,const double*x,uop op,void*arg,double*mag){
    double s=0,m=0;
    for(size_t k=0;k<f->dim;k++){double v[64]={1},a[64]={1},w[64],b[64];
        for(size_t c=0;c<f->dim;c++){size_t r0=f->ranks[c],r1=f->ranks[c+1];for(size_t j=0;j<r1;j++){w[j]=b[j]=0;for(size_t i=0;i<r0;i++){GF*g=f->cores[c]->funcs[j*r0+i];double e;
            if(c==k){GF*h=op(g,k,arg);e=generic_function_1d_eval(h,x[c]);generic_function_free(h);}else e=generic_function_1d_eval(g,x[c]);w[j]+=v[i]*e;b[j]+=a[i]*fabs(e);}}
            memcpy(v,w,sizeof v);memcpy(a,b,sizeof a);}
        s+=v[0];m+=a[0];}
    *mag=m;return s;
}
static GF*op_dd(const GF*g,size_t k,void*a){(void)k;(void)a;return generic_function_dderiv(g);}
static GF*op_ddp(const GF*g,size_t k,void*a){(void)k;(void)a;return generic_function_dderiv_periodic(g);}
struct uo1{double c;int kind;int calls;};
static GF*uo_f(const GF*g,void*a){struct uo1*o=a;o->calls++;GF*h=o->kind?generic_function_deriv(g):generic_function_copy(g);generic_function_scale(o->c,h);return h;}
static GF*op_user(const GF*g,size_t k,void*a){struct uo1*o=a;struct uo1 t=o[k];return uo_f(g,&t);}
static void inx(struct sp**s,size_t d,double*x){for(size_t k=0;k<d;k++){double L=s[k]->ub-s[k]->lb;x[k]=s[k]->t==T_LIN?s[k]->x[vr_int(0,s[k]->n-1)]:vr_unif(s[k]->lb+0.03*L,s[k]->ub-0.03*L);}}
CASE(pde_laplace,"P24",80,1500,0){
    size_t d=vr_big(1,5,11);struct sp**s=spv_rand(d,M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_LIN),vr_chance(0.5));for(size_t k=0;k<d;k++)if(s[k]->t==T_LIN&&s[k]->n<5){sp_free(s[k]);s[k]=sp_make(T_LIN,-1,2,7);}
    struct mft*m=mft_rand(s,d,3);FT*f=mft_ft(m);struct MultiApproxOpts*mo=spv_mopts(s,d);vh_sig("d%zu",d);for(size_t k=0;k<d;k++)vh_sig("%s r%zu",tname[s[k]->t],m->r[k]);
    int which=(int)vr_int(0,2);FT*g;struct uo1 u[MD];struct Operator ops[MD],*op[MD];
    if(which==0)g=exact_laplace(f,mo);
    else if(which==1)g=exact_laplace_op(f,NULL,mo);
    else{for(size_t k=0;k<d;k++){u[k].c=vr_norm();u[k].kind=(int)vr_int(0,1);u[k].calls=0;ops[k].f=uo_f;ops[k].opts=&u[k];op[k]=&ops[k];}g=exact_laplace_op(f,op,mo);for(size_t k=0;k<d;k++)EQZ("operator-calls",u[k].calls,m->r[k]*m->r[k+1]);}
    vh_sig("w%d",which);ft_wellformed("laplace-shape",g,d);for(size_t k=1;k<d;k++)EQZ("laplace-ranks",g->ranks[k],2*m->r[k]);
    for(int t=0;t<4;t++){double x[MD],mg;inx(s,d,x);double w=opsum(f,x,which==2?op_user:op_dd,u,&mg);CLOSE(which==2?"operator-sum":"laplacian",function_train_eval(g,x),w,1e-9*mg+1e-12);
        double mm=mft_mag(m,x);CLOSE("input-changed",function_train_eval(f,x),mft_eval(m,x),1e-10*mm+1e-13);
        /* for polynomials, the second derivatives themselves against a difference quotient of the model's exact derivative */
        if(which<2){int poly=1;for(size_t k=0;k<d;k++)if(s[k]->t==T_LIN||s[k]->t==T_HERM)poly=0;if(poly){double acc=0,sc=0;for(size_t k=0;k<d;k++){double L=s[k]->ub-s[k]->lb,h=L*1e-4,xp[MD],xm[MD];memcpy(xp,x,sizeof xp);memcpy(xm,x,sizeof xm);xp[k]+=h;xm[k]-=h;acc+=(mft_grad(m,xp,k)-mft_grad(m,xm,k))/(2*h);sc+=mm*64*64*20*4/L/L;}CLOSE("laplacian-derivative",function_train_eval(g,x),acc,2e-6*sc+2e-6*mg);vh_hit("polynomial");}}}
    function_train_free(g);function_train_free(f);multi_approx_opts_free(mo);mft_free(m);spv_free(s,d);
}
CASE(pde_periodic,"P24",40,800,0){
    size_t d=vr_big(1,4,9),n=vr_big(4,14,24);struct sp**s=malloc(d*sizeof*s);double lb=vr_unif(-3,3),ub=lb+vr_unif(0.5,20);double*nd=linspace(lb,ub,n);
    for(size_t k=0;k<d;k++){s[k]=sp_make(T_LIN,lb,ub,n);for(size_t i=0;i<n;i++)s[k]->x[i]=nd[i];}
    struct mft*m=mft_rand(s,d,3);FT*f=mft_ft(m);struct MultiApproxOpts*mo=spv_mopts(s,d);vh_sig("d%zu n%zu",d,n);
    FT*g=exact_laplace_periodic(f,mo);ft_wellformed("periodic-shape",g,d);
    struct OperatorForLaplace*o=build_lp_operator(d,n,nd);FT*h=exact_laplace_op(f,operator_for_laplace_get_op(o),mo);ft_wellformed("periodic-op-shape",h,d);
    destroy_operator_for_laplace(o);TRUE_("null-operator",operator_for_laplace_get_op(NULL)==NULL);
    for(int t=0;t<4;t++){double x[MD],mg;inx(s,d,x);double w=opsum(f,x,op_ddp,NULL,&mg);double hh=nd[1]-nd[0],am=mft_mag(m,x);(void)am;double tol=1e-9*(mg+pow(M_PI/hh,2)*(double)n);
        for(size_t k=0;k<d;k++)for(size_t j=0;j<m->r[k]*m->r[k+1];j++)tol*=1;CLOSE("periodic-laplacian",function_train_eval(g,x),w,tol);CLOSE("operator-laplacian",function_train_eval(h,x),w,tol);}
    function_train_free(g);function_train_free(h);function_train_free(f);multi_approx_opts_free(mo);mft_free(m);spv_free(s,d);free(nd);
}
static double diff_ref(const struct mft*a,const struct mft*f,struct sp**s,const double*x,double*mg){ /* div(a grad f) */
    double r=0,m=0,av=mft_eval(a,x),am=mft_mag(a,x),fm=mft_mag(f,x);
    for(size_t k=0;k<a->d;k++){double L=s[k]->ub-s[k]->lb,h=L*1e-4,xp[MD],xm[MD];memcpy(xp,x,sizeof xp);memcpy(xm,x,sizeof xm);xp[k]+=h;xm[k]-=h;
        r+=mft_grad(a,x,k)*mft_grad(f,x,k)+av*(mft_grad(f,xp,k)-mft_grad(f,xm,k))/(2*h);m+=am*fm*64*64*40*4/L/L;}
    *mg=m;return r;
}
CASE(pde_diffusion,"P24",50,900,0){
    size_t d=vr_big(1,4,9);struct sp**s=spv_rand(d,M(T_LEG)|M(T_CHEB),vr_chance(0.5));struct mft*a=mft_rand(s,d,2),*f=mft_rand(s,d,3);FT*A=mft_ft(a),*F=mft_ft(f);struct MultiApproxOpts*mo=spv_mopts(s,d);
    vh_sig("d%zu",d);for(size_t k=1;k<d;k++)vh_sig("a%zu f%zu",a->r[k],f->r[k]);
    FT*g=exact_diffusion(A,F,mo);ft_wellformed("diffusion-shape",g,d);
    for(int t=0;t<4;t++){double x[MD],mg;for(size_t k=0;k<d;k++){double L=s[k]->ub-s[k]->lb;x[k]=vr_unif(s[k]->lb+0.2*L,s[k]->ub-0.2*L);}double w=diff_ref(a,f,s,x,&mg);CLOSE("diffusion",function_train_eval(g,x),w,3e-6*mg+1e-5);
        CLOSE("coefficient-changed",function_train_eval(A,x),mft_eval(a,x),1e-10*mft_mag(a,x)+1e-13);CLOSE("input-changed",function_train_eval(F,x),mft_eval(f,x),1e-10*mft_mag(f,x)+1e-13);}
    function_train_free(g);function_train_free(A);function_train_free(F);multi_approx_opts_free(mo);mft_free(a);mft_free(f);spv_free(s,d);
}
/* trains whose univariate functions fill their spaces: the alternating method cannot raise two neighbouring ranks through a degenerate dimension */
static struct mft*mft_generic(struct sp**s,size_t d,size_t maxr){struct mft*m=mft_rand(s,d,maxr);
    for(size_t k=0;k<d;k++)for(size_t j=0;j<m->r[k]*m->r[k+1];j++){struct m1*f=&m->f[k][j];if(s[k]->t!=T_LIN){m1_free(f);*f=m1_rand_n(s[k],6);}for(size_t i=0;i<f->n;i++)f->c[i]=vr_norm();}
    return m;}
/* relative L2 error of a train against reference values on the grid of exact quadrature nodes */
CASE(dmrg_prod,"P24",16,300,VH_SLOW){
    size_t d=vr_big(2,4,7);int lin=vr_chance(0.3);struct sp**s=spv_rand(d,lin?M(T_LIN):M(T_LEG),0);for(size_t k=0;k<d;k++)if(lin&&(s[k]->n<6||s[k]->n>12)){sp_free(s[k]);s[k]=sp_make(T_LIN,0,1,vr_int(6,10));}
    size_t mr=d>4?2:3;struct mft*a=mft_generic(s,d,mr),*b=mft_generic(s,d,mr);FT*A=mft_ft(a),*B=mft_ft(b);struct MultiApproxOpts*mo=spv_mopts(s,d);
    int guess=vr_chance(0.4);struct mft*z=guess?mft_generic(s,d,mr):NULL;FT*Z=guess?mft_ft(z):NULL;
    vh_sig("d%zu lin%d g%d",d,lin,guess);for(size_t k=1;k<d;k++)vh_sig("a%zu b%zu",a->r[k],b->r[k]);
    int grid=d<=4;struct rule*r=NULL;double*ta=NULL,*tb=NULL,nn;FT*AB=NULL;
    if(grid){r=rules_make(s,d,0);size_t N=rules_size(r,d);ta=mft_full(a,r);tb=mft_full(b,r);for(size_t i=0;i<N;i++)ta[i]*=tb[i];nn=full_norm(ta,r,d);}
    else{AB=function_train_product(A,B);nn=function_train_norm2(AB);}
    int degenerate=!(nn>1e-6)||function_train_norm2(A)<1e-6||(guess&&function_train_norm2(Z)<1e-6);
    if(!degenerate){
        FT*g=dmrg_product(Z,A,B,1e-12,12,1e-12,0,mo);ft_wellformed("dmrg-shape",g,d);for(size_t k=1;k<d;k++)TRUE_("dmrg-rank",g->ranks[k]<=a->r[k]*b->r[k]);
        if(grid){double*tg=ft_full(g,r);CLOSE("dmrg-product",full_diffnorm(tg,ta,r,d),0,1e-6*nn+1e-9);free(tg);}else CLOSE("dmrg-product",function_train_norm2diff(g,AB),0,2e-6*nn+1e-7);
        double x[MD];spv_x(s,d,x);CLOSE("input-changed",function_train_eval(A,x),mft_eval(a,x),1e-10*mft_mag(a,x)+1e-13);CLOSE("input-changed",function_train_eval(B,x),mft_eval(b,x),1e-10*mft_mag(b,x)+1e-13);
        function_train_free(g);
    }else vh_hit("degenerate");
    function_train_free(AB);if(grid){free(ta);free(tb);rules_free(r,d);}function_train_free(A);function_train_free(B);function_train_free(Z);multi_approx_opts_free(mo);mft_free(a);mft_free(b);if(z)mft_free(z);spv_free(s,d);
}
CASE(dmrg_diff,"P24",12,240,VH_SLOW){
    size_t d=vr_big(2,4,6);struct sp**s=spv_rand(d,M(T_LEG),0);struct mft*a=mft_generic(s,d,2),*f=mft_generic(s,d,2);FT*A=mft_ft(a),*F=mft_ft(f);struct MultiApproxOpts*mo=spv_mopts(s,d);
    vh_sig("d%zu",d);for(size_t k=1;k<d;k++)vh_sig("a%zu f%zu",a->r[k],f->r[k]);
    FT*e=exact_diffusion(A,F,mo);double nn=function_train_norm2(e);
    if(nn>1e-3&&function_train_norm2(F)>1e-3){
        FT*g=dmrg_diffusion(A,F,1e-12,12,1e-12,0,mo);ft_wellformed("dmrg-diffusion-shape",g,d);
        if(d>4)CLOSE("dmrg-diffusion",function_train_norm2diff(g,e),0,2e-6*nn+1e-7);else{struct rule*r=rules_make(s,d,0);double*tg=ft_full(g,r),*te=ft_full(e,r);CLOSE("dmrg-diffusion",full_diffnorm(tg,te,r,d),0,1e-6*full_norm(te,r,d)+1e-8);free(tg);free(te);rules_free(r,d);}
        function_train_free(g);
    }else vh_hit("degenerate");
    function_train_free(e);function_train_free(A);function_train_free(F);multi_approx_opts_free(mo);mft_free(a);mft_free(f);spv_free(s,d);
}
