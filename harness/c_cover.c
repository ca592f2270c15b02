/* Operations that the larger workloads do not reach. */
#include "model.h"
#include "lib_optimization.h"
#include "tensor.h"
#include "tensortrain.h"
#include "cross.h"
typedef struct GenericFunction GF;
/* ---- extrema and roots of polynomials, whole and piecewise ---- */
CASE(poly_extrema,"P27",150,3000,0){
    struct sp*s=sp_rand(M(T_LEG)|M(T_CHEB)|M(T_PW));struct m1 f=m1_rand(s);GF*F=m1_gf(&f);double L=s->ub-s->lb,mg=0,mx=-1e300,mn=1e300;
    vh_sig("%s n%zu",tname[s->t],f.n);
    for(int k=0;k<=400;k++){double x=s->lb+L*k/400.0,v=m1_eval(&f,x);mg=dmax(mg,m1_mag(&f,x));if(v>mx)mx=v;if(v<mn)mn=v;}
    double xa=NAN,xi=NAN,va,vi;
    if(s->t==T_PW){va=piecewise_poly_max(F->f,&xa);vi=piecewise_poly_min(F->f,&xi);}else{va=orth_poly_expansion_max(F->f,&xa);vi=orth_poly_expansion_min(F->f,&xi);}
    TRUE_("max-in-domain",xa>=s->lb-1e-9*L&&xa<=s->ub+1e-9*L);TRUE_("min-in-domain",xi>=s->lb-1e-9*L&&xi<=s->ub+1e-9*L);
    TRUE_("max-is-maximal",va>=mx-1e-6*mg);TRUE_("min-is-minimal",vi<=mn+1e-6*mg);
    int jump=0;if(s->t==T_PW)for(size_t i=0;i<s->n;i++){if(fabs(xa-s->x[i])<1e-9*L||fabs(xi-s->x[i])<1e-9*L)jump=1;}
    if(!jump){xa=dmax(s->lb,xa<s->ub?xa:s->ub);xi=dmax(s->lb,xi<s->ub?xi:s->ub);CLOSE("max-attained",va,m1_eval(&f,xa),1e-8*mg);CLOSE("min-attained",vi,m1_eval(&f,xi),1e-8*mg);}
    vh_obs(va);vh_obs(vi);generic_function_free(F);m1_free(&f);sp_free(s);
}
/* ---- conversion to monomials, splitting into pieces ---- */
CASE(poly_forms,"P11",150,3000,0){
    struct sp*s=sp_rand(M(T_LEG)|M(T_CHEB));struct m1 f=m1_rand(s);GF*F=m1_gf(&f);double L=s->ub-s->lb;vh_sig("%s n%zu",tname[s->t],f.n);
    struct OrthPolyExpansion*o=F->f;
    if(o->num_poly<=9){struct StandardPoly*p=orth_poly_expansion_to_standard_poly(o);
        double m=2/L,off=1-m*s->ub,big=pow(1+2*(fabs(off)+m*dmax(fabs(s->lb),fabs(s->ub))),(double)o->num_poly)*1e-14;
        for(int k=0;k<6&&big<1e-7;k++){double x=sp_x(s),v=0,g=0;for(size_t i=o->num_poly;i-->0;){v=v*x+p->coeff[i];g=g*fabs(x)+fabs(p->coeff[i]);}CLOSE("monomial-form",v,m1_eval(&f,x),(big+1e-12)*(1+g+m1_mag(&f,x)));}
        standard_poly_free(p);}
    /* a leaf split into pieces is the same function */
    struct PiecewisePoly*w=piecewise_poly_alloc();w->leaf=1;w->branches=NULL;w->nbranches=0;w->ope=orth_poly_expansion_copy(o);
    size_t N=vr_int(2,6);double b[8];b[0]=o->lower_bound;b[N-1]=o->upper_bound;for(size_t i=1;i+1<N;i++)b[i]=b[0]+L*((double)i+vr_unif(-0.3,0.3))/(double)(N-1);
    if(o->num_poly>1){piecewise_poly_splitn(w,N,b);
        EQZ("split-pieces",w->nbranches,N-1);TRUE_("split-not-leaf",w->leaf==0);
        for(size_t i=0;i<w->nbranches;i++){CLOSE("split-lb",piecewise_poly_get_lb(w->branches[i]),b[i],1e-14*(1+fabs(b[i])));CLOSE("split-ub",piecewise_poly_get_ub(w->branches[i]),b[i+1],1e-14*(1+fabs(b[i+1])));}
        for(int k=0;k<10;k++){double x=sp_x(s),mg=0;for(int q=0;q<=10;q++)mg=dmax(mg,m1_mag(&f,s->lb+L*q/10));CLOSE("split-value",piecewise_poly_eval(w,x),m1_eval(&f,x),1e-9*mg+1e-13);}}
    piecewise_poly_free(w);generic_function_free(F);m1_free(&f);sp_free(s);
}
/* ---- second derivatives of periodic trains ---- */
CASE(ft_hess_periodic,"P09 P24",40,800,0){
    size_t d=vr_int(2,5);struct sp**s=calloc(d,sizeof*s);for(size_t k=0;k<d;k++){size_t n=vr_int(6,14);double l=vr_unif(-2,0),u=vr_unif(1,3);s[k]=sp_make(T_LIN,l,u,n);double*nd=linspace(l,u,n);memcpy(s[k]->x,nd,8*n);free(nd);}
    struct mft*a=mft_rand(s,d,3);struct FunctionTrain*f=mft_ft(a);vh_sig("d%zu",d);
    struct FT1DArray*h=function_train_hessian_diag_periodic(f);EQZ("hess-size",h->size,d);
    for(size_t k=0;k<d;k++){ft_wellformed("hess-shape",h->ft[k],d);
        for(int t=0;t<3;t++){double x[MD];spv_x(s,d,x);double u[MR]={0},v[MR],g[MR]={0},gv[MR];u[0]=g[0]=1;
            for(size_t c=0;c<d;c++){struct Qmarray*q=f->cores[c];for(size_t j=0;j<q->ncols;j++){v[j]=gv[j]=0;for(size_t i=0;i<q->nrows;i++){GF*e=q->funcs[i+j*q->nrows];double w;
                if(c==k){GF*D=generic_function_dderiv_periodic(e);w=generic_function_1d_eval(D,x[c]);generic_function_free(D);}else w=generic_function_1d_eval(e,x[c]);v[j]+=u[i]*w;gv[j]+=g[i]*fabs(w);}}
                memcpy(u,v,8*q->ncols);memcpy(g,gv,8*q->ncols);}
            CLOSE("hess-periodic",function_train_eval(h->ft[k],x),u[0],1e-10*g[0]+1e-290);}}
    for(int t=0;t<2;t++){double x[MD];spv_x(s,d,x);CLOSE("hess-operand",function_train_eval(f,x),mft_eval(a,x),1e-10*mft_mag(a,x));}
    ft1d_array_free(h);function_train_free(f);mft_free(a);spv_free(s,d);
}
/* ---- dropping small trailing modes ---- */
CASE(poly_truncate,"P04",100,2000,0){
    size_t d=vr_int(2,4);struct sp**s=spv_rand(d,M(T_LEG)|M(T_HERM),0);struct mft*a=mft_rand(s,d,3);double del=pow(10,-vr_unif(1,8));
    for(size_t k=0;k<d;k++)for(size_t i=0;i<a->r[k]*a->r[k+1];i++){struct m1*q=&a->f[k][i];for(size_t j=1;j<q->n;j++)if(vr_chance(0.5))q->c[j]*=pow(10,-vr_unif(0,6));}
    struct FunctionTrain*f=mft_ft(a),*g=function_train_copy(f);vh_sig("%s d%zu e%d",tname[s[0]->t],d,(int)log10(del));function_train_truncate(g,del);ft_wellformed("truncate-shape",g,d);
    for(size_t k=0;k<d;k++)for(size_t i=0;i<a->r[k]*a->r[k+1];i++){struct OrthPolyExpansion*p=f->cores[k]->funcs[i]->f,*q=g->cores[k]->funcs[i]->f;double tot=0,lost=0;
        TRUE_("truncate-size",q->num_poly>=1&&q->num_poly<=p->num_poly);if(q->num_poly>p->num_poly)continue;
        for(size_t j=0;j<p->num_poly;j++){tot+=p->coeff[j]*p->coeff[j];if(j<q->num_poly)CLOSE("truncate-keeps",q->coeff[j],p->coeff[j],0);else lost+=p->coeff[j]*p->coeff[j];}
        TRUE_("truncate-bound",lost<=del*tot*(1+1e-9));
        if(q->num_poly>1)TRUE_("truncate-minimal",lost+pow(q->coeff[q->num_poly-1],2)>=del*tot*(1-1e-6));}
    for(int t=0;t<2;t++){double x[MD];spv_x(s,d,x);(void)function_train_eval(g,x);}
    function_train_free(f);function_train_free(g);mft_free(a);spv_free(s,d);
}
/* ---- refinement of an interval ---- */
static __thread double AK[3];static __thread size_t AN_;
static int adf(size_t n,const double*x,double*o,void*a){(void)a;for(size_t i=0;i<n;i++){AN_++;o[i]=AK[0]+AK[1]*sin(AK[2]*x[i]);}return 0;}
CASE(lin_adapt,"P13",150,3000,0){
    AK[0]=vr_unif(2,4);AK[1]=vr_unif(0.3,1.5);AK[2]=vr_unif(0.5,5);double l=vr_unif(-2,0),r=l+vr_unif(0.5,4),del=pow(10,-vr_unif(2,4)),h=(r-l)*pow(2,-vr_unif(1,9)),fl,fr;AN_=0;
    struct Fwrap*fw=fwrap_create(1,"general-vec");fwrap_set_fvec(fw,adf,NULL);adf(1,&l,&fl,NULL);adf(1,&r,&fr,NULL);
    struct LinElemXY*xy=NULL;lin_elem_adapt(fw,l,fl,r,fr,del,h,&xy);TRUE_("adapt-list",xy!=NULL);size_t n=0;double px=0,py=0;vh_sig("h%d",(int)log2((r-l)/h));
    for(struct LinElemXY*c=xy;c;c=lin_elem_xy_next(c)){double x=lin_elem_xy_get_x(c),y=lin_elem_xy_get_y(c),w;adf(1,&x,&w,NULL);CLOSE("adapt-value",y,w,0);
        if(!n)CLOSE("adapt-first",x,l,0);else{TRUE_("adapt-increasing",x>px);double m=0.5*(x+px),fm;adf(1,&m,&fm,NULL);TRUE_("adapt-spacing",x-px>=0.249*h||x-px>=0.499*(r-l));(void)fm;}px=x;py=y;n++;}
    (void)py;TRUE_("adapt-count",n>=2);CLOSE("adapt-last",px,r,0);lin_elem_xy_free(xy);fwrap_destroy(fw);
}
/* ---- fibres of a stored tensor ---- */
CASE(tens_fibre,"P20",100,2000,0){
    size_t d=vr_int(2,4),n[4],N=1;for(size_t k=0;k<d;k++){n[k]=vr_int(1,5);N*=n[k];}struct tensor*t;init_tensor(&t,d,n);for(size_t i=0;i<N;i++)t->vals[i]=vr_norm();
    size_t k=vr_int(0,d-1),ix[4],st=1,off=0;for(size_t j=0;j<d;j++){ix[j]=vr_int(0,n[j]-1);if(j!=k)off+=st*ix[j];if(j<k){}st*=n[j];}
    size_t sk=1;for(size_t j=0;j<k;j++)sk*=n[j];double o[6];o[n[k]]=77;vh_sig("d%zu k%zu",d,k);size_t keep[4];memcpy(keep,ix,sizeof ix);
    wrap_full_tensor_for_cross(n[k],ix,k,o,t);for(size_t i=0;i<n[k];i++)CLOSE("fibre",o[i],t->vals[off+i*sk],0);CLOSE("fibre-gap",o[n[k]],77,0);
    for(size_t j=0;j<d;j++)if(j!=k)EQZ("fibre-fixed-index",ix[j],keep[j]);
    free_tensor(&t);
}
/* ---- printed forms do not disturb what they print ---- */
CASE(print_forms,"P01 P08",60,800,0){
    FILE*z=fopen("/dev/null","w");struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_PW));size_t r=vr_int(1,3),c=vr_int(1,3);vh_sig("%s %zux%zu",tname[s->t],r,c);
    struct Qmarray*q=qmarray_alloc(r,c);struct m1 f[9];struct Quasimatrix*qm=quasimatrix_alloc(r*c);
    for(size_t i=0;i<r*c;i++){f[i]=m1_rand(s);q->funcs[i]=m1_gf(f+i);quasimatrix_set_func(qm,q->funcs[i],i);}
    print_qmarray(q,vr_int(0,6),NULL,z);quasimatrix_print(qm,z,vr_int(0,6),NULL);for(size_t i=0;i<r*c;i++)print_generic_function(q->funcs[i],vr_int(0,6),NULL,z);
    for(size_t i=0;i<r*c;i++){double x=sp_x(s);CLOSE("print-keeps",generic_function_1d_eval(q->funcs[i],x),m1_eval(f+i,x),1e-10*m1_mag(f+i,x)+1e-13);m1_free(f+i);}
    fclose(z);quasimatrix_free(qm);qmarray_free(q);sp_free(s);
}
