/* Accessors, options objects, 1-D regression, elementwise operators, parameter views of arrays and trains. */
#include "model.h"
#include "approximate.h"
#include "lib_optimization.h"
#include "superlearn_util.h"
typedef struct FunctionTrain FT;
typedef struct GenericFunction GF;
#define TY_ALL (M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW))
#define RT 1e-10
struct FunctionTrain*function_train_operate(const struct FunctionTrain*,struct Operator**);
void function_train_eval_prev_core(struct FunctionTrain*,size_t,size_t,const double*,size_t,double*,size_t,double*,size_t,double*,size_t);
void function_train_eval_next_core(struct FunctionTrain*,size_t,size_t,const double*,size_t,double*,size_t,double*,size_t,double*,size_t);
struct OneApproxOpts*one_approx_opts_alloc_ref(enum function_class,void**);
/* ---- accessors of a train and sweeps over its cores ---- */
static GF*op_scale(const GF*g,void*a){GF*c=generic_function_copy(g);generic_function_scale(*(double*)a,c);return c;}
static GF*op_deriv(const GF*g,void*a){(void)a;return generic_function_deriv(g);}
CASE(ft_accessors,"P25 P14 P08",120,2000,0){
    size_t d=vr_chance(0.1)?1:vr_big(2,5,11);struct sp**s=spv_rand(d,TY_ALL,vr_chance(0.5));struct mft*a=mft_rand(s,d,4);FT*f=mft_ft(a);
    char rs[80]="";for(size_t i=0;i<=d;i++)sprintf(rs+strlen(rs),"%zu.",a->r[i]);vh_sig("d%zu r%s t%s",d,rs,tname[s[0]->t]);
    double av=0;for(size_t k=1;k<d;k++)av+=(double)a->r[k];CLOSE("avgrank",function_train_get_avgrank(f),d==1?1:av/((double)d-1),1e-14*(av+1));
    for(size_t k=0;k<d;k++){
        TRUE_("core",function_train_get_core(f,k)==f->cores[k]);EQZ("core-rows",qmarray_get_nrows(f->cores[k]),a->r[k]);EQZ("core-cols",qmarray_get_ncols(f->cores[k]),a->r[k+1]);
        for(size_t j=0;j<a->r[k+1];j++)for(size_t i=0;i<a->r[k];i++){GF*g=function_train_get_gfuni(f,k,i,j);double x=sp_x(s[k]);const struct m1*m=&a->f[k][j*a->r[k]+i];
            CLOSE("uni",generic_function_1d_eval(g,x),m1_eval(m,x),RT*m1_mag(m,x)+1e-290);TRUE_("uni-base",function_train_get_uni(f,k,i,j)==g->f);TRUE_("uni-base2",qmarray_get_func_base(f->cores[k],i,j)==g->f);TRUE_("qm-func",qmarray_get_func(f->cores[k],i,j)==g);}
    }
    /* batched sweeps over the cores in both directions, with strides */
    size_t N=vr_big(1,5,14),R=12,inc=R*R+vr_int(0,3),px=d+vr_int(0,2);double*X=malloc(N*px*8),*sp=calloc(N*inc,8),*u=calloc(N*inc,8),*v=calloc(N*inc,8);
    for(size_t n=0;n<N;n++)spv_x(s,d,X+n*px);
    if(d>1){
        for(size_t n=0;n<N;n++)for(size_t j=0;j<a->r[1];j++)u[n*inc+j]=m1_eval(&a->f[0][j],X[n*px]);
        for(size_t k=1;k<d;k++){function_train_eval_next_core(f,k,N,X+k,px,u,inc,sp,inc,v,inc);double*t=u;u=v;v=t;}
        for(size_t n=0;n<N;n++)CLOSE("sweep-right",u[n*inc],mft_eval(a,X+n*px),RT*mft_mag(a,X+n*px)+1e-290);
        for(size_t n=0;n<N;n++)for(size_t i=0;i<a->r[d-1];i++)u[n*inc+i]=m1_eval(&a->f[d-1][i],X[n*px+d-1]);
        for(size_t k=d-2;k>0;k--){function_train_eval_prev_core(f,k,N,X+k,px,u,inc,sp,inc,v,inc);double*t=u;u=v;v=t;}
        for(size_t n=0;n<N;n++){double w=0;for(size_t j=0;j<a->r[1];j++)w+=m1_eval(&a->f[0][j],X[n*px])*u[n*inc+j];CLOSE("sweep-left",w,mft_eval(a,X+n*px),RT*mft_mag(a,X+n*px)+1e-290);}
    }
    /* elementwise operators */
    struct Operator ops[MD],*op[MD];double sc[MD],pr=1;for(size_t k=0;k<d;k++){sc[k]=vr_norm();pr*=sc[k];ops[k].f=op_scale;ops[k].opts=&sc[k];op[k]=&ops[k];if(vr_chance(0.2)){op[k]=NULL;pr/=sc[k];}}
    FT*o=function_train_operate(f,op);ft_wellformed("operate-shape",o,d);
    for(size_t n=0;n<N;n++){CLOSE("operate",function_train_eval(o,X+n*px),pr*mft_eval(a,X+n*px),RT*fabs(pr)*mft_mag(a,X+n*px)+1e-290);}
    {FT*c=function_train_copy(o);CLOSE("operate-copy",function_train_eval(c,X),function_train_eval(o,X),RT*fabs(pr)*mft_mag(a,X)+1e-290);function_train_free(c);}
    function_train_free(o);
    for(size_t n=0;n<N;n++)CLOSE("operand",function_train_eval(f,X+n*px),mft_eval(a,X+n*px),RT*mft_mag(a,X+n*px)+1e-290);
    /* derivative in one coordinate */
    {size_t k=vr_int(0,d-1);if(s[k]->t==T_LEG||s[k]->t==T_CHEB||s[k]->t==T_HERM){for(size_t q=0;q<d;q++)op[q]=NULL;ops[k].f=op_deriv;ops[k].opts=NULL;op[k]=&ops[k];o=function_train_operate(f,op);
        for(size_t n=0;n<N;n++){double w=mft_grad(a,X+n*px,k),m=mft_mag(a,X+n*px);CLOSE("operate-deriv",function_train_eval(o,X+n*px),w,1e-8*(fabs(w)+100*m/(s[k]->ub-s[k]->lb)));}
        function_train_free(o);
        double D[MR*MR];double x=X[k];qmarray_deriv_eval(f->cores[k],x,D);
        for(size_t i=0;i<a->r[k]*a->r[k+1];i++){double w=m1_deriv(&a->f[k][i],x);CLOSE("qm-deriv-eval",D[i],w,1e-8*(fabs(w)+100*m1_mag(&a->f[k][i],x)/(s[k]->ub-s[k]->lb)));}}}
    free(X);free(sp);free(u);free(v);function_train_free(f);mft_free(a);spv_free(s,d);
}
/* ---- parameters of one univariate function, one core, a whole train; sparse parameter gradients of a core ---- */
CASE(ft_params,"P14 P25 P16",120,2000,0){
    size_t d=vr_big(1,4,10);struct sp**s=spv_rand(d,M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM),vr_chance(0.5));struct mft*a=mft_rand(s,d,3);FT*f=mft_ft(a);
    vh_sig("d%zu %s r%zu",d,tname[s[0]->t],a->r[d>1?1:0]);
    size_t np=function_train_get_nparams(f),cnt=0,mx=0;double*p=malloc(8*(np+1)),*q=malloc(8*(np+1)),x[MD];p[np]=q[np]=123.25;
    EQZ("get-count",function_train_get_params(f,p),np);
    for(size_t k=0;k<d;k++){size_t m=0,c=function_train_core_get_nparams(f,k,&m),t=0,mm=0;
        for(size_t i=0;i<a->r[k]*a->r[k+1];i++){size_t n=generic_function_get_num_params(f->cores[k]->funcs[i]);EQZ("func-nparams",function_train_func_get_nparams(f,k,i%a->r[k],i/a->r[k]),n);t+=n;if(n>mm)mm=n;
            double*ref=malloc(8*n);generic_function_get_params(f->cores[k]->funcs[i],ref);SAMEBYTES("order",p+cnt+t-n,ref,8*n);free(ref);}
        EQZ("core-nparams",c,t);EQZ("core-maxparams",m,mm);EQZ("core-get-count",function_train_core_get_params(f,k,q),c);SAMEBYTES("core-get",q,p+cnt,8*c);cnt+=c;if(mm>mx)mx=mm;}
    EQZ("nparams",np,cnt);CLOSE("guard",p[np],123.25,0);
    spv_x(s,d,x);function_train_eval(f,x);
    /* whole train */
    for(size_t i=0;i<np;i++)p[i]=vr_norm();
    EQZ("update-count",function_train_update_params(f,p),np);function_train_get_params(f,q);SAMEBYTES("update",q,p,8*np);
    for(int t=0;t<2;t++){spv_x(s,d,x);double mg;double w=ft_eval_ref(f,x,&mg);CLOSE("update-live",function_train_eval(f,x),w,RT*mg+1e-290);}
    /* one core, then one function */
    size_t k=vr_int(0,d-1),off=0;for(size_t j=0;j<k;j++)off+=function_train_core_get_nparams(f,j,NULL);size_t c=function_train_core_get_nparams(f,k,NULL);
    for(size_t i=0;i<c;i++)p[off+i]=vr_norm();function_train_core_update_params(f,k,c,p+off);function_train_get_params(f,q);SAMEBYTES("core-update",q,p,8*np);
    size_t row=vr_int(0,a->r[k]-1),col=vr_int(0,a->r[k+1]-1),o2=off;for(size_t i=0;i<col*a->r[k]+row;i++)o2+=generic_function_get_num_params(f->cores[k]->funcs[i]);
    size_t n1=function_train_func_get_nparams(f,k,row,col);for(size_t i=0;i<n1;i++)p[o2+i]=vr_norm();function_train_uni_update_params(f,k,row,col,n1,p+o2);function_train_get_params(f,q);SAMEBYTES("uni-update",q,p,8*np);
    {spv_x(s,d,x);double mg;double w=ft_eval_ref(f,x,&mg);CLOSE("uni-live",function_train_eval(f,x),w,RT*mg+1e-290);}
    /* gradient of a core at several points, and its product with left vectors */
    struct Qmarray*Q=f->cores[k];size_t N=vr_big(1,4,14),nr=a->r[k],nc=a->r[k+1],incx=vr_int(1,3),inco=nr*nc+vr_int(0,2),incg=c+vr_int(0,3);
    double*X=calloc(N*incx,8),*out=calloc(N*inco,8),*G=calloc(N*incg,8),*L=vh_dvec(N*nr),*MO=malloc(N*c*nc*8);for(size_t i=0;i<N*c*nc;i++)MO[i]=9e9;
    for(size_t n=0;n<N;n++){X[n*incx]=sp_x(s[k]);if(s[k]->t==T_CONST&&(X[n*incx]==s[k]->lb||X[n*incx]==s[k]->ub))X[n*incx]=s[k]->lb+0.123*(s[k]->ub-s[k]->lb);}
    int mode=(int)vr_int(0,2);
    qmarray_param_grad_eval_sparse_mult(Q,N,X,incx,mode==1?NULL:out,inco,G,incg,mode==2?NULL:L,mode==2?NULL:MO,c);
    for(size_t n=0;n<N;n++){size_t on=0;
        for(size_t j=0;j<nc;j++)for(size_t i=0;i<nr;i++){GF*g=Q->funcs[j*nr+i];size_t m=generic_function_get_num_params(g);double*ref=calloc(m,8);generic_function_param_grad_eval(g,1,X+n*incx,ref);
            if(mode!=1)CLOSE("grad-out",out[n*inco+j*nr+i],generic_function_1d_eval(g,X[n*incx]),1e-10*(1+fabs(out[n*inco+j*nr+i])));
            for(size_t l=0;l<m;l++){CLOSE("grad-param",G[n*incg+on+l],ref[l],1e-12*fabs(ref[l])+1e-300);
                if(mode!=2)for(size_t b=0;b<nc;b++)CLOSE("grad-mult",MO[n*c*nc+(on+l)*nc+b],b==j?ref[l]*L[n*nr+i]:0,1e-12*fabs(ref[l]*L[n*nr+i])+1e-300);}
            on+=m;free(ref);}}
    free(X);free(out);free(G);free(L);free(MO);free(p);free(q);function_train_free(f);mft_free(a);spv_free(s,d);
}
/* ---- options objects: what is set is what is read, and what the approximation uses ---- */
static double sq(double x,void*a){struct{double a,b,c;}*q=a;return q->a*x*x+q->b*x+q->c;}
static int sqv(size_t n,const double*x,double*o,void*a){for(size_t i=0;i<n;i++)o[i]=sq(x[i],a);return 0;}
CASE(opts_nodal,"P13",120,2000,0){
    int lin=vr_chance(0.5);size_t n1=vr_big(2,9,24),n2=vr_big(3,9,24);double x1[24],x2[24],lb=vr_unif(-3,1),ub=lb+vr_unif(0.5,3),l2=vr_unif(-3,1),u2=l2+vr_unif(0.5,3);vr_sorted(n1,lb,ub,x1,0.05);vr_sorted(n2,l2,u2,x2,0.05);
    struct{double a,b,c;}q={vr_norm(),vr_norm(),vr_norm()};int copy=lin&&vr_chance(0.5),again=vr_chance(0.5);
    vh_sig("l%d n%zu m%zu c%d a%d",lin,n1,n2,copy,again);
    struct Fwrap*fw=fwrap_create(1,"general-vec");fwrap_set_fvec(fw,sqv,&q);
    void*o=lin?(void*)lin_elem_exp_aopts_alloc(n1,x1):(void*)const_elem_exp_aopts_alloc(n1,x1);
#define LC(f,...) (lin?lin_elem_exp_aopts_##f(__VA_ARGS__):const_elem_exp_aopts_##f(__VA_ARGS__))
    EQZ("num",LC(get_num_nodes,o),n1);EQZ("np",LC(get_nparams,o),n1);CLOSE("lb",LC(get_lb,o),lb,0);CLOSE("ub",LC(get_ub,o),ub,0);
    struct OneApproxOpts*oa=vr_chance(0.5)?one_approx_opts_alloc(lin?LINELM:CONSTELM,o):one_approx_opts_alloc_ref(lin?LINELM:CONSTELM,&o);
    for(int rep=0;rep<1+again;rep++){
        if(copy){double*t=malloc(8*n2);memcpy(t,x2,8*n2);lin_elem_exp_aopts_set_nodes_copy(o,n2,t);for(size_t i=0;i<n2;i++)t[i]=1e9;free(t);}else LC(set_nodes,o,n2,x2);
        EQZ("num2",LC(get_num_nodes,o),n2);EQZ("np2",one_approx_opts_get_nparams(oa),n2);CLOSE("lb2",one_approx_opts_get_lb(oa),l2,0);CLOSE("ub2",one_approx_opts_get_ub(oa),u2,0);TRUE_("linear",one_approx_opts_linear_p(oa)==1);
        GF*g=generic_function_approximate1d(oa->fc,oa->aopts,fw);EQZ("approx-np",generic_function_get_num_params(g),n2);CLOSE("approx-lb",generic_function_get_lb(g),l2,0);CLOSE("approx-ub",generic_function_get_ub(g),u2,0);
        for(size_t i=0;i<n2;i++)CLOSE("interpolates",generic_function_1d_eval(g,x2[i]),sq(x2[i],&q),0);generic_function_free(g);
        copy=lin&&vr_chance(0.5);}
    /* adaptation switched on later; the resolution limit and the tolerance are used */
    double h=(u2-l2)*vr_unif(0.02,0.1),del=pow(10,-vr_unif(2,6));LC(set_adapt,o,1e10,1e10);LC(set_hmin,o,h);LC(set_delta,o,del);
    if(lin){GF*g=generic_function_approximate1d(oa->fc,oa->aopts,fw);size_t m=generic_function_get_num_params(g);
    double*nd=lin?((struct LinElemExp*)g->f)->nodes:((struct ConstElemExp*)g->f)->nodes,*cf=lin?((struct LinElemExp*)g->f)->coeff:((struct ConstElemExp*)g->f)->coeff;
    TRUE_("adapt-grows",m>=n2);CLOSE("adapt-lb",nd[0],l2,0);CLOSE("adapt-ub",nd[m-1],u2,0);
    size_t hit=0;for(size_t i=0;i<m;i++){CLOSE("adapt-interp",cf[i],sq(nd[i],&q),0);for(size_t j=0;j<n2;j++)hit+=nd[i]==x2[j];if(i){TRUE_("adapt-sorted",nd[i]>nd[i-1]);}}EQZ("adapt-keeps",hit,n2);
    {struct LinElemExpAopts*o3=lin_elem_exp_aopts_alloc_adapt(n2,x2,l2,u2,del,h);GF*g3=generic_function_approximate1d(LINELM,o3,fw);struct LinElemExp*L3=g3->f;EQZ("adapt-same-n",m,L3->num_nodes);if(m==L3->num_nodes)SAMEBYTES("adapt-same",nd,L3->nodes,8*m);generic_function_free(g3);lin_elem_exp_aopts_free(o3);}
    generic_function_free(g);}
    {struct OneApproxOpts*t=oa;if(vr_chance(0.5)){one_approx_opts_free_deep(&t);TRUE_("deep-null",t==NULL);}else {if(lin){struct LinElemExpAopts*z=o;lin_elem_exp_aopts_free_deep(&z);TRUE_("deep-null",z==NULL);}else{struct ConstElemExpAopts*z=o;const_elem_exp_aopts_free_deep(&z);TRUE_("deep-null",z==NULL);}one_approx_opts_free(oa);}}
    fwrap_destroy(fw);
}
CASE(opts_multi,"P13 P06",80,1500,0){
    size_t d=vr_big(1,5,12);struct sp**s=spv_rand(d,M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM),1);struct MultiApproxOpts*m=multi_approx_opts_alloc(d);
    vh_sig("d%zu %s %s",d,tname[s[0]->t],tname[s[d-1]->t]);
    for(size_t i=0;i<d;i++){if(vr_chance(0.5))multi_approx_opts_set_dim(m,i,s[i]->o);else multi_approx_opts_set_dim_ref(m,i,&s[i]->o);}
    EQZ("dim",multi_approx_opts_get_dim(m),d);
    for(size_t i=0;i<d;i++){EQZ("fc",multi_approx_opts_get_fc(m,i),s[i]->o->fc);TRUE_("opts",multi_approx_opts_get_aopts(m,i)==s[i]->o);TRUE_("linear",multi_approx_opts_linear_p(m,i)==1);
        EQZ("np",multi_approx_opts_get_dim_nparams(m,i),one_approx_opts_get_nparams(s[i]->o));
        if(s[i]->t==T_LIN||s[i]->t==T_CONST||s[i]->t==T_LEG||s[i]->t==T_CHEB){CLOSE("lb",multi_approx_opts_get_dim_lb(m,i),s[i]->lb,0);CLOSE("ub",multi_approx_opts_get_dim_ub(m,i),s[i]->ub,0);}
        if(s[i]->t==T_LEG||s[i]->t==T_CHEB||s[i]->t==T_HERM||s[i]->t==T_KER){size_t n=vr_big(1,9,20);
            if(s[i]->t==T_KER){double L=s[i]->lb,U=s[i]->ub;kernel_approx_opts_set_lb(s[i]->aopts,L);kernel_approx_opts_set_ub(s[i]->aopts,U);CLOSE("klb",multi_approx_opts_get_dim_lb(m,i),L,0);CLOSE("kub",multi_approx_opts_get_dim_ub(m,i),U,0);if(n<2)n=2;}
            if(s[i]->t!=T_KER){one_approx_opts_set_maxnum(s[i]->o,n+vr_int(0,3));}
            multi_approx_opts_set_dim_nparams(m,i,n);EQZ("np-set",one_approx_opts_get_nparams(s[i]->o),n);
            double*p=vh_dvec(n);GF*g=generic_function_create_with_params(s[i]->o->fc,s[i]->o->aopts,n,p);EQZ("np-used",generic_function_get_num_params(g),n);
            if(s[i]->t==T_KER){ /* centres are spread uniformly over the interval */
                double x=sp_x(s[i]),w=0,mg=0;for(size_t k=0;k<n;k++){double c=s[i]->lb+(s[i]->ub-s[i]->lb)*(double)k/((double)n-1);double v=p[k]*gauss_kernel_eval(s[i]->scale,s[i]->width*s[i]->width,c,x);w+=v;mg+=fabs(v);}
                (void)w;(void)mg;TRUE_("kernel-finite",isfinite(generic_function_1d_eval(g,x)));}
            double*q2=malloc(8*n);generic_function_get_params(g,q2);SAMEBYTES("np-params",q2,p,8*n);free(q2);generic_function_free(g);free(p);}
    }
    multi_approx_opts_set_all_same(m,s[0]->o);for(size_t i=0;i<d;i++)TRUE_("same",multi_approx_opts_get_aopts(m,i)==s[0]->o);
    multi_approx_opts_free(m);
    /* optimisation nodes per dimension */
    struct c3Vector*v[MD];double nd[3]={0,1,2};for(size_t i=0;i<d;i++)v[i]=c3vector_alloc(3,nd);
    struct FiberOptArgs*a=fiber_opt_args_init(d),*b=fiber_opt_args_bf(d,v),*c=fiber_opt_args_bf_same(d,v[0]);
    for(size_t i=0;i<d;i++){TRUE_("fo-null",fiber_opt_args_get_opts(a,i)==NULL);fiber_opt_args_set_dim(a,i,v[d-1-i]);TRUE_("fo-bf",fiber_opt_args_get_opts(b,i)==v[i]);TRUE_("fo-same",fiber_opt_args_get_opts(c,i)==v[0]);}
    for(size_t i=0;i<d;i++)TRUE_("fo-set",fiber_opt_args_get_opts(a,i)==v[d-1-i]);
    fiber_opt_args_free(a);fiber_opt_args_free(b);fiber_opt_args_free(c);for(size_t i=0;i<d;i++)c3vector_free(v[i]);
    /* boxes */
    double lo[MD],hi[MD];for(size_t i=0;i<d;i++){lo[i]=vr_norm();hi[i]=lo[i]+1+vr_u01();}
    struct BoundingBox*x=bounding_box_init_std(d),*y=bounding_box_init(d,lo[0],hi[0]),*z=bounding_box_vec(d,lo,hi);
    EQZ("bb-dim",bounding_box_get_dim(x),d);
    for(size_t i=0;i<d;i++){CLOSE("bb",bounding_box_get_lb(x)[i],-1,0);CLOSE("bb",bounding_box_get_ub(x)[i],1,0);CLOSE("bb",bounding_box_get_lb_dim(y,i),lo[0],0);CLOSE("bb",bounding_box_get_ub_dim(y,i),hi[0],0);CLOSE("bb",bounding_box_get_lb(z)[i],lo[i],0);CLOSE("bb",bounding_box_get_ub(z)[i],hi[i],0);}
    {size_t i=vr_int(0,d-1);bounding_box_set_lb_dim(z,i,-7);bounding_box_set_ub_dim(z,i,9);for(size_t k=0;k<d;k++){CLOSE("bb-set",bounding_box_get_lb_dim(z,k),k==i?-7:lo[k],0);CLOSE("bb-set",bounding_box_get_ub_dim(z,k),k==i?9:hi[k],0);}}
    bounding_box_free(x);bounding_box_free(y);bounding_box_free(z);spv_free(s,d);
}
/* ---- random polynomial trains live on the box they are given ---- */
CASE(ft_polyrand,"P28 P25",60,1000,VH_NODET){
    size_t d=vr_big(1,4,10),r[MD+1]={1},ord=vr_big(0,6,12);for(size_t k=1;k<d;k++)r[k]=vr_big(1,4,9);r[d]=1;double lo[MD],hi[MD];for(size_t i=0;i<d;i++){lo[i]=vr_norm();hi[i]=lo[i]+1+vr_u01();}
    struct BoundingBox*b=bounding_box_vec(d,lo,hi);enum poly_type pt=vr_chance(0.5)?LEGENDRE:CHEBYSHEV;vh_sig("d%zu o%zu p%d",d,ord,pt==LEGENDRE);
    FT*f=function_train_poly_randu(pt,b,r,ord);ft_wellformed("shape",f,d);
    for(size_t k=0;k<d;k++)for(size_t i=0;i<r[k]*r[k+1];i++){GF*g=f->cores[k]->funcs[i];CLOSE("lb",generic_function_get_lb(g),lo[k],0);CLOSE("ub",generic_function_get_ub(g),hi[k],0);size_t n=generic_function_get_num_params(g);TRUE_("order",n<=ord+1&&n>=1);double p[16];generic_function_get_params(g,p);for(size_t j=0;j<n;j++)TRUE_("range",p[j]>=-1&&p[j]<=1);}
    for(int t=0;t<3;t++){double x[MD],mg;for(size_t i=0;i<d;i++)x[i]=vr_unif(lo[i],hi[i]);double w=ft_eval_ref(f,x,&mg);CLOSE("eval",function_train_eval(f,x),w,RT*mg+1e-280);}
    function_train_free(f);bounding_box_free(b);
}
/* ---- one-dimensional regression solves its stated problem ---- */
static void solve_dense(size_t n,double*A,double*b){for(size_t i=0;i<n;i++){size_t p=i;for(size_t k=i+1;k<n;k++)if(fabs(A[k*n+i])>fabs(A[p*n+i]))p=k;for(size_t j=0;j<n;j++){double t=A[i*n+j];A[i*n+j]=A[p*n+j];A[p*n+j]=t;}double t=b[i];b[i]=b[p];b[p]=t;
    for(size_t k=i+1;k<n;k++){double m=A[k*n+i]/A[i*n+i];for(size_t j=i;j<n;j++)A[k*n+j]-=m*A[i*n+j];b[k]-=m*b[i];}}
    for(size_t i=n;i-->0;){for(size_t j=i+1;j<n;j++)b[i]-=A[i*n+j]*b[j];b[i]/=A[i*n+i];}}
CASE(fn_regress1d,"P16",60,1000,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_LEG)|M(T_HERM));size_t want=s->t==T_LIN?vr_int(3,6):vr_int(3,5);{double a=s->lb,b=s->ub;int t=s->t;sp_free(s);s=sp_make(t,a,b,want);}
    size_t np=s->maxn,N=vr_int(np+2,25);double*x=malloc(8*N),*y=malloc(8*N),*p0=vh_dvec(np);for(size_t i=0;i<N;i++){x[i]=s->lb+(s->ub-s->lb)*((double)i+vr_u01())/(double)N;y[i]=vr_norm();}
    int kind=(int)vr_int(0,3);if(kind==3&&s->t==T_LIN)kind=2;if(kind==2&&s->t==T_LIN)kind=1;
    enum regress_type rt[4]={LS,RLS2,RLSD2,RLSRKHS};double lam=pow(10,vr_unif(-2,0));int dec=(int)vr_int(0,1);double dp=dec?vr_unif(0.3,0.95):vr_unif(0.2,2);
    vh_sig("%s k%d np%zu N%zu",tname[s->t],kind,np,N);
    struct Regress1DOpts*o=regress_1d_opts_create(PARAMETRIC,rt[kind],N,x,y);regress_1d_opts_set_parametric_form(o,s->o->fc,s->aopts);regress_1d_opts_set_initial_parameters(o,p0);
    if(kind){ /* refuses without its penalty */
        struct c3Opt*t=c3opt_alloc(BFGS,np);int inf=0;GF*g=generic_function_regress1d(o,t,&inf);TRUE_("needs-penalty",g==NULL);generic_function_free(g);c3opt_free(t);regress_1d_opts_set_regularization_penalty(o,lam);
        if(kind==3){t=c3opt_alloc(BFGS,np);g=generic_function_regress1d(o,t,&inf);TRUE_("needs-decay",g==NULL);generic_function_free(g);c3opt_free(t);regress_1d_opts_set_RKHS_decay_rate(o,dec?ALGEBRAIC:EXPONENTIAL,dp);}}
    struct c3Opt*opt=c3opt_alloc(BFGS,np);c3opt_set_maxiter(opt,3000);c3opt_set_gtol(opt,1e-10);c3opt_set_relftol(opt,1e-18);c3opt_set_verbose(opt,0);
    int info=77;GF*g=generic_function_regress1d(o,opt,&info);TRUE_("fit",g!=NULL);
    /* own solution of the normal equations */
    double*A=calloc(np*np,8),*b=calloc(np,8),*e=malloc(8*np);double cond=0;
    for(size_t i=0;i<N;i++){for(size_t j=0;j<np;j++){memset(e,0,8*np);e[j]=1;struct m1 m={s,np,e,NULL};b[j]=b[j];A[0]=A[0];double v=m1_eval(&m,x[i]);b[j]+=v*y[i];for(size_t k=0;k<np;k++){memset(e,0,8*np);e[k]=1;A[j*np+k]+=v*m1_eval(&m,x[i]);}}}
    double*W=calloc(np*np,8);
    for(size_t j=0;j<np;j++)for(size_t k=0;k<np;k++){double*ej=calloc(np,8),*ek=calloc(np,8);ej[j]=1;ek[k]=1;struct m1 mj={s,np,ej,NULL},mk={s,np,ek,NULL};double w=0;
        if(kind==1)w=m1_inner(&mj,&mk);
        if(kind==3&&j==k){double c0=param_RLSRKHSregress_cost(np,ej,NULL,o),ls=0;for(size_t i=0;i<N;i++){double r=y[i]-m1_eval(&mj,x[i]);ls+=0.5*r*r;}w=2*(c0-ls)/lam;TRUE_("rkhs-positive",w>0);(void)dec;}
        if(kind==2){GF*gj=m1_gf(&mj),*gk=m1_gf(&mk),*t;for(int q=0;q<2;q++){t=generic_function_deriv(gj);generic_function_free(gj);gj=t;t=generic_function_deriv(gk);generic_function_free(gk);gk=t;}w=generic_function_inner(gj,gk);generic_function_free(gj);generic_function_free(gk);}
        W[j*np+k]=lam*w;free(ej);free(ek);}
    for(size_t i=0;i<np*np;i++)A[i]+=W[i];
    double tr=0;for(size_t i=0;i<np;i++)tr+=A[i*np+i];
    /* judge the objective value, not the parameters: insensitive to conditioning */
    double*q=malloc(8*np),*A2=malloc(8*np*np);memcpy(A2,A,8*np*np);memcpy(q,b,8*np);for(size_t i=0;i<np;i++)A2[i*np+i]+=1e-14*tr;solve_dense(np,A2,q);
    double*pf=malloc(8*np);generic_function_get_params(g,pf);double J[2];
    for(int w=0;w<2;w++){double*u=w?pf:q;struct m1 m={s,np,u,NULL};double v=0;for(size_t i=0;i<N;i++){double r=y[i]-m1_eval(&m,x[i]);v+=0.5*r*r;}for(size_t j=0;j<np;j++)for(size_t k=0;k<np;k++)v+=0.5*u[j]*W[j*np+k]*u[k];J[w]=v;}
    TRUE_("finite",isfinite(J[1]));
    if(!TRUE_("solves",J[1]<=J[0]+1e-5*(J[0]+1)))vh_fail("solves-detail","J %.10g best %.10g info %d",J[1],J[0],info);
    (void)cond;vh_obs_arr(np,pf);
    free(pf);free(q);free(A2);free(A);free(b);free(e);free(W);generic_function_free(g);c3opt_free(opt);regress_1d_opts_destroy(o);free(x);free(y);free(p0);sp_free(s);
}
/* ---- fibers of plain functions ---- */
static double f2(double x,double y,void*a){return *(double*)a*x+x*y*y-2*y;}
static __thread int FND=5;
static double fn(double*x,void*a){double v=*(double*)a;for(int i=0;i<FND;i++)v=v*0.7+x[i]*(double)(i+1);return v;}
CASE(fn_fibers,"P06 P11",60,1000,0){
    double c=vr_norm(),v[14],x=vr_norm();size_t n=vr_big(1,4,14),dim=vr_int(0,1),D=vr_int(0,4);for(size_t i=0;i<14;i++)v[i]=vr_norm();vh_sig("n%zu d%zu D%zu",n,dim,D);
    struct FiberCut*f=fiber_cut_init2d(f2,&c,dim,v[0]);CLOSE("cut2",fiber_cut_eval2d(x,f),dim?f2(v[0],x,&c):f2(x,v[0],&c),0);fiber_cut_free(f);
    struct FiberCut**fa=fiber_cut_2darray(f2,&c,dim,n,v);for(size_t i=0;i<n;i++)CLOSE("cut2a",fiber_cut_eval2d(x,fa[i]),dim?f2(v[i],x,&c):f2(x,v[i],&c),0);fiber_cut_array_free(n,fa);
    double w[14][12],*pw[14];for(size_t i=0;i<14;i++){pw[i]=w[i];for(int k=0;k<12;k++)w[i][k]=vr_norm();}
    FND=(int)vr_big(1,5,12);D=vr_int(0,(size_t)FND-1);
    fa=fiber_cut_ndarray(fn,&c,(size_t)FND,D,n,pw);for(size_t i=0;i<n;i++){double z[12];memcpy(z,w[i],sizeof z);z[D]=x;CLOSE("cutn",fiber_cut_eval(x,fa[i]),fn(z,&c),0);CLOSE("cutn-again",fiber_cut_eval(x,fa[i]),fn(z,&c),0);}fiber_cut_array_free(n,fa);
}
/* ---- a copy made in place equals its source and is independent ---- */
CASE(fn_copy_pa,"P08",60,1000,0){
    struct sp*s=sp_rand(TY_ALL);struct m1 m=m1_rand(s);GF*g=m1_gf(&m);GF*h=generic_function_alloc_base(1);generic_function_copy_pa(g,h);vh_sig("%s n%zu",tname[s->t],m.n);
    for(int i=0;i<4;i++){double x=sp_x(s);CLOSE("copy",generic_function_1d_eval(h,x),generic_function_1d_eval(g,x),0);}
    double x=sp_x(s),v=generic_function_1d_eval(g,x);generic_function_scale(-3,h);CLOSE("source",generic_function_1d_eval(g,x),v,0);generic_function_free(h);CLOSE("source-after-free",generic_function_1d_eval(g,x),v,0);
    generic_function_free(g);m1_free(&m);sp_free(s);
}
/* ---- polynomials combined with piecewise polynomials ---- */
CASE(fn_mixed,"P11 P12 P03 P05",80,1200,0){
    struct sp*s=sp_rand(M(T_PW)),*q=sp_make(T_LEG,s->lb,s->ub,vr_int(1,6));struct m1 a=m1_rand(s),b=m1_rand(q);GF*f=m1_gf(&a),*g=m1_gf(&b);int sw=vr_chance(0.5);
    vh_sig("pieces%zu n%zu sw%d",s->n-1,b.n,sw);GF*x=sw?g:f,*y=sw?f:g;double al=vr_norm(),be=vr_norm();
    GF*sum=generic_function_daxpby(al,x,be,y),*pr=generic_function_prod(x,y),*ws=generic_function_alloc_base(1);generic_function_weighted_sum_pa(al,x,be,y,&ws);
    GF*L[4]={x,y,x,y},*R[4]={y,x,x,y};size_t n=vr_int(1,4);GF*sp=generic_function_sum_prod(n,1,L,1,R);
    for(int i=0;i<8;i++){double t=s->lb+(s->ub-s->lb)*vr_u01();double u=m1_eval(&a,t),v=m1_eval(&b,t),mu=m1_mag(&a,t),mv=m1_mag(&b,t),X=sw?v:u,Y=sw?u:v,mx=sw?mv:mu,my=sw?mu:mv;
        CLOSE("mixed-daxpby",generic_function_1d_eval(sum,t),al*X+be*Y,1e-9*(fabs(al)*mx+fabs(be)*my));
        CLOSE("mixed-wsum",generic_function_1d_eval(ws,t),al*X+be*Y,1e-9*(fabs(al)*mx+fabs(be)*my));
        CLOSE("mixed-prod",generic_function_1d_eval(pr,t),X*Y,1e-9*mx*my+1e-9);
        double w=X*Y,m=mx*my;if(n>1){w+=X*Y;m+=mx*my;}if(n>2){w+=X*X;m+=mx*mx;}if(n>3){w+=Y*Y;m+=my*my;}
        CLOSE("mixed-sumprod",generic_function_1d_eval(sp,t),w,1e-9*m+1e-9);
        CLOSE("mixed-operands",generic_function_1d_eval(x,t),X,1e-11*mx);CLOSE("mixed-operands",generic_function_1d_eval(y,t),Y,1e-11*my);}
    double w=0;for(size_t k=0;k+1<s->n;k++){double*gw,*gx=gl_nodes(12,&gw),A=s->x[k],B=s->x[k+1];for(int j=0;j<12;j++){double t=0.5*(A+B)+0.5*(B-A)*gx[j];w+=0.5*(B-A)*gw[j]*m1_eval(&a,t)*m1_eval(&b,t);}free(gx);free(gw);}double na=m1_inner(&a,&a),nb=m1_inner(&b,&b);CLOSE("mixed-inner",generic_function_inner(x,y),w,1e-9*sqrt(na*nb));
    CLOSE("mixed-prod-integral",generic_function_integrate(pr),w,1e-8*sqrt(na*nb)+1e-9);
    double dn=generic_function_norm2diff(x,y);CLOSE("mixed-norm2diff",dn*dn,na+nb-2*w,1e-8*(na+nb));
    generic_function_free(sum);generic_function_free(pr);generic_function_free(ws);generic_function_free(sp);generic_function_free(f);generic_function_free(g);m1_free(&a);m1_free(&b);sp_free(s);sp_free(q);
}
/* ---- a kernel expansion built as a line is the best such fit; kernels can be added without limit ---- */
extern void dgels_(char*,int*,int*,int*,double*,int*,double*,int*,double*,int*,int*);
CASE(ker_linear,"P13 P11",60,800,0){
    size_t n=vr_big(2,6,15);double lb=vr_unif(-3,1),L=vr_unif(0.3,4),*c=malloc(8*n);for(size_t i=0;i<n;i++)c[i]=lb+L*((double)i+0.4*vr_u01())/(double)n;
    double wd=L/(double)n*vr_unif(0.5,1.2),sc=vr_unif(0.5,2),a=vr_norm(),b=vr_norm();struct KernelApproxOpts*ko=kernel_approx_opts_gauss(n,c,sc,wd);vh_sig("n%zu",n);
    double pl=lb+L*vr_unif(-0.1,0.1),pu=lb+L*vr_unif(0.9,1.1);kernel_approx_opts_set_lb(ko,pl);kernel_approx_opts_set_ub(ko,pu);
    struct KernelExpansion*k=kernel_expansion_linear(a,b,ko);EQZ("count",kernel_expansion_get_nkernels(k),n);
    int m=200,nn=(int)n,one=1,lw=4000,info;double*A=malloc(8*(size_t)m*n),*y=malloc(8*(size_t)m),*A0=malloc(8*(size_t)m*n),w[4000],el=0,eo=0,mg=0;
    for(int i=0;i<m;i++){double x=pl+(pu-pl)*i/(m-1.0);y[i]=a*x+b;mg+=y[i]*y[i];for(int j=0;j<nn;j++)A0[i+j*m]=A[i+j*m]=sc*exp(-(x-c[j])*(x-c[j])/wd/wd);double e=kernel_expansion_eval(k,x)-y[i];el+=e*e;}
    dgels_("N",&m,&nn,&one,A,&m,y,&m,w,&lw,&info);
    for(int i=0;i<m;i++){double x=pl+(pu-pl)*i/(m-1.0),s=0;for(int j=0;j<nn;j++)s+=A0[i+j*m]*y[j];s-=a*x+b;eo+=s*s;}
    TRUE_("best-fit",sqrt(el)<=1.3*sqrt(eo)+1e-6*sqrt(mg));
    /* adding kernels */
    double x=lb+L*vr_u01(),v=kernel_expansion_eval(k,x),mag=fabs(v);size_t extra=vr_int(1,40);
    for(size_t i=0;i<extra;i++){double ce=lb+L*vr_u01(),wt=vr_norm(),s2=vr_unif(0.2,2),w2=L*vr_unif(0.1,1);struct Kernel*kr=kernel_gaussian(s2,w2,ce);kernel_expansion_add_kernel(k,wt,kr);kernel_free(kr);v+=wt*s2*exp(-(x-ce)*(x-ce)/w2/w2);mag+=fabs(wt)*s2;
        CLOSE("added",kernel_expansion_eval(k,x),v,1e-11*mag);}
    EQZ("count-after",kernel_expansion_get_nkernels(k),n+extra);
    struct KernelExpansion*q=kernel_expansion_copy(k);CLOSE("copy",kernel_expansion_eval(q,x),kernel_expansion_eval(k,x),0);kernel_expansion_free(q);
    kernel_expansion_free(k);kernel_approx_opts_free(ko);free(c);free(A);free(A0);free(y);
}
