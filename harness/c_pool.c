/* Random histories over a pool of live objects: an operation may change only its documented target. */
#include "model.h"
typedef struct GenericFunction GF;typedef struct FunctionTrain FT;
#define NP 7
struct snap{unsigned char*b;size_t n;};
static void snap_free(struct snap*s){free(s->b);s->b=NULL;s->n=0;}
static struct snap ft_snap(FT*f){struct snap s;function_train_serialize(NULL,f,&s.n);s.b=malloc(s.n);function_train_serialize(s.b,f,NULL);return s;}
static struct snap gf_snap(GF*f){struct snap s;serialize_generic_function(NULL,f,&s.n);s.b=malloc(s.n);serialize_generic_function(s.b,f,NULL);return s;}
static int snap_eq(const struct snap*a,const struct snap*b){return a->n==b->n&&memcmp(a->b,b->b,a->n)==0;}
static int has_prod(struct sp**s,size_t d){for(size_t k=0;k<d;k++)if(s[k]->t==T_KER||s[k]->t==T_FOUR)return 0;return 1;}
static int has_inner(struct sp**s,size_t d){for(size_t k=0;k<d;k++)if(s[k]->t==T_FOUR||(s[k]->t==T_LIN&&s[k]->n<3))return 0;return 1;}
static int has_par(struct sp**s,size_t d){for(size_t k=0;k<d;k++)if(s[k]->t==T_FOUR||s[k]->t==T_PW)return 0;return 1;}
static int has_orth(struct sp**s,size_t d){for(size_t k=0;k<d;k++)if(!(M(s[k]->t)&(M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_HERM)))||s[k]->n>20||(s[k]->t==T_LIN&&s[k]->n<3))return 0;return 1;}
static int attain(FT*f,struct sp**s,size_t d){for(size_t k=1;k<d;k++)if(f->ranks[k]>f->ranks[k+1]*s[k]->maxn||f->ranks[k]>f->ranks[k-1]*s[k-1]->maxn)return 0;return 1;}
CASE(pool_trains,"P08 P03",60,1500,0){
    size_t d=vr_big(1,4,8);struct sp**s=spv_rand(d,M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW),vr_chance(0.5));
    struct MultiApproxOpts*mo=spv_mopts(s,d);FT*p[NP]={0};struct snap sn[NP]={{0}};char tr[200]="";double*x=malloc(8*d);
    int steps=(int)vr_int(4,14);
    for(int st=0;st<steps;st++){
        size_t live[NP],nl=0;for(size_t i=0;i<NP;i++)if(p[i])live[nl++]=i;
        size_t slot=NP;for(size_t i=0;i<NP;i++)if(!p[i]){slot=i;break;}
        int op=nl==0?0:(int)vr_int(0,14);size_t a=nl?live[vr_int(0,nl-1)]:0,b=nl?live[vr_int(0,nl-1)]:0;size_t target=NP;const char*nm="eval";
        FT*res=NULL;
        switch(op){
        case 0: case 1:{struct mft*m=mft_rand(s,d,2);if(slot<NP)res=mft_ft(m);mft_free(m);nm="new";break;}
        case 2: nm="copy";if(slot<NP){res=function_train_copy(p[a]);struct snap q=ft_snap(res);TRUE_("copy-differs",snap_eq(&q,&sn[a]));snap_free(&q);}break;
        case 3: nm="scale";function_train_scale(p[a],vr_norm());target=a;break;
        case 4: nm="sum";if(slot<NP&&function_train_get_maxrank(p[a])+function_train_get_maxrank(p[b])<8)res=function_train_sum(p[a],p[b]);break;
        case 5: nm="product";if(slot<NP&&has_prod(s,d)&&function_train_get_maxrank(p[a])*function_train_get_maxrank(p[b])<8)res=function_train_product(p[a],p[b]);break;
        case 6: nm="inner";if(has_inner(s,d)){vh_obs(function_train_inner(p[a],p[b]));vh_obs(function_train_norm2(p[a]));vh_obs(function_train_norm2diff(p[a],p[b]));}break;
        case 7: nm="free";function_train_free(p[a]);p[a]=NULL;snap_free(&sn[a]);break;
        case 8: nm="params";if(has_par(s,d)){size_t n=function_train_get_nparams(p[a]);double*v=malloc(8*n);function_train_get_params(p[a],v);if(vr_chance(0.5)){for(size_t i=0;i<n;i++)v[i]*=1+0.1*vr_norm();function_train_update_params(p[a],v);target=a;}free(v);}break;
        case 9: nm="gradient";if(has_par(s,d)&&has_prod(s,d)){spv_x(s,d,x);double*g=malloc(8*d);function_train_gradient_eval(p[a],x,g);vh_obs_arr(d,g);free(g);}break;
        case 10: nm="round";if(slot<NP&&d>1&&has_orth(s,d)&&attain(p[a],s,d))res=function_train_round(p[a],1e-9,mo);break;
        case 11: nm="integrate";if(has_inner(s,d))vh_obs(function_train_integrate(p[a]));break;
        case 12: nm="assign-core";if(a!=b&&p[a]->ranks[d]==p[b]->ranks[d]){size_t k=vr_int(0,d-1);if(p[a]->ranks[k]==p[b]->ranks[k]&&p[a]->ranks[k+1]==p[b]->ranks[k+1]){struct Qmarray*c=qmarray_copy(p[b]->cores[k]);qmarray_free(p[a]->cores[k]);p[a]->cores[k]=c;target=a;}}break;
        case 13: nm="array";{size_t n=vr_big(1,3,10);struct FT1DArray*A=ft1d_array_alloc(n);for(size_t i=0;i<n;i++)A->ft[i]=function_train_copy(p[live[vr_int(0,nl-1)]]);struct FT1DArray*B=ft1d_array_copy(A);
            struct snap q0=ft_snap(B->ft[n-1]);for(size_t i=0;i<n;i++)function_train_scale(A->ft[i],3.0);struct snap q1=ft_snap(B->ft[n-1]);TRUE_("array-copy-shared",snap_eq(&q0,&q1));snap_free(&q0);snap_free(&q1);
            ft1d_array_free(A);vh_obs(B->ft[0]->ranks[0]);ft1d_array_free(B);break;}
        default: for(int k=0;k<2;k++){spv_x(s,d,x);double mg,v=function_train_eval(p[a],x),w=ft_eval_ref(p[a],x,&mg);CLOSE("eval-history",v,w,1e-9*mg+1e-300);}
        }
        snprintf(tr+strlen(tr),sizeof tr-strlen(tr),"%s ",nm);
        if(target<NP){snap_free(&sn[target]);sn[target]=ft_snap(p[target]);}
        for(size_t i=0;i<NP;i++)if(p[i]){struct snap q=ft_snap(p[i]);if(!snap_eq(&q,&sn[i]))vh_fail(nm,"object %zu changed by %s (operands %zu %zu)",i,nm,a,b);snap_free(&q);}
        if(res){p[slot]=res;sn[slot]=ft_snap(res);ft_wellformed("result",res,d);}
        vh_hit(nm);
    }
    vh_sig("d%zu %s",d,tr);
    for(size_t i=0;i<NP;i++){size_t k=(i*5+2)%NP;if(p[k]){for(int q=0;q<2;q++){spv_x(s,d,x);double mg,v=function_train_eval(p[k],x),w=ft_eval_ref(p[k],x,&mg);CLOSE("eval-end",v,w,1e-9*mg+1e-300);}function_train_free(p[k]);p[k]=NULL;snap_free(&sn[k]);}}
    free(x);multi_approx_opts_free(mo);spv_free(s,d);
}
CASE(pool_funcs,"P08 P11",80,2000,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW));struct sp*sv[1]={s};
    GF*p[NP]={0};struct snap sn[NP]={{0}};char tr[200]="";int steps=(int)vr_int(5,18);
    for(int st=0;st<steps;st++){
        size_t live[NP],nl=0;for(size_t i=0;i<NP;i++)if(p[i])live[nl++]=i;
        size_t slot=NP;for(size_t i=0;i<NP;i++)if(!p[i]){slot=i;break;}
        int op=nl==0?0:(int)vr_int(0,17);size_t a=nl?live[vr_int(0,nl-1)]:0,b=nl?live[vr_int(0,nl-1)]:0,target=NP;GF*res=NULL;const char*nm="eval";
        switch(op){
        case 0: case 1:{struct m1 f=m1_rand(s);if(slot<NP)res=m1_gf(&f);m1_free(&f);nm="new";break;}
        case 2: nm="copy";if(slot<NP){res=generic_function_copy(p[a]);struct snap q=gf_snap(res);TRUE_("copy-differs",snap_eq(&q,&sn[a]));snap_free(&q);}break;
        case 3: nm="scale";generic_function_scale(vr_norm(),p[a]);target=a;break;
        case 4: nm="daxpby";if(slot<NP)res=generic_function_daxpby(vr_norm(),p[a],vr_norm(),p[b]);break;
        case 5: nm="product";if(slot<NP&&has_prod(sv,1)&&!(s->t==T_LIN&&s->n<2)){GF*c=generic_function_prod(p[a],p[b]);struct snap q=gf_snap(c);if(q.n<4000)res=c;else generic_function_free(c);snap_free(&q);}break;
        case 6: nm="inner";if(has_inner(sv,1)){vh_obs(generic_function_inner(p[a],p[b]));vh_obs(generic_function_norm(p[a]));vh_obs(generic_function_integrate(p[a]));}break;
        case 7: nm="free";generic_function_free(p[a]);p[a]=NULL;snap_free(&sn[a]);break;
        case 8: nm="params";if(has_par(sv,1)){size_t n=generic_function_get_num_params(p[a]);double*v=malloc(8*n);generic_function_get_params(p[a],v);for(size_t i=0;i<n;i++)v[i]*=1+0.1*vr_norm();generic_function_update_params(p[a],n,v);target=a;free(v);}break;
        case 9: nm="axpy";if(a!=b){int r=generic_function_axpy(vr_norm(),p[a],p[b]);(void)r;target=b;}break;
        case 10: nm="flip";generic_function_flip_sign(p[a]);target=a;break;
        case 11: nm="deriv";if(slot<NP&&has_prod(sv,1)&&s->t!=T_CONST&&!(s->t==T_LIN&&s->n<4))res=generic_function_deriv(p[a]);break;
        case 12: nm="lincomb";if(slot<NP){size_t n=vr_big(1,4,11);GF*g[11];double c[11];for(size_t i=0;i<n;i++){g[i]=p[live[vr_int(0,nl-1)]];c[i]=vr_norm();}res=generic_function_lin_comb(n,g,c);}break;
        case 13: nm="sum-prod";if(slot<NP&&has_prod(sv,1)&&s->t!=T_PW){size_t n=vr_big(1,3,8);GF*g[8],*h[8];for(size_t i=0;i<n;i++){g[i]=p[live[vr_int(0,nl-1)]];h[i]=p[live[vr_int(0,nl-1)]];}GF*c=generic_function_sum_prod(n,1,g,1,h);struct snap q=gf_snap(c);if(q.n<4000)res=c;else generic_function_free(c);snap_free(&q);}break;
        case 14: nm="params-ref";if(has_par(sv,1)){size_t n=0;double*v=generic_function_get_params_ref(p[a],&n);if(n&&v){v[vr_int(0,n-1)]=vr_norm();target=a;}}break;
        case 15: nm="kristoffel";if(s->t==T_LEG||s->t==T_CHEB||s->t==T_HERM){if(generic_function_is_kristoffel_active(p[a]))generic_function_deactivate_kristoffel(p[a]);else {generic_function_activate_kristoffel(p[a]);TRUE_("kristoffel-on",generic_function_is_kristoffel_active(p[a]));generic_function_deactivate_kristoffel(p[a]);}TRUE_("kristoffel-off",!generic_function_is_kristoffel_active(p[a]));}break;
        default: for(int k=0;k<2;k++)vh_obs(generic_function_1d_eval(p[a],sp_x(s)));
        }
        snprintf(tr+strlen(tr),sizeof tr-strlen(tr),"%s ",nm);
        if(target<NP){snap_free(&sn[target]);sn[target]=gf_snap(p[target]);}
        for(size_t i=0;i<NP;i++)if(p[i]){struct snap q=gf_snap(p[i]);if(!snap_eq(&q,&sn[i]))vh_fail(nm,"%s changed by %s",tname[s->t],nm);snap_free(&q);}
        if(res){p[slot]=res;sn[slot]=gf_snap(res);}
        vh_hit(nm);
    }
    vh_sig("%s %s",tname[s->t],tr);
    for(size_t i=0;i<NP;i++){size_t k=(i*3+1)%NP;if(p[k]){vh_obs(generic_function_1d_eval(p[k],sp_x(s)));generic_function_free(p[k]);snap_free(&sn[k]);}}
    sp_free(s);
}
