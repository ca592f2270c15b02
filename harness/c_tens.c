#include <unistd.h>
/* Discrete tensors, tensor trains, canonical decompositions, discrete cross approximation. */
#include "model.h"
#include "tensor.h"
#include "tensortrain.h"
#include "tt_multilinalg.h"
#include "tt_integrate.h"
#include "candecomp.h"
#include "convert_decomp.h"
#include "cross.h"
static struct tensor*rt3(size_t a,size_t b,size_t c){size_t n[3]={a,b,c};struct tensor*t;init_tensor(&t,3,n);for(size_t i=0;i<a*b*c;i++)t->vals[i]=vr_norm();return t;}
static double te(const struct tensor*t,size_t i,size_t j,size_t k){return t->vals[i+j*t->nvals[0]+k*t->nvals[0]*t->nvals[1]];}
static struct tt*rtt(size_t d,const size_t*n,const size_t*r){struct tt*t;init_tt_alloc(&t,d,n);for(size_t k=0;k<=d;k++)t->ranks[k]=r[k];for(size_t k=0;k<d;k++)t->cores[k]=rt3(r[k],n[k],r[k+1]);return t;}
/* independent element evaluation with magnitude */
static double tel(const struct tt*t,const size_t*e,double*mag){double v[160]={1},m[160]={1},w[160],u[160];
    for(size_t k=0;k<t->dim;k++){size_t r0=t->cores[k]->nvals[0],r1=t->cores[k]->nvals[2];for(size_t j=0;j<r1;j++){w[j]=0;u[j]=0;for(size_t i=0;i<r0;i++){double c=te(t->cores[k],i,e[k],j);w[j]+=v[i]*c;u[j]+=m[i]*fabs(c);}}memcpy(v,w,8*r1);memcpy(m,u,8*r1);}
    if(mag)*mag=m[0];return v[0];}
static size_t tot(size_t d,const size_t*n){size_t p=1;for(size_t i=0;i<d;i++)p*=n[i];return p;}
static void unr(size_t i,size_t d,const size_t*n,size_t*e){for(size_t k=0;k<d;k++){e[k]=i%n[k];i/=n[k];}}
static void rshape(size_t*d,size_t*n,size_t*r,size_t maxn,size_t maxr){*d=vr_chance(0.2)?vr_int(5,9):vr_int(2,4);size_t mx=*d>6?2:*d>4?3:maxn;for(size_t k=0;k<*d;k++)n[k]=*d<4&&vr_chance(0.1)?vr_int(maxn+1,11):vr_int(1,mx);
    r[0]=r[*d]=1;for(size_t k=1;k<*d;k++)r[k]=vr_big(1,maxr,9);}
static void capr(size_t d,const size_t*n,size_t*r){for(size_t k=1;k<d;k++){size_t c=r[k-1]*n[k-1];if(r[k]>c)r[k]=c;}for(size_t k=d-1;k>0;k--){size_t c=r[k+1]*n[k];if(r[k]>c)r[k]=c;}}
static void shp(const char*key,const struct tt*t,size_t d,const size_t*n){EQZ(key,t->dim,d);EQZ(key,t->ranks[0],1);EQZ(key,t->ranks[d],1);for(size_t k=0;k<d;k++){EQZ(key,t->nvals[k],n[k]);EQZ(key,t->cores[k]->nvals[0],t->ranks[k]);EQZ(key,t->cores[k]->nvals[1],n[k]);EQZ(key,t->cores[k]->nvals[2],t->ranks[k+1]);}}

CASE(ten_ops,"P20",300,4000,0){
    size_t a0=vr_big(1,4,9),a2=vr_big(1,4,9),n=vr_big(1,5,10),b0=vr_big(1,4,9),b2=vr_big(1,4,9);vh_sig("%zu.%zu.%zu|%zu.%zu",a0,n,a2,b0,b2);
    struct tensor*A=rt3(a0,n,a2),*B=rt3(b0,n,b2),*H=rt3(a0,n,b2),*V=rt3(b0,n,a2);
    size_t e[3];e[0]=vr_int(0,a0-1);e[1]=vr_int(0,n-1);e[2]=vr_int(0,a2-1);CLOSE("tensor_elem",tensor_elem(A,e),te(A,e[0],e[1],e[2]),0);
    struct tensor*h=tensor_stack2h_3d(A,H),*v=tensor_stack2v_3d(A,V),*bd=tensor_blockdiag_3d(A,B),*kr=tensor_kron_3d(A,B),*cp=tensor_copy_3d(A,0),*tr=tensor_copy_3d(A,1);
    EQZ("stack-shape",h->nvals[2],a2+b2);EQZ("stack-shape",v->nvals[0],a0+b0);EQZ("bd-shape",bd->nvals[0],a0+b0);EQZ("bd-shape",bd->nvals[2],a2+b2);EQZ("kron-shape",kr->nvals[0],a0*b0);EQZ("kron-shape",kr->nvals[2],a2*b2);EQZ("tr-shape",tr->nvals[0],a2);EQZ("tr-shape",tr->nvals[2],a0);
    for(size_t j=0;j<n;j++){
        for(size_t i=0;i<a0;i++)for(size_t k=0;k<a2+b2;k++)CLOSE("stackh",te(h,i,j,k),k<a2?te(A,i,j,k):te(H,i,j,k-a2),0);
        for(size_t i=0;i<a0+b0;i++)for(size_t k=0;k<a2;k++)CLOSE("stackv",te(v,i,j,k),i<a0?te(A,i,j,k):te(V,i-a0,j,k),0);
        for(size_t i=0;i<a0+b0;i++)for(size_t k=0;k<a2+b2;k++)CLOSE("blockdiag3",te(bd,i,j,k),i<a0&&k<a2?te(A,i,j,k):i>=a0&&k>=a2?te(B,i-a0,j,k-a2):0,0);
        for(size_t i=0;i<a0*b0;i++)for(size_t k=0;k<a2*b2;k++)CLOSE("kron3",te(kr,i,j,k),te(A,i/b0,j,k/b2)*te(B,i%b0,j,k%b2),1e-14*fabs(te(A,i/b0,j,k/b2)*te(B,i%b0,j,k%b2)));
        for(size_t i=0;i<a0;i++)for(size_t k=0;k<a2;k++){CLOSE("copy3",te(cp,i,j,k),te(A,i,j,k),0);CLOSE("transpose3",te(tr,k,j,i),te(A,i,j,k),0);}}
    double*w=vh_dvec(n),*s=tensor_sum2(A,w);for(size_t i=0;i<a0;i++)for(size_t k=0;k<a2;k++){double q=0,m=0;for(size_t j=0;j<n;j++){q+=w[j]*te(A,i,j,k);m+=fabs(w[j]*te(A,i,j,k));}CLOSE("sum2",s[i+k*a0],q,1e-13*m);}
    /* copies are independent */
    cp->vals[0]+=1;TRUE_("copy-independent",cp->vals[0]!=A->vals[0]);
    struct tensor*o=tensor_ones_3d(a0,n,a2);for(size_t i=0;i<a0*n*a2;i++)CLOSE("ones3",o->vals[i],1,0);struct tensor*x=tensor_x_3d(n,w);EQZ("x3",x->nvals[0]*x->nvals[2],1);SAMEBYTES("x3",x->vals,w,n*8);
    vh_obs_arr(a0*b0*n*a2*b2,kr->vals);
    {char*path=vh_path("t3.txt");FILE*f=fopen(path,"w");size_t m=vr_chance(0.3)?vr_int(10,14):n;struct tensor*R=rt3(a0,m,a2);fprintf(f,"%zu %zu %zu\n",a0,m,a2);for(size_t j=0;j<m;j++)for(size_t i=0;i<a0;i++)for(size_t k=0;k<a2;k++)fprintf(f,"%.17g%c",te(R,i,j,k),k+1<a2?' ':'\n');fclose(f);
     f=fopen(path,"r");struct tensor*G=read_tensor_3d(f);fclose(f);unlink(path);EQZ("read3-shape",G->nvals[0]*100+G->nvals[1]*10000+G->nvals[2],a0*100+m*10000+a2);SAMEBYTES("read3-values",G->vals,R->vals,8*a0*m*a2);free_tensor(&R);free_tensor(&G);}
    /* n-dimensional element order */
    size_t d=vr_big(1,5,8),nn[8],ee[8];for(size_t k=0;k<d;k++){nn[k]=vr_int(1,4);ee[k]=vr_int(0,nn[k]-1);}struct tensor*T;init_tensor(&T,d,nn);for(size_t i=0;i<tot(d,nn);i++){if(T->vals[i]!=0)vh_fail("init-zero","not zero");T->vals[i]=(double)i;}
    size_t li=0,mu=1;for(size_t k=0;k<d;k++){li+=ee[k]*mu;mu*=nn[k];}CLOSE("tensor_elem_nd",tensor_elem(T,ee),(double)li,0);
    free_tensor(&T);free(w);free(s);free_tensor(&A);free_tensor(&B);free_tensor(&H);free_tensor(&V);free_tensor(&h);free_tensor(&v);free_tensor(&bd);free_tensor(&kr);free_tensor(&cp);free_tensor(&tr);free_tensor(&o);free_tensor(&x);
}
CASE(tt_algebra,"P20",300,4000,0){
    size_t d,n[12],ra[13],rb[13];rshape(&d,n,ra,5,4);rb[0]=rb[d]=1;for(size_t k=1;k<d;k++)rb[k]=vr_big(1,4,9);
    struct tt*A=rtt(d,n,ra),*B=rtt(d,n,rb);vh_sig("d%zu r%zu,%zu n%zu,%zu",d,ra[1],rb[1],n[0],n[1]);
    struct tt*S=ttadd(A,B),*P=ttmult(A,B),*C=copy_tt(A);double sc=vr_val();ttscal(C,sc);
    shp("add-shape",S,d,n);shp("mult-shape",P,d,n);for(size_t k=1;k<d;k++){EQZ("add-rank",S->ranks[k],ra[k]+rb[k]);EQZ("mult-rank",P->ranks[k],ra[k]*rb[k]);}
    size_t N=tot(d,n);double dot=0,dm=0,integ=0,im=0;double*w[12];for(size_t k=0;k<d;k++)w[k]=vh_dvec(n[k]);
    for(size_t i=0;i<N;i++){size_t e[12];unr(i,d,n,e);double ma,mb,a=tel(A,e,&ma),b=tel(B,e,&mb);
        dot+=a*b;dm+=ma*mb;double ww=1;for(size_t k=0;k<d;k++)ww*=w[k][e[k]];integ+=ww*a;im+=fabs(ww)*ma;
        if(N<40||vr_chance(0.3)){CLOSE("tt-elem",ttelem(A,e),a,1e-12*ma);CLOSE("tt-add",ttelem(S,e),a+b,1e-12*(ma+mb));CLOSE("tt-mult",ttelem(P,e),a*b,1e-12*ma*mb);CLOSE("tt-scale",ttelem(C,e),sc*a,1e-12*fabs(sc)*ma+1e-290);}}
    double gd=tt_dot(A,B);CLOSE("tt-dot",gd,dot,1e-11*dm);CLOSE("tt-dot-sym",tt_dot(B,A),dot,1e-11*dm);
    double n2=0,m2=0;for(size_t i=0;i<N;i++){size_t e[12];unr(i,d,n,e);double m,a=tel(A,e,&m);n2+=a*a;m2+=m*m;}CLOSE("tt-norm2",tt_norm(A)*tt_norm(A),n2,1e-11*m2);
    CLOSE("tt-integrate",tt_integrate(A,w),integ,1e-11*im);
    struct tt*on=tt_ones(d,n);shp("ones-shape",on,d,n);size_t dx=vr_int(0,d-1);struct tt*X=tt_x(w[dx],dx,d,n);shp("x-shape",X,d,n);
    for(int q=0;q<5;q++){size_t e[12];for(size_t k=0;k<d;k++)e[k]=vr_int(0,n[k]-1);CLOSE("tt-ones",ttelem(on,e),1,1e-15);CLOSE("tt-x",ttelem(X,e),w[dx][e[dx]],1e-14*fabs(w[dx][e[dx]]));}
    vh_obs(gd);for(size_t k=0;k<d;k++)free(w[k]);freett(A);freett(B);freett(S);freett(P);freett(C);freett(on);freett(X);
}
static void unf_tail(const double*full,size_t d,const size_t*n,size_t k,double**tail,size_t*cnt){ /* singular value tails of the k-th unfolding */
    size_t m=1,c=1;for(size_t i=0;i<k;i++)m*=n[i];for(size_t i=k;i<d;i++)c*=n[i];size_t q=m<c?m:c;double*W=malloc(8*m*c),*U=malloc(8*m*m),*V=malloc(8*c*c),*S=calloc(q,8);memcpy(W,full,8*m*c);
    svd(m,c,m,W,U,S,V);*tail=calloc(q+1,8);for(size_t i=q;i-->0;)(*tail)[i]=(*tail)[i+1]+S[i]*S[i];*cnt=q;free(W);free(U);free(V);free(S);}
static void chk_dec(const char*key,struct tt*t,const double*full,size_t d,const size_t*n,double eps,const size_t*rmax){
    size_t N=tot(d,n);double nrm=0,err=0,mm=0;for(size_t i=0;i<N;i++){size_t e[12];unr(i,d,n,e);double m,v=tel(t,e,&m)-full[i];err+=v*v;nrm+=full[i]*full[i];mm+=m*m;}nrm=sqrt(nrm);
    char k2[64];shp(key,t,d,n);
    snprintf(k2,64,"%s-error",key);TRUE_(k2,err<=sqrt((double)d-1)*eps*nrm*(1+1e-6)+1e-20*mm);
    double delta=nrm*eps/sqrt((double)d-1);
    for(size_t k=1;k<d;k++){double*tl;size_t c;unf_tail(full,d,n,k,&tl,&c);size_t need=c;while(need>1&&tl[need-1]<delta*(1-1e-6)-1e-24*nrm*nrm)need--;
        /* a rank never exceeds what the unfolding needs at this threshold (projection only lowers singular values) */
        snprintf(k2,64,"%s-rank",key);double slack=1e-24*nrm*nrm;size_t need2=c;while(need2>1&&tl[need2-1]+slack<delta)need2--;if(delta>1e-22*nrm*nrm)TRUE_(k2,t->ranks[k]<=need);(void)need2;
        if(rmax)TRUE_(k2,t->ranks[k]<=rmax[k]);free(tl);}
}
CASE(tt_decompose,"P20",220,3000,0){
    size_t d,n[12],r[13];rshape(&d,n,r,5,3);for(size_t k=0;k<d;k++)if(n[k]<2)n[k]=2;int low=vr_chance(0.6);size_t N=tot(d,n);vh_sig("d%zu n%zu,%zu,%zu low%d",d,n[0],n[1],n[d-1],low);
    struct tensor*T;init_tensor(&T,d,n);
    if(low){struct tt*A=rtt(d,n,r);for(size_t i=0;i<N;i++){size_t e[12];unr(i,d,n,e);T->vals[i]=tel(A,e,NULL);}freett(A);if(vr_chance(0.5)){double p=pow(10,-vr_unif(2,8));for(size_t i=0;i<N;i++)T->vals[i]+=p*vr_norm();}}
    else for(size_t i=0;i<N;i++)T->vals[i]=vr_norm();
    double eps=pow(10,-vr_unif(1,20));double*full=malloc(8*N);memcpy(full,T->vals,8*N);
    struct tt*t=full_to_tt(T,eps);SAMEBYTES("full-input",T->vals,full,8*N);chk_dec("full_to_tt",t,full,d,n,eps,NULL);
    for(size_t k=0;k<d;k++)vh_obs((double)t->ranks[k]);
    freett(t);free(full);free_tensor(&T);
}
CASE(tt_rounding,"P20",220,3000,0){
    size_t d,n[12],r[13];rshape(&d,n,r,5,3);for(size_t k=0;k<d;k++)if(n[k]<2)n[k]=2;capr(d,n,r);
    struct tt*A=rtt(d,n,r);int mode=(int)vr_int(0,2);vh_sig("d%zu n%zu,%zu r%zu,%zu m%d",d,n[0],n[1],r[1],r[d-1],mode);
    struct tt*S;size_t r2[13];r2[0]=r2[d]=1;for(size_t k=1;k<d;k++)r2[k]=mode?2*r[k]:r[k];
    int ok=1;for(size_t k=1;k<d;k++)if(r2[k]>n[k]*r2[k+1])ok=0;
    if(!ok)mode=0;
    if(mode==0)S=copy_tt(A);else{struct tt*B=mode==1?copy_tt(A):rtt(d,n,r);ttscal(B,mode==1?vr_norm():pow(10,-vr_unif(1,9)));S=ttadd(A,B);freett(B);}
    size_t N=tot(d,n),rm[13];for(size_t k=0;k<=d;k++)rm[k]=S->ranks[k];double*full=malloc(8*N);for(size_t i=0;i<N;i++){size_t e[12];unr(i,d,n,e);full[i]=tel(S,e,NULL);}
    double eps=pow(10,-vr_unif(1,20));struct tt*b=tt_round(S,eps);chk_dec("tt_round",b,full,d,n,eps,rm);
    for(size_t k=0;k<d;k++)vh_obs((double)b->ranks[k]);
    freett(b);freett(S);freett(A);free(full);
}
CASE(tt_orth,"P20",200,2500,0){
    size_t d,n[12],r[13];rshape(&d,n,r,5,4);capr(d,n,r);struct tt*A=rtt(d,n,r);vh_sig("d%zu n%zu r%zu",d,n[0],r[1]);size_t N=tot(d,n);double*full=malloc(8*N),mm=0;for(size_t i=0;i<N;i++){size_t e[12];unr(i,d,n,e);double m;full[i]=tel(A,e,&m);mm=dmax(mm,m);}
    right_left_orth(&A);shp("orth-shape",A,d,n);
    for(size_t i=0;i<N;i++){size_t e[12];unr(i,d,n,e);CLOSE("orth-value",tel(A,e,NULL),full[i],1e-11*mm);}
    for(size_t k=1;k<d;k++)for(size_t i=0;i<r[k];i++)for(size_t j=0;j<r[k];j++){double s=0;for(size_t a=0;a<n[k];a++)for(size_t b=0;b<r[k+1];b++)s+=te(A->cores[k],i,a,b)*te(A->cores[k],j,a,b);CLOSE("orth-rows",s,i==j,1e-12);}
    freett(A);free(full);
}
CASE(tt_cd,"P20",200,2500,0){
    size_t d=vr_big(2,5,8),rk=vr_big(1,4,12);struct candecomp cd={d,rk,malloc(d*sizeof(void*))};size_t n[12];for(size_t k=0;k<d;k++){n[k]=d>5?vr_int(1,3):vr_big(1,4,10);cd.cores[k]=malloc(sizeof(struct mat));cd.cores[k]->nrows=n[k];cd.cores[k]->ncols=rk;cd.cores[k]->vals=vh_dvec(n[k]*rk);}
    vh_sig("d%zu r%zu n%zu",d,rk,n[0]);struct tt*t=cd2tt(&cd);shp("cd2tt-shape",t,d,n);
    for(size_t i=0;i<tot(d,n);i++){size_t e[12];unr(i,d,n,e);double s=0,m=0;for(size_t q=0;q<rk;q++){double p=1;for(size_t k=0;k<d;k++)p*=cd.cores[k]->vals[e[k]*rk+q];s+=p;m+=fabs(p);}CLOSE("cdelem",cdelem(&cd,e),s,1e-13*m);CLOSE("cd2tt",ttelem(t,e),s,1e-13*m);}
    freett(t);for(size_t k=0;k<d;k++)freemat(cd.cores[k]);free(cd.cores);
}
struct cx{struct tt*t;long calls,bad,dup;const double*pts[12];};
static void cx_fiber(size_t N,size_t*ind,size_t core,double*out,void*a){struct cx*c=a;c->calls++;size_t e[12];
    if(core>=c->t->dim||N!=c->t->nvals[core]){c->bad++;return;}
    for(size_t k=0;k<c->t->dim;k++){if(k!=core&&ind[k]>=c->t->nvals[k]){c->bad++;memset(out,0,8*N);return;}e[k]=ind[k];}
    for(size_t i=0;i<N;i++){e[core]=i;out[i]=tel(c->t,e,NULL);}}
static double cx_pt(double*x,void*a){struct cx*c=a;size_t e[12];for(size_t k=0;k<c->t->dim;k++){size_t i=0;while(i<c->t->nvals[k]&&c->pts[k][i]!=x[k])i++;if(i==c->t->nvals[k]){c->bad++;return 0;}e[k]=i;}c->calls++;return tel(c->t,e,NULL);}
/* well conditioned low-rank tensor: orthonormal-ish cores */
static struct tt*wtt(size_t d,const size_t*n,const size_t*r){struct tt*t=rtt(d,n,r);right_left_orth(&t);return t;}
CASE(tt_crossapprox,"P20",150,2000,0){
    size_t d=vr_big(2,5,8),n[12],r[13];for(size_t k=0;k<d;k++)n[k]=d>6?3:d<=3&&vr_chance(0.4)?vr_int(5,d==2?14:7):vr_int(3,d>3?4:7);r[0]=r[d]=1;for(size_t k=1;k<d;k++)r[k]=vr_big(1,3,8);capr(d,n,r);
    struct tt*A=wtt(d,n,r);struct cx c={A,0,0,0,{0}};double*pp[12];for(size_t k=0;k<d;k++){pp[k]=malloc(8*n[k]);vr_sorted(n[k],-1,1,pp[k],0.1);c.pts[k]=pp[k];}
    size_t rr[13];rr[0]=rr[d]=1;for(size_t k=1;k<d;k++)rr[k]=r[k]+vr_int(0,1);capr(d,n,rr);
    int wrap=(int)vr_int(0,1),adapt=(int)vr_int(0,2);size_t N=tot(d,n);
    struct tt_cross_opts*o=init_cross_opts_with_naive_set(d,rr,n);
    /* index sets of the start are inside the tensor */
    for(size_t k=0;k<d;k++){for(size_t q=0;q<o->left[k]->N;q++)for(size_t i=0;i<o->left[k]->dim;i++)TRUE_("start-left",o->left[k]->indices[q][i]<n[i]);for(size_t q=0;q<o->right[k]->N;q++)for(size_t i=0;i<o->right[k]->dim;i++)TRUE_("start-right",o->right[k]->indices[q][i]<n[k+1+i]);}
    o->epsilon=1e-10;o->maxiter=10;struct tt*t=NULL;
    struct func_to_array fa={n,d,pp,cx_pt,&c};
    vh_sig("d%zu n%zu,%zu r%zu,%zu a%d w%d",d,n[0],n[d-1],rr[1],rr[d-1],adapt,wrap);
    void(*F)(size_t,size_t*,size_t,double*,void*)=wrap?wrap_func_for_cross:cx_fiber;void*args=wrap?(void*)&fa:(void*)&c;
    int big=1;
    if(adapt==2&&big){ /* starts below the rank and must find it */
        free_cross_opts(&o);size_t r1[13];for(size_t k=0;k<=d;k++)r1[k]=1;o=init_cross_opts_with_naive_set(d,r1,n);o->epsilon=1e-10;
        t=tt_cross_adapt(F,o,1,12,1e-14,args);vh_hit("cross-adaptive");}
    else t=tt_cross(F,o,args);
    TRUE_("cross-in-range",c.bad==0);shp("cross-shape",t,d,n);
    size_t nf=0;for(size_t k=0;k<d;k++)nf+=o->fibers[k]->nfibers;if(!wrap)EQZ("cross-fibers",nf,(size_t)c.calls); /* every evaluation is remembered */
    double nr=0,er=0;for(size_t i=0;i<N;i++){size_t e[12];unr(i,d,n,e);double v=tel(A,e,NULL),w=tel(t,e,NULL);nr+=v*v;er+=(v-w)*(v-w);}
    TRUE_("cross-reproduces",er<=1e-9*nr);vh_obs(er<=1e-9*nr);
    for(size_t k=0;k<d;k++)free(pp[k]);freett(t);freett(A);free_cross_opts(&o);
}
