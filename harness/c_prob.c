/* Probability layer: normal cdf and its inverse, densities under affine maps, sampling, storage, variance decomposition. */
#include <unistd.h>
#include "model.h"
#include "lib_probability.h"
#include "lib_optimization.h"
typedef struct FunctionTrain FT;typedef struct ProbabilityDensity PD;typedef struct LinearTransform LTR;
CASE(prob_icdf,"P21",400,8000,0){
    double p,u=vr_u01();int side=(int)vr_int(0,4);
    switch(side){case 0:p=u;break;case 1:p=pow(10,-vr_unif(0.3,300));break;case 2:p=1-pow(10,-vr_unif(0.3,15.5));break;case 3:p=0.02425+1e-6*(u-0.5);break;default:p=1-0.02425+1e-6*(u-0.5);}
    vh_sig("side%d %d",side,(int)floor(log10(dmin(p,1-p))/10));
    double x=icdfnorm(p),c=0.5*erfc(-x/sqrt(2.));vh_obs(x);
    CLOSE("inverse",c,p,1e-11*p+4e-16);
    double m=vr_norm()*10,s=exp(vr_norm());CLOSE("scaled",icdf_normal(m,s,p),m+s*x,1e-12*(fabs(m)+s*(1+fabs(x))));
    double z=vr_norm()*3,cz=0.5*erfc(-z/sqrt(2.));CLOSE("cdf",cdf_normal(m,s,m+s*z),cz,1e-11);
    if(fabs(z)<5)CLOSE("back",icdf_normal(m,s,cdf_normal(m,s,m+s*z)),m+s*z,1e-9*(fabs(m)+s)+s*1e-13*exp(z*z/2));
    double r=icdfnorm_rational(p);TRUE_("rational-estimate",fabs(r-x)<=1e-7*(1+fabs(x))||p>1-1e-12);
    double p2=p<0.5?p*(1+1e-6*vr_u01()):1-(1-p)*(1-1e-6*vr_u01());if(p2>p)TRUE_("monotone",icdfnorm(p2)>=x-1e-10*fabs(x)||p>1-1e-9);
    double lo=icdfnorm(0.0),hi=icdfnorm(1.0);TRUE_("ends-finite",isfinite(lo)&&isfinite(hi)&&lo<-5&&hi>5);
}
/* lower-triangular affine map y -> A y + b */
static void rand_lt(size_t d,double*A,double*b,double*det){*det=1;for(size_t j=0;j<d;j++)for(size_t i=0;i<d;i++)A[j*d+i]=i<j?0:i==j?(vr_chance(0.3)?-1:1)*exp(vr_unif(-1,1)):vr_norm()*0.5;for(size_t j=0;j<d;j++){*det*=A[j*d+j];b[j]=vr_norm();}}
static void lt_solve(size_t d,const double*A,const double*b,const double*x,double*y){for(size_t i=0;i<d;i++){double s=x[i]-b[i];for(size_t j=0;j<i;j++)s-=A[j*d+i]*y[j];y[i]=s/A[i*d+i];}}
static void lt_same(const char*key,size_t d,LTR*a,const double*A,const double*b,double det){EQZ(key,a->dimin,d);EQZ(key,a->dimout,d);SAMEBYTES(key,a->A,A,8*d*d);SAMEBYTES(key,a->b,b,8*d);CLOSE(key,a->det,det,1e-13*fabs(det));}
static void lt_inverse_ok(size_t d,LTR*a,const double*A,const double*b,double det){
    double y[MD],x[MD],y2[MD];for(size_t i=0;i<d;i++)y[i]=vr_norm()*2;double mg=1;
    double*xx=linear_transform_apply(d,d,a->A,y,a->b);
    for(size_t i=0;i<d;i++){x[i]=b[i];double m=fabs(b[i]);for(size_t j=0;j<d;j++){x[i]+=A[j*d+i]*y[j];m+=fabs(A[j*d+i]*y[j]);}mg=dmax(mg,m);CLOSE("affine-apply",xx[i],x[i],1e-13*m);}
    lt_solve(d,A,b,x,y2);double*yy=linear_transform_apply(d,d,a->Ainv,x,a->binv);double kap=pow(8,(double)d);
    for(size_t i=0;i<d;i++)CLOSE("affine-inverse",yy[i],y2[i],1e-13*mg*kap);
    CLOSE("inverse-det",a->detinv*det,1,1e-13);free(xx);free(yy);
}
CASE(prob_affine,"P21",120,3000,0){
    size_t d=vr_big(1,5,12);double A[MD*MD],b[MD],det;rand_lt(d,A,b,&det);LTR*a=linear_transform_alloc(d,d,A,b,det);a->mt=LT;int inv=vr_chance(0.5);vh_sig("d%zu inv%d",d,inv);
    if(inv)linear_transform_invert(a);
    LTR*c=linear_transform_copy(a);lt_same("copy",d,c,A,b,det);EQZ("copy-inverse",c->Ainv!=NULL,inv);EQZ("copy-kind",c->mt,LT);
    size_t n=0;linear_transform_serialize(NULL,a,&n);unsigned char*buf=malloc(n),*p=linear_transform_serialize(buf,a,NULL);EQZ("size",p-buf,n);
    LTR*e=NULL;p=linear_transform_deserialize(buf,&e);EQZ("consumed",p-buf,n);lt_same("reloaded",d,e,A,b,det);EQZ("reloaded-inverse",e->Ainv!=NULL,inv);EQZ("reloaded-kind",e->mt,LT);free(buf);
    linear_transform_free(a);
    linear_transform_invert(c);linear_transform_invert(e);lt_inverse_ok(d,c,A,b,det);lt_inverse_ok(d,e,A,b,det);
    linear_transform_free(c);linear_transform_free(e);
}
static double hess_fd(const struct mft*a,struct sp**s,const double*x,size_t i,size_t j){double hs=(s[j]->ub-s[j]->lb)*1e-4,xp[MD],xm[MD];memcpy(xp,x,sizeof xp);memcpy(xm,x,sizeof xm);xp[j]+=hs;xm[j]-=hs;return (mft_grad(a,xp,i)-mft_grad(a,xm,i))/(2*hs);}
static PD*pd_roundtrip(PD*p,int file){
    if(file){char*path=vh_path("pdf.bin");EQZ("save",probability_density_save(p,path),1);PD*q=probability_density_load(path);TRUE_("load",q!=NULL);unlink(path);return q;}
    size_t n=0;probability_density_serialize(NULL,p,&n);unsigned char*buf=malloc(n+1);buf[n]=0x5a;unsigned char*e=probability_density_serialize(buf,p,NULL);EQZ("size",e-buf,n);EQZ("overrun",buf[n],0x5a);
    PD*q=NULL;e=probability_density_deserialize(buf,&q);EQZ("consumed",e-buf,n);free(buf);return q;
}
CASE(prob_density,"P21",60,1500,0){
    size_t d=vr_big(1,4,9);struct sp**s=spv_rand(d,M(T_LEG)|M(T_CHEB),vr_chance(0.4));struct mft*a=mft_rand(s,d,3);FT*f=mft_ft(a);
    int tr=vr_chance(0.7);double A[MD*MD],b[MD],det=1;PD*p=probability_density_alloc();p->pdf=f;p->type=GAUSSIAN;
    if(tr){rand_lt(d,A,b,&det);p->transform=1;p->lt=linear_transform_alloc(d,d,A,b,det);p->lt->mt=LT;}
    vh_sig("d%zu tr%d",d,tr);
    int mode=(int)vr_int(0,2);PD*q=mode?pd_roundtrip(p,mode==2):p;if(mode)probability_density_free(p);
    if(!q)goto out;EQZ("transform",q->transform,tr);EQZ("type",q->type,GAUSSIAN);
    double*lb=probability_density_lb_base(q),*ub=probability_density_ub_base(q);for(size_t k=0;k<d;k++){CLOSE("lower",lb[k],s[k]->lb,1e-12*(1+fabs(s[k]->lb)));CLOSE("upper",ub[k],s[k]->ub,1e-12*(1+fabs(s[k]->ub)));}free(lb);free(ub);
    for(int t=0;t<6;t++){
        double y[MD],x[MD],yy[MD];int outside=t==5;for(size_t k=0;k<d;k++){double L=s[k]->ub-s[k]->lb;y[k]=vr_unif(s[k]->lb+0.05*L,s[k]->ub-0.05*L);}
        if(outside){size_t k=vr_int(0,d-1);double L=s[k]->ub-s[k]->lb;y[k]=vr_chance(0.5)?s[k]->lb-vr_unif(0.01,1)*L:s[k]->ub+vr_unif(0.01,1)*L;}
        for(size_t i=0;i<d;i++){x[i]=tr?b[i]:y[i];if(tr)for(size_t j=0;j<=i;j++)x[i]+=A[j*d+i]*y[j];}
        if(tr)lt_solve(d,A,b,x,yy);else memcpy(yy,y,sizeof y);
        double v=probability_density_eval(q,x);
        if(outside){CLOSE("outside-zero",v,0,0);vh_hit("outside");continue;}
        double m=mft_mag(a,yy),w=mft_eval(a,yy);CLOSE("density",v,w/fabs(det),1e-8*m/fabs(det));
        if(m==0||fabs(w)<0.05*m)continue; /* the logarithmic derivatives are ill conditioned near a zero */
        vh_hit("log-derivatives");
        double g[MD],H[MD*MD],B[MD*MD],cs[MD]={0};for(size_t k=0;k<d;k++)g[k]=mft_grad(a,yy,k)/w;for(size_t i=0;i<d;i++)for(size_t j=0;j<d;j++)H[j*d+i]=hess_fd(a,s,yy,i,j)/w-g[i]*g[j];
        /* B = inverse of A, column by column */
        for(size_t c=0;c<d;c++){double e[MD]={0},z[MD]={0},col[MD];e[c]=1;if(tr)lt_solve(d,A,z,e,col);else memcpy(col,e,sizeof e);for(size_t i=0;i<d;i++)B[c*d+i]=col[i];}
        double gm=0,Hm=0;for(size_t k=0;k<d;k++){double L=2/(s[k]->ub-s[k]->lb);cs[k]=64*L*20;gm=dmax(gm,cs[k]);}Hm=gm*gm;
        double bm=1;for(size_t i=0;i<d*d;i++)bm=dmax(bm,fabs(B[i]));bm*=(double)d;
        double*lg=probability_density_log_gradient_eval(q,x),*lh=probability_density_log_hessian_eval(q,x);
        for(size_t i=0;i<d;i++){double wg=0;for(size_t k=0;k<d;k++)wg+=B[i*d+k]*g[k];CLOSE("log-gradient",lg[i],wg,1e-8*gm*bm);
            for(size_t j=0;j<d;j++){double wh=0;for(size_t k=0;k<d;k++)for(size_t l=0;l<d;l++)wh+=B[i*d+k]*H[l*d+k]*B[j*d+l];CLOSE("log-hessian",lh[j*d+i],wh,1e-6*Hm*bm*bm);}}
        free(lg);free(lh);
    }
    probability_density_free(q);
out:mft_free(a);spv_free(s,d);
}
static double mvn_ref(size_t d,const double*L,const double*m,const double*x,double*qd){double y[MD];lt_solve(d,L,m,x,y);double q=0,det=1;for(size_t i=0;i<d;i++){q+=y[i]*y[i];det*=L[i*d+i];}*qd=q;return exp(-q/2)/pow(2*M_PI,d/2.)/det;}
static void rand_cov(size_t d,double*L,double*C){double b[MD],det;rand_lt(d,L,b,&det);for(size_t i=0;i<d;i++)L[i*d+i]=fabs(L[i*d+i]);for(size_t i=0;i<d;i++)for(size_t j=0;j<d;j++){double s=0;for(size_t k=0;k<d;k++)s+=L[k*d+i]*L[k*d+j];C[j*d+i]=s;}}
static void mvn_check(const char*key,PD*p,size_t d,const double*L,const double*m){
    double det=1;for(size_t i=0;i<d;i++)det*=L[i*d+i];double pk=1/pow(2*M_PI,d/2.)/det;
    for(int t=0;t<6;t++){double x[MD],y[MD],q;for(size_t i=0;i<d;i++)y[i]=vr_norm()*(t<4?1:2);for(size_t i=0;i<d;i++){x[i]=m[i];for(size_t j=0;j<=i;j++)x[i]+=L[j*d+i]*y[j];}
        double w=mvn_ref(d,L,m,x,&q);CLOSE(key,probability_density_eval(p,x),w,3e-4*pk);}
    double*x=malloc(8*d);for(size_t i=0;i<d;i++)x[i]=m[i];x[0]+=L[0]*50;CLOSE("far-zero",probability_density_eval(p,x),0,1e-12);free(x);
}
CASE(prob_mvn,"P21",8,100,VH_SLOW){
    size_t d=vr_big(1,4,8);double L[MD*MD],C[MD*MD],m[MD],C0[MD*MD],m0[MD];rand_cov(d,L,C);for(size_t i=0;i<d;i++)m[i]=m0[i]=vr_norm()*3;memcpy(C0,C,sizeof C);
    int std=vr_chance(0.25);if(std){memset(L,0,sizeof L);memset(m,0,sizeof m);for(size_t i=0;i<d;i++)L[i*d+i]=1;}
    vh_sig("d%zu std%d",d,std);
    PD*p=std?probability_density_standard_normal(d):probability_density_mvn(d,m,C);if(!std){SAMEBYTES("cov-changed",C,C0,8*d*d);SAMEBYTES("mean-changed",m,m0,8*d);}
    mvn_check("mvn",p,d,L,m);PD*q=pd_roundtrip(p,vr_chance(0.5));mvn_check("mvn-reloaded",q,d,L,m);
    /* sampling: whitened draws have the first two moments of a standard normal */
    srand((unsigned)vr_int(1,1u<<30));size_t N=600;double mu[MD]={0},S[MD*MD]={0};
    for(size_t n=0;n<N;n++){double*x=probability_density_sample(q),y[MD];lt_solve(d,L,m,x,y);for(size_t i=0;i<d;i++){mu[i]+=y[i];for(size_t j=0;j<d;j++)S[j*d+i]+=y[i]*y[j];}free(x);}
    for(size_t i=0;i<d;i++){CLOSE("sample-mean",mu[i]/(double)N,0,8/sqrt((double)N));for(size_t j=0;j<d;j++)CLOSE("sample-cov",S[j*d+i]/(double)N,i==j,8*sqrt(2./(double)N));}
    probability_density_free(p);probability_density_free(q);
}
struct quadpost{size_t d;double*P,*m;};
static double qp_f(size_t d,const double*x,double*g,void*a){struct quadpost*q=a;double v=0;for(size_t i=0;i<d;i++){double s=0;for(size_t j=0;j<d;j++)s+=q->P[j*d+i]*(x[j]-q->m[j]);if(g)g[i]=s;v+=0.5*s*(x[i]-q->m[i]);}return v;}
static double*qp_h(double*x,void*a){(void)x;struct quadpost*q=a;double*h=malloc(8*q->d*q->d);memcpy(h,q->P,8*q->d*q->d);return h;}
CASE(prob_laplace,"P21",5,60,VH_SLOW){
    size_t d=vr_big(1,3,7);double L[MD*MD],C[MD*MD],m[MD],P[MD*MD],st[MD];rand_cov(d,L,C);for(size_t i=0;i<d;i++){m[i]=vr_norm();st[i]=m[i]+vr_norm();}
    /* precision = inverse covariance through the triangular factor */
    double Li[MD*MD];for(size_t c=0;c<d;c++){double e[MD]={0},z[MD]={0};e[c]=1;lt_solve(d,L,z,e,Li+c*d);}
    for(size_t i=0;i<d;i++)for(size_t j=0;j<d;j++){double s=0;for(size_t k=0;k<d;k++)s+=Li[i*d+k]*Li[j*d+k];P[j*d+i]=s;}
    struct quadpost q={d,P,m};vh_sig("d%zu",d);double st0[MD];memcpy(st0,st,sizeof st);
    PD*p=probability_density_laplace(qp_f,qp_h,&q,d,st);SAMEBYTES("start-changed",st,st0,8*d);
    for(size_t i=0;i<d;i++)CLOSE("laplace-mean",p->lt->b[i],m[i],1e-3*(1+fabs(m[i])));
    for(size_t i=0;i<d;i++)for(size_t j=0;j<=i;j++)CLOSE("laplace-factor",p->lt->A[j*d+i],L[j*d+i],1e-8*(1+fabs(L[j*d+i]))*pow(10,(double)d));
    probability_density_free(p);
}
/* ---- variance decomposition ---- */
static double wmean(const struct m1*m){const struct sp*s=m->sp;return s->t==T_HERM?m1_integral(m):m1_integral(m)/(s->ub-s->lb);}
static double winner(const struct m1*a,const struct m1*b){const struct sp*s=a->sp;return s->t==T_HERM?m1_inner(a,b):m1_inner(a,b)/(s->ub-s->lb);}
/* E[(E[f|x_S])^2] */
static double**gram(const struct mft*a){double**G=malloc(2*a->d*sizeof*G);for(size_t k=0;k<a->d;k++){size_t n=a->r[k]*a->r[k+1];double*W=G[2*k]=malloc(8*n*n),*M_=G[2*k+1]=malloc(8*n);
    for(size_t i=0;i<n;i++){M_[i]=wmean(&a->f[k][i]);for(size_t j=0;j<=i;j++)W[i*n+j]=W[j*n+i]=winner(&a->f[k][i],&a->f[k][j]);}}return G;}
static void gram_free(const struct mft*a,double**G){for(size_t k=0;k<2*a->d;k++)free(G[k]);free(G);}
static double condmom(const struct mft*a,double**G,unsigned S){double v[MR*MR]={1},w[MR*MR];
    for(size_t k=0;k<a->d;k++){size_t r0=a->r[k],r1=a->r[k+1];for(size_t j1=0;j1<r1;j1++)for(size_t i1=0;i1<r1;i1++){double s=0;for(size_t j=0;j<r0;j++)for(size_t i=0;i<r0;i++){size_t p=i1*r0+i,q=j1*r0+j;s+=v[j*r0+i]*((S>>k&1)?G[2*k][p*r0*r1+q]:G[2*k+1][p]*G[2*k+1][q]);}w[j1*r1+i1]=s;}memcpy(v,w,sizeof v);}
    return v[0];}
struct ext{const double*D;int seen[256];double tol;size_t order;};
static void ext_f(double v,size_t n,size_t*lab,void*arg){struct ext*e=arg;unsigned S=0;for(size_t i=0;i<n;i++)S|=1u<<lab[i];e->seen[S]++;CLOSE("visited-value",v,e->D[S],e->tol);EQZ("visited-labels",__builtin_popcount(S),n);}
CASE(prob_sobol,"P21",60,1200,0){
    size_t d=vr_big(2,5,8);struct sp**s=spv_rand(d,M(T_LEG)|M(T_HERM),vr_chance(0.5));struct mft*a=mft_rand(s,d,3);FT*f=mft_ft(a);size_t order=vr_int(1,d);
    vh_sig("d%zu o%zu",d,order);for(size_t k=1;k<d;k++)vh_sig("r%zu",a->r[k]);
    unsigned full=(1u<<d)-1;double V[256],D[256],**G=gram(a);double m2=condmom(a,G,0);for(unsigned S=0;S<=full;S++)V[S]=condmom(a,G,S)-m2;
    for(unsigned S=0;S<=full;S++){D[S]=0;for(unsigned T=S;;T=(T-1)&S){D[S]+=(__builtin_popcount(S^T)&1?-1:1)*V[T];if(!T)break;}}
    double tot=V[full],sc=condmom(a,G,full);
    if(tot>1e-6*sc&&sc>1e-200){
        double tol=1e-9*sc*(double)(1u<<d);
        struct C3SobolSensitivity*z=c3_sobol_sensitivity_calculate(f,order);
        CLOSE("variance",c3_sobol_sensitivity_get_variance(z),tot,tol);
        for(size_t k=0;k<d;k++){CLOSE("main",c3_sobol_sensitivity_get_main(z,k),D[1u<<k],tol);CLOSE("total",c3_sobol_sensitivity_get_total(z,k)*tot,tot-V[full^(1u<<k)],tol*10);}
        double sum=0;for(unsigned S=1;S<=full;S++){size_t n=(size_t)__builtin_popcount(S);if(n>order)continue;size_t v[8],c=0;for(size_t k=0;k<d;k++)if(S>>k&1)v[c++]=k;double g=c3_sobol_sensitivity_get_interaction(z,n,v);CLOSE("interaction",g,D[S],tol);sum+=g;}
        if(order==d){CLOSE("sums-to-variance",sum,tot,tol*10);vh_hit("full-order");}
        struct ext e;memset(&e,0,sizeof e);e.D=D;e.tol=tol;c3_sobol_sensitivity_apply_external(z,ext_f,&e);for(unsigned S=1;S<=full;S++)if((size_t)__builtin_popcount(S)<=order)EQZ("visited-once",e.seen[S],1);
        c3_sobol_sensitivity_free(z);
    } else vh_hit("degenerate");
    gram_free(a,G);function_train_free(f);mft_free(a);spv_free(s,d);
}
