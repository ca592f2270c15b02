/* Sizes far above those of the other workloads: code that switches to another buffer or algorithm for large inputs. */
#include "model.h"
typedef struct GenericFunction GF;
static double trap(const struct LinElemExp*f,const struct LinElemExp*g){ /* trapezoid on the merged nodes of two grids with common ends */
    size_t i=0,j=0,n=0;double*x=malloc(8*(f->num_nodes+g->num_nodes)),s=0;
    while(i<f->num_nodes||j<g->num_nodes){double a=i<f->num_nodes?f->nodes[i]:1e300,b=j<g->num_nodes?g->nodes[j]:1e300;if(a<=b){x[n++]=a;i++;if(a==b)j++;}else{x[n++]=b;j++;}}
    for(size_t k=0,p=0,q=0;k<n;k++){while(p+2<f->num_nodes&&f->nodes[p+1]<x[k])p++;while(q+2<g->num_nodes&&g->nodes[q+1]<x[k])q++;
        double u=(x[k]-f->nodes[p])/(f->nodes[p+1]-f->nodes[p]),v=(x[k]-g->nodes[q])/(g->nodes[q+1]-g->nodes[q]);
        double fv=f->coeff[p]*(1-u)+f->coeff[p+1]*u,gv=g->coeff[q]*(1-v)+g->coeff[q+1]*v,h=(k+1<n?x[k+1]:x[k])-(k?x[k-1]:x[k]);s+=0.5*h*fv*gv;}
    free(x);return s;}
static double*grid(size_t n,double lb,double ub){double*x=malloc(8*n),t=0;for(size_t i=0;i<n;i++){x[i]=t;t+=0.2+vr_u01();}for(size_t i=0;i<n;i++)x[i]=lb+(ub-lb)*x[i]/x[n-1];x[n-1]=ub;return x;}
CASE(big_grid,"P11 P12 P05 P07",4,60,VH_SLOW){
    size_t n=vr_int(1000,9000),m=vr_int(1000,9000);if(vr_chance(0.25)){n=5000+vr_int(0,2)-1;m=5000;}int con=vr_chance(0.3);double lb=vr_unif(-2,0),ub=lb+vr_unif(1,4),*x=grid(n,lb,ub),*y=grid(m,lb,ub),*a=vh_dvec(n),*b=vh_dvec(m);
    vh_sig("%s %d %d",con?"const":"lin",(int)((n+m)/1000),n+m>=10000);
    GF*F=generic_function_alloc(1,con?CONSTELM:LINELM),*G=generic_function_alloc(1,con?CONSTELM:LINELM);F->fargs=G->fargs=NULL;
    if(con){F->f=const_elem_exp_init(n,x,a);G->f=const_elem_exp_init(m,y,b);}else{F->f=lin_elem_exp_init(n,x,a);G->f=lin_elem_exp_init(m,y,b);}
    double s=0;for(size_t i=0;i<n;i++){double h=con?(i+1<n?0.5*(x[i+1]+x[i]):ub)-(i?0.5*(x[i]+x[i-1]):lb):0.5*((i+1<n?x[i+1]:x[i])-(i?x[i-1]:x[i]));s+=h*a[i];}
    CLOSE("integral",generic_function_integrate(F),s,1e-10*(ub-lb)*10);
    double in=0;if(con){size_t i=0,j=0;double l=lb;while(l<ub&&i<n&&j<m){double r1=i+1<n?0.5*(x[i]+x[i+1]):ub,r2=j+1<m?0.5*(y[j]+y[j+1]):ub,r=dmin(r1,r2);in+=(r-l)*a[i]*b[j];l=r;if(r1<=r)i++;if(r2<=r)j++;}}else in=trap(F->f,G->f);
    if(!con){CLOSE("inner",generic_function_inner(F,G),in,1e-8*(ub-lb)*10);CLOSE("inner",generic_function_inner(G,F),in,1e-8*(ub-lb)*10);
        GF*H=generic_function_copy(G);double c=vr_norm();generic_function_axpy(c,F,H);for(int t=0;t<40;t++){double z=lb+(ub-lb)*vr_u01(),w=c*generic_function_1d_eval(F,z)+generic_function_1d_eval(G,z);CLOSE("axpy",generic_function_1d_eval(H,z),w,1e-9*(1+fabs(c))*20);}generic_function_free(H);}
    for(int t=0;t<40;t++){size_t i=vr_int(0,n-2);double z=x[i]+(x[i+1]-x[i])*vr_unif(0.05,0.45);CLOSE("eval",generic_function_1d_eval(F,z),con?a[i]:a[i]+(a[i+1]-a[i])*(z-x[i])/(x[i+1]-x[i]),1e-9*20);}
    size_t sz=0;serialize_generic_function(NULL,F,&sz);unsigned char*buf=malloc(sz),*e=serialize_generic_function(buf,F,NULL);EQZ("ser-size",(size_t)(e-buf),sz);GF*R=NULL;deserialize_generic_function(buf,&R);
    if(con){SAMEBYTES("ser-coeff",((struct ConstElemExp*)R->f)->coeff,a,8*n);SAMEBYTES("ser-nodes",((struct ConstElemExp*)R->f)->nodes,x,8*n);}else{SAMEBYTES("ser-coeff",((struct LinElemExp*)R->f)->coeff,a,8*n);SAMEBYTES("ser-nodes",((struct LinElemExp*)R->f)->nodes,x,8*n);}
    generic_function_free(R);free(buf);generic_function_free(F);generic_function_free(G);free(x);free(y);free(a);free(b);
}
CASE(big_array,"P11 P25 P10",4,60,VH_SLOW){
    size_t n=vr_chance(0.5)?998+vr_int(0,6):vr_int(200,1500),N=vr_int(1,3),inc=n+vr_int(0,2);int t=(int[]){T_LEG,T_LIN,T_HERM,T_CHEB}[vr_int(0,3)];struct sp*s=sp_make(t,-1,1.5,vr_int(2,4));
    GF**g=malloc(n*sizeof*g);struct m1*f=malloc(n*sizeof*f);for(size_t i=0;i<n;i++){f[i]=m1_rand(s);g[i]=m1_gf(&f[i]);}double x[3];for(int i=0;i<3;i++)x[i]=sp_x(s);vh_sig("n%zu %s",n/100,tname[t]);
    double*o=malloc(8*inc*N),*p=malloc(8*n);generic_function_1darray_eval2(n,g,x[0],p);for(size_t i=0;i<n;i++)CLOSE("eval2",p[i],m1_eval(&f[i],x[0]),1e-10*m1_mag(&f[i],x[0]));
    generic_function_1darray_eval2N(n,g,N,x,1,o,inc);for(size_t k=0;k<N;k++)for(size_t i=0;i<n;i++)CLOSE("eval2N",o[k*inc+i],m1_eval(&f[i],x[k]),1e-10*m1_mag(&f[i],x[k]));
    for(size_t i=0;i<n;i++){m1_free(&f[i]);generic_function_free(g[i]);}free(f);free(g);free(o);free(p);sp_free(s);
}
/* many dimensions, large ranks */
CASE(big_train,"P03 P05 P25 P07 P08",5,80,VH_SLOW){
    int wide=vr_chance(0.5);size_t d=wide?vr_int(2,4):vr_int(8,30);struct sp**s=spv_rand(d,M(T_LIN)|M(T_LEG)|M(T_CONST)|M(T_KER),vr_chance(0.4));
    for(size_t k=0;k<d;k++)if(s[k]->n>12){sp_free(s[k]);s[k]=sp_make(T_LIN,-1,1,5);}
    struct mft*a=mft_rand(s,d,wide?24:4);for(size_t k=0;k<d;k++)for(size_t j=0;j<a->r[k]*a->r[k+1];j++)for(size_t i=0;i<a->f[k][j].n;i++)a->f[k][j].c[i]/=sqrt((double)a->r[k]);
    struct FunctionTrain*f=mft_ft(a),*c=function_train_copy(f);vh_sig("d%zu w%d",d,wide);double*x=malloc(8*d),*g=malloc(8*d);
    for(int t=0;t<4;t++){spv_x(s,d,x);double v=mft_eval(a,x),m=mft_mag(a,x);CLOSE("eval",function_train_eval(f,x),v,1e-10*m);CLOSE("copy",function_train_eval(c,x),v,1e-10*m);}
    struct FunctionTrain*q=function_train_sum(f,c);spv_x(s,d,x);double v=mft_eval(a,x),m=mft_mag(a,x);CLOSE("sum",function_train_eval(q,x),2*v,1e-10*m);for(size_t k=1;k<d;k++)EQZ("sum-ranks",q->ranks[k],2*a->r[k]);
    CLOSE("integral",function_train_integrate(q),2*function_train_integrate(f),1e-9*(fabs(function_train_integrate(f))+1e-3*m));
    unsigned char*buf=NULL;size_t sz=0;function_train_serialize(NULL,f,&sz);buf=malloc(sz);function_train_serialize(buf,f,NULL);struct FunctionTrain*r=NULL;function_train_deserialize(buf,&r);double e1=function_train_eval(r,x),e0=function_train_eval(f,x);SAMEBYTES("serialise",&e1,&e0,8);
    double nn=function_train_norm2(f),n2=function_train_inner(f,c);CLOSE("norm",nn*nn,n2,1e-9*n2+1e-280);CLOSE("distance",function_train_norm2diff(f,c),0,1e-6*nn+1e-140);
    function_train_free(q);function_train_free(r);function_train_free(f);function_train_free(c);free(buf);free(x);free(g);mft_free(a);spv_free(s,d);
}
