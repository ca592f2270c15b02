/* Univariate function classes: linear algebra, products, calculus, approximation, parameters, maxima. */
#include "model.h"
#include <assert.h>
#include "pivoting.h"
typedef struct GenericFunction GF;
struct Pivot*pivot_create(size_t,size_t);void pivot_free(struct Pivot*);
#define ALLT (M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW))
#define TOL(m) (1e-11*((m)+1e-300)+1e-13)
static double magmax(const struct m1*f){double m=0;for(int i=0;i<9;i++)m=dmax(m,m1_mag(f,f->sp->lb+(f->sp->ub-f->sp->lb)*i/8.0));
    if(f->c)for(size_t i=0;i<f->n;i++)m=dmax(m,fabs(f->c[i])*(f->sp->t==T_LIN||f->sp->t==T_CONST));return m;}
static void check_comb(const char*key,const GF*g,size_t n,const struct m1*f,const double*c){
    for(int k=0;k<4;k++){double x=sp_x(f[0].sp),w=0,m=0;
        for(size_t i=0;i<n;i++){w+=c[i]*m1_eval(f+i,x);m+=fabs(c[i])*m1_mag(f+i,x);}
        CLOSE(key,generic_function_1d_eval(g,x),w,TOL(m));}
}
/* Fourier products and inner products are taken on the mode set of the first factor (a power of two): band-limited factors make them exact */
static struct sp*fourier_band(struct sp*s){if(s->t!=T_FOUR)return s;double a=s->lb,b=s->ub;sp_free(s);s=sp_make(T_FOUR,a,b,((size_t)1<<vr_int(1,4))+1);s->band=1;return s;}
/* ------------------------------------------------------------------ P11 */
CASE(fn_eval,"P11 P03 P25",60,1500,0){
    struct sp*s=sp_rand(ALLT);struct m1 f=m1_rand(s);GF*g=m1_gf(&f);
    vh_sig("%s n%zu",tname[s->t],f.n);
    size_t N=vr_big(1,9,40),ix=vr_int(1,3),iy=vr_int(1,3);
    double*x=calloc(N*ix,sizeof(double)),*y=calloc(N*iy,sizeof(double)),*yo=calloc(N*iy,sizeof(double));
    for(size_t i=0;i<N*ix;i++)x[i]=sp_x(s);
    for(size_t i=0;i<N*iy;i++)y[i]=yo[i]=vr_norm();
    double*x0=malloc(N*ix*sizeof(double));memcpy(x0,x,N*ix*sizeof(double));
    generic_function_1d_evalN(g,N,x,ix,y,iy);
    for(size_t i=0;i<N;i++){
        double w=m1_eval(&f,x[i*ix]),m=m1_mag(&f,x[i*ix]);
        CLOSE("eval",generic_function_1d_eval(g,x[i*ix]),w,TOL(m));
        CLOSE("evalN",y[i*iy],w,TOL(m));
        for(size_t k=1;k<iy;k++)TRUE_("evalN-gap",y[i*iy+k]==yo[i*iy+k]);
    }
    SAMEBYTES("evalN-input",x,x0,N*ix*sizeof(double));
    if(s->t==T_LIN||s->t==T_CONST){
        size_t i=vr_int(0,s->n-1);CLOSE("eval-ind",generic_function_1d_eval_ind(g,i),f.c[i],0);
        double w=s->ub-s->lb;
        CLOSE("outside",generic_function_1d_eval(g,s->lb-0.1*w),0,0);CLOSE("outside",generic_function_1d_eval(g,s->ub+0.1*w),0,0);
    }
    if(s->t!=T_HERM&&s->t!=T_KER){CLOSE("lb",generic_function_get_lb(g),s->lb,0);CLOSE("ub",generic_function_get_ub(g),s->ub,0);}
    if(s->t==T_KER){CLOSE("lb",generic_function_get_lb(g),s->lb,0);CLOSE("ub",generic_function_get_ub(g),s->ub,0);}
    /* arrays of functions */
    size_t n=vr_big(1,4,12);struct m1 fa[12];GF*ga[12];
    for(size_t i=0;i<n;i++){fa[i]=m1_rand(s);ga[i]=m1_gf(fa+i);}
    double xx=sp_x(s),out[12],*o2=generic_function_1darray_eval(n,ga,xx);
    generic_function_1darray_eval2(n,ga,xx,out);
    size_t inc=n+vr_int(0,2);double*Y=calloc(N*inc,sizeof(double));
    generic_function_1darray_eval2N(n,ga,N,x,ix,Y,inc);
    for(size_t i=0;i<n;i++){double t=TOL(m1_mag(fa+i,xx));
        CLOSE("arr-eval",o2[i],m1_eval(fa+i,xx),t);CLOSE("arr-eval2",out[i],m1_eval(fa+i,xx),t);
        for(size_t k=0;k<N;k++)CLOSE("arr-eval2N",Y[k*inc+i],m1_eval(fa+i,x[k*ix]),TOL(m1_mag(fa+i,x[k*ix])));}
    if(s->t==T_LIN||s->t==T_CONST){size_t k=vr_int(0,s->n-1);generic_function_1darray_eval2_ind(n,ga,k,out);for(size_t i=0;i<n;i++)CLOSE("arr-ind",out[i],fa[i].c[k],0);}
    for(size_t i=0;i<n;i++){generic_function_free(ga[i]);m1_free(fa+i);}
    vh_obs_arr(N*iy,y);free(o2);free(Y);free(x);free(x0);free(y);free(yo);generic_function_free(g);m1_free(&f);sp_free(s);
}
CASE(fn_linear,"P11 P03",60,1500,0){
    struct sp*s=sp_rand(ALLT);size_t n=vr_big(1,5,12);struct m1 f[12];GF*g[12];double c[12],mg=0;
    for(size_t i=0;i<n;i++){f[i]=m1_rand(s);g[i]=m1_gf(f+i);c[i]=vr_coef();mg+=magmax(f+i);}
    vh_sig("%s n%zu",tname[s->t],n);
    GF*r=generic_function_lin_comb(n,g,c);check_comb("lin-comb",r,n,f,c);generic_function_free(r);
    { /* strided */
        size_t ld=vr_int(1,3),lc=vr_int(1,3);GF*gg[36];double cc[36];
        for(size_t i=0;i<36;i++){gg[i]=NULL;cc[i]=vr_norm();}
        for(size_t i=0;i<n;i++){for(size_t k=0;k<ld;k++)gg[i*ld+k]=g[k?vr_int(0,n-1):i];gg[i*ld]=g[i];cc[i*lc]=c[i];}
        r=generic_function_lin_comb2(n,ld,gg,lc,cc);check_comb("lin-comb2",r,n,f,c);generic_function_free(r);
    }
    for(size_t i=0;i<n;i++){double one=1;check_comb("input-changed",g[i],1,f+i,&one);}
    if(n>=2){
        struct m1 p[2]={f[0],f[1]};double ab[2]={c[0],c[1]};
        r=generic_function_daxpby(ab[0],g[0],ab[1],g[1]);check_comb("daxpby",r,2,p,ab);
        if(s->t!=T_FOUR)vh_obs(generic_function_norm2diff(g[0],g[1]));
        GF*q=generic_function_copy(g[1]);
        TRUE_("axpy-status",generic_function_axpy(ab[0],g[0],q)==0);double one1[2]={ab[0],1};check_comb("axpy",q,2,p,one1);
        generic_function_free(q);generic_function_free(r);
        if(s->t!=T_FOUR){
            GF*z=generic_function_alloc(1,s->o->fc);z->f=NULL;
            generic_function_weighted_sum_pa(ab[0],g[0],ab[1],g[1],&z);check_comb("weighted-sum",z,2,p,ab);generic_function_free(z);
        }
        GF*xa[4]={g[0],g[1],g[1],g[0]},*za[4]={0};size_t lz=vr_int(1,2);
        GF**out=generic_function_array_daxpby(2,ab[0],2,xa,ab[1],1,xa);
        {struct m1 a0[2]={f[0],f[0]},a1[2]={f[1],f[1]};check_comb("arr-daxpby",out[0],2,a0,ab);check_comb("arr-daxpby",out[1],2,a1,ab);}
        generic_function_array_daxpby2(2,ab[0],2,xa,ab[1],1,xa,lz,za);
        {struct m1 a0[2]={f[0],f[0]},a1[2]={f[1],f[1]};check_comb("arr-daxpby2",za[0],2,a0,ab);check_comb("arr-daxpby2",za[lz],2,a1,ab);}
        generic_function_free(za[0]);generic_function_free(za[lz]);generic_function_array_free(out,2);
        out=generic_function_array_daxpby(2,ab[0],1,g,0,1,NULL);check_comb("arr-daxpby-y0",out[0],1,f,ab);generic_function_array_free(out,2);
        out=generic_function_array_daxpby(2,0,1,NULL,ab[0],1,g);check_comb("arr-daxpby-x0",out[0],1,f,ab);generic_function_array_free(out,2);
        /* in place array update */
        GF*qa[2]={generic_function_copy(g[1]),generic_function_copy(g[0])};
        generic_function_array_axpy(2,ab[0],g,qa);
        {double cc[2]={ab[0],1};struct m1 a0[2]={f[0],f[1]},a1[2]={f[1],f[0]};check_comb("arr-axpy",qa[0],2,a0,cc);check_comb("arr-axpy",qa[1],2,a1,cc);}
        generic_function_array_scale(c[0],qa,2);
        {double cc[2]={ab[0]*c[0],c[0]};struct m1 a0[2]={f[0],f[1]};check_comb("arr-scale",qa[0],2,a0,cc);}
        generic_function_array_flip_sign(1,2,qa);
        {double cc[2]={-ab[0]*c[0],-c[0]},dd[2]={ab[0]*c[0],c[0]};struct m1 a0[2]={f[0],f[1]},a1[2]={f[1],f[0]};check_comb("arr-flip",qa[0],2,a0,cc);check_comb("arr-flip-other",qa[1],2,a1,dd);}
        generic_function_free(qa[0]);generic_function_free(qa[1]);
    }
    { /* independent strides of inputs and output, also with one operand missing */
        size_t k=vr_big(1,4,10),lx=vr_int(1,3),ly=vr_int(1,3),lz=vr_int(1,3);GF*X[30],*Y[30],*Z[30]={0};struct m1 fx[30],fy[30];double u[2]={vr_coef(),vr_coef()};
        for(size_t i=0;i<30;i++){size_t a=vr_int(0,n-1),b=vr_int(0,n-1);X[i]=g[a];fx[i]=f[a];Y[i]=g[b];fy[i]=f[b];}
        int miss=(int)vr_int(0,2);if(s->t==T_FOUR)miss=0;
        GF**o=generic_function_array_daxpby(k,u[0],lx,miss==1?NULL:X,u[1],ly,miss==2?NULL:Y);
        generic_function_array_daxpby2(k,u[0],lx,miss==1?NULL:X,u[1],ly,miss==2?NULL:Y,lz,Z);
        for(size_t i=0;i<k;i++){struct m1 q2[2]={fx[i*lx],fy[i*ly]};if(miss==1)q2[0]=q2[1];
            double uu[2]={miss==1?u[1]:u[0],u[1]};size_t m=miss?1:2;check_comb("arr-daxpby-strided",o[i],m,q2,uu);check_comb("arr-daxpby2-strided",Z[i*lz],m,q2,uu);generic_function_free(Z[i*lz]);}
        generic_function_array_free(o,k);
    }
    r=generic_function_daxpby(c[0],g[0],3.0,NULL);check_comb("daxpby-y0",r,1,f,c);generic_function_free(r);
    r=generic_function_daxpby(3.0,NULL,c[0],g[0]);check_comb("daxpby-x0",r,1,f,c);
    generic_function_flip_sign(r);{double m=-c[0];check_comb("flip",r,1,f,&m);}
    generic_function_scale(2.5,r);{double m=-2.5*c[0];check_comb("scale",r,1,f,&m);}
    generic_function_free(r);
    if(n>=3&&(s->t==T_LEG||s->t==T_CHEB||s->t==T_HERM)){
        GF*z=generic_function_copy(g[2]);generic_function_sum3_up(c[0],g[0],c[1],g[1],c[2],z);check_comb("sum3",z,3,f,c);generic_function_free(z);
    }
    vh_obs(mg);
    for(size_t i=0;i<n;i++){generic_function_free(g[i]);m1_free(f+i);}
    sp_free(s);
}
CASE(fn_grids,"P11 P12 P03 P05",60,1500,0){ /* nodal functions on different grids of one interval */
    int t=vr_chance(0.7)?T_LIN:T_CONST;struct sp*s=sp_rand(M(t));struct sp*q=sp_make(t,s->lb,s->ub,vr_int(2,12));
    if(vr_chance(0.4)){ /* share some interior nodes */
        for(size_t i=1;i+1<q->n;i++){double v=s->x[vr_int(0,s->n-1)];if(v>q->x[i-1]+1e-9&&v<q->x[i+1]-1e-9&&vr_chance(0.6))q->x[i]=v;}
    }
    int twin=vr_chance(0.3);if(twin){ /* same number of nodes, only a few interior nodes differ */
        sp_free(q);q=sp_make(t,s->lb,s->ub,s->n);memcpy(q->x,s->x,8*s->n);
        for(size_t k=vr_int(0,2);k>0&&s->n>2;k--){size_t i=vr_int(1,s->n-2);q->x[i]+=vr_unif(0.1,0.4)*(vr_chance(0.5)?q->x[i+1]-q->x[i]:q->x[i-1]-q->x[i]);}}
    struct m1 f=m1_rand(s),g=m1_rand(q);GF*F=m1_gf(&f),*G=m1_gf(&g);double a=vr_coef();
    vh_sig("%s %zu %zu t%d",tname[t],s->n,q->n,twin);
    GF*R=generic_function_copy(G);generic_function_axpy(a,F,R);
    double rng=magmax(&f)*fabs(a)+magmax(&g);
    if(t==T_LIN){
        for(int k=0;k<6;k++){double x=k<2?s->x[vr_int(0,s->n-1)]:k<4?q->x[vr_int(0,q->n-1)]:vr_unif(s->lb,s->ub);
            CLOSE("axpy-grids",generic_function_1d_eval(R,x),a*m1_eval(&f,x)+m1_eval(&g,x),1e-10*rng+1e-13);}
        /* inner product: trapezoidal rule on the union of the nodes */
        double X[200];size_t n=0;for(size_t i=0;i<s->n;i++)X[n++]=s->x[i];
        for(size_t i=0;i<q->n;i++){int dup=0;for(size_t j=0;j<s->n;j++)if(fabs(q->x[i]-s->x[j])<1e-15)dup=1;if(!dup)X[n++]=q->x[i];}
        for(size_t i=1;i<n;i++)for(size_t j=i;j>0&&X[j]<X[j-1];j--){double tt=X[j];X[j]=X[j-1];X[j-1]=tt;}
        if(n>2){double w=0,ab=0;for(size_t i=0;i+1<n;i++){double h=X[i+1]-X[i];for(int e=0;e<2;e++){double v=m1_eval(&f,X[i+e])*m1_eval(&g,X[i+e]);w+=0.5*h*v;ab+=0.5*h*fabs(v);}}
            CLOSE("inner-grids",generic_function_inner(F,G),w,1e-10*ab+1e-14);CLOSE("inner-grids-sym",generic_function_inner(G,F),w,1e-10*ab+1e-14);}
        /* product: interpolates f*g to the stated accuracy */
    } else {
        const struct ConstElemExp*ce=R->f;
        for(size_t i=0;i<ce->num_nodes;i++){
            double x=ce->nodes[i];if(i)TRUE_("grid-sorted",ce->nodes[i]>ce->nodes[i-1]);
            /* skip points equidistant from two nodes of a parent: either neighbour is a nearest node */
            int amb=0;for(size_t j=0;j+1<s->n;j++)if(fabs(2*x-s->x[j]-s->x[j+1])<1e-12)amb=1;for(size_t j=0;j+1<q->n;j++)if(fabs(2*x-q->x[j]-q->x[j+1])<1e-12)amb=1;
            if(!amb)CLOSE("axpy-grids",ce->coeff[i],a*m1_eval(&f,x)+m1_eval(&g,x),1e-11*rng+1e-13);}
    }
    vh_obs(generic_function_1d_eval(R,0.5*(s->lb+s->ub)));
    /* the sum keeps working as a function of its own */
    GF*R2=generic_function_copy(R);generic_function_scale(-2.0,R2);double xx=vr_unif(s->lb,s->ub);
    CLOSE("sum-copy",generic_function_1d_eval(R2,xx),-2*generic_function_1d_eval(R,xx),1e-13*(1+rng));
    GF*Nd=generic_function_create_nodal(R,q->n,q->x);
    for(size_t i=0;i<q->n;i++)CLOSE("nodal",generic_function_1d_eval_ind(Nd,i),generic_function_1d_eval(R,q->x[i]),1e-13*(1+rng));
    generic_function_free(Nd);generic_function_free(R2);generic_function_free(R);generic_function_free(F);generic_function_free(G);m1_free(&f);m1_free(&g);sp_free(s);sp_free(q);
}
CASE(fn_prod,"P11 P03",60,1500,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW));
    s=fourier_band(s);size_t n=vr_big(1,4,11);struct m1 f[11],h[11];GF*F[11],*H[11];
    for(size_t i=0;i<n;i++){f[i]=m1_rand(s);h[i]=m1_rand(s);F[i]=m1_gf(f+i);H[i]=m1_gf(h+i);}
    vh_sig("%s n%zu",tname[s->t],n);
    int nodal=s->t==T_LIN;
    GF*P=generic_function_prod(F[0],H[0]);
    for(int k=0;k<6;k++){double x=nodal?s->x[vr_int(0,s->n-1)]:sp_x(s);double m=m1_mag(f,x)*m1_mag(h,x);
        CLOSE("prod",generic_function_1d_eval(P,x),m1_eval(f,x)*m1_eval(h,x),1e-9*m+1e-12);}
    GF*Q=generic_function_prod(H[0],F[0]);
    for(int k=0;k<3;k++){double x=sp_x(s);CLOSE("prod-comm",generic_function_1d_eval(P,x),generic_function_1d_eval(Q,x),1e-9*m1_mag(f,x)*m1_mag(h,x)+1e-11);}
    size_t la=vr_int(1,2),lb=vr_int(1,2);GF*A[22],*B[22];
    for(size_t i=0;i<n;i++){A[i*la]=F[i];B[i*lb]=H[i];if(la==2)A[i*2+1]=H[0];if(lb==2)B[i*2+1]=F[0];}
    if(s->t!=T_FOUR){
    GF*S=generic_function_sum_prod(n,la,A,lb,B);
    for(int k=0;k<6;k++){double x=nodal?s->x[vr_int(0,s->n-1)]:sp_x(s),w=0,m=0;for(size_t i=0;i<n;i++){w+=m1_eval(f+i,x)*m1_eval(h+i,x);m+=m1_mag(f+i,x)*m1_mag(h+i,x);}
        CLOSE("sum-prod",generic_function_1d_eval(S,x),w,1e-9*m+1e-12);}
    generic_function_free(S);}
    for(size_t i=0;i<n;i++){double one=1;check_comb("input-changed",F[i],1,f+i,&one);check_comb("input-changed",H[i],1,h+i,&one);}
    vh_obs(generic_function_1d_eval(P,0.5*(s->lb+s->ub)));
    generic_function_free(P);generic_function_free(Q);
    for(size_t i=0;i<n;i++){generic_function_free(F[i]);generic_function_free(H[i]);m1_free(f+i);m1_free(h+i);}
    sp_free(s);
}
CASE(fn_kron,"P11 P10",40,900,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB));int left=vr_chance(0.5);
    size_t r=vr_big(1,3,6),m=vr_big(1,3,6),n=vr_big(1,3,6),l=vr_big(1,3,6);
    vh_sig("%s L%d %zu%zu%zu%zu",tname[s->t],left,r,m,n,l);
    /* kronh: left: d(r m x l) = A(r*m matrix in n) ; see header: a (r,m*n) kron I times c(n*m.. ) — compared with its index formula */
    size_t nc=n*l;struct m1 f[36];GF*c[36],*d[216];double a[216];
    for(size_t i=0;i<nc;i++){f[i]=m1_rand(s);c[i]=m1_gf(f+i);}
    for(size_t i=0;i<216;i++){a[i]=vr_norm();d[i]=NULL;}
    generic_function_kronh(left,r,m,n,l,a,c,d);
    double x=s->t==T_LIN?s->x[0]:sp_x(s);
    size_t nd=left?r*m*l:n*m*r;
    for(size_t i=0;i<nd;i++){double w=0,mg=0;
        if(left){size_t ii=i%r,jj=(i/r)%m,kk=i/(r*m);for(size_t p=0;p<n;p++){w+=a[ii+jj*n*r+p*r]*m1_eval(f+n*kk+p,x);mg+=fabs(a[ii+jj*n*r+p*r])*m1_mag(f+n*kk+p,x);}}
        else{size_t jj=i%n,kk=(i/n)%m,ii=i/(n*m);for(size_t p=0;p<l;p++){w+=a[kk*l+ii*l*m+p]*m1_eval(f+jj+p*n,x);mg+=fabs(a[kk*l+ii*l*m+p])*m1_mag(f+jj+p*n,x);}}
        CLOSE("kronh",generic_function_1d_eval(d[i],x),w,TOL(mg));generic_function_free(d[i]);d[i]=NULL;}
    /* kronh2: functions times functions */
    size_t nt=left?r*n*m:l*m*r;struct m1 t[216];GF*T[216];for(size_t i=0;i<nt;i++){t[i]=m1_rand(s);T[i]=m1_gf(t+i);}
    generic_function_kronh2(left,r,m,n,l,c,T,d);
    for(size_t i=0;i<nd;i++){double w=0,mg=0;
        if(left){size_t ii=i%r,kk=(i/r)%m,jj=i/(r*m);for(size_t p=0;p<n;p++){w+=m1_eval(f+jj*n+p,x)*m1_eval(t+ii+kk*r*n+p*r,x);mg+=m1_mag(f+jj*n+p,x)*m1_mag(t+ii+kk*r*n+p*r,x);}}
        else{size_t kk=i%m,jj=(i/m)%n,ii=i/(n*m);for(size_t p=0;p<l;p++){w+=m1_eval(f+jj+p*n,x)*m1_eval(t+kk+ii*l*m+p*m,x);mg+=m1_mag(f+jj+p*n,x)*m1_mag(t+kk+ii*l*m+p*m,x);}}
        CLOSE("kronh2",generic_function_1d_eval(d[i],x),w,1e-9*mg+1e-12);vh_obs(generic_function_1d_eval(d[i],x));generic_function_free(d[i]);}
    for(size_t i=0;i<nt;i++){generic_function_free(T[i]);m1_free(t+i);}
    for(size_t i=0;i<nc;i++){generic_function_free(c[i]);m1_free(f+i);}
    sp_free(s);
}
/* ------------------------------------------------------------------ P12 */
CASE(fn_integral,"P12 P05",60,1500,0){
    struct sp*s=sp_rand(ALLT);s=fourier_band(s);size_t n=vr_big(1,4,11);struct m1 f[11],h[11];GF*F[11],*H[11];
    for(size_t i=0;i<n;i++){f[i]=m1_rand(s);h[i]=m1_rand(s);F[i]=m1_gf(f+i);H[i]=m1_gf(h+i);}
    vh_sig("%s n%zu",tname[s->t],n);
    double L=s->t==T_HERM?1:s->ub-s->lb;double mf=0,mh=0;
    for(int k=0;k<=16;k++){double x=s->lb+L*k/16.0;mf=dmax(mf,m1_mag(f,x));mh=dmax(mh,m1_mag(h,x));}
    if(s->t==T_HERM){mf=mh=0;for(size_t i=0;i<f[0].n;i++)mf+=fabs(f[0].c[i]);for(size_t i=0;i<h[0].n;i++)mh+=fabs(h[0].c[i]);}
    CLOSE("integrate",generic_function_integrate(F[0]),m1_integral(f),1e-10*L*mf+1e-13);
    size_t ld=vr_int(1,2);GF*A[22];for(size_t i=0;i<n;i++){A[i*ld]=F[i];if(ld==2)A[i*2+1]=H[0];}
    double*ia=generic_function_integral_array(n,ld,A);for(size_t i=0;i<n;i++){double w=generic_function_integrate(F[i]);CLOSE("integral-array",ia[i],w,1e-12*(fabs(w)+L*(mf+mh)));};
    free(ia);
    double sc=1e-10*L*mf*mh+1e-13+(s->t==T_CHEB?1e-6*L:0);
    CLOSE("inner",generic_function_inner(F[0],H[0]),m1_inner(f,h),sc);
    CLOSE("inner-sym",generic_function_inner(H[0],F[0]),generic_function_inner(F[0],H[0]),sc);
    double nn=generic_function_norm(F[0]);
    CLOSE("norm",nn*nn,m1_inner(f,f),1e-10*L*mf*mf+1e-13+(s->t==T_CHEB?1e-6*L:0));
    TRUE_("cauchy-schwarz",fabs(generic_function_inner(F[0],H[0]))<=nn*generic_function_norm(H[0])+sc*10);
    double sum=0;for(size_t i=0;i<n;i++)sum+=generic_function_inner(F[i],H[i]);
    CLOSE("inner-sum",generic_function_inner_sum(n,ld,A,1,H),sum,1e-12*(fabs(sum)+1));
    {size_t lb=vr_int(1,3);GF*B[36];for(size_t i=0;i<36;i++)B[i]=F[vr_int(0,n-1)];for(size_t i=0;i<n;i++)B[i*lb]=H[i];
        CLOSE("inner-sum-strided",generic_function_inner_sum(n,ld,A,lb,B),sum,1e-12*(fabs(sum)+1));CLOSE("inner-sum-strided",generic_function_inner_sum(n,lb,B,ld,A),sum,1e-9*(fabs(sum)+1)+(s->t==T_CHEB?1e-6*L*(double)n:0));
        if(s->t==T_LEG||s->t==T_HERM){double ws=0;for(size_t i=0;i<n;i++)ws+=generic_function_inner_weighted(F[i],H[i]);
            CLOSE("inner-weighted-sum-strided",generic_function_inner_weighted_sum(n,ld,A,lb,B),ws,1e-12*(fabs(ws)+1));CLOSE("inner-weighted-sum-strided",generic_function_inner_weighted_sum(n,lb,B,ld,A),ws,1e-9*(fabs(ws)+1));}
        double dd=0;for(size_t i=0;i<n;i++)dd+=pow(generic_function_norm2diff(F[i],H[i]),2);
        CLOSE("array-norm2diff-strided",generic_function_array_norm2diff(n,A,ld,B,lb),sqrt(dd),1e-12*(sqrt(dd)+1e-3));}
    sum=0;for(size_t i=0;i<n;i++)sum+=pow(generic_function_norm(F[i]),2);
    CLOSE("array-norm",generic_function_array_norm(n,ld,A),sqrt(sum),1e-12*(sqrt(sum)+1e-3));
    {struct m1*a=f,*b=h;double w=m1_inner(a,a)-2*m1_inner(a,b)+m1_inner(b,b);
     double nd=generic_function_norm2diff(F[0],H[0]);
     if(s->t!=T_CHEB)CLOSE("norm2diff",nd*nd,w,1e-9*L*(mf+mh)*(mf+mh)+1e-13);
     double ww=0;for(size_t i=0;i<n;i++)ww+=pow(generic_function_norm2diff(F[i],H[i]),2);
     CLOSE("array-norm2diff",generic_function_array_norm2diff(n,A,ld,H,1),sqrt(ww),1e-12*(sqrt(ww)+1e-3));
     CLOSE("norm2diff-self",generic_function_norm2diff(F[0],F[0]),0,1e-7*(nn+1e-6));}
    if(s->t==T_LEG||s->t==T_CHEB||s->t==T_HERM){ /* weighted: probability weight of the basis */
        double iw=generic_function_integrate_weighted(F[0]);
        if(s->t!=T_CHEB)CLOSE("integrate-weighted",iw,f[0].c[0],1e-12*(fabs(f[0].c[0])+1e-6)*(1+0*L));
        double w=0;size_t m=f[0].n<h[0].n?f[0].n:h[0].n;for(size_t i=0;i<m;i++)w+=f[0].c[i]*h[0].c[i];
        if(s->t!=T_CHEB){CLOSE("inner-weighted",generic_function_inner_weighted(F[0],H[0]),w,1e-10*mf*mh+1e-13);
        CLOSE("inner-weighted-sum",generic_function_inner_weighted_sum(1,1,F,1,H),w,1e-10*mf*mh+1e-13);}
    }
    vh_obs(nn);
    for(size_t i=0;i<n;i++){generic_function_free(F[i]);generic_function_free(H[i]);m1_free(f+i);m1_free(h+i);}
    sp_free(s);
}
static double num_d(const struct m1*f,double x){return m1_deriv(f,x);}
CASE(fn_deriv,"P12 P09 P24",60,1500,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW));
    struct m1 f=m1_rand(s);GF*F=m1_gf(&f);vh_sig("%s n%zu",tname[s->t],f.n);
    double L=s->ub-s->lb,mg=0;for(int i=0;i<=8;i++)mg=dmax(mg,m1_mag(&f,s->lb+L*i/8.0));
    double k=s->t==T_KER?10/(s->width/L):s->t==T_LIN?0:(double)(f.n*f.n+1)*4;if(s->t==T_PW||s->t==T_LIN){double hm=L;for(size_t i=0;i+1<s->n;i++)hm=dmin(hm,s->x[i+1]-s->x[i]);k=4*(double)(f.n*f.n+1)*L/hm;}
    double sc=1e-10*mg*k/L+1e-12;
    for(int i=0;i<5;i++){
        double x=sp_x(s);
        if(s->t==T_LIN){ /* at a node the derivative has two one-sided values; anything between them is accepted */
            size_t j=0;while(j+2<s->n&&x>s->x[j+1])j++;
            double sl[3]={(f.c[j+1]-f.c[j])/(s->x[j+1]-s->x[j]),0,0};int nn=1;
            if(j>0&&fabs(x-s->x[j])<1e-12*L)sl[nn++]=(f.c[j]-f.c[j-1])/(s->x[j]-s->x[j-1]);
            if(j+2<s->n&&fabs(x-s->x[j+1])<1e-12*L)sl[nn++]=(f.c[j+2]-f.c[j+1])/(s->x[j+2]-s->x[j+1]);
            double lo=sl[0],hi=sl[0];for(int q=1;q<nn;q++){lo=dmin(lo,sl[q]);hi=dmax(hi,sl[q]);}
            double d=generic_function_deriv_eval(F,x);
            TRUE_("deriv-eval",d>=lo-sc&&d<=hi+sc);
        } else CLOSE("deriv-eval",generic_function_deriv_eval(F,x),num_d(&f,x),sc);
    }
    if(s->t!=T_KER&&s->t!=T_LIN){
        GF*D=generic_function_deriv(F),*DD=generic_function_dderiv(F);
        for(int i=0;i<5;i++){double x=sp_x(s);CLOSE("deriv",generic_function_1d_eval(D,x),num_d(&f,x),sc);
            /* second derivative: central difference of the exact first derivative, far from break points */
            double h=1e-5*L;if(s->t==T_PW){int bad=0;for(size_t j=0;j<s->n;j++)if(fabs(x-s->x[j])<3*h)bad=1;if(bad)continue;}
            double w=s->t==T_HERM||(x-h>s->lb&&x+h<s->ub)?(num_d(&f,x+h)-num_d(&f,x-h))/(2*h):NAN;
            if(isnan(w))continue;
            double k4=k*k*k/16;CLOSE("dderiv",generic_function_1d_eval(DD,x),w,(sc*1e3/h)*1e-2+mg*k4*k/L/L*1e-9+1e-9);
            if(s->t!=T_FOUR)CLOSE("dderiv-eval",generic_function_deriv_eval(D,x),generic_function_1d_eval(DD,x),sc*k/L*10+1e-10);
        }
        double one=1;check_comb("input-changed",F,1,&f,&one);
        vh_obs(generic_function_1d_eval(DD,0.5*(s->lb+s->ub)));
        generic_function_free(D);generic_function_free(DD);
    }
    generic_function_free(F);m1_free(&f);sp_free(s);
}
CASE(fn_deriv_nodal,"P12 P24",60,1500,0){ /* derivative functions of nodal classes */
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST));int uni=vr_chance(0.5);
    if(uni)for(size_t i=0;i<s->n;i++)s->x[i]=i+1==s->n?s->ub:s->lb+(s->ub-s->lb)*(double)i/(double)(s->n-1);
    double h=(s->ub-s->lb)/(double)(s->n-1),L=s->ub-s->lb;
    vh_sig("%s n%zu u%d",tname[s->t],s->n,uni);
    double a=vr_norm(),b=vr_norm(),q=vr_norm(),c3=vr_norm(),c4=vr_norm(),x0=vr_unif(s->lb,s->ub);
    struct m1 f=m1_rand(s);double hm=L;for(size_t i=0;i+1<s->n;i++)hm=dmin(hm,s->x[i+1]-s->x[i]);
    for(size_t i=0;i<s->n;i++)f.c[i]=a*s->x[i]+b;
    double mg=fabs(a)*dmax(fabs(s->lb),fabs(s->ub))+fabs(b);
    GF*F=m1_gf(&f),*D=generic_function_deriv(F);
    for(size_t i=0;i<s->n;i++)CLOSE("deriv-linear",generic_function_1d_eval_ind(D,i),a,1e-11*mg/hm*(1+(s->n>5?8:0))+1e-12);
    generic_function_free(D);generic_function_free(F);
    if(s->t==T_LIN&&uni){
        for(size_t i=0;i<s->n;i++){double y=(s->x[i]-x0)/L;f.c[i]=b+y*(a+y*(q+y*(c3+y*c4)));}
        F=m1_gf(&f);D=generic_function_deriv(F);
        double m2=fabs(a)+fabs(b)+fabs(q)+fabs(c3)+fabs(c4);
        for(size_t i=0;i<s->n;i++){double y=(s->x[i]-x0)/L,d=(a+y*(2*q+y*(3*c3+y*4*c4)))/L;
            int high=s->n>5&&i>=2&&i+2<s->n;
            /* order of accuracy: 4th-order formula is exact for quartics; central differences have error h^2/6 f'''; one-sided h/2 f'' */
            double err=high?0:(i==0||i+1==s->n)?0.5*h*(2*fabs(q)+6*fabs(c3)+12*fabs(c4))/L/L*1.01:h*h/6*(6*fabs(c3)+24*fabs(c4))/L/L/L*1.01;
            CLOSE(high?"deriv-order4":"deriv-order",generic_function_1d_eval_ind(D,i),d,err+1e-11*m2/h+1e-12);}
        GF*DD=generic_function_dderiv(F),*D2=generic_function_deriv(D);
        for(size_t i=0;i<s->n;i++)CLOSE("dderiv-is-deriv-twice",generic_function_1d_eval_ind(DD,i),generic_function_1d_eval_ind(D2,i),1e-12*m2/h/h);
        generic_function_free(DD);generic_function_free(D2);generic_function_free(D);generic_function_free(F);
    }
    if(s->t==T_LIN&&s->n>5){ /* the high-order formula has no cubic error on any grid */
        size_t c=vr_int(2,s->n-3);for(size_t i=0;i<s->n;i++){double y=(s->x[i]-s->x[c])/L;f.c[i]=b+y*(a+y*y*c3);}
        double rn=pow(s->x[c+2]-s->x[c],3)+pow(s->x[c]-s->x[c-2],3),rd=pow(s->x[c+1]-s->x[c],3)+pow(s->x[c]-s->x[c-1],3),den=rn/rd*(s->x[c+1]-s->x[c-1])-(s->x[c+2]-s->x[c-2]);
        F=m1_gf(&f);D=generic_function_deriv(F);CLOSE("deriv-cubic",generic_function_1d_eval_ind(D,c),a/L,1e-11*(fabs(a)+fabs(b)+fabs(c3))*(1+rn/rd)/fabs(den));generic_function_free(D);generic_function_free(F);
    }
    if(s->t==T_LIN&&s->n>2){ /* error estimate: element width squared over eight times the difference of neighbouring slopes over their distance */
        F=m1_gf(&f);double er[64],ref[64],tot=0,mx2=0;int dir=vr_chance(0.5)?1:-1,ty=vr_chance(0.5)?0:2;size_t ne=s->n-1;
        if(ne<=64){double v=lin_elem_exp_err_est(F->f,er,(short)dir,(short)ty);
            for(size_t k=0;k<ne;k++){size_t j=k==0?0:k==ne-1?ne-2:dir==1?k:k-1;double sl=(f.c[j+1]-f.c[j])/(s->x[j+1]-s->x[j]),sr=(f.c[j+2]-f.c[j+1])/(s->x[j+2]-s->x[j+1]),cu=(sr-sl)/(0.5*(s->x[j+2]-s->x[j])),w=s->x[k+1]-s->x[k];
                double sm=(fabs(f.c[j])+fabs(f.c[j+1])+fabs(f.c[j+2]))/hm/hm*w*w;ref[k]=w*w*fabs(cu)/8*(ty?sqrt(w):1);tot+=ref[k];mx2=dmax(mx2,ref[k]);CLOSE("err-est",er[k],ref[k],1e-12*sm+1e-13*fabs(s->ub)/hm*sm+1e-14);}
            double big=0;for(size_t k=0;k<ne;k++)big+=ty?er[k]:0,big=ty?big:dmax(big,er[k]);CLOSE("err-est-total",v,big,1e-12*(fabs(big)));}
        generic_function_free(F);
    }
    /* linearity and locality of the discrete derivative */
    struct m1 g=m1_rand(s);GF*G=m1_gf(&g);F=m1_gf(&f);GF*S=generic_function_daxpby(2.0,F,-3.0,G);
    GF*dF=generic_function_deriv(F),*dG=generic_function_deriv(G),*dS=generic_function_deriv(S);
    for(size_t i=0;i<s->n;i++)CLOSE("deriv-additive",generic_function_1d_eval_ind(dS,i),2*generic_function_1d_eval_ind(dF,i)-3*generic_function_1d_eval_ind(dG,i),1e-10*(mg+10)/hm*(1+magmax(&f)+magmax(&g)));
    /* difference quotient bounds: every derivative value lies within the range of slopes nearby (up to the amplification 4/3+1/3 of the high-order formula) */
    for(size_t i=0;i<s->n;i++){double mx=0;for(size_t j=(i>=2?i-2:0);j+1<s->n&&j<i+2;j++)mx=dmax(mx,fabs((g.c[j+1]-g.c[j])/(s->x[j+1]-s->x[j])));
        if(uni)TRUE_("deriv-range",fabs(generic_function_1d_eval_ind(dG,i))<=mx*5.0/3*1.0001+1e-12);}
    generic_function_free(G);generic_function_free(F);generic_function_free(S);generic_function_free(dF);generic_function_free(dG);generic_function_free(dS);
    m1_free(&f);m1_free(&g);sp_free(s);
}
CASE(fn_periodic,"P12 P24",40,900,0){ /* spectral second derivative of nodal functions on a uniform periodic grid */
    size_t n=vr_int(3,20);double h=vr_chance(0.5)?0.25:0.125,lb=vr_chance(0.5)?0:-2;double L=h*(double)n;
    struct sp*s=sp_make(T_LIN,lb,lb+h*(double)(n-1),n);for(size_t i=0;i<n;i++)s->x[i]=lb+h*(double)i;
    size_t K=(n-1)/2;double A[12]={0},B[12]={0};for(size_t k=0;k<=K&&k<12;k++){A[k]=vr_norm();B[k]=vr_norm();}
    struct m1 f=m1_rand(s);double mg=0;
    for(size_t i=0;i<n;i++){f.c[i]=0;for(size_t k=0;k<=K&&k<12;k++){double th=2*M_PI*(double)k*(s->x[i]-lb)/L;f.c[i]+=A[k]*cos(th)+B[k]*sin(th);}}
    for(size_t k=0;k<=K&&k<12;k++)mg+=(fabs(A[k])+fabs(B[k]))*pow(2*M_PI*(double)K/L,2);
    GF*F=m1_gf(&f);vh_sig("n%zu h%g",n,h);
    for(int rep=0;rep<2;rep++){
        GF*D=generic_function_dderiv_periodic(F);
        for(size_t i=0;i<n;i++){double w=0;for(size_t k=0;k<=K&&k<12;k++){double kk=2*M_PI*(double)k/L,th=kk*(s->x[i]-lb);w-=kk*kk*(A[k]*cos(th)+B[k]*sin(th));}
            CLOSE("periodic-dderiv",generic_function_1d_eval_ind(D,i),w*(rep?-2:1),1e-9*(mg+pow(M_PI/h,2)*1e-2));}
        generic_function_free(D);
        if(!rep){GF*C=generic_function_copy(F);generic_function_scale(-2,C);generic_function_free(F);F=C;}
    }
    /* operator is not carried over to another grid */
    struct sp*s2=sp_make(T_LIN,lb,lb+h*(double)(n-1),2*n-1);for(size_t i=0;i<2*n-1;i++)s2->x[i]=lb+0.5*h*(double)i;
    struct m1 g=m1_rand(s2);GF*G=m1_gf(&g);
    generic_function_axpy(1.0,G,F);GF*D=generic_function_dderiv_periodic(F);
    GF*Z=generic_function_create_nodal(F,2*n-1,s2->x),*DZ=generic_function_dderiv_periodic(Z);
    for(size_t i=0;i<2*n-1;i++)CLOSE("periodic-regrid",generic_function_1d_eval_ind(D,i),generic_function_1d_eval_ind(DZ,i),1e-8*(pow(2*M_PI/h,2)*(double)n));
    generic_function_free(D);generic_function_free(Z);generic_function_free(DZ);generic_function_free(G);generic_function_free(F);
    m1_free(&g);m1_free(&f);sp_free(s2);sp_free(s);
}
CASE(fn_linelm_misc,"P12 P11",40,900,0){ /* extrema, error indicator, list helpers of linear elements */
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST));struct m1 f=m1_rand(s);GF*F=m1_gf(&f);vh_sig("%s n%zu",tname[s->t],s->n);
    double mx=-INFINITY,mn=INFINITY;for(size_t i=0;i<s->n;i++){mx=dmax(mx,f.c[i]);mn=dmin(mn,f.c[i]);}
    double x;
    if(s->t==T_LIN){CLOSE("max",lin_elem_exp_max(F->f,&x),mx,0);CLOSE("max-x",lin_elem_exp_eval(F->f,x),mx,1e-13*fabs(mx));CLOSE("min",lin_elem_exp_min(F->f,&x),mn,0);CLOSE("min-x",lin_elem_exp_eval(F->f,x),mn,1e-13*fabs(mn));CLOSE("le-norm",lin_elem_exp_norm(F->f),generic_function_norm(F),1e-14*generic_function_norm(F));}
    else{CLOSE("max",const_elem_exp_max(F->f,&x),mx,0);CLOSE("max-x",const_elem_exp_eval(F->f,x),mx,0);CLOSE("min",const_elem_exp_min(F->f,&x),mn,0);CLOSE("min-x",const_elem_exp_eval(F->f,x),mn,0);CLOSE("ce-norm",const_elem_exp_norm(F->f),generic_function_norm(F),1e-14*generic_function_norm(F));}
    if(s->t==T_LIN&&s->n>2){
        /* quadratic: the curvature estimate is exact, so the sup-norm indicator is the interpolation error h^2/8 |f''| */
        double q=vr_norm();for(size_t i=0;i<s->n;i++){double y=s->x[i]-s->lb;f.c[i]=q*y*y;}
        GF*Q=m1_gf(&f);double*e=calloc(s->n,sizeof(double));short dir=(short)vr_int(0,1);
        double v=lin_elem_exp_err_est(Q->f,e,dir,0),w=0;
        for(size_t i=0;i+1<s->n;i++){double h=s->x[i+1]-s->x[i];CLOSE("err-est",e[i],h*h/8*2*fabs(q),1e-8*(fabs(q)*(s->ub-s->lb)*(s->ub-s->lb)));w=dmax(w,e[i]);}
        CLOSE("err-est-max",v,w,1e-13*w);
        v=lin_elem_exp_err_est(Q->f,e,dir,2);w=0;
        for(size_t i=0;i+1<s->n;i++){double h=s->x[i+1]-s->x[i];CLOSE("err-est2",e[i],h*h/8*2*fabs(q)*sqrt(h),1e-8*(fabs(q)*pow(s->ub-s->lb,2.5)));w+=e[i];}
        CLOSE("err-est2-sum",v,w,1e-12*w);
        free(e);generic_function_free(Q);
    }
    generic_function_free(F);m1_free(&f);sp_free(s);
}
/* ------------------------------------------------------------------ P13 */
struct fa { const struct m1*m; double lb,ub; size_t calls,out; int kind; double p,q; };
static double fval(struct fa*a,double x){
    switch(a->kind){case 0:return m1_eval(a->m,x);case 1:return sin(a->p*x+a->q);case 2:return exp(a->p*x)*0.3;case 3:return 1/(1+a->p*a->p*x*x)+a->q;default:return a->p*x+a->q;}
}
static int fvec(size_t n,const double*x,double*y,void*p){struct fa*a=p;for(size_t i=0;i<n;i++){a->calls++;double e=1e-12*(fabs(a->ub)+fabs(a->lb));if(!(x[i]>=a->lb-e&&x[i]<=a->ub+e))a->out++;y[i]=fval(a,x[i]);}return 0;}
static double fone(const double*x,void*p){double y;fvec(1,x,&y,p);return y;}
static struct Fwrap*mkwrap(struct fa*a){
    struct Fwrap*w;if(vr_chance(0.5)){w=fwrap_create(1,"general-vec");fwrap_set_fvec(w,fvec,a);}else{w=fwrap_create(1,"general");fwrap_set_f(w,fone,a);}return w;}
CASE(fn_approx,"P13 P06",60,1500,0){ /* members of the space are reproduced */
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB)|M(T_HERM));
    struct m1 f=m1_rand(s);struct fa a={&f,s->lb,s->ub,0,0,0,0,0};
    if(s->t==T_HERM){a.lb=-INFINITY;a.ub=INFINITY;}
    vh_sig("%s n%zu",tname[s->t],f.n);
    struct Fwrap*w=mkwrap(&a);GF*g=generic_function_approximate1d(s->o->fc,s->aopts,w);
    EQZ("approx-outside-domain",a.out,0);
    for(int k=0;k<6;k++){double x=sp_x(s);if(s->t==T_LIN&&k<3)x=s->x[vr_int(0,s->n-1)];
        CLOSE("approx-reproduces",generic_function_1d_eval(g,x),m1_eval(&f,x),1e-9*(m1_mag(&f,x)+magmax(&f))+1e-11);}
    vh_obs(generic_function_1d_eval(g,0.5*(s->lb+s->ub)));
    generic_function_free(g);fwrap_destroy(w);m1_free(&f);sp_free(s);
}
CASE(fn_approx_smooth,"P13 P06",40,900,0){ /* adaptive approximations of smooth functions meet their accuracy */
    int t=(int[]){T_LEG,T_CHEB,T_PW,T_LIN,T_FOUR}[vr_int(0,4)];double lb=vr_unif(-2,0),ub=lb+vr_unif(0.5,2.5);
    struct fa a={NULL,lb,ub,0,0,(int)vr_int(1,4),vr_unif(0.3,2.5),vr_unif(-1,1)};
    vh_sig("%s k%d",tname[t],a.kind);
    struct Fwrap*w=mkwrap(&a);GF*g=NULL;double tol=1e-7;
    if(t==T_LEG||t==T_CHEB){struct OpeOpts*o=ope_opts_alloc(t==T_LEG?LEGENDRE:CHEBYSHEV);ope_opts_set_lb(o,lb);ope_opts_set_ub(o,ub);ope_opts_set_start(o,vr_int(3,8));ope_opts_set_maxnum(o,vr_int(60,90));ope_opts_set_coeffs_check(o,vr_int(2,4));ope_opts_set_tol(o,1e-10);
        g=generic_function_approximate1d(POLYNOMIAL,o,w);ope_opts_free(o);}
    else if(t==T_PW){struct PwPolyOpts*o=pw_poly_opts_alloc(LEGENDRE,lb,ub);pw_poly_opts_set_maxorder(o,vr_int(6,9));pw_poly_opts_set_coeffs_check(o,2);pw_poly_opts_set_tol(o,1e-9);pw_poly_opts_set_minsize(o,1e-4);pw_poly_opts_set_nregions(o,vr_int(2,4));
        g=generic_function_approximate1d(PIECEWISE,o,w);pw_poly_opts_free(o);tol=1e-4;}
    else if(t==T_FOUR){ /* periodic function */
        size_t N=vr_chance(0.5)?17:33;a.kind=1;a.p=2*M_PI/(ub-lb)*(double)vr_int(0,(N-1)/2-1);
        struct OpeOpts*o=ope_opts_alloc(FOURIER);ope_opts_set_lb(o,lb);ope_opts_set_ub(o,ub);ope_opts_set_start(o,N);
        g=generic_function_approximate1d(POLYNOMIAL,o,w);ope_opts_free(o);}
    else { /* adaptive linear elements */
        double delta=pow(10,vr_unif(-4,-1)),hmin=(ub-lb)*pow(10,vr_unif(-3,-0.5));size_t n0=vr_chance(0.5)?0:vr_int(2,5);double*x0=NULL;
        if(n0){x0=malloc(n0*sizeof(double));vr_sorted(n0,lb,ub,x0,0.2);}
        struct LinElemExpAopts*o=lin_elem_exp_aopts_alloc_adapt(n0,x0,lb,ub,delta,hmin);
        g=generic_function_approximate1d(LINELM,o,w);const struct LinElemExp*l=g->f;
        TRUE_("adapt-ends",l->nodes[0]==lb&&l->nodes[l->num_nodes-1]==ub);
        for(size_t i=0;i<l->num_nodes;i++){if(i)TRUE_("adapt-sorted",l->nodes[i]>l->nodes[i-1]);CLOSE("adapt-nodal",l->coeff[i],fval(&a,l->nodes[i]),0);}
        for(size_t i=0;i<n0;i++){int hit=0;for(size_t j=0;j<l->num_nodes;j++)hit|=l->nodes[j]==x0[i];TRUE_("adapt-keeps-nodes",hit);}
        /* every pair of neighbouring cells is either at the resolution limit or its midpoint was predicted within delta by the parent cell */
        for(size_t i=0;i+1<l->num_nodes;i++){
            double h=l->nodes[i+1]-l->nodes[i];int ok=h<=hmin*1.000001;
            for(int side=0;side<2&&!ok;side++){ /* parent = this cell joined with its left or right neighbour of equal width */
                size_t p=side?i:i-1;if(!side&&i==0)continue;if(p+2>=l->num_nodes+0||p+2>l->num_nodes-1)continue;
                double h1=l->nodes[p+1]-l->nodes[p],h2=l->nodes[p+2]-l->nodes[p+1];if(fabs(h1-h2)>1e-9*h)continue;
                ok=fabs(0.5*(l->coeff[p]+l->coeff[p+2])-l->coeff[p+1])<delta*fabs(l->coeff[p+1])*(1+1e-9)+1e-15||0;}
            TRUE_("adapt-criterion",ok);}
        tol=INFINITY;lin_elem_exp_aopts_free(o);free(x0);
        /* a straight line needs no refinement and is exact */
        if(a.kind==4)for(int k=0;k<4;k++){double x=vr_unif(lb,ub);CLOSE("adapt-line",generic_function_1d_eval(g,x),fval(&a,x),1e-12*(fabs(a.p)+1));}
    }
    if(t==T_LIN&&fabs(fval(&a,0.5*(lb+ub)))<1e-9)tol=INFINITY;
    EQZ("approx-outside-domain",a.out,0);
    if(isfinite(tol))for(int k=0;k<8;k++){double x=vr_unif(lb,ub);CLOSE("approx-accuracy",generic_function_1d_eval(g,x),fval(&a,x),tol*(1+fabs(fval(&a,x))));}
    vh_obs(generic_function_1d_eval(g,0.5*(lb+ub)));
    generic_function_free(g);fwrap_destroy(w);
}
CASE(fn_construct,"P13 P28",60,1500,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_PW));enum function_class fc=s->o->fc;
    double a=vr_norm(),b=vr_norm(),L=s->ub-s->lb;double xm=dmax(fabs(s->lb),fabs(s->ub));
    vh_sig("%s n%zu",tname[s->t],s->n);
    GF*c=generic_function_constant(a,fc,s->aopts);for(int k=0;k<4;k++)CLOSE("constant",generic_function_1d_eval(c,sp_x(s)),a,1e-12*fabs(a));
    generic_function_free(c);
    c=generic_function_zero(fc,s->aopts,0);for(int k=0;k<3;k++)CLOSE("zero",generic_function_1d_eval(c,sp_x(s)),0,0);generic_function_free(c);
    if(s->t!=T_PW){c=generic_function_zero(fc,s->aopts,1);for(int k=0;k<3;k++)CLOSE("zero-full",generic_function_1d_eval(c,sp_x(s)),0,0);
        size_t np=0;if(s->t==T_LIN)np=lin_elem_exp_aopts_get_nparams(s->aopts);else if(s->t==T_CONST)np=const_elem_exp_aopts_get_nparams(s->aopts);else np=ope_opts_get_nparams(s->aopts);
        EQZ("zero-full-nparams",generic_function_get_num_params(c),np);generic_function_free(c);}
    if(s->t!=T_CONST){
        c=generic_function_linear(a,b,fc,s->aopts);
        for(int k=0;k<4;k++){double x=sp_x(s);CLOSE("linear",generic_function_1d_eval(c,x),a*x+b,1e-11*(fabs(a)*xm+fabs(b))+1e-13);}
        CLOSE("linear-slope",generic_function_deriv_eval(c,s->lb+0.37*L),a,1e-9*(fabs(a)+(fabs(a)*xm+fabs(b))/L*(s->t==T_LIN?20:1)));
        if(s->t==T_LEG||s->t==T_CHEB||s->t==T_HERM){double a2=vr_norm(),b2=vr_norm();
            int r=generic_function_linear_update(c,a2,b2);(void)r;
            for(int k=0;k<4;k++){double x=sp_x(s);CLOSE("linear-update",generic_function_1d_eval(c,x),a2*x+b2,1e-11*(fabs(a2)*xm+fabs(b2))+1e-13);}}
        generic_function_free(c);
    }
    if(s->t==T_LEG||s->t==T_CHEB||s->t==T_HERM||s->t==T_PW){
        double off=vr_unif(s->lb,s->ub);c=generic_function_quadratic(a,off,fc,s->aopts);
        for(int k=0;k<4;k++){double x=sp_x(s);CLOSE("quadratic",generic_function_1d_eval(c,x),a*(x-off)*(x-off),1e-10*fabs(a)*(xm+fabs(off)+1)*(xm+fabs(off)+1));}
        generic_function_free(c);
    }
    sp_free(s);
}
CASE(fn_orth,"P13 P10",40,900,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_HERM)|M(T_PW));
    if(s->t==T_KER){sp_free(s);s=sp_make(T_KER,0,1,vr_int(2,4));}
    size_t n=(s->t==T_LIN||s->t==T_CONST||s->t==T_KER)?vr_int(1,s->n):vr_big(1,7,14);
    if(s->t==T_KER&&s->width>0.35)s->width=0.35;
    if(s->t==T_KER){kernel_approx_opts_free(s->aopts);for(size_t i=0;i<s->n;i++)s->x[i]=(double)i/(double)(s->n-1);s->width=dmin(s->width,1.0/(double)s->n);s->aopts=kernel_approx_opts_gauss(s->n,s->x,s->scale,s->width);kernel_approx_opts_set_lb(s->aopts,s->lb);kernel_approx_opts_set_ub(s->aopts,s->ub);}
    vh_sig("%s n%zu",tname[s->t],n);
    GF*g[100];generic_function_array_orth(n,g,s->o->fc,s->aopts);
    for(size_t i=0;i<n;i++)for(size_t j=0;j<=i;j++)
        CLOSE("orthonormal",generic_function_inner(g[i],g[j]),i==j?1:0,s->t==T_KER?1e-6:1e-9);
    double x=sp_x(s);for(size_t i=0;i<n;i++)vh_obs(generic_function_1d_eval(g[i],x));
    for(size_t i=0;i<n;i++)generic_function_free(g[i]);
    sp_free(s);
}
CASE(fn_orth_adapt,"P13 P10",20,400,0){ /* adaptive element classes choose their own grid */
    int t=vr_chance(0.5)?T_LIN:T_CONST;double lb=vr_unif(-3,1),ub=lb+vr_unif(0.2,4);size_t n=vr_big(2,9,20);GF*g[20];void*o;
    vh_sig("%s n%zu",tname[t],n);
    o=t==T_LIN?(void*)lin_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,1e-3,1e-2):(void*)const_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,1e-3,1e-2);
    enum function_class fc=t==T_LIN?LINELM:CONSTELM;
    generic_function_array_orth(n,g,fc,o);
    for(size_t i=0;i<n;i++){for(size_t j=0;j<=i;j++)CLOSE("orthonormal",generic_function_inner(g[i],g[j]),i==j,1e-10);
        CLOSE("lb",generic_function_get_lb(g[i]),lb,0);CLOSE("ub",generic_function_get_ub(g[i]),ub,1e-14*fabs(ub));}
    for(size_t i=0;i<n;i++)generic_function_free(g[i]);
    CLOSE("opt-lb",t==T_LIN?lin_elem_exp_aopts_get_lb(o):const_elem_exp_aopts_get_lb(o),lb,0);
    CLOSE("opt-ub",t==T_LIN?lin_elem_exp_aopts_get_ub(o):const_elem_exp_aopts_get_ub(o),ub,0);
    if(t==T_LIN)lin_elem_exp_aopts_free(o);else const_elem_exp_aopts_free(o);
}
CASE(fn_onezero,"P13 P10",40,900,0){ /* functions that vanish at chosen points and are one at another */
    int t=vr_chance(0.5)?T_LIN:T_CONST;enum function_class fc=t==T_LIN?LINELM:CONSTELM;
    struct sp*s=sp_rand(M(t));int adapt=vr_chance(0.5);
    void*o=s->aopts,*oa=NULL;double lb=s->lb,ub=s->ub;
    if(adapt)o=oa=t==T_LIN?(void*)lin_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,1e-3,1e-2):(void*)const_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,1e-3,1e-2);
    size_t n=vr_big(1,4,10),um=vr_big(5,5,20);size_t upto=vr_int(0,n*(s->n-1)<um?n*(s->n-1):um);size_t piv[21];double px[21];
    size_t cnt[10]={0};size_t used=0;
    for(size_t k=0;k<upto;k++){ /* distinct zeros per function, fewer than the nodes */
        size_t i=vr_int(0,n-1);if(cnt[i]+1>=s->n)continue;
        double x=s->x[vr_int(0,s->n-1)];int dup=0;for(size_t j=0;j<used;j++)if(piv[j]==i&&px[j]==x)dup=1;
        if(dup)continue;piv[used]=i;px[used]=x;used++;cnt[i]++;}
    upto=used;vh_sig("%s a%d n%zu u%zu",tname[t],adapt,n,upto);
    size_t p0[21];double x0[21];memcpy(p0,piv,sizeof p0);memcpy(x0,px,sizeof x0);
    GF*L[10];generic_function_array_onezero(L,n,fc,upto,piv,px,o);
    for(size_t k=0;k<upto;k++){TRUE_("pivots-kept",piv[k]==p0[k]&&px[k]==x0[k]);CLOSE("zero-at",generic_function_1d_eval(L[piv[k]],px[k]),0,0);}
    TRUE_("pivot-in-range",piv[upto]<n&&px[upto]>=lb&&px[upto]<=ub);
    CLOSE("one-at",generic_function_1d_eval(L[piv[upto]],px[upto]),1,1e-12);
    for(size_t k=0;k<upto;k++)TRUE_("new-pivot",!(piv[k]==piv[upto]&&px[k]==px[upto]));
    for(size_t i=0;i<n;i++){CLOSE("dom",generic_function_get_lb(L[i]),lb,0);CLOSE("dom",generic_function_get_ub(L[i]),ub,0);
        for(int k=0;k<3;k++)TRUE_("bounded",fabs(generic_function_1d_eval(L[i],vr_unif(lb,ub)))<=1+1e-12);
        generic_function_free(L[i]);}
    { /* explicit variant */
        size_t nz=vr_big(0,4,12);double z[16],one;vr_sorted(nz+3,lb,ub,z,0.1);size_t w=vr_int(1,nz+1);one=z[w];double zs[14];size_t q=0;
        for(size_t i=1;i<nz+2;i++)if(i!=w)zs[q++]=z[i];
        GF*g=generic_function_onezero(fc,one,q,zs,lb,ub);
        CLOSE("onezero-one",generic_function_1d_eval(g,one),1,1e-13);for(size_t i=0;i<q;i++)CLOSE("onezero-zero",generic_function_1d_eval(g,zs[i]),0,0);
        CLOSE("onezero-lb",generic_function_1d_eval(g,lb),0,0);CLOSE("onezero-ub",generic_function_1d_eval(g,ub),0,0);
        generic_function_free(g);
    }
    if(oa){if(t==T_LIN)lin_elem_exp_aopts_free(oa);else const_elem_exp_aopts_free(oa);}
    sp_free(s);
}
/* ------------------------------------------------------------------ P14 */
CASE(fn_params,"P14 P16",60,1500,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM));int adaptc=0;
    if(s->t==T_KER&&vr_chance(0.4)){kernel_approx_opts_set_center_adapt(s->aopts,1);adaptc=1;}
    size_t np=adaptc?2*s->n:s->maxn;double*p=malloc(np*sizeof(double)),*q=malloc(np*sizeof(double));
    for(size_t i=0;i<np;i++)p[i]=i>=s->maxn?vr_unif(s->lb,s->ub):vr_norm();
    vh_sig("%s n%zu c%d",tname[s->t],np,adaptc);
    GF*g=generic_function_create_with_params(s->o->fc,s->aopts,np,p);
    EQZ("nparams",generic_function_get_num_params(g),np);
    EQZ("get-count",generic_function_get_params(g,q),np);SAMEBYTES("get",q,p,np*sizeof(double));
    for(size_t i=0;i<np;i++)p[i]=i>=s->maxn?vr_unif(s->lb,s->ub):vr_norm();
    TRUE_("update-status",generic_function_update_params(g,np,p)==0);
    generic_function_get_params(g,q);SAMEBYTES("update",q,p,np*sizeof(double));
    size_t nx=vr_big(1,4,15);double x[15];for(size_t i=0;i<nx;i++)x[i]=sp_x(s);
    if(s->t==T_CONST)for(size_t i=0;i<nx;i++)if(x[i]==s->lb||x[i]==s->ub)x[i]=s->lb+0.123*(s->ub-s->lb);
    double*G=malloc(nx*np*sizeof(double)),*G2=malloc(np*sizeof(double));for(size_t i=0;i<nx*np;i++)G[i]=7.7;
    generic_function_param_grad_eval(g,nx,x,G);
    for(size_t k=0;k<nx;k++){
        for(size_t i=0;i<np;i++)G2[i]=-3.3;
        double v=generic_function_param_grad_eval2(g,x[k],G2);double fx=generic_function_1d_eval(g,x[k]);
        double mag=0;for(size_t i=0;i<np;i++)mag+=fabs(p[i]*G2[i])+fabs(p[i]);
        CLOSE("grad-eval2-value",v,fx,1e-11*mag+1e-12);
        for(size_t i=0;i<np;i++){
            CLOSE("grad-two-ways",G[k*np+i],G2[i],1e-11*fabs(G2[i])+1e-12);
            double h=i>=s->maxn?1e-6*(s->ub-s->lb):1.0,fp,fm,o=p[i];
            p[i]=o+h;generic_function_update_params(g,np,p);fp=generic_function_1d_eval(g,x[k]);
            p[i]=o-h;generic_function_update_params(g,np,p);fm=generic_function_1d_eval(g,x[k]);p[i]=o;generic_function_update_params(g,np,p);
            double tol=i>=s->maxn?1e-5*fabs(p[i-s->maxn])*2/s->width+1e-7:1e-9*(mag+1)*(1+fabs(G2[i]));
            CLOSE("grad",G2[i],(fp-fm)/(2*h),tol);
        }
    }
    if(!adaptc){
        size_t nr=0;double*ref=generic_function_get_params_ref(g,&nr);EQZ("ref-count",nr,np);SAMEBYTES("ref",ref,p,np*sizeof(double));
        double old=generic_function_1d_eval(g,x[0]);size_t i=vr_int(0,np-1);generic_function_param_grad_eval2(g,x[0],G2);
        ref[i]+=1;CLOSE("ref-live",generic_function_1d_eval(g,x[0]),old+G2[i],1e-9*(fabs(old)+fabs(G2[i])+1));ref[i]-=1;
        if(s->t!=T_CONST){ /* gradient of the squared norm: quadratic form, so a central difference is exact */
            double sc=vr_norm();double*h=malloc(np*sizeof(double));for(size_t k=0;k<np;k++)h[k]=0.5*(double)k;
            generic_function_update_params(g,np,p);
            generic_function_squared_norm_param_grad(g,sc,h);
            for(size_t k=0;k<np;k++){double o=p[k],fp,fm;p[k]=o+1;generic_function_update_params(g,np,p);fp=generic_function_inner(g,g);p[k]=o-1;generic_function_update_params(g,np,p);fm=generic_function_inner(g,g);p[k]=o;generic_function_update_params(g,np,p);
                CLOSE("sqnorm-grad",h[k]-0.5*(double)k,sc*(fp-fm)/2,1e-9*(fabs(fp)+fabs(fm)+1)*fabs(sc)+(s->t==T_CHEB?1e-5:1e-11));}
            free(h);
        }
        if(s->t==T_LEG||s->t==T_HERM||s->t==T_CHEB){ /* inner product with every basis function */
            struct m1 b=m1_rand(s);GF*B=m1_gf(&b);double*iv=calloc(np>b.n?np:b.n,sizeof(double));
            size_t cnt=generic_function_param_grad_inner(g,B,iv);
            TRUE_("inner-grad-count",cnt<=np&&cnt>0);
            for(size_t k=0;k<cnt;k++){double o=p[k],fp,fm;p[k]=o+1;generic_function_update_params(g,np,p);fp=generic_function_inner(g,B);p[k]=o-1;generic_function_update_params(g,np,p);fm=generic_function_inner(g,B);p[k]=o;generic_function_update_params(g,np,p);
                CLOSE("inner-grad",iv[k],(fp-fm)/2,(s->t==T_CHEB?1e-6:1e-9)*(fabs(fp)+fabs(fm)+1));}
            free(iv);generic_function_free(B);m1_free(&b);
        }
        if(s->t==T_LEG||s->t==T_CHEB||s->t==T_HERM){ /* padding adds zero coefficients and changes nothing else */
            size_t more=np+vr_int(0,6);double v0=generic_function_1d_eval(g,x[0]);generic_function_pad_params(g,more);
            EQZ("pad-count",generic_function_get_num_params(g),more);double*big=calloc(more,sizeof(double));generic_function_get_params(g,big);
            SAMEBYTES("pad-keeps",big,p,np*sizeof(double));for(size_t k=np;k<more;k++)CLOSE("pad-zero",big[k],0,0);
            CLOSE("pad-value",generic_function_1d_eval(g,x[0]),v0,1e-11*(fabs(v0)+1)*(double)(more*more));free(big);
        }
    }
    vh_obs_arr(np,G2);
    free(G);free(G2);free(p);free(q);generic_function_free(g);sp_free(s);
}
/* 1-D regression objectives: gradient is the derivative of the value */
CASE(fn_regress_cost,"P16 P14",40,900,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM));
    if(s->t!=T_LIN&&s->t!=T_KER&&s->maxn<4){double a=s->lb,b=s->ub;int t=s->t;sp_free(s);s=sp_make(t,a,b,vr_int(4,7));}
    size_t np=s->maxn,N=vr_big(2,12,40);double*x=malloc(N*sizeof(double)),*y=malloc(N*sizeof(double)),*p=vh_dvec(np),*g=calloc(np,sizeof(double));
    for(size_t i=0;i<N;i++){x[i]=sp_x(s);y[i]=vr_norm();}
    int kind=(int)vr_int(0,3);if(kind==2&&s->t==T_KER)kind=1;if(kind==3&&(s->t==T_LIN||s->t==T_KER))kind=1;
    enum regress_type rt[4]={LS,RLS2,RLSD2,RLSRKHS};double lam=pow(10,vr_unif(-3,1));
    struct Regress1DOpts*o=regress_1d_opts_create(PARAMETRIC,rt[kind],N,x,y);regress_1d_opts_set_parametric_form(o,s->o->fc,s->aopts);regress_1d_opts_set_initial_parameters(o,p);
    regress_1d_opts_set_regularization_penalty(o,lam);int dec=0;
    if(kind==3){dec=vr_chance(0.5);regress_1d_opts_set_RKHS_decay_rate(o,dec?ALGEBRAIC:EXPONENTIAL,dec?vr_unif(0.1,0.95):vr_unif(0.2,2));}
    vh_sig("%s k%d d%d n%zu",tname[s->t],kind,dec,np);
    double(*cost[4])(size_t,const double*,double*,void*)={param_LSregress_cost,param_RLS2regress_cost,param_RLSD2regress_cost,param_RLSRKHSregress_cost};
    double v=cost[kind](np,p,g,o);
    struct m1 m={s,np,p,NULL};double ls=0;for(size_t i=0;i<N;i++){double r=y[i]-m1_eval(&m,x[i]);ls+=0.5*r*r;}
    if(kind==0)CLOSE("ls-value",v,ls,1e-9*(ls+1));
    else TRUE_("penalty-adds",v>=ls-1e-9*(ls+1)-(s->t==T_CHEB?1e-5*lam:0));
    if(kind==1&&s->t!=T_CHEB)CLOSE("rls2-value",v,ls+0.5*lam*m1_inner(&m,&m),1e-8*(fabs(v)+1));
    if(kind==2&&s->t!=T_CHEB){struct m1 mm={s,np,p,NULL};struct GenericFunction*g0=m1_gf(&mm),*g1=generic_function_deriv(g0),*g2=generic_function_deriv(g1);double w=ls+0.5*lam*generic_function_inner(g2,g2);CLOSE("rlsd2-value",v,w,1e-8*(fabs(w)+1));generic_function_free(g0);generic_function_free(g1);generic_function_free(g2);}
    CLOSE("value-without-gradient",cost[kind](np,p,NULL,o),v,1e-12*(fabs(v)+1));
    for(size_t k=0;k<np;k++){double old=p[k];p[k]=old+1;double a=cost[kind](np,p,NULL,o);p[k]=old-1;double b=cost[kind](np,p,NULL,o);p[k]=old;
        CLOSE("cost-gradient",g[k],(a-b)/2,1e-8*(fabs(a)+fabs(b)+1)+(s->t==T_CHEB&&kind?1e-5*lam:0));}
    vh_obs(v);vh_obs_arr(np,g);
    regress_1d_opts_destroy(o);free(x);free(y);free(p);free(g);sp_free(s);
}
/* ------------------------------------------------------------------ P27 */
/* value attained at x; a piecewise polynomial may attain it on either side of a break */
static double near_abs(const GF*g,double x,const struct sp*s,double v){
    double b=fabs(generic_function_1d_eval(g,x));if(s->t!=T_PW)return b;
    double h=1e-12*(s->ub-s->lb);for(int k=0;k<2;k++){double y=k?dmin(x+h,s->ub):dmax(x-h,s->lb),c=fabs(generic_function_1d_eval(g,y));if(fabs(c-v)<fabs(b-v))b=c;}
    return b;
}
CASE(fn_absmax,"P27 P10 P06",60,1500,0){
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_PW)|M(T_HERM));size_t n=vr_big(1,4,11);struct m1 f[11];GF*g[11];
    for(size_t i=0;i<n;i++){f[i]=m1_rand(s);g[i]=m1_gf(f+i);}
    int usenodes=s->t==T_KER||s->t==T_HERM||((s->t==T_LIN||s->t==T_CONST||s->t==T_LEG||s->t==T_CHEB||s->t==T_PW)&&vr_chance(0.4));
    double nodes[30];size_t nn=vr_big(1,12,30);for(size_t i=0;i<nn;i++)nodes[i]=sp_x(s);
    struct c3Vector*cv=usenodes?c3vector_alloc(nn,nodes):NULL;
    vh_sig("%s n%zu o%d",tname[s->t],n,usenodes);
    double best=-1;size_t bi=0;
    for(size_t i=0;i<n;i++){
        double x=NAN,v=generic_function_absmax(g[i],&x,cv),m=0;
        TRUE_("in-domain",s->t==T_HERM||x>=s->lb-1e-12*(s->ub-s->lb)&&x<=s->ub+1e-12*(s->ub-s->lb));
        CLOSE("attained",v,near_abs(g[i],x,s,v),1e-9*(fabs(v)+1e-6));
        if(cv){int hm=s->t==T_HERM; /* Hermite: largest under the weight of the basis */
            for(size_t k=0;k<nn;k++)m=dmax(m,fabs(m1_eval(f+i,nodes[k]))*(hm?exp(-nodes[k]*nodes[k]/2):1));CLOSE("max-over-nodes",v*(hm?exp(-x*x/2):1),m,1e-10*(m+1e-3)*(s->t==T_CHEB||s->t==T_LEG?10:1));
            int hit=0;for(size_t k=0;k<nn;k++)hit|=x==nodes[k];TRUE_("is-a-node",hit);}
        else {size_t N=400;for(size_t k=0;k<=N;k++){double xx=s->lb+(s->ub-s->lb)*(double)k/(double)N;if(k==N)xx=s->ub;m=dmax(m,fabs(m1_eval(f+i,xx)));}
            if(s->t==T_LIN||s->t==T_CONST){m=0;for(size_t k=0;k<s->n;k++)m=dmax(m,fabs(f[i].c[k]));CLOSE("max",v,m,0);}
            else TRUE_("max",v>=m*(1-1e-6)-1e-9);}
        if(v>best){best=v;bi=i;}
    }
    size_t ind=99;double x=NAN;size_t ld=vr_int(1,2);GF*A[22];for(size_t i=0;i<n;i++){A[i*ld]=g[i];if(ld==2)A[2*i+1]=NULL;}
    double v=generic_function_array_absmax(n,ld,A,&ind,&x,cv);CLOSE("array-absmax",v,best,1e-12*best);TRUE_("array-ind",ind<n);
    if(ind<n)CLOSE("array-attained",near_abs(A[ind*ld],x,s,v),v,1e-9*(v+1e-6));
    struct Pivot*pv=pivot_create(1,sizeof(double));
    v=generic_function_array_absmax_piv(n,ld,A,pv,cv);CLOSE("piv-absmax",v,best,1e-12*best);
    TRUE_("piv-ind",pivot_get_ind(pv)<n);
    if(ld==1&&s->t!=T_PW)CLOSE("piv-eval",fabs(generic_function_1darray_eval_piv(A,pv)),v,1e-9*(v+1e-6));
    (void)bi;vh_obs(v);
    pivot_free(pv);if(cv)c3vector_free(cv);
    for(size_t i=0;i<n;i++){generic_function_free(g[i]);m1_free(f+i);}
    sp_free(s);
}
CASE(fn_eval_many,"P11 P25",6,60,0){ /* cores of large rank: very many functions at once */
    struct sp*s=sp_rand(ALLT);size_t k=vr_int(1,5),n=vr_int(995,1100);struct m1 f[5];GF*g[5],**G=malloc(n*sizeof(GF*));
    for(size_t i=0;i<k;i++){f[i]=m1_rand(s);g[i]=m1_gf(f+i);}
    for(size_t i=0;i<n;i++)G[i]=g[i%k];
    vh_sig("%s %d",tname[s->t],n>1000);
    double x[2]={sp_x(s),sp_x(s)},*o=malloc(n*sizeof(double)),*O=malloc(2*n*sizeof(double)),*o2=generic_function_1darray_eval(n,G,x[1]);
    generic_function_1darray_eval2(n,G,x[0],o);generic_function_1darray_eval2N(n,G,2,x,1,O,n);
    for(size_t i=0;i<n;i++){double w=m1_eval(f+i%k,x[0]),t=TOL(m1_mag(f+i%k,x[0])),w1=m1_eval(f+i%k,x[1]),t1=TOL(m1_mag(f+i%k,x[1]));
        CLOSE("many",o[i],w,t);CLOSE("manyN",O[i],w,t);CLOSE("manyN",O[n+i],w1,t1);CLOSE("many1",o2[i],w1,t1);}
    free(o);free(o2);free(O);free(G);for(size_t i=0;i<k;i++){generic_function_free(g[i]);m1_free(f+i);}sp_free(s);
}
CASE(fn_domains,"P11 P12 P05",60,1500,0){ /* functions living on different, overlapping intervals */
    int t=vr_chance(0.6)?T_LIN:vr_chance(0.5)?T_KER:T_CONST;double lb=vr_unif(-2,1),L=vr_unif(0.5,3);
    double lb2=lb+vr_unif(-0.45,0.45)*L,ub=lb+L,ub2=lb2+L*vr_unif(0.8,1.5);if(vr_chance(0.2))lb2=lb;if(vr_chance(0.2))ub2=ub;
    struct sp*s=sp_make(t,lb,ub,vr_int(5,14)),*q=sp_make(t,lb2,ub2,vr_int(5,14));
    struct m1 f=m1_rand(s),g=m1_rand(q);GF*F=m1_gf(&f),*G=m1_gf(&g);double il=dmax(lb,lb2),iu=dmin(ub,ub2);
    double mf=magmax(&f),mg=magmax(&g),a=vr_coef();vh_sig("%s %zu %zu %d%d",tname[t],s->n,q->n,lb2<lb,ub2>ub);
    double in=0;size_t ino=0;for(size_t i=0;i<s->n;i++)ino+=s->x[i]>il&&s->x[i]<iu;for(size_t i=0;i<q->n;i++)ino+=q->x[i]>il&&q->x[i]<iu;
    if(t==T_KER){double*w,*x=gl_nodes(60,&w);for(int p=0;p<8;p++)for(size_t i=0;i<60;i++){double h=(iu-il)/8,xx=il+h*((double)p+0.5*(x[i]+1));in+=0.5*h*w[i]*m1_eval(&f,xx)*m1_eval(&g,xx);}free(x);free(w);
        double sc=mf*mg*(iu-il);CLOSE("inner-intersection",generic_function_inner(F,G),in,1e-8*sc+1e-13);CLOSE("inner-intersection",generic_function_inner(G,F),in,1e-8*sc+1e-13);}
    else if(ino>=4){double v=generic_function_inner(F,G),w=generic_function_inner(G,F);CLOSE("inner-symmetric",v,w,1e-10*mf*mg*L);
        GF*H=generic_function_copy(F);generic_function_scale(a,H);CLOSE("inner-bilinear",generic_function_inner(H,G),a*v,1e-10*fabs(a)*mf*mg*L);generic_function_free(H);
        if(t==T_CONST){GF*R=generic_function_copy(G);generic_function_axpy(a,F,R);const struct ConstElemExp*ce=R->f;
            for(size_t i=0;i<ce->num_nodes;i++){double x=ce->nodes[i];if(i)TRUE_("grid-sorted",x>ce->nodes[i-1]);
                int tie=0;for(size_t k=0;k+1<s->n;k++)tie|=fabs(x-0.5*(s->x[k]+s->x[k+1]))<1e-12;for(size_t k=0;k+1<q->n;k++)tie|=fabs(x-0.5*(q->x[k]+q->x[k+1]))<1e-12;
                if(!tie)CLOSE("axpy-domains",ce->coeff[i],(x<lb||x>ub?0:a*m1_eval(&f,x))+(x<lb2||x>ub2?0:m1_eval(&g,x)),1e-10*(fabs(a)*mf+mg));}
            CLOSE("axpy-span",ce->nodes[0],dmin(lb,lb2),1e-14*(1+fabs(lb)));CLOSE("axpy-span",ce->nodes[ce->num_nodes-1],dmax(ub,ub2),1e-14*(1+fabs(ub)));
            generic_function_free(R);}
        if(t==T_LIN){ /* trapezoid on the merged nodes, each function zero outside its interval */
            GF*R=generic_function_copy(G);generic_function_axpy(a,F,R);const struct LinElemExp*le=R->f;
            for(size_t i=0;i<le->num_nodes;i++){double x=le->nodes[i];if(i)TRUE_("grid-sorted",x>le->nodes[i-1]);
                CLOSE("axpy-domains",le->coeff[i],a*m1_eval(&f,x)+m1_eval(&g,x),1e-10*(fabs(a)*mf+mg));}
            CLOSE("axpy-span",le->nodes[0],dmin(lb,lb2),1e-14*(1+fabs(lb)));CLOSE("axpy-span",le->nodes[le->num_nodes-1],dmax(ub,ub2),1e-14*(1+fabs(ub)));
            generic_function_free(R);
            GF*P=generic_function_prod(F,G);const struct LinElemExp*lp=P->f;
            CLOSE("prod-span",lp->nodes[0],il,1e-13*(1+fabs(il)));CLOSE("prod-span",lp->nodes[lp->num_nodes-1],iu,1e-13*(1+fabs(iu)));
            for(size_t i=0;i<lp->num_nodes;i++){double x=lp->nodes[i];CLOSE("prod-domains",lp->coeff[i],m1_eval(&f,x)*m1_eval(&g,x),1e-10*mf*mg);}
            generic_function_free(P);}
    }
    generic_function_free(F);generic_function_free(G);m1_free(&f);m1_free(&g);sp_free(s);sp_free(q);
}
