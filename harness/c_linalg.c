/* Dense linear algebra, quadrature and FFT monitors. */
#include "model.h"
#include "quadrature.h"
#include "legquadrules.h"
#include "fft.h"
extern void svd(size_t,size_t,size_t,double*,double*,double*,double*);

/* ---------- helpers: column-major matrices ---------- */
static double*cp(const double*a,size_t n){double*b=malloc(n*8+8);memcpy(b,a,n*8);return b;}
static void mm(const double*A,size_t m,size_t k,const double*B,size_t n,double*C){ /* C = A B */
    for(size_t j=0;j<n;j++)for(size_t i=0;i<m;i++){double s=0;for(size_t p=0;p<k;p++)s+=A[i+p*m]*B[p+j*k];C[i+j*m]=s;}}
static double fro(const double*a,size_t n){double s=0;for(size_t i=0;i<n;i++)s+=a[i]*a[i];return sqrt(s);}
static double maxd(const double*a,const double*b,size_t n){double m=0;for(size_t i=0;i<n;i++){double d=fabs(a[i]-b[i]);if(!(d<=m))m=d;}return m;}
/* max |Q'Q - I| over the columns */
static double orth_cols(const double*Q,size_t m,size_t n){double w=0;for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++){double s=0;for(size_t p=0;p<m;p++)s+=Q[p+i*m]*Q[p+j*m];double d=fabs(s-(i==j));if(!(d<=w))w=d;}return w;}
static double orth_rows(const double*Q,size_t m,size_t n){double w=0;for(size_t i=0;i<m;i++)for(size_t j=0;j<m;j++){double s=0;for(size_t p=0;p<n;p++)s+=Q[i+p*m]*Q[j+p*m];double d=fabs(s-(i==j));if(!(d<=w))w=d;}return w;}
/* random matrix of a given kind: full rank, low rank, graded, with zero columns, tiny/huge */
static double*rmat(size_t m,size_t n,int kind){
    double*A=vh_dvec(m*n+1);
    if(kind==1){size_t r=vr_int(1,(m<n?m:n));double*U=vh_dvec(m*r),*V=vh_dvec(r*n);mm(U,m,r,V,n,A);free(U);free(V);}
    if(kind==2)for(size_t j=0;j<n;j++){double s=pow(10,-3.0*(double)j/ (double)(n));for(size_t i=0;i<m;i++)A[i+j*m]*=s;}
    if(kind==3){size_t j=vr_int(0,n-1);for(size_t i=0;i<m;i++)A[i+j*m]=0;}
    if(kind==4)for(size_t i=0;i<m*n;i++)A[i]*=1e-100;
    if(kind==5)for(size_t i=0;i<m*n;i++)A[i]*=1e+100;
    if(kind==6)for(size_t i=0;i<m*n;i++)A[i]=0;
    if(kind==7)for(size_t i=0;i<m*n;i++)A[i]=rint(A[i]);
    return A;}
/* the same matrix inside a taller array, and back; the rows below must not be touched */
static double*pad(const double*A,size_t m,size_t n,size_t ld){double*P=malloc(8*ld*n+8);for(size_t j=0;j<n;j++)for(size_t i=0;i<ld;i++)P[i+j*ld]=i<m?A[i+j*m]:-7.25;return P;}
static double*unpad(const char*key,double*P,size_t m,size_t n,size_t ld){double*A=malloc(8*m*n+8);int ok=1;for(size_t j=0;j<n;j++)for(size_t i=0;i<ld;i++){if(i<m)A[i+j*m]=P[i+j*ld];else ok&=P[i+j*ld]==-7.25;}vh_true_(key,__FILE__,__LINE__,ok,"rows outside the matrix unchanged");free(P);return A;}
static size_t rld(size_t m){return vr_chance(0.4)?m+vr_int(1,3):m;}
static size_t rsz(size_t hi){return vr_chance(0.08)?vr_int(1,3*hi):vr_int(1,hi);}

CASE(la_qr,"P17 P20",600,8000,0){
    size_t n=rsz(8),m=n+vr_int(0,8);int kind=(int)vr_int(0,7);if(kind==6)kind=0;
    double*A=rmat(m,n,kind);vh_sig("m%zu n%zu k%d",m,n,kind);
    size_t ld=rld(m);double*Q=pad(A,m,n,ld);int info=qr(m,n,Q,ld);Q=unpad("qr-gap",Q,m,n,ld);
    TRUE_("qr-info",info==0);TRUE_("qr-orthonormal",orth_cols(Q,m,n)<1e-12*(double)(m+2));
    /* span: A - Q Q' A = 0 */
    double*C=malloc(8*n*n),*QA=malloc(8*m*n);for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++){double s=0;for(size_t p=0;p<m;p++)s+=Q[p+i*m]*A[p+j*m];C[i+j*n]=s;}
    mm(Q,m,n,C,n,QA);TRUE_("qr-span",maxd(QA,A,m*n)<=1e-12*(double)(m+2)*fro(A,m*n));
    /* R upper triangular: Q_i . A_j = 0 for i > j */
    double w=0;for(size_t j=0;j<n;j++)for(size_t i=j+1;i<n;i++)w=dmax(w,fabs(C[i+j*n]));
    TRUE_("qr-triangular",w<=1e-12*(double)(m+2)*fro(A,m*n));
    vh_obs_arr(m*n,Q);free(C);free(QA);free(Q);free(A);
}
CASE(la_rq,"P17",500,8000,0){
    size_t m=rsz(7),n=m+vr_int(0,8),bm=vr_int(1,6);int kind=(int)vr_int(0,7);
    double*A=rmat(m,n,kind),*B=vh_dvec(bm*m),*Q;size_t ld=rld(m),ldb=rld(bm);Q=pad(A,m,n,ld);double*BR=pad(B,bm,m,ldb);
    vh_sig("m%zu n%zu b%zu k%d",m,n,bm,kind);
    rq_with_rmult(m,n,Q,ld,bm,m,BR,ldb);Q=unpad("rq-gap",Q,m,n,ld);BR=unpad("rq-gap",BR,bm,m,ldb);
    TRUE_("rq-orthonormal",orth_rows(Q,m,n)<1e-12*(double)(n+2));
    double*X=malloc(8*bm*n),*Y=malloc(8*bm*n);mm(B,bm,m,A,n,X);mm(BR,bm,m,Q,n,Y); /* B A = (B R) Q */
    TRUE_("rq-product",maxd(X,Y,bm*n)<=1e-12*(double)(n+2)*fro(A,m*n)*(1+fro(B,bm*m)));
    vh_obs_arr(bm*m,BR);free(X);free(Y);free(A);free(B);free(Q);free(BR);
}
CASE(la_svd,"P17 P04 P20",500,8000,0){
    size_t m=rsz(8),n=rsz(8),k=m<n?m:n;int kind=(int)vr_int(0,7);
    size_t ld=rld(m);double*A=rmat(m,n,kind),*W=pad(A,m,n,ld),*U=calloc(m*m,8),*S=calloc(k,8),*Vt=calloc(n*n,8);double nA=fro(A,m*n);
    vh_sig("m%zu n%zu k%d",m,n,kind);
    svd(m,n,ld,W,U,S,Vt);W=unpad("svd-gap",W,m,n,ld);
    TRUE_("svd-U",orth_cols(U,m,m)<1e-12*(double)(m+2));TRUE_("svd-V",orth_rows(Vt,n,n)<1e-12*(double)(n+2));
    for(size_t i=0;i<k;i++){TRUE_("svd-order",S[i]>=0&&(i==0||S[i]<=S[i-1]));}
    double e=0;for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){double s=0;for(size_t p=0;p<k;p++)s+=U[i+p*m]*S[p]*Vt[p+j*n];double d=fabs(s-A[i+j*m]);if(!(d<=e))e=d;}
    TRUE_("svd-product",e<=1e-12*(double)(m+n)*nA);
    /* truncated version: keeps exactly what the threshold asks for */
    double tot=0;for(size_t i=0;i<k;i++)tot+=S[i]*S[i];
    double delta=vr_chance(0.15)?0:tot*pow(10,-vr_unif(-0.5,18));if(vr_chance(0.3)&&k>1){size_t c=vr_int(1,k-1);double t=0;for(size_t i=c;i<k;i++)t+=S[i]*S[i];delta=t*(vr_chance(0.5)?1.0001:0.9999);}
    size_t ld2=rld(m);double*W2=pad(A,m,n,ld2),*u,*s,*vt;size_t r=truncated_svd(m,n,ld2,W2,&u,&s,&vt,delta);
    TRUE_("tsvd-rank-range",r>=1&&r<=k);
    double t=0,tm=0;for(size_t i=r;i<k;i++)t+=S[i]*S[i];tm=t+S[r-1]*S[r-1];
    TRUE_("tsvd-discarded",t<=delta*(1+1e-9)+1e-26*tot);
    if(r>1)TRUE_("tsvd-minimal",tm>=delta*(1-1e-9)-1e-26*tot);
    for(size_t i=0;i<r;i++)CLOSE("tsvd-values",s[i],S[i],1e-12*(nA+1e-300));
    TRUE_("tsvd-U",orth_cols(u,m,r)<1e-12*(double)(m+2));TRUE_("tsvd-V",orth_rows(vt,r,n)<1e-12*(double)(n+2));
    double er=0;for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){double q=0;for(size_t p=0;p<r;p++)q+=u[i+p*m]*s[p]*vt[p+j*r];q-=A[i+j*m];er+=q*q;}
    TRUE_("tsvd-error",sqrt(er)<=sqrt(t)*(1+1e-8)+1e-12*(double)(m+n)*nA);
    vh_sig("r%zu",r);vh_obs_arr(r,s);vh_obs_arr(m*r,u);
    free(u);free(s);free(vt);free(W2);free(A);free(W);free(U);free(S);free(Vt);
}
CASE(la_pinv,"P17",400,6000,0){
    size_t m=rsz(7),n=rsz(7),k=m<n?m:n;int lowrank=vr_chance(0.5);size_t r=k;
    double*A;
    if(lowrank){r=vr_int(1,k);double*U=rmat(m,m,0),*V=rmat(n,n,0);qr(m,m,U,m);qr(n,n,V,n);A=calloc(m*n,8);
        for(size_t p=0;p<r;p++){double s=vr_unif(0.5,3);for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++)A[i+j*m]+=s*U[i+p*m]*V[j+p*n];}free(U);free(V);}
    else{A=rmat(m,n,0);for(size_t i=0;i<k;i++)A[i+i*m]+=5;}
    vh_sig("m%zu n%zu r%zu",m,n,r);
    size_t ld=rld(m);double*W=pad(A,m,n,ld),*P=calloc(m*n,8);size_t got=pinv(m,n,ld,W,P,1e-8);
    EQZ("pinv-rank",got,r);
    double*AP=malloc(8*m*m),*PA=malloc(8*n*n),*T=malloc(8*m*n);double nA=fro(A,m*n),nP=fro(P,m*n),c=nA*nP;
    mm(A,m,n,P,m,AP);mm(P,n,m,A,n,PA);
    mm(AP,m,m,A,n,T);TRUE_("pinv-APA",maxd(T,A,m*n)<=1e-12*c*c);
    mm(PA,n,n,P,m,T);TRUE_("pinv-PAP",maxd(T,P,m*n)<=1e-12*c*c*nP);
    double e=0;for(size_t i=0;i<m;i++)for(size_t j=0;j<m;j++)e=dmax(e,fabs(AP[i+j*m]-AP[j+i*m]));for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++)e=dmax(e,fabs(PA[i+j*n]-PA[j+i*n]));
    TRUE_("pinv-symmetric",e<=1e-12*c*c);
    vh_obs_arr(m*n,P);free(AP);free(PA);free(T);free(A);free(W);free(P);
}
CASE(la_kron,"P17",400,6000,0){
    size_t an=rsz(5),am=rsz(5),bn=rsz(5),bm=rsz(5);vh_sig("%zux%zu %zux%zu",an,am,bn,bm);
    struct mat a={an,am,vh_dvec(an*am)},b={bn,bm,vh_dvec(bn*bm)};
    struct mat*k=kron(&a,&b);EQZ("kron-shape",k->nrows,an*bn);EQZ("kron-shape",k->ncols,am*bm);
    for(size_t i=0;i<an;i++)for(size_t j=0;j<am;j++)for(size_t p=0;p<bn;p++)for(size_t q=0;q<bm;q++)
        CLOSE("kron",k->vals[(i*bn+p)*(am*bm)+j*bm+q],a.vals[i*am+j]*b.vals[p*bm+q],1e-14*fabs(a.vals[i*am+j]*b.vals[p*bm+q]));
    /* column-major version with leading dimensions */
    size_t la=an+vr_int(0,2),lb=bn+vr_int(0,2),lc=an*bn+vr_int(0,2);
    double*A=vh_dvec(la*am),*B=vh_dvec(lb*bm),*C=vh_dvec(lc*am*bm),*C0=cp(C,lc*am*bm);
    kron_col((int)an,(int)am,A,(int)la,(int)bn,(int)bm,B,(int)lb,C,(int)lc);
    for(size_t col=0;col<am*bm;col++)for(size_t row=0;row<lc;row++){double w=row<an*bn?A[(col/bm)*la+row/bn]*B[(col%bm)*lb+row%bn]:C0[col*lc+row];CLOSE("kron_col",C[col*lc+row],w,row<an*bn?1e-14*fabs(w):0);}
    /* v' (A kron B) */
    double*v=vh_dvec(an*bn),*o=vh_dvec(am*bm),*o0=cp(o,am*bm);double sc=vr_chance(0.3)?0:vr_norm();
    vec_kron(an,am,A,la,bn,bm,B,lb,v,sc,o);
    for(size_t j=0;j<am;j++)for(size_t q=0;q<bm;q++){double s=sc*o0[j*bm+q],mg=fabs(s);for(size_t i=0;i<an;i++)for(size_t p=0;p<bn;p++){double t=v[i*bn+p]*A[j*la+i]*B[q*lb+p];s+=t;mg+=fabs(t);}
        CLOSE("vec_kron",o[j*bm+q],s,1e-12*mg);}
    vh_obs_arr(am*bm,o);
    /* block diagonal, concatenation */
    const struct mat*ms[8]={&a,&b,&a,&a,&b,&b,&a,&b};size_t nm=vr_big(1,3,8);struct mat*bd=block_diag(ms,nm);size_t R=0,Cc=0;for(size_t i=0;i<nm;i++){R+=ms[i]->nrows;Cc+=ms[i]->ncols;}
    EQZ("blockdiag-shape",bd->nrows,R);EQZ("blockdiag-shape",bd->ncols,Cc);
    size_t r0=0,c0=0;double*ex=calloc(R*Cc,8);for(size_t i=0;i<nm;i++){for(size_t p=0;p<ms[i]->nrows;p++)for(size_t q=0;q<ms[i]->ncols;q++)ex[(r0+p)*Cc+c0+q]=ms[i]->vals[p*ms[i]->ncols+q];r0+=ms[i]->nrows;c0+=ms[i]->ncols;}
    SAMEBYTES("blockdiag",bd->vals,ex,R*Cc*8);free(ex);
    struct mat c={an,bm,vh_dvec(an*bm)};struct mat*h=horizcat(&a,&c);EQZ("horizcat-shape",h->ncols,am+bm);EQZ("horizcat-shape",h->nrows,an);
    for(size_t i=0;i<an;i++)for(size_t j=0;j<am+bm;j++)CLOSE("horizcat",h->vals[i*(am+bm)+j],j<am?a.vals[i*am+j]:c.vals[i*bm+j-am],0);
    struct mat*dm=diagv2m(am,a.vals);EQZ("diagv2m-rows",dm->nrows,am);EQZ("diagv2m-cols",dm->ncols,am);for(size_t i=0;i<am*am;i++)CLOSE("diagv2m",dm->vals[i],i%(am+1)==0?a.vals[i/(am+1)]:0,0);
    int asr=(int)vr_int(0,1);struct mat*vm=v2m(am,a.vals,asr);EQZ("v2m-shape",vm->nrows,asr?1:am);EQZ("v2m-shape",vm->ncols,asr?am:1);SAMEBYTES("v2m",vm->vals,a.vals,am*8);
    struct mat on;mat_ones(&on,an,bm);EQZ("mat_ones-rows",on.nrows,an);EQZ("mat_ones-cols",on.ncols,bm);for(size_t i=0;i<an*bm;i++)CLOSE("mat_ones",on.vals[i],1,0);free(on.vals);
    freemat(dm);freemat(vm);freemat(bd);freemat(h);freemat(k);free(a.vals);free(b.vals);free(c.vals);free(A);free(B);free(C);free(C0);free(v);free(o);free(o0);
}
CASE(la_multiple,"P17",300,5000,0){
    size_t N=rsz(6),r1=rsz(6),r2=rsz(6),incv=vr_int(0,2),incb=r1*r2+vr_int(0,2)*vr_int(0,1);
    size_t ia=r1+incv,ic=r2+vr_int(0,2);
    double*A=vh_dvec(N*ia+r1),*B=vh_dvec(N*incb+r1*r2),*C=vh_dvec(N*ic+r2);double*C0=cp(C,N*ic+r2);
    if(vr_chance(0.2))ia=0;
    vh_sig("N%zu %zux%zu ia%zu",N,r1,r2,ia);
    c3linalg_multiple_vec_mat(N,r1,r2,A,ia,B,incb,C,ic);
    for(size_t n=0;n<N;n++)for(size_t j=0;j<ic;j++){if(j>=r2){CLOSE("vec_mat-gap",C[n*ic+j],C0[n*ic+j],0);continue;}double s=0,mg=0;for(size_t i=0;i<r1;i++){double t=A[n*ia+i]*B[n*incb+i+j*r1];s+=t;mg+=fabs(t);}CLOSE("vec_mat",C[n*ic+j],s,1e-13*mg);}
    vh_obs_arr(N*ic,C);
    size_t ia2=r2+vr_int(0,2),ic2=r1+vr_int(0,2);double*A2=vh_dvec(N*ia2+r2),*D=vh_dvec(N*ic2+r1);
    c3linalg_multiple_mat_vec(N,r1,r2,A2,ia2,B,incb,D,ic2);
    for(size_t n=0;n<N;n++)for(size_t i=0;i<r1;i++){double s=0,mg=0;for(size_t j=0;j<r2;j++){double t=A2[n*ia2+j]*B[n*incb+i+j*r1];s+=t;mg+=fabs(t);}CLOSE("mat_vec",D[n*ic2+i],s,1e-13*mg);}
    CLOSE("norm2",norm2(A,(int)(N*r1)),fro(A,N*r1),1e-13*fro(A,N*r1));
    double dd=0,mn=0;for(size_t i=0;i<r2;i++){dd+=(A2[i]-B[i])*(A2[i]-B[i]);mn+=A2[i];}
    CLOSE("norm2diff",norm2diff(A2,B,(int)r2),sqrt(dd),1e-13*sqrt(dd)+1e-300);CLOSE("mean",mean(A2,r2),mn/(double)r2,1e-13*fro(A2,r2));
    size_t sz[30];double sm=0;size_t ns=vr_big(1,5,30);for(size_t i=0;i<ns;i++){sz[i]=vr_int(0,9);sm+=(double)sz[i];}CLOSE("mean_size_t",mean_size_t(sz,ns),sm/(double)ns,1e-14*(sm+1));
    free(A);free(B);free(C);free(C0);free(A2);free(D);
}
static void chk_rows(const char*key,const size_t*rows,size_t r,size_t n){for(size_t i=0;i<r;i++){TRUE_(key,rows[i]<n);for(size_t j=0;j<i;j++)TRUE_(key,rows[i]!=rows[j]);}}
CASE(la_maxvol,"P17 P20 P06",500,8000,0){
    size_t r=rsz(6),n=r+vr_int(0,20);int kind=vr_chance(0.3)?7:(vr_chance(0.2)?2:0);
    double*A=rmat(n,r,kind);double*S0=cp(A,n*r);
    if(vr_chance(0.5)){qr(n,r,A,n);free(S0);S0=cp(A,n*r);}
    if(kind==7){ /* integer matrices can be singular: skip unless well conditioned */ double*W=cp(A,n*r),*U=calloc(n*n,8),*S=calloc(r,8),*V=calloc(r*r,8);svd(n,r,n,W,U,S,V);int bad=S[r-1]<1e-3*S[0]||S[0]==0;free(W);free(U);free(S);free(V);if(bad){free(A);free(S0);vh_sig("skip");return;}}
    size_t*rows=calloc(r,sizeof(size_t));double*Ai=calloc(r*r,8);vh_sig("n%zu r%zu k%d",n,r,kind);
    int res=maxvol_rhs(A,n,r,rows,Ai);
    TRUE_("maxvol-result",res==0);chk_rows("maxvol-rows",rows,r,n);SAMEBYTES("maxvol-input",A,S0,n*r*8);
    if(!vh_failed()){
        double*sub=malloc(8*r*r),*Id=malloc(8*r*r),*B=malloc(8*n*r);for(size_t j=0;j<r;j++)for(size_t i=0;i<r;i++)sub[i+j*r]=A[rows[i]+j*n];
        mm(sub,r,r,Ai,r,Id);double e=0;for(size_t i=0;i<r*r;i++)e=dmax(e,fabs(Id[i]-(i%(r+1)==0)));
        TRUE_("maxvol-inverse",e<1e-8);
        mm(A,n,r,Ai,r,B);double mx=0;for(size_t i=0;i<n*r;i++)mx=dmax(mx,fabs(B[i]));
        TRUE_("maxvol-dominant",mx<=1.01+1e-8);
        for(size_t i=0;i<r;i++)vh_obs((double)rows[i]);vh_obs_arr(r*r,Ai);
        free(sub);free(Id);free(B);}
    free(A);free(S0);free(rows);free(Ai);
}
/* cross (skeleton) decompositions of low-rank matrices */
struct skarg{double*A;size_t n,m;const double*x,*y;long calls;int bad;};
static double sk_elem(int i,int j,int w,void*a){struct skarg*s=a;(void)w;s->calls++;if(i<0||j<0||(size_t)i>=s->n||(size_t)j>=s->m){s->bad=1;return 0;}return s->A[(size_t)i*s->m+(size_t)j];}
static int sk_fiber(double*p,double other,size_t dim,size_t N,double*out,void*a){struct skarg*s=a;s->calls++;(void)p;
    size_t k=(size_t)llrint(other);if(dim==0){if(k>=s->m||N!=s->n){s->bad=1;return 1;}for(size_t i=0;i<N;i++)out[i]=s->A[i*s->m+k];}else{if(k>=s->n||N!=s->m){s->bad=1;return 1;}for(size_t j=0;j<N;j++)out[j]=s->A[k*s->m+j];}return 0;}
CASE(la_skeleton,"P17 P20",150,2500,0){
    size_t r=vr_big(1,4,10),n=r+vr_int(0,10),m=r+vr_int(0,10);double*A=calloc(n*m,8);
    double*U=rmat(n,n,0),*V=rmat(m,m,0);qr(n,n,U,n);qr(m,m,V,m);
    for(size_t p=0;p<r;p++){double s=vr_unif(0.5,3);for(size_t i=0;i<n;i++)for(size_t j=0;j<m;j++)A[i*m+j]+=s*U[i+p*n]*V[j+p*m];}free(U);free(V);
    size_t rows[10]={0},cols[10];for(size_t i=0;i<r;i++){int dup;do{cols[i]=vr_int(0,m-1);dup=0;for(size_t j=0;j<i;j++)dup|=cols[i]==cols[j];}while(dup);}
    /* the initial columns must be independent enough */
    double*C=malloc(8*n*r),*W,*UU=calloc(n*n,8),*S=calloc(r,8),*VV=calloc(r*r,8);for(size_t j=0;j<r;j++)for(size_t i=0;i<n;i++)C[i+j*n]=A[i*m+cols[j]];W=C;svd(n,r,n,W,UU,S,VV);int ok=S[r-1]>1e-3;free(C);free(UU);free(S);free(VV);
    int var=(int)vr_int(0,2);vh_sig("v%d n%zu m%zu r%zu",var,n,m,r);
    if(!ok){free(A);return;}
    double*x=malloc(8*n),*y=malloc(8*m);for(size_t i=0;i<n;i++)x[i]=(double)i;for(size_t i=0;i<m;i++)y[i]=(double)i;
    struct skarg sa={A,n,m,x,y,0,0};double*A0=cp(A,n*m);int res=0;double*full=calloc(n*m,8);
    if(var==0)res=skeleton(A,n,m,r,rows,cols,1e-8);
    else if(var==1)res=skeleton_func(sk_elem,&sa,n,m,r,rows,cols,1e-8);
    else{struct sk_decomp*sk;init_skf(&sk,r,n,m);for(size_t i=0;i<r;i++)sk->cols_kept[i]=cols[i];res=skeleton_func2(sk_fiber,&sa,&sk,x,y,1e-8);
        EQZ("skeleton-crossrank",sk->cross_rank,r);sk_decomp_to_full(sk,full);for(size_t i=0;i<r;i++){rows[i]=sk->rows_kept[i];cols[i]=sk->cols_kept[i];}
        EQZ("skeleton-fibers",sk->row_vals->nfibers+sk->col_vals->nfibers,(size_t)sa.calls);
        TRUE_("skeleton2-full",maxd(full,A,n*m)<1e-7);free_skf(&sk);}
    TRUE_("skeleton-in-range",!sa.bad);SAMEBYTES("skeleton-input",A,A0,n*m*8);TRUE_("skeleton-converged",res==1);
    chk_rows("skeleton-rows",rows,r,n);chk_rows("skeleton-cols",cols,r,m);
    if(!vh_failed()){ /* CUR reconstruction from the chosen rows and columns */
        double*G=malloc(8*r*r),*Gi=calloc(r*r,8);for(size_t i=0;i<r;i++)for(size_t j=0;j<r;j++)G[i+j*r]=A[rows[i]*m+cols[j]];
        pinv(r,r,r,G,Gi,1e-12);double e=0;
        for(size_t i=0;i<n;i++)for(size_t j=0;j<m;j++){double s=0;for(size_t p=0;p<r;p++)for(size_t q=0;q<r;q++)s+=A[i*m+cols[p]]*Gi[p+q*r]*A[rows[q]*m+j];e=dmax(e,fabs(s-A[i*m+j]));}
        TRUE_("skeleton-reconstruct",e<1e-7);
        /* the chosen columns dominate within the chosen rows */
        double dom=0;for(size_t p=0;p<r;p++)for(size_t j=0;j<m;j++){double s=0;for(size_t q=0;q<r;q++)s+=Gi[p+q*r]*A[rows[q]*m+j];dom=dmax(dom,fabs(s));}
        if(!TRUE_("skeleton-dominant",dom<1.02))vh_fail("skeleton-dominant-detail","%g v%d",dom,var);
        free(G);free(Gi);}
    free(A);free(A0);free(x);free(y);free(full);
}
CASE(la_ls,"P17",300,5000,0){
    size_t n=rsz(6),m=vr_chance(0.8)?n+vr_int(0,8):vr_int(1,n);int kind=vr_chance(0.25)?1:0;
    double*A=rmat(m,n,kind),*y=vh_dvec(m),*x=calloc(n,8),*W=cp(A,m*n),*y0=cp(y,m);vh_sig("m%zu n%zu k%d",m,n,kind);
    linear_ls(m,n,W,y,x);SAMEBYTES("ls-rhs-changed",y,y0,m*8);
    /* normal equations; the residual is orthogonal to the columns */
    double*r=malloc(8*m);for(size_t i=0;i<m;i++){r[i]=-y[i];for(size_t j=0;j<n;j++)r[i]+=A[i+j*m]*x[j];}
    double nA=fro(A,m*n),nx=fro(x,n),ny=fro(y,m);for(size_t j=0;j<n;j++){double s=0;for(size_t i=0;i<m;i++)s+=A[i+j*m]*r[i];CLOSE("ls-normal",s,0,1e-10*nA*(nA*nx+ny));}
    vh_obs_arr(n,x);free(A);free(y);free(y0);free(x);free(W);free(r);
}

/* ---------------- quadrature ---------------- */
static double ipow(double x,size_t p){double r=1;while(p--)r*=x;return r;}
static double mono(size_t p){return p%2?0:2.0/((double)p+1);}
static double cheb_t(size_t p,double x){return cos((double)p*acos(dmax(-1,dmin(1,x))));}
static void chk_pts(const char*k,size_t n,const double*x,double lo,double hi){for(size_t i=0;i<n;i++){TRUE_(k,x[i]>=lo-1e-13&&x[i]<=hi+1e-13);for(size_t j=0;j<i;j++)TRUE_(k,x[i]!=x[j]);}}
CASE(quad_legendre,"P18",220,600,0){
    size_t N=vr_chance(0.8)?vr_int(1,199):(vr_chance(0.3)?200:vr_int(200,230));double*x=calloc(N,8),*w=calloc(N,8);vh_sig("N%zu",N);
    gauss_legendre(N,x,w);chk_pts("leg-points",N,x,-1,1);
    double s=0;for(size_t i=0;i<N;i++){TRUE_("leg-positive",w[i]>0);s+=w[i];}CLOSE("leg-sum",s,1,1e-12);
    /* exact on Legendre polynomials of degree 1..2N-1 (all integrate to 0) : evaluated by recurrence */
    double*acc=calloc(2*N,8);for(size_t i=0;i<N;i++){double p0=1,p1=x[i];for(size_t d=1;d<2*N;d++){acc[d]+=w[i]*p1;double p2=((2*(double)d+1)*x[i]*p1-(double)d*p0)/((double)d+1);p0=p1;p1=p2;}}
    for(size_t d=1;d<2*N;d++)CLOSE("leg-exact",acc[d],0,1e-11);
    if(N>=2&&N<200){double*x2=NULL,*w2=NULL;(void)x2;(void)w2;}
    vh_obs_arr(N,x);vh_obs_arr(N,w);free(acc);free(x);free(w);
}
CASE(quad_legtab,"P18",40,80,0){
    /* tabulated rules */
    size_t N=vr_int(2,199);double*x=calloc(N,8),*w=calloc(N,8);getLegPtsWts(N,x,w);vh_sig("N%zu",N);
    for(size_t i=0;i<N;i++){double p0=1,p1=x[i];for(size_t d=1;d<N;d++){double p2=((2*(double)d+1)*x[i]*p1-(double)d*p0)/((double)d+1);p0=p1;p1=p2;}
        double dp=(double)N*(x[i]*p1-p0)/(x[i]*x[i]-1);CLOSE("legtab-root",p1/dp,0,1e-14);double ww=2/((1-x[i]*x[i])*dp*dp);CLOSE("legtab-weight",w[i],ww/2,1e-11*ww);}
    free(x);free(w);
}
CASE(quad_hermite,"P18",120,500,0){
    size_t N=vr_int(1,40);double*x=calloc(N,8),*w=calloc(N,8);vh_sig("N%zu",N);int r=gauss_hermite(N,x,w);TRUE_("herm-info",r==0);
    double s=0;for(size_t i=0;i<N;i++){TRUE_("herm-weight",w[i]>=0);s+=w[i];if(i)TRUE_("herm-distinct",x[i]>x[i-1]);}CLOSE("herm-sum",s,1,1e-12);
    /* orthonormal Hermite functions of degree < N are orthonormal under the rule */
    size_t M=N<14?N:14;for(size_t a=0;a<M;a++)for(size_t b=0;b<M&&a+b<=2*N-1;b++){double t=0;for(size_t i=0;i<N;i++){double h[16];h[0]=1;h[1]=x[i];for(size_t d=1;d+1<M;d++)h[d+1]=(x[i]*h[d]-sqrt((double)d)*h[d-1])/sqrt((double)d+1);t+=w[i]*h[a]*h[b];}CLOSE("herm-orthonormal",t,a==b,1e-9);}
    vh_obs_arr(N,x);free(x);free(w);
}
CASE(quad_cc,"P18",200,800,0){
    size_t N=vr_chance(0.5)?vr_int(1,9):vr_int(10,70);double*x=calloc(N,8),*w=calloc(N,8);vh_sig("N%zu",N);
    clenshaw_curtis(N,x,w);chk_pts("cc-points",N,x,-1,1);
    for(size_t p=0;p<N;p++){double s=0;for(size_t i=0;i<N;i++)s+=w[i]*cheb_t(p,x[i]);double e=p%2?0:2.0/(1.0-(double)p*(double)p);CLOSE("cc-exact",s,e,1e-12*(double)N);}
    for(size_t i=1;i<N;i++)TRUE_("cc-sorted",x[i]>x[i-1]);
    vh_obs_arr(N,w);
    double a=vr_unif(-5,3),b=a+vr_unif(0.01,6);rescale_cc(N,x,w,a,b);
    size_t P=N<6?N:6;double L=dmax(fabs(a),fabs(b));for(size_t p=0;p<P;p++){double s=0;for(size_t i=0;i<N;i++)s+=w[i]*ipow(x[i],p);CLOSE("cc-rescaled",s,(ipow(b,p+1)-ipow(a,p+1))/((double)p+1),1e-12*(double)N*(b-a+1)*ipow(L+1,p+1));}
    clenshaw_curtis(N,x,w);
    fejer2(N,x,w);if(N>2){chk_pts("fejer-points",N,x,-1,1);for(size_t i=0;i<N;i++)TRUE_("fejer-interior",fabs(x[i])<1);}
    size_t deg=N>2?N:(N==1?1:2);for(size_t p=0;p<deg;p++){double s=0;for(size_t i=0;i<N;i++)s+=w[i]*cheb_t(p,x[i]);double e=p%2?0:2.0/(1.0-(double)p*(double)p);CLOSE("fejer-exact",s,e,1e-12*(double)(N+4));}
    free(x);free(w);
}
CASE(quad_chebgauss,"P18",100,400,0){
    size_t N=vr_int(1,60);double*x=calloc(N,8),*w=calloc(N,8);vh_sig("N%zu",N);cheb_gauss(N,x,w);chk_pts("cg-points",N,x,-1,1);
    for(size_t p=0;p<2*N;p++){double s=0;for(size_t i=0;i<N;i++)s+=w[i]*cheb_t(p,x[i]);CLOSE("cg-exact",s,p==0?3.14159265358979323846:0,1e-12*(double)(N+4));}
    free(x);free(w);
}
CASE(quad_newton,"P18",200,800,0){
    size_t N=vr_int(2,40);double a=vr_unif(-2,2),h=vr_unif(0.01,1),b=a+h*(double)(N-1);vh_sig("N%zu",N);double L=dmax(fabs(a),fabs(b))+1;
    double*w=trap_w(N,h);for(size_t p=0;p<2;p++){double s=0;for(size_t i=0;i<N;i++)s+=w[i]*ipow(a+h*(double)i,p);CLOSE("trap-exact",s,(ipow(b,p+1)-ipow(a,p+1))/((double)p+1),1e-12*L*L*(double)N);}
    /* piecewise linear functions are integrated exactly */
    double*f=vh_dvec(N),s=0,e=0;for(size_t i=0;i<N;i++)s+=w[i]*f[i];for(size_t i=0;i+1<N;i++)e+=h*(f[i]+f[i+1])/2;CLOSE("trap-pl",s,e,1e-12*(double)N);free(w);
    w=simpson_w(N,h);size_t D=N%2?3:1;for(size_t p=0;p<=D;p++){s=0;for(size_t i=0;i<N;i++)s+=w[i]*ipow(a+h*(double)i,p);CLOSE("simpson-exact",s,(ipow(b,p+1)-ipow(a,p+1))/((double)p+1),1e-12*ipow(L,p+1)*(double)N);}
    /* exact for piecewise quadratics over pairs of cells, trapezoid on a last single cell */
    s=0;e=0;for(size_t i=0;i<N;i++)s+=w[i]*f[i];size_t i=0;for(;i+2<N;i+=2)e+=h/3*(f[i]+4*f[i+1]+f[i+2]);if(i+1<N)e+=h/2*(f[i]+f[i+1]);CLOSE("simpson-pq",s,e,1e-12*(double)N);
    vh_obs_arr(N,w);free(w);free(f);
}
/* ---------------- FFT ---------------- */
CASE(fft_dft,"P19",260,3000,0){
    size_t N=(size_t)1<<vr_int(0,vr_chance(0.1)?vr_chance(0.1)?11:9:6);vh_sig("N%zu",N);
    double complex*x=malloc(N*16),*X=malloc(N*16),*y=malloc(N*16),*x0=malloc(N*16);double nx=0;
    int kind=(int)vr_int(0,3);
    for(size_t i=0;i<N;i++){x[i]=kind==0?vr_norm()+I*vr_norm():kind==1?vr_norm():kind==2?(i==N/3?1.0+2.0*I:0):I*vr_norm();nx+=cabs(x[i]);}
    memcpy(x0,x,N*16);
    TRUE_("fft-result",fft(N,x,1,X,1)==0);SAMEBYTES("fft-input",x,x0,N*16);
    for(size_t k=0;k<N;k++){long double re=0,im=0;for(size_t j=0;j<N;j++){size_t q=(j*k)%N;long double t=-2*3.14159265358979323846264338L*(long double)q/(long double)N;re+=creal(x[j])*cosl(t)-cimag(x[j])*sinl(t);im+=creal(x[j])*sinl(t)+cimag(x[j])*cosl(t);}
        CLOSE("fft-value",creal(X[k]),(double)re,1e-13*nx*8+1e-300);CLOSE("fft-value",cimag(X[k]),(double)im,1e-13*nx*8+1e-300);}
    memcpy(x0,X,N*16);
    TRUE_("ifft-result",ifft(N,X,1,y,1)==0);SAMEBYTES("ifft-input",X,x0,N*16);
    for(size_t k=0;k<N;k++)CLOSE("ifft-inverse",cabs(y[k]-x[k]),0,1e-13*nx*8+1e-300);
    if(N<=64){fft_slow(N,x,1,y,1);for(size_t k=0;k<N;k++)CLOSE("fft-slow",cabs(y[k]-X[k]),0,1e-12*nx+1e-300);
        ifft_slow(N,X,1,y,1);for(size_t k=0;k<N;k++)CLOSE("ifft-slow",cabs(y[k]-x[k]),0,1e-12*nx+1e-300);}
    /* strided */
    size_t sx=vr_int(1,3),sX=vr_int(1,3);double complex*xs=calloc(N*sx,16),*Xs=calloc(N*sX,16);for(size_t i=0;i<N*sx;i++)xs[i]=vr_norm();for(size_t i=0;i<N;i++)xs[i*sx]=x[i];for(size_t i=0;i<N*sX;i++)Xs[i]=7;
    fft_base(N,xs,sx,Xs,sX);for(size_t i=0;i<N*sX;i++){if(i%sX)CLOSE("fft-stride-gap",creal(Xs[i]),7,0);else CLOSE("fft-stride",cabs(Xs[i]-X[i/sX]),0,1e-12*nx+1e-300);}
    for(size_t i=0;i<N;i++)xs[i*sx]=X[i];ifft_base(N,xs,sx,Xs,sX);for(size_t i=0;i<N*sX;i++){if(i%sX)CLOSE("ifft-stride-gap",creal(Xs[i]),7,0);else CLOSE("ifft-stride",cabs(Xs[i]-x[i/sX]),0,1e-12*nx+1e-300);}
    /* the slow transforms accept any length and stride */
    {size_t M=vr_int(1,24);double complex*p=calloc(M*sx,16),*q=calloc(M*sX,16),*w=calloc(M,16);double np=0;for(size_t i=0;i<M*sx;i++){p[i]=vr_norm()+I*vr_norm();}for(size_t i=0;i<M;i++)np+=cabs(p[i*sx]);for(size_t i=0;i<M*sX;i++)q[i]=7;
     TRUE_("slow-result",fft_slow(M,p,sx,q,sX)==0);for(size_t k=0;k<M;k++){double complex t=0;for(size_t j=0;j<M;j++)t+=p[j*sx]*cexp(-2*M_PI*I*(double)((j*k)%M)/(double)M);CLOSE("slow-value",cabs(q[k*sX]-t),0,1e-12*np+1e-300);for(size_t g=1;g<sX;g++)CLOSE("slow-gap",creal(q[k*sX+g]),7,0);}
     TRUE_("slow-result",ifft_slow(M,q,sX,w,1)==0);for(size_t k=0;k<M;k++)CLOSE("slow-inverse",cabs(w[k]-p[k*sx]),0,1e-12*np+1e-300);free(p);free(q);free(w);}
    size_t odd=3*N;double complex*z=calloc(odd,16),*Z=calloc(odd,16);FILE*sv=stderr;(void)sv;TRUE_("fft-nonpower",fft(odd,z,1,Z,1)!=0);TRUE_("ifft-nonpower",ifft(odd,z,1,Z,1)!=0);
    free(z);free(Z);free(xs);free(Xs);free(x);free(X);free(y);free(x0);
}
CASE(fft_cheb,"P19",200,2500,0){
    size_t N=((size_t)1<<vr_int(0,7))+1;double*v=vh_dvec(N),*c=calloc(N,8);vh_sig("N%zu",N);double nv=0;for(size_t i=0;i<N;i++)nv+=fabs(v[i]);
    int pol=vr_chance(0.5);double*cc=vh_dvec(N);
    /* values at the Chebyshev extrema from x=1 down to x=-1; coefficients come highest degree first */
    if(pol){for(size_t i=0;i<N;i++){v[i]=0;double th=3.14159265358979323846*(double)i/(double)(N-1);for(size_t k=0;k<N;k++)v[i]+=cc[k]*cos((double)k*th);}nv=0;for(size_t i=0;i<N;i++)nv+=fabs(v[i]);}
    double*v0=cp(v,N);
    int r=cheb_vals_to_coeff(N,v,c);TRUE_("cheb-result",r==0);SAMEBYTES("cheb-input",v,v0,N*8);
    for(size_t i=0;i<N;i++){double s=0,th=3.14159265358979323846*(double)i/(double)(N-1);for(size_t k=0;k<N;k++)s+=c[N-1-k]*cos((double)k*th);
        CLOSE("cheb-interpolates",s,v[i],1e-12*nv*4);(void)pol;}
    vh_obs_arr(N,c);{size_t M=vr_int(4,40);if(((M-1)&(M-2))!=0){double*a=vh_dvec(M),*b=calloc(M,8);TRUE_("cheb-nonpower",cheb_vals_to_coeff(M,a,b)!=0);free(a);free(b);}}free(v);free(v0);free(c);free(cc);
}
