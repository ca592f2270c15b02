/* Quasimatrices and arrays of univariate functions: products, contractions, decompositions. */
#include "model.h"
typedef struct GenericFunction GF;typedef struct Qmarray QA;typedef struct Quasimatrix QM;
#define QN 10            /* largest number of rows or columns */
#define QS (QN*QN)
#define QW 1024
struct qa { struct sp*s; size_t nr,nc; struct m1*f; QA*q; };
static struct qa qa_rand(struct sp*s,size_t nr,size_t nc,int degen){
    struct qa a={s,nr,nc,calloc(nr*nc,sizeof(struct m1)),qmarray_alloc(nr,nc)};
    double sc=vr_chance(0.3)?pow(10,vr_unif(-2,3)):1;
    for(size_t j=0;j<nc;j++){
        int dep=degen&&j>0&&vr_chance(0.3);size_t src=dep?vr_int(0,j-1):0;double c=vr_chance(0.3)?0:vr_norm();
        for(size_t i=0;i<nr;i++){struct m1*f=&a.f[j*nr+i];
            if(dep){struct m1*o=&a.f[src*nr+i];*f=m1_rand_n(s,o->n);size_t m=s->t==T_PW?(s->n-1)*o->n:o->n;
                if(f->c)for(size_t k=0;k<m;k++)f->c[k]=c*o->c[k];if(f->cc)for(size_t k=0;k<m;k++)f->cc[k]=c*o->cc[k];}
            else {*f=m1_rand(s);size_t m=s->t==T_PW?(s->n-1)*f->n:f->n;if(f->c)for(size_t k=0;k<m;k++)f->c[k]*=sc;if(f->cc)for(size_t k=0;k<m;k++)f->cc[k]*=sc;}
        }}
    for(size_t i=0;i<nr*nc;i++)a.q->funcs[i]=m1_gf(a.f+i);
    return a;
}
static void qa_free(struct qa*a){for(size_t i=0;i<a->nr*a->nc;i++)m1_free(a->f+i);free(a->f);qmarray_free(a->q);}
static void qa_dense(const struct qa*a,double x,double*v,double*m){for(size_t i=0;i<a->nr*a->nc;i++){v[i]=m1_eval(a->f+i,x);m[i]=m1_mag(a->f+i,x);}}
static double px(const struct sp*s){return s->t==T_LIN?s->x[vr_int(0,s->n-1)]:sp_x(s);}   /* products of linear elements are nodal */
/* dense helper: C(mxn) = op(A) op(B); column major */
static void mm(int ta,int tb,size_t m,size_t n,size_t k,const double*A,size_t la,const double*B,size_t lb,double*C){
    for(size_t j=0;j<n;j++)for(size_t i=0;i<m;i++){double w=0;for(size_t p=0;p<k;p++)w+=(ta?A[p+i*la]:A[i+p*la])*(tb?B[j+p*lb]:B[p+j*lb]);C[i+j*m]=w;}}
static void cmp(const char*key,QA*q,size_t m,size_t n,double x,const double*w,const double*mg,double rel){
    EQZ(key,q->nrows,m);EQZ(key,q->ncols,n);if(q->nrows!=m||q->ncols!=n)return;
    double*o=malloc(m*n*8);qmarray_eval(q,x,o);
    for(size_t i=0;i<m*n;i++){CLOSE(key,o[i],w[i],rel*mg[i]+1e-12*(1+mg[i]));vh_obs(o[i]);}
    free(o);
}
static void same(const char*key,const struct qa*a){double x=sp_x(a->s);double*o=malloc(a->nr*a->nc*8);qmarray_eval(a->q,x,o);
    for(size_t i=0;i<a->nr*a->nc;i++)CLOSE(key,o[i],m1_eval(a->f+i,x),1e-11*m1_mag(a->f+i,x)+1e-13);free(o);}
#define PRODT (M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_PW))
#define LINT  (PRODT|M(T_KER)|M(T_FOUR))
CASE(qm_linear,"P10",60,1500,0){ /* products with matrices, stacking, rows and columns */
    struct sp*s=sp_rand(LINT);size_t nr=vr_big(1,4,9),nc=vr_big(1,4,9),b=vr_big(1,4,9);struct qa A=qa_rand(s,nr,nc,1);
    double R[QS],Rt[QS],L[QS];for(int i=0;i<QS;i++){R[i]=vr_chance(0.2)?0:vr_norm();Rt[i]=vr_norm();L[i]=vr_norm();}
    vh_sig("%s %zux%zu b%zu",tname[s->t],nr,nc,b);
    QA*q1=qmam(A.q,R,b),*q2=qmatm(A.q,Rt,b),*q3=mqma(L,A.q,b),*q4=qmarray_transpose(A.q);
    double RA[QS],RtA[QS],LA[QS];for(int i=0;i<QS;i++){RA[i]=fabs(R[i]);RtA[i]=fabs(Rt[i]);LA[i]=fabs(L[i]);}
    double v[QS],m[QS],w[QW],g[QW];
    for(int k=0;k<4;k++){double x=sp_x(s);qa_dense(&A,x,v,m);
        mm(0,0,nr,b,nc,v,nr,R,nc,w);mm(0,0,nr,b,nc,m,nr,RA,nc,g);cmp("qmam",q1,nr,b,x,w,g,1e-11);
        mm(1,0,nc,b,nr,v,nr,Rt,nr,w);mm(1,0,nc,b,nr,m,nr,RtA,nr,g);cmp("qmatm",q2,nc,b,x,w,g,1e-11);
        mm(0,0,b,nc,nr,L,b,v,nr,w);mm(0,0,b,nc,nr,LA,b,m,nr,g);cmp("mqma",q3,b,nc,x,w,g,1e-11);
        for(size_t i=0;i<nr;i++)for(size_t j=0;j<nc;j++){w[j+i*nc]=v[i+j*nr];g[j+i*nc]=m[i+j*nr];}cmp("transpose",q4,nc,nr,x,w,g,1e-12);}
    /* stacking */
    size_t ec=vr_big(1,3,9),er=vr_big(1,3,9);struct qa H=qa_rand(s,nr,ec,0),V=qa_rand(s,er,nc,0),D=qa_rand(s,er,ec,0);
    QA*h=qmarray_stackh(A.q,H.q),*vv=qmarray_stackv(A.q,V.q),*bd=qmarray_blockdiag(A.q,D.q);
    double v2[QS],m2[QS];
    for(int k=0;k<3;k++){double x=sp_x(s);qa_dense(&A,x,v,m);
        qa_dense(&H,x,v2,m2);memcpy(w,v,8*nr*nc);memcpy(w+nr*nc,v2,8*nr*ec);memcpy(g,m,8*nr*nc);memcpy(g+nr*nc,m2,8*nr*ec);cmp("stackh",h,nr,nc+ec,x,w,g,1e-12);
        qa_dense(&V,x,v2,m2);for(size_t j=0;j<nc;j++)for(size_t i=0;i<nr+er;i++){w[i+j*(nr+er)]=i<nr?v[i+j*nr]:v2[i-nr+j*er];g[i+j*(nr+er)]=i<nr?m[i+j*nr]:m2[i-nr+j*er];}cmp("stackv",vv,nr+er,nc,x,w,g,1e-12);
        qa_dense(&D,x,v2,m2);for(size_t j=0;j<nc+ec;j++)for(size_t i=0;i<nr+er;i++){double z=0,zz=1e-3;if(i<nr&&j<nc){z=v[i+j*nr];zz=m[i+j*nr];}if(i>=nr&&j>=nc){z=v2[i-nr+(j-nc)*er];zz=m2[i-nr+(j-nc)*er];}w[i+j*(nr+er)]=z;g[i+j*(nr+er)]=zz;}cmp("blockdiag",bd,nr+er,nc+ec,x,w,g,1e-12);}
    /* rows, columns, first columns, axpy, norm */
    size_t row=vr_int(0,nr-1),col=vr_int(0,nc-1),fc=vr_int(1,nc);
    QM*rw=qmarray_extract_row(A.q,row),*cl=qmarray_extract_column(A.q,col);QA*first=qmarray_first_cols(A.q,fc),*cp=qmarray_copy(A.q);
    EQZ("row-size",quasimatrix_get_size(rw),nc);EQZ("col-size",quasimatrix_get_size(cl),nr);
    for(int k=0;k<3;k++){double x=sp_x(s);qa_dense(&A,x,v,m);cmp("first-cols",first,nr,fc,x,v,m,1e-12);
        for(size_t j=0;j<nc;j++)CLOSE("extract-row",generic_function_1d_eval(quasimatrix_get_func(rw,j),x),v[row+j*nr],1e-11*m[row+j*nr]+1e-13);
        for(size_t i=0;i<nr;i++)CLOSE("extract-col",generic_function_1d_eval(quasimatrix_get_func(cl,i),x),v[i+col*nr],1e-11*m[i+col*nr]+1e-13);}
    size_t row2=vr_int(0,nr-1),col2=vr_int(0,nc-1);
    qmarray_set_row(cp,row2,rw);qmarray_set_column(cp,col2,cl);
    {double x=sp_x(s);qa_dense(&A,x,v,m);memcpy(w,v,sizeof v);memcpy(g,m,sizeof m);for(size_t j=0;j<nc;j++){w[row2+j*nr]=v[row+j*nr];g[row2+j*nr]=m[row+j*nr];}
     for(size_t i=0;i<nr;i++){w[i+col2*nr]=v[i+col*nr];g[i+col2*nr]=m[i+col*nr];}cmp("set-row-column",cp,nr,nc,x,w,g,1e-11);}
    if(s->t!=T_PW||1){QA*y=qmarray_copy(A.q);double al=vr_norm();struct qa X=qa_rand(s,nr,nc,0);qmarray_axpy(al,X.q,y);
        for(int k=0;k<2;k++){double x=sp_x(s);qa_dense(&A,x,v,m);qa_dense(&X,x,v2,m2);for(size_t i=0;i<nr*nc;i++){w[i]=v[i]+al*v2[i];g[i]=m[i]+fabs(al)*m2[i];}cmp("axpy",y,nr,nc,x,w,g,1e-11);}
        same("axpy-input",&X);qa_free(&X);qmarray_free(y);}
    same("input-changed",&A);
    qmarray_free(q1);qmarray_free(q2);qmarray_free(q3);qmarray_free(q4);qmarray_free(h);qmarray_free(vv);qmarray_free(bd);
    quasimatrix_free(rw);quasimatrix_free(cl);qmarray_free(first);qmarray_free(cp);
    qa_free(&A);qa_free(&H);qa_free(&V);qa_free(&D);sp_free(s);
}
CASE(qm_products,"P10 P24",60,1500,0){ /* array times array, Kronecker products */
    struct sp*s=sp_rand(PRODT);size_t p=vr_big(1,4,9),q=vr_big(1,4,9),r=vr_big(1,4,9);
    struct qa A=qa_rand(s,p,q,1),B=qa_rand(s,q,r,0),At=qa_rand(s,q,p,0),Bt=qa_rand(s,r,q,1);
    vh_sig("%s %zu%zu%zu",tname[s->t],p,q,r);
    QA*c1=qmaqma(A.q,B.q),*c2=qmatqma(At.q,B.q),*c3=qmaqmat(A.q,Bt.q),*c4=qmatqmat(At.q,Bt.q);
    double v[QS],m[QS],v2[QS],m2[QS],w[QW],g[QW];
    for(int k=0;k<3;k++){double x=px(s);
        qa_dense(&A,x,v,m);qa_dense(&B,x,v2,m2);mm(0,0,p,r,q,v,p,v2,q,w);mm(0,0,p,r,q,m,p,m2,q,g);cmp("qmaqma",c1,p,r,x,w,g,1e-9);
        qa_dense(&Bt,x,v2,m2);mm(0,1,p,r,q,v,p,v2,r,w);mm(0,1,p,r,q,m,p,m2,r,g);cmp("qmaqmat",c3,p,r,x,w,g,1e-9);
        qa_dense(&At,x,v,m);mm(1,1,p,r,q,v,q,v2,r,w);mm(1,1,p,r,q,m,q,m2,r,g);cmp("qmatqmat",c4,p,r,x,w,g,1e-9);
        qa_dense(&B,x,v2,m2);mm(1,0,p,r,q,v,q,v2,q,w);mm(1,0,p,r,q,m,q,m2,q,g);cmp("qmatqma",c2,p,r,x,w,g,1e-9);}
    /* integrals of the same products, in the class' inner product */
    double*i1=qmaqma_integrate(A.q,B.q),*i2=qmatqma_integrate(At.q,B.q),*i3=qmaqmat_integrate(A.q,Bt.q);
    double ch=s->t==T_CHEB?1e-6*(s->ub-s->lb):0;
    for(size_t j=0;j<r;j++)for(size_t i=0;i<p;i++){double w1=0,w2=0,w3=0,g1=0,g2=0,g3=0;
        for(size_t k=0;k<q;k++){struct m1*a=&A.f[i+k*p],*at=&At.f[k+i*q],*b=&B.f[k+j*q],*bt=&Bt.f[j+k*r];
            w1+=m1_inner(a,b);g1+=sqrt(fabs(m1_inner(a,a)*m1_inner(b,b)));w2+=m1_inner(at,b);g2+=sqrt(fabs(m1_inner(at,at)*m1_inner(b,b)));w3+=m1_inner(a,bt);g3+=sqrt(fabs(m1_inner(a,a)*m1_inner(bt,bt)));}
        CLOSE("qmaqma-int",i1[i+j*p],w1,1e-9*g1+1e-12+ch*(1+g1));CLOSE("qmatqma-int",i2[i+j*p],w2,1e-9*g2+1e-12+ch*(1+g2));CLOSE("qmaqmat-int",i3[i+j*p],w3,1e-9*g3+1e-12+ch*(1+g3));}
    double*ii=qmarray_integrate(A.q);for(size_t i=0;i<p*q;i++){double w=generic_function_integrate(A.q->funcs[i]);CLOSE("integrate",ii[i],w,1e-12*(fabs(w)+sqrt(fabs(m1_inner(A.f+i,A.f+i))*(1+s->ub-s->lb)))+1e-300);};
    double n2=0;for(size_t i=0;i<p*q;i++)n2+=m1_inner(A.f+i,A.f+i);CLOSE("norm2",qmarray_norm2(A.q),sqrt(fabs(n2)),1e-9*sqrt(fabs(n2))+1e-12+sqrt(ch*(1+fabs(n2))));
    struct qa A2=qa_rand(s,p,q,0);double dd=0,dm=0;for(size_t i=0;i<p*q;i++){double aa=m1_inner(A.f+i,A.f+i),bb=m1_inner(A2.f+i,A2.f+i);dd+=aa-2*m1_inner(A.f+i,A2.f+i)+bb;dm+=fabs(aa)+fabs(bb);}
    double nd=qmarray_norm2diff(A.q,A2.q);CLOSE("norm2diff",nd*nd,dd,1e-9*dm+1e-12+ch*(1+dm)*4);
    qa_free(&A2);free(i1);free(i2);free(i3);free(ii);
    /* Kronecker */
    size_t ra=vr_big(1,2,5),ca=vr_big(1,2,5),rb=vr_big(1,3,6),cb=vr_big(1,2,5);struct qa K=qa_rand(s,ra,ca,0),N=qa_rand(s,rb,cb,0);
    QA*kr=qmarray_kron(K.q,N.q);double*ki=qmarray_kron_integrate(K.q,N.q);size_t R0=ra*rb,C0=ca*cb;
    for(int k=0;k<2;k++){double x=px(s);qa_dense(&K,x,v,m);qa_dense(&N,x,v2,m2);
        for(size_t i=0;i<R0;i++)for(size_t j=0;j<C0;j++){w[i+j*R0]=v[i/rb+(j/cb)*ra]*v2[i%rb+(j%cb)*rb];g[i+j*R0]=m[i/rb+(j/cb)*ra]*m2[i%rb+(j%cb)*rb];}
        cmp("kron",kr,R0,C0,x,w,g,1e-9);}
    for(size_t i=0;i<R0;i++)for(size_t j=0;j<C0;j++){struct m1*a=&K.f[i/rb+(j/cb)*ra],*b=&N.f[i%rb+(j%cb)*rb];double gg=sqrt(fabs(m1_inner(a,a)*m1_inner(b,b)));CLOSE("kron-int",ki[i+j*R0],m1_inner(a,b),1e-9*gg+1e-12+ch*(1+gg));}
    free(ki);qmarray_free(kr);
    /* matrix times Kronecker product and Kronecker product times matrix */
    size_t e=vr_big(1,3,9);double mat[QW],ma[QW];for(int i=0;i<QW;i++){mat[i]=vr_norm();ma[i]=fabs(mat[i]);}
    QA*mk=qmarray_mat_kron(e,mat,K.q,N.q),*km=qmarray_kron_mat(e,mat,K.q,N.q);QA*vk=qmarray_vec_kron(mat,K.q,N.q);
    double KK[QW],KG[QW];
    for(int k=0;k<2;k++){double x=px(s);qa_dense(&K,x,v,m);qa_dense(&N,x,v2,m2);
        for(size_t i=0;i<R0;i++)for(size_t j=0;j<C0;j++){KK[i+j*R0]=v[i/rb+(j/cb)*ra]*v2[i%rb+(j%cb)*rb];KG[i+j*R0]=m[i/rb+(j/cb)*ra]*m2[i%rb+(j%cb)*rb];}
        mm(0,0,e,C0,R0,mat,e,KK,R0,w);mm(0,0,e,C0,R0,ma,e,KG,R0,g);cmp("mat-kron",mk,e,C0,x,w,g,1e-9);
        mm(0,0,R0,e,C0,KK,R0,mat,C0,w);mm(0,0,R0,e,C0,KG,R0,ma,C0,g);cmp("kron-mat",km,R0,e,x,w,g,1e-9);
        for(size_t j=0;j<C0;j++){double ww=0,gg=0;for(size_t i=0;i<R0;i++){double c=mat[(i/rb)+(i%rb)*ra];ww+=c*KK[i+j*R0];gg+=fabs(c)*KG[i+j*R0];}w[j/cb+(j%cb)*ca]=ww;g[j/cb+(j%cb)*ca]=gg;}
        cmp("vec-kron",vk,ca,cb,x,w,g,1e-9);}
    /* row vector times Kronecker product, integrated: row of length ca*cb */
    double*vi=qmarray_vec_kron_integrate(mat,K.q,N.q);
    for(size_t j=0;j<C0;j++){double ww=0,gg=0;for(size_t i=0;i<R0;i++){struct m1*a=&K.f[i/rb+(j/cb)*ra],*b=&N.f[i%rb+(j%cb)*rb];
            /* matrix a of the vector is (K rows) x (N rows), first index fastest */
            double c=mat[(i/rb)+(i%rb)*ra];ww+=c*m1_inner(a,b);gg+=fabs(c)*sqrt(fabs(m1_inner(a,a)*m1_inner(b,b)));}
        size_t jk=j/cb,jn=j%cb;CLOSE("vec-kron-int",vi[jk+jn*ca],ww,1e-9*gg+1e-12+ch*(1+gg)*8);}
    free(vi);qmarray_free(vk);
    qmarray_free(mk);qmarray_free(km);
    same("input-changed",&A);same("input-changed",&B);same("input-changed",&K);same("input-changed",&N);
    qmarray_free(c1);qmarray_free(c2);qmarray_free(c3);qmarray_free(c4);
    qa_free(&A);qa_free(&B);qa_free(&At);qa_free(&Bt);qa_free(&K);qa_free(&N);sp_free(s);
}
CASE(qm_blocks,"P10",40,900,0){ /* block matrices (diagonal, row, column) in Kronecker products */
    struct sp*s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_PW));size_t nb=vr_big(1,3,6);int left=vr_chance(0.5);char type="DRC"[vr_int(0,2)];
    struct qa B[QN];QA*bq[QN];size_t cr=vr_big(1,2,5),cc=vr_big(1,2,5);size_t TR=0,TC=0;
    for(size_t i=0;i<nb;i++){size_t a=type=='R'?cr:vr_big(1,2,4),b=type=='C'?cc:vr_big(1,2,4);B[i]=qa_rand(s,a,b,0);bq[i]=B[i].q;TR+=a;TC+=b;}
    if(type=='R')TR=cr;if(type=='C')TC=cc;
    size_t rr=vr_big(1,2,5),rc=vr_big(1,2,5),e=vr_big(1,3,9);struct qa N=qa_rand(s,rr,rc,0);
    while(TR*rr*TC*rc>QW||e*TR*rr>QW||e*TC*rc>QW){qa_free(&N);rr=rc=1;e=1;N=qa_rand(s,rr,rc,0);if(TR*TC>QW)break;}size_t R0=TR*rr,C0=TC*rc;double mat[QW];for(int i=0;i<QW;i++)mat[i]=vr_norm();
    QA*out=left?qmarray_alloc(e,C0):qmarray_alloc(R0,e);
    vh_sig("%s %c%d nb%zu e%zu",tname[s->t],type,left,nb,e);
    qmarray_block_kron_mat(type,left,nb,bq,N.q,e,mat,out);
    double L[QW],LG[QW],K[QW],KG[QW],w[QW],g[QW],v[QS],m[QS],ma[QW];for(int i=0;i<QW;i++)ma[i]=fabs(mat[i]);
    for(int k=0;k<3;k++){double x=px(s);memset(L,0,sizeof L);memset(LG,0,sizeof LG);size_t ro=0,co=0;
        for(size_t i=0;i<nb;i++){qa_dense(&B[i],x,v,m);for(size_t a=0;a<B[i].nr;a++)for(size_t b=0;b<B[i].nc;b++){L[ro+a+(co+b)*TR]=v[a+b*B[i].nr];LG[ro+a+(co+b)*TR]=m[a+b*B[i].nr];}
            if(type!='R')ro+=B[i].nr;if(type!='C')co+=B[i].nc;}
        qa_dense(&N,x,v,m);
        for(size_t i=0;i<R0;i++)for(size_t j=0;j<C0;j++){K[i+j*R0]=L[i/rr+(j/rc)*TR]*v[i%rr+(j%rc)*rr];KG[i+j*R0]=LG[i/rr+(j/rc)*TR]*m[i%rr+(j%rc)*rr];}
        if(left){mm(0,0,e,C0,R0,mat,e,K,R0,w);mm(0,0,e,C0,R0,ma,e,KG,R0,g);cmp("block-left",out,e,C0,x,w,g,1e-9);}
        else{mm(0,0,R0,e,C0,K,R0,mat,C0,w);mm(0,0,R0,e,C0,KG,R0,ma,C0,g);cmp("block-right",out,R0,e,x,w,g,1e-9);}}
    for(size_t i=0;i<nb;i++){same("input-changed",&B[i]);qa_free(&B[i]);}
    same("input-changed",&N);qmarray_free(out);qa_free(&N);sp_free(s);
}
/* ------------------------------------------------------------------ decompositions */
static double dotq(const struct rule*r,QA*q,int rows,size_t i,size_t j){
    double w=0;size_t n=rows?q->ncols:q->nrows;
    for(size_t k=0;k<n;k++){GF*a=rows?q->funcs[i+k*q->nrows]:q->funcs[k+i*q->nrows],*b=rows?q->funcs[j+k*q->nrows]:q->funcs[k+j*q->nrows];
        for(size_t p=0;p<r->n;p++)w+=r->w[p]*generic_function_1d_eval(a,r->x[p])*generic_function_1d_eval(b,r->x[p]);}
    return w;
}
static void orthonormal(const char*key,struct sp*s,QA*q,int rows,double tol){
    struct sp*sv[1]={s};struct rule*r=rules_make(sv,1,24);size_t n=rows?q->nrows:q->ncols;
    for(size_t i=0;i<n;i++)for(size_t j=0;j<=i;j++)CLOSE(key,dotq(r,q,rows,i,j),i==j,tol);
    rules_free(r,1);
}
static double qnorm(const struct qa*a){double n=0;for(size_t i=0;i<a->nr*a->nc;i++)n+=fabs(m1_inner(a->f+i,a->f+i));return sqrt(n);}
static double gmax(const struct sp*s,const struct qa*a){double m=0;for(int k=0;k<=8;k++)for(size_t i=0;i<a->nr*a->nc;i++)m=dmax(m,m1_mag(a->f+i,s->lb+(s->ub-s->lb)*k/8.));return m;}
#define DECT (M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_HERM))
static struct sp*dec_space(void){struct sp*s;do{s=sp_rand(DECT);if(s->n<=20)break;sp_free(s);}while(1);return s;}
/* size of point values a function of unit norm can have in this space: converts norm errors into point errors */
static double amp(const struct sp*s){double wmin=1;if(s->t==T_LIN||s->t==T_CONST){wmin=1e300;for(size_t i=0;i+1<s->n;i++)wmin=dmin(wmin,0.5*(s->x[i+1]-s->x[i]));}
    else if(s->t==T_LEG)wmin=(s->ub-s->lb)/200.;else wmin=1e-8;return 1/sqrt(wmin);}
CASE(qm_qr,"P10 P04",60,1500,0){
    struct sp*s=dec_space();int lq=vr_chance(0.5),api=(int)vr_int(0,1);size_t nr=vr_big(1,4,9),nc=vr_big(1,4,9);
    if(lq){while(nr>nc*s->maxn)nr--;}else while(nc>nr*s->maxn)nc--;
    struct qa A=qa_rand(s,nr,nc,1);size_t n=lq?nr:nc;
    vh_sig("%s %s api%d %zux%zu",tname[s->t],lq?"LQ":"QR",api,nr,nc);
    double*R=calloc(n*n,8);QA*C=qmarray_copy(A.q),*Q=NULL;
    if(api==0)Q=qmarray_householder_simple(lq?"LQ":"QR",C,R,s->o);
    else {int st=lq?qmarray_lq(C,&Q,&R,s->o):qmarray_qr(C,&Q,&R,s->o);EQZ("status",st,0);}
    double nn=qnorm(&A);
    orthonormal(lq?"lq-orthonormal":"qr-orthonormal",s,Q,lq,1e-8);
    for(size_t j=0;j<n;j++)for(size_t i=0;i<n;i++)if(lq?i<j:i>j)CLOSE("triangular",R[i+j*n],0,1e-9*nn+1e-14);
    QA*P=lq?mqma(R,Q,n):qmam(Q,R,n);double v[QS],m[QS];
    for(int k=0;k<4;k++){double x=sp_x(s);qa_dense(&A,x,v,m);for(size_t i=0;i<nr*nc;i++)m[i]=1e-9*(m[i]+nn*amp(s)+gmax(s,&A));cmp(lq?"lq-product":"qr-product",P,nr,nc,x,v,m,1);}
    free(R);qmarray_free(C);qmarray_free(Q);qmarray_free(P);qa_free(&A);sp_free(s);
}
CASE(qm_qr_pw,"P10",20,400,0){ /* piecewise functions use their own Householder sweep */
    struct sp*s=sp_make(T_PW,-1,vr_chance(0.5)?1:2,vr_int(2,3));int lq=vr_chance(0.5);size_t nr=vr_big(1,3,7),nc=vr_big(1,3,7);
    struct qa A=qa_rand(s,nr,nc,0);size_t n=lq?nr:nc;vh_sig("%s %zux%zu n%zu",lq?"LQ":"QR",nr,nc,s->n);
    double*R=calloc(n*n,8);QA*C=qmarray_copy(A.q),*Q=qmarray_householder_simple(lq?"LQ":"QR",C,R,s->o);double nn=qnorm(&A);
    double*G=lq?qmaqmat_integrate(Q,Q):qmatqma_integrate(Q,Q);
    /* (nearly) dependent columns leave an arbitrary basis vector: orthonormality is judged only when the columns are independent */
    double piv=1;{double g[QS];for(size_t j=0;j<n;j++)for(size_t i=0;i<n;i++){double w=0;for(size_t k=0;k<(lq?nc:nr);k++)w+=m1_inner(lq?&A.f[i+k*nr]:&A.f[k+i*nr],lq?&A.f[j+k*nr]:&A.f[k+j*nr]);g[i+j*n]=w;}
        double dg[QN];for(size_t i=0;i<n;i++)dg[i]=g[i+i*n];
        for(size_t j=0;j<n;j++){piv=dmin(piv,dg[j]>0?g[j+j*n]/dg[j]:0);if(!(piv>1e-3))break;for(size_t i=j+1;i<n;i++){double f=g[i+j*n]/g[j+j*n];for(size_t k=j;k<n;k++)g[i+k*n]-=f*g[j+k*n];}}}
    if(piv>1e-3){vh_hit("independent");for(size_t j=0;j<n;j++)for(size_t i=0;i<n;i++)CLOSE("pw-orthonormal",G[i+j*n],i==j,1e-7);}
    QA*P=lq?mqma(R,Q,n):qmam(Q,R,n);double v[QS],m[QS];
    for(int k=0;k<4;k++){double x=sp_x(s);qa_dense(&A,x,v,m);for(size_t i=0;i<nr*nc;i++)m[i]=1e-7*(m[i]+nn*10);cmp("pw-product",P,nr,nc,x,v,m,1);}
    free(G);free(R);qmarray_free(C);qmarray_free(Q);qmarray_free(P);qa_free(&A);sp_free(s);
}
CASE(qm_gs,"P10",40,900,0){ /* Gram-Schmidt variants work in place */
    struct sp*s=dec_space();int lq=vr_chance(0.5);size_t nr=vr_big(1,4,9),nc=vr_big(1,4,9);
    if(lq){while(nr>nc*s->maxn)nr--;}else while(nc>nr*s->maxn)nc--;
    struct qa A=qa_rand(s,nr,nc,0);size_t n=lq?nr:nc;vh_sig("%s %s %zux%zu",tname[s->t],lq?"LQ":"QR",nr,nc);
    double nn=qnorm(&A);struct sp*sv[1]={s};struct rule*r=rules_make(sv,1,24);
    /* only well-conditioned arrays: check the Gram determinant through Cholesky */
    double G[QS],cond=1;for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++)G[i+j*n]=dotq(r,A.q,lq,i,j);
    for(size_t k=0;k<n;k++){double d0=dotq(r,A.q,lq,k,k);for(size_t p=0;p<k;p++)G[k+k*n]-=G[k+p*n]*G[k+p*n];if(!(G[k+k*n]>1e-6*d0)||d0<1e-6){cond=0;break;}double d=sqrt(G[k+k*n]);G[k+k*n]=d;for(size_t i=k+1;i<n;i++){for(size_t p=0;p<k;p++)G[i+k*n]-=G[i+p*n]*G[k+p*n];G[i+k*n]/=d;}}
    if(cond>0){double*R=NULL;QA*C=qmarray_copy(A.q);int st=lq?qmarray_lq_gs(C,&R):qmarray_qr_gs(C,&R);EQZ("status",st,0);vh_hit("qm:gs");
        orthonormal("gs-orthonormal",s,C,lq,1e-6);
        QA*P=lq?mqma(R,C,n):qmam(C,R,n);double v[QS],m[QS];
        for(int k=0;k<4;k++){double x=sp_x(s);qa_dense(&A,x,v,m);for(size_t i=0;i<nr*nc;i++)m[i]=1e-9*(m[i]+nn*amp(s)+gmax(s,&A));cmp("gs-product",P,nr,nc,x,v,m,1);}
        free(R);qmarray_free(C);qmarray_free(P);}
    rules_free(r,1);qa_free(&A);sp_free(s);
}
CASE(qm_svd,"P10 P04",40,900,0){
    struct sp*s=dec_space();size_t nr=vr_big(1,4,9),nc=vr_big(1,4,9);while(nc>nr*s->maxn)nc--;
    struct qa A=qa_rand(s,nr,nc,1);double nn=qnorm(&A);QA*U=NULL,*C=qmarray_copy(A.q);double lam[QN],vt[QS];
    vh_sig("%s %zux%zu",tname[s->t],nr,nc);
    int st=qmarray_svd(C,&U,lam,vt,s->o);EQZ("status",st,0);
    orthonormal("svd-orthonormal",s,U,0,1e-8);
    for(size_t i=0;i<nc;i++){TRUE_("svd-order",lam[i]>=-1e-14&&(i==0||lam[i]<=lam[i-1]*(1+1e-12)));for(size_t j=0;j<nc;j++){double w=0;for(size_t k=0;k<nc;k++)w+=vt[i+k*nc]*vt[j+k*nc];CLOSE("svd-vt",w,i==j,1e-10);}}
    double n2=0;for(size_t i=0;i<nc;i++)n2+=lam[i]*lam[i];CLOSE("svd-norm",sqrt(n2),nn,1e-9*nn+1e-13);
    double M2[QS];for(size_t i=0;i<nc;i++)for(size_t j=0;j<nc;j++)M2[i+j*nc]=lam[i]*vt[i+j*nc];
    QA*P=qmam(U,M2,nc);double v[QS],m[QS];
    for(int k=0;k<3;k++){double x=sp_x(s);qa_dense(&A,x,v,m);for(size_t i=0;i<nr*nc;i++)m[i]=1e-9*(m[i]+nn*amp(s)+gmax(s,&A));cmp("svd-product",P,nr,nc,x,v,m,1);}
    /* truncated: the discarded energy is at most delta, and one rank less would discard more */
    double delta=nn*nn*pow(10,-vr_unif(0,10));double*tl=NULL,*tv=NULL;QA*TU=NULL,*C2=qmarray_copy(A.q);
    size_t rk=qmarray_truncated_svd(C2,&TU,&tl,&tv,delta,s->o);
    TRUE_("tsvd-rank",rk>=1&&rk<=nc);EQZ("tsvd-cols",TU->ncols,rk);
    double tail=0;for(size_t i=rk;i<nc;i++)tail+=lam[i]*lam[i];
    TRUE_("tsvd-discarded",tail<=delta*(1+1e-9)+1e-13*nn*nn);
    if(rk>1)TRUE_("tsvd-minimal",tail+lam[rk-1]*lam[rk-1]>=delta*(1-1e-9)-1e-13*nn*nn);
    for(size_t i=0;i<rk;i++)CLOSE("tsvd-values",tl[i],lam[i],1e-9*nn+1e-13);
    orthonormal("tsvd-orthonormal",s,TU,0,1e-8);
    free(tl);free(tv);qmarray_free(TU);qmarray_free(C2);qmarray_free(P);qmarray_free(U);qmarray_free(C);qa_free(&A);sp_free(s);
}
CASE(qm_lu,"P10 P06",40,900,0){ /* pivoted elimination and maximum-volume points */
    struct sp*s;do{s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_LEG));if(s->n<=20)break;sp_free(s);}while(1);
    size_t nr=vr_big(1,4,9),nc=vr_big(1,4,9);while(nc>nr*s->maxn)nc--;
    struct qa A=qa_rand(s,nr,nc,0);double nn=qnorm(&A);
    double nodes[QS];size_t nk=0;struct c3Vector*cv=NULL;
    if(s->t!=T_LEG){for(size_t i=0;i<s->n&&i<QS;i++)nodes[nk++]=s->x[i];if(vr_chance(0.5)&&s->n<=QS)cv=c3vector_alloc(nk,nodes);}
    vh_sig("%s %zux%zu o%d",tname[s->t],nr,nc,cv!=NULL);
    double R[QS]={0};QA*C=qmarray_copy(A.q),*Q=qmarray_householder_simple("QR",C,R,s->o);
    QA*W=qmarray_copy(Q),*L=qmarray_alloc(nr,nc);double u[QS];size_t piv[QN];double pxx[QN];
    int info=qmarray_lu1d(W,L,u,piv,pxx,s->o,cv);
    TRUE_("lu-info",info<=0);
    for(size_t k=0;k<nc;k++){TRUE_("lu-pivot",piv[k]<nr&&pxx[k]>=s->lb-1e-12&&pxx[k]<=s->ub+1e-12);
        CLOSE("lu-unit",generic_function_1d_eval(L->funcs[piv[k]+k*nr],pxx[k]),1,1e-9);
        for(size_t z=0;z<k;z++)CLOSE("lu-zero",generic_function_1d_eval(L->funcs[piv[z]+k*nr],pxx[z]),0,1e-6);
        for(size_t j=0;j<k;j++)CLOSE("lu-upper",u[j*nc+k],0,1e-7*amp(s));}
    QA*P=qmam(L,u,nc);double v[QS],o[QS];
    for(int k=0;k<3;k++){double x=sp_x(s);qmarray_eval(Q,x,v);qmarray_eval(P,x,o);for(size_t i=0;i<nr*nc;i++){CLOSE("lu-product",o[i],v[i],1e-7*amp(s));vh_obs(o[i]);}}
    /* maximum volume: interpolates at the pivots, coefficients bounded */
    double inv[QS];size_t pi[QN];double pp[QN];QA*Q2=qmarray_copy(Q);
    int mi=qmarray_maxvol1d(Q2,inv,pi,pp,s->o,cv);
    {double a[QS],b[QS];double x=sp_x(s);qmarray_eval(Q2,x,a);qmarray_eval(Q,x,b);SAMEBYTES("maxvol-input",a,b,8*nr*nc);}
    if(mi==0&&nn>1e-6){vh_hit("qm:maxvol");QA*B=qmam(Q,inv,nc);
        for(size_t k=0;k<nc;k++){TRUE_("maxvol-pivot",pi[k]<nr&&pp[k]>=s->lb-1e-12&&pp[k]<=s->ub+1e-12);
            for(size_t j=0;j<nc;j++)CLOSE("maxvol-interp",generic_function_1d_eval(B->funcs[pi[k]+j*nr],pp[k]),j==k,1e-6);}
        double mx=0;for(int k=0;k<20;k++){double x=sp_x(s);qmarray_eval(B,x,o);for(size_t i=0;i<nr*nc;i++)mx=dmax(mx,fabs(o[i]));}
        TRUE_("maxvol-dominant",mx<=2.5);
        double xm=NAN,vm=NAN;size_t rm=99,cm=99;qmarray_absmax1d(B,&xm,&rm,&cm,&vm,cv);TRUE_("absmax-index",rm<nr&&cm<nc);
        if(rm<nr&&cm<nc)CLOSE("absmax-attained",fabs(generic_function_1d_eval(B->funcs[rm+cm*nr],xm)),vm,1e-9*(1+vm));
        if(s->t!=T_LEG)TRUE_("absmax-max",vm>=mx*(1-1e-9));
        qmarray_free(B);}
    qmarray_free(C);qmarray_free(Q);qmarray_free(Q2);qmarray_free(W);qmarray_free(L);qmarray_free(P);if(cv)c3vector_free(cv);qa_free(&A);sp_free(s);
}
CASE(qm_quasi,"P10",40,900,0){ /* single-row quasimatrices */
    struct sp*s;do{s=sp_rand(M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_HERM));if(s->n<=20)break;sp_free(s);}while(1);
    size_t n=vr_big(1,4,9);while(n>s->maxn)n--;size_t b=vr_big(1,3,9);
    struct m1 f[QN],h[QN];QM*A=quasimatrix_alloc(n),*B=quasimatrix_alloc(n);
    for(size_t i=0;i<n;i++){f[i]=m1_rand(s);h[i]=m1_rand(s);GF*g=m1_gf(f+i);quasimatrix_set_func(A,g,i);generic_function_free(g);g=m1_gf(h+i);quasimatrix_set_func(B,g,i);generic_function_free(g);}
    vh_sig("%s n%zu b%zu",tname[s->t],n,b);
    double R[QS],Rt[QS],c=vr_norm(),d=vr_norm();for(int i=0;i<QS;i++){R[i]=vr_norm();Rt[i]=vr_norm();}
    QM*P=qmm(A,R,b),*T=qmmt(A,Rt,b),*D=quasimatrix_daxpby(c,A,d,B),*D1=quasimatrix_daxpby(c,A,d,NULL),*D2=quasimatrix_daxpby(c,NULL,d,B),*K=quasimatrix_copy(A);GF*qv=qmv(A,R);
    for(int k=0;k<3;k++){double x=sp_x(s);
        for(size_t j=0;j<b;j++){double w=0,m=0,w2=0,m2=0;for(size_t i=0;i<n;i++){double e=m1_eval(f+i,x),g=m1_mag(f+i,x);w+=R[i+j*n]*e;m+=fabs(R[i+j*n])*g;w2+=Rt[i*b+j]*e;m2+=fabs(Rt[i*b+j])*g;}
            CLOSE("qmm",generic_function_1d_eval(quasimatrix_get_func(P,j),x),w,1e-11*m+1e-12);CLOSE("qmmt",generic_function_1d_eval(quasimatrix_get_func(T,j),x),w2,1e-11*m2+1e-12);
            if(j==0)CLOSE("qmv",generic_function_1d_eval(qv,x),w,1e-11*m+1e-12);}
        for(size_t i=0;i<n;i++){double e=m1_eval(f+i,x),g=m1_eval(h+i,x),m=m1_mag(f+i,x)+m1_mag(h+i,x);
            CLOSE("daxpby",generic_function_1d_eval(quasimatrix_get_func(D,i),x),c*e+d*g,1e-11*m+1e-12);
            CLOSE("daxpby-x",generic_function_1d_eval(quasimatrix_get_func(D1,i),x),c*e,1e-11*m+1e-12);
            CLOSE("daxpby-y",generic_function_1d_eval(quasimatrix_get_func(D2,i),x),d*g,1e-11*m+1e-12);
            CLOSE("copy",generic_function_1d_eval(quasimatrix_get_func(K,i),x),e,1e-11*m+1e-12);}}
    double in=0,mg=0,n2=0;for(size_t i=0;i<n;i++){in+=m1_inner(f+i,h+i);n2+=m1_inner(f+i,f+i);mg+=fabs(m1_inner(f+i,f+i))+fabs(m1_inner(h+i,h+i));}
    CLOSE("inner",quasimatrix_inner(A,B),in,1e-9*mg+1e-12);CLOSE("norm",quasimatrix_norm(A),sqrt(fabs(n2)),1e-9*sqrt(mg)+1e-12);
    if(s->t!=T_HERM){double x=NAN,v=NAN;size_t col=quasimatrix_absmax(A,&x,&v,NULL);TRUE_("absmax-col",col<n);
        if(col<n)CLOSE("absmax-at",fabs(generic_function_1d_eval(quasimatrix_get_func(A,col),x)),v,1e-9*(v+1e-6));
        for(int k=0;k<6;k++){double y=sp_x(s);for(size_t i=0;i<n;i++)TRUE_("absmax-max",fabs(m1_eval(f+i,y))<=v*(1+1e-6)+1e-9);}}
    /* QR */
    double RR[QS]={0};QM*Q=quasimatrix_householder_simple(K,RR,s->aopts);struct sp*sv[1]={s};struct rule*r=rules_make(sv,1,24);
    for(size_t i=0;i<n;i++)for(size_t j=0;j<=i;j++){double w=0;for(size_t p=0;p<r->n;p++)w+=r->w[p]*generic_function_1d_eval(quasimatrix_get_func(Q,i),r->x[p])*generic_function_1d_eval(quasimatrix_get_func(Q,j),r->x[p]);CLOSE("qr-orthonormal",w,i==j,1e-6);}
    QM*QR=qmm(Q,RR,n);double nn=sqrt(fabs(n2));
    for(int k=0;k<3;k++){double x=sp_x(s);double gm=0;for(size_t i=0;i<n;i++)gm+=m1_mag(f+i,x);for(size_t i=0;i<n;i++)CLOSE("qr-product",generic_function_1d_eval(quasimatrix_get_func(QR,i),x),m1_eval(f+i,x),1e-7*(gm+nn*amp(s)));}
    /* maximum volume points of the orthonormal factor */
    if(s->t!=T_HERM){double inv[QS],p[QN];int info=quasimatrix_maxvol1d(Q,inv,p,s->aopts,NULL);
        if(info==0){vh_hit("qm:quasi-maxvol");QM*E=qmm(Q,inv,n);for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++)CLOSE("maxvol-interp",generic_function_1d_eval(quasimatrix_get_func(E,j),p[i]),i==j,1e-6);
            for(int k=0;k<10;k++){double x=sp_x(s);for(size_t j=0;j<n;j++)TRUE_("maxvol-dominant",fabs(generic_function_1d_eval(quasimatrix_get_func(E,j),x))<=1.0101);}quasimatrix_free(E);}}
    /* elimination with one pivot per column */
    if(s->t!=T_HERM){QM*W=quasimatrix_copy(Q),*Lq=quasimatrix_alloc(n);double u[QS],p[QN];int info=quasimatrix_lu1d(W,Lq,u,p,s->aopts,NULL);
        if(info==0){vh_hit("qm:quasi-lu");for(size_t k=0;k<n;k++){TRUE_("lu-pivot",p[k]>=s->lb-1e-12&&p[k]<=s->ub+1e-12);CLOSE("lu-unit",generic_function_1d_eval(quasimatrix_get_func(Lq,k),p[k]),1,1e-9);
            for(size_t z=0;z<k;z++){CLOSE("lu-zero",generic_function_1d_eval(quasimatrix_get_func(Lq,k),p[z]),0,1e-6);CLOSE("lu-upper",u[z*n+k],0,1e-7*amp(s));}}
            QM*LU=qmm(Lq,u,n);for(int k=0;k<3;k++){double x=sp_x(s);for(size_t i=0;i<n;i++)CLOSE("lu-product",generic_function_1d_eval(quasimatrix_get_func(LU,i),x),generic_function_1d_eval(quasimatrix_get_func(Q,i),x),1e-7*amp(s));}quasimatrix_free(LU);}
        else TRUE_("lu-full-rank",info==0);
        quasimatrix_free(W);quasimatrix_free(Lq);
        if(s->t==T_LEG){EQZ("rank",quasimatrix_rank(Q,s->aopts),n);size_t bb=n<b?n:b;QM*Y=qmm(Q,R,bb);if(bb==1)EQZ("rank",quasimatrix_rank(Y,s->aopts),fabs(R[0])+fabs(R[n-1])>1e-6);quasimatrix_free(Y);}}
    rules_free(r,1);quasimatrix_free(Q);quasimatrix_free(QR);quasimatrix_free(A);quasimatrix_free(B);quasimatrix_free(P);quasimatrix_free(T);quasimatrix_free(D);quasimatrix_free(D1);quasimatrix_free(D2);quasimatrix_free(K);generic_function_free(qv);
    for(size_t i=0;i<n;i++){m1_free(f+i);m1_free(h+i);}sp_free(s);
}
