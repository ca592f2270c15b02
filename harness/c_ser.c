/* Binary and text round trips of functions, arrays of functions, trains; files under faults. */
#include <unistd.h>
#include "model.h"
typedef struct GenericFunction GF;typedef struct Qmarray QA;typedef struct FunctionTrain FT;
#define ALLT (M(T_LIN)|M(T_CONST)|M(T_KER)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_FOUR)|M(T_PW))
#define TXTT (M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_PW))
#define CALT (M(T_LIN)|M(T_CONST)|M(T_LEG)|M(T_CHEB)|M(T_HERM)|M(T_PW)|M(T_KER))
static int inner_ok(const struct sp*s){return s->t!=T_FOUR&&!(s->t==T_LIN&&s->n<3);}
static void gf_same(const char*key,const struct sp*s,GF*a,GF*b,double tol){
    EQZ(key,b->fc,a->fc);EQZ(key,b->dim,a->dim);
    for(int k=0;k<6;k++){double x=sp_x(s),v=generic_function_1d_eval(a,x);CLOSE(key,generic_function_1d_eval(b,x),v,tol);}
    CLOSE(key,generic_function_get_lb(b),generic_function_get_lb(a),tol);CLOSE(key,generic_function_get_ub(b),generic_function_get_ub(a),tol);
    if(tol==0){
        if(s->t!=T_FOUR)CLOSE("reloaded-integral",generic_function_integrate(b),generic_function_integrate(a),0);
        if(inner_ok(s)){double n=generic_function_inner(a,a);CLOSE("reloaded-inner",generic_function_inner(b,b),n,0);CLOSE("reloaded-cross-inner",generic_function_inner(a,b),n,1e-12*fabs(n));}
        if(s->t!=T_FOUR&&s->t!=T_PW)EQZ("reloaded-params",generic_function_get_num_params(b),generic_function_get_num_params(a));
        GF*c=generic_function_copy(b);generic_function_scale(2,c);double x=sp_x(s);CLOSE("reloaded-usable",generic_function_1d_eval(c,x),2*generic_function_1d_eval(a,x),1e-13*fabs(generic_function_1d_eval(a,x))+1e-300);generic_function_free(c);
    }
}
CASE(ser_func,"P07",80,2000,0){
    struct sp*s=sp_rand(ALLT);struct m1 f=m1_rand(s),f2=m1_rand(s);GF*a=m1_gf(&f),*a2=m1_gf(&f2);
    double sc=vr_chance(0.4)?pow(10,vr_unif(-60,60)):1;if(sc!=1)generic_function_scale(sc,a);
    vh_sig("%s n%zu sc%d",tname[s->t],s->n,sc!=1);
    size_t n1=0,n2=0;serialize_generic_function(NULL,a,&n1);serialize_generic_function(NULL,a2,&n2);
    unsigned char*buf=malloc(n1+n2),*p=serialize_generic_function(buf,a,NULL);EQZ("size",p-buf,n1);p=serialize_generic_function(p,a2,NULL);EQZ("size",p-buf,n1+n2);
    GF*b=NULL,*b2=NULL;p=deserialize_generic_function(buf,&b);EQZ("consumed",p-buf,n1);p=deserialize_generic_function(p,&b2);EQZ("consumed",p-buf,n1+n2);
    gf_same("binary",s,a,b,0);gf_same("binary",s,a2,b2,0);
    unsigned char*again=malloc(n1);serialize_generic_function(again,b,NULL);SAMEBYTES("stable-bytes",again,buf,n1);
    free(again);free(buf);generic_function_free(b);generic_function_free(b2);
    for(int k=0;k<2;k++){double x=sp_x(s);CLOSE("input-changed",generic_function_1d_eval(a2,x),m1_eval(&f2,x),1e-11*m1_mag(&f2,x)+1e-13);}
    if(M(s->t)&TXTT){ size_t prec=vr_int(12,24);char*path=vh_path("f.txt");FILE*w=fopen(path,"w");generic_function_savetxt(a2,w,prec);generic_function_savetxt(a2,w,prec);fclose(w);
        FILE*r=fopen(path,"r");for(int q=0;q<2;q++){b=generic_function_loadtxt(r);double e=prec>=17?0:pow(10,-(double)prec+1);double mg=0;for(int k=0;k<=20;k++)mg=dmax(mg,m1_mag(&f2,s->lb+(s->ub-s->lb)*k/20.));
            double kap=1+(fabs(s->lb)+fabs(s->ub))/(s->ub-s->lb)*100;if(s->x)for(size_t i=0;i+1<s->n;i++)kap=dmax(kap,(fabs(s->lb)+fabs(s->ub))/(s->x[i+1]-s->x[i])*10);
            if(e==0)gf_same("text-exact",s,a2,b,0);else {for(int k=0;k<6;k++){double x=s->lb+(s->ub-s->lb)*vr_unif(0.01,0.99);int near=0;
                if(s->t==T_CONST||s->t==T_PW)for(size_t i=0;i<s->n;i++){double m=s->t==T_PW?s->x[i]:i+1<s->n?0.5*(s->x[i]+s->x[i+1]):s->x[i];if(fabs(x-m)<1e-6*(s->ub-s->lb))near=1;}
                if(!near)CLOSE("text",generic_function_1d_eval(b,x),generic_function_1d_eval(a2,x),e*mg*kap*50);}}
            generic_function_free(b);}
        fclose(r);unlink(path);}
    generic_function_free(a);generic_function_free(a2);m1_free(&f);m1_free(&f2);sp_free(s);
}
static FT*ft_rand(struct sp***s,size_t*d,unsigned types){*d=vr_big(1,5,12);*s=spv_rand(*d,types,vr_chance(0.6));struct mft*m=mft_rand(*s,*d,3);FT*f=mft_ft(m);mft_free(m);return f;}
static void ft_same(const char*key,struct sp**s,size_t d,FT*a,FT*b,double tol,int calc){
    ft_wellformed(key,b,d);for(size_t k=0;k<=d;k++)EQZ(key,b->ranks[k],a->ranks[k]);
    double*x=malloc(8*d);for(int k=0;k<5;k++){spv_x(s,d,x);double mg,v=ft_eval_ref(a,x,&mg);(void)v;CLOSE(key,function_train_eval(b,x),function_train_eval(a,x),tol*mg);}
    if(calc&&tol==0){double n=function_train_inner(a,a);CLOSE("reloaded-norm",function_train_inner(b,b),n,0);CLOSE("reloaded-integral",function_train_integrate(b),function_train_integrate(a),0);}
    free(x);
}
static int calc_ok(struct sp**s,size_t d){for(size_t k=0;k<d;k++)if(!inner_ok(s[k])||s[k]->t==T_FOUR)return 0;return 1;}
CASE(ser_train,"P07 P08",60,1500,0){
    size_t d,d2;struct sp**s,**s2;FT*a=ft_rand(&s,&d,ALLT),*c=ft_rand(&s2,&d2,ALLT);vh_sig("d%zu,%zu",d,d2);
    size_t n=0,m=0,q=0;function_train_serialize(NULL,a,&n);function_train_serialize(NULL,c,&m);qmarray_serialize(NULL,a->cores[d-1],&q);
    unsigned char*buf=malloc(n+m+q),*p=function_train_serialize(buf,a,NULL);EQZ("size",p-buf,n);p=function_train_serialize(p,c,NULL);p=qmarray_serialize(p,a->cores[d-1],NULL);EQZ("size",p-buf,n+m+q);
    FT*b=NULL,*e=NULL;QA*qq=NULL;p=function_train_deserialize(buf,&b);EQZ("consumed",p-buf,n);p=function_train_deserialize(p,&e);EQZ("consumed",p-buf,n+m);p=qmarray_deserialize(p,&qq);EQZ("consumed",p-buf,n+m+q);
    ft_same("train",s,d,a,b,0,calc_ok(s,d));ft_same("train",s2,d2,c,e,0,0);
    EQZ("array-rows",qq->nrows,a->cores[d-1]->nrows);EQZ("array-cols",qq->ncols,a->cores[d-1]->ncols);
    for(size_t i=0;i<qq->nrows*qq->ncols;i++)gf_same("array",s[d-1],a->cores[d-1]->funcs[i],qq->funcs[i],0);
    unsigned char*again=malloc(n);function_train_serialize(again,b,NULL);SAMEBYTES("stable-bytes",again,buf,n);free(again);free(buf);
    /* one-row view */
    struct Quasimatrix*row=qmarray_extract_row(a->cores[0],0),*r2=NULL;size_t rn=0;quasimatrix_serialize(NULL,row,&rn);buf=malloc(rn);p=quasimatrix_serialize(buf,row,NULL);EQZ("size",p-buf,rn);p=quasimatrix_deserialize(buf,&r2);EQZ("consumed",p-buf,rn);
    EQZ("row-size",quasimatrix_get_size(r2),quasimatrix_get_size(row));for(size_t i=0;i<quasimatrix_get_size(row);i++)gf_same("row",s[0],quasimatrix_get_func(row,i),quasimatrix_get_func(r2,i),0);
    quasimatrix_free(row);quasimatrix_free(r2);free(buf);
    qmarray_free(qq);function_train_free(a);function_train_free(b);function_train_free(c);function_train_free(e);spv_free(s,d);spv_free(s2,d2);
}
CASE(ser_file,"P07",40,900,0){
    size_t d;struct sp**s;FT*a=ft_rand(&s,&d,ALLT);size_t na=vr_chance(0.3)?vr_int(4,12):vr_int(1,3);struct FT1DArray*arr=ft1d_array_alloc(na);
    for(size_t i=0;i<na;i++){if(vr_chance(0.6)){struct mft*mm=mft_rand(s,d,4);arr->ft[i]=mft_ft(mm);mft_free(mm);}else{arr->ft[i]=function_train_copy(a);function_train_scale(arr->ft[i],1.0+(double)i);}}
    vh_sig("d%zu n%zu",d,na);char*path=vh_path("t.c3"),*pa=vh_path("ta.c3");
    for(int rep=0;rep<1+(int)vr_chance(0.3);rep++){ /* saving twice to the same name replaces the file */
        EQZ("save",function_train_save(a,path),1);EQZ("save",ft1d_array_save(arr,pa),1);}
    FT*b=function_train_load(path);TRUE_("load",b!=NULL);if(b)ft_same("file",s,d,a,b,0,calc_ok(s,d));function_train_free(b);
    struct FT1DArray*a2=ft1d_array_load(pa);TRUE_("load-array",a2!=NULL);if(a2){EQZ("array-size",a2->size,na);for(size_t i=0;i<na&&i<a2->size;i++)ft_same("file-array",s,d,arr->ft[i],a2->ft[i],0,0);}ft1d_array_free(a2);
    /* faults: cut files, missing files, full device */
    for(int q=0;q<3;q++){FILE*f=fopen(path,"r");fseek(f,0,SEEK_END);long n=ftell(f);fclose(f);if(n<1)break;long cut=vr_chance(0.3)?n-1:(long)vr_int(0,(size_t)n-1);if(truncate(path,cut))break;b=function_train_load(path);if(b)vh_fail("cut-file","a file cut to %ld of %ld bytes was loaded",cut,n);function_train_free(b);
        f=fopen(pa,"r");fseek(f,0,SEEK_END);n=ftell(f);fclose(f);if(n<1)break;cut=vr_chance(0.3)?n-1:(long)vr_int(0,(size_t)n-1);if(truncate(pa,cut))break;a2=ft1d_array_load(pa);if(a2)vh_fail("cut-array-file","%ld of %ld",cut,n);ft1d_array_free(a2);}
    unlink(path);unlink(pa);b=function_train_load(path);TRUE_("missing",b==NULL);a2=ft1d_array_load(pa);TRUE_("missing-array",a2==NULL);
    EQZ("full-device",function_train_save(a,(char*)"/dev/full"),0);EQZ("full-device-array",ft1d_array_save(arr,(char*)"/dev/full"),0);
    EQZ("unwritable",function_train_save(a,(char*)"/proc/nonexistent/x"),0);EQZ("unwritable-array",ft1d_array_save(arr,(char*)"/proc/nonexistent/x"),0);
    ft1d_array_free(arr);function_train_free(a);spv_free(s,d);
}
CASE(ser_text,"P07",40,900,0){
    size_t d;struct sp**s;FT*a=ft_rand(&s,&d,TXTT);size_t prec=vr_int(17,24);char*path=vh_path("t.txt");vh_sig("d%zu p%zu",d,prec);
    FILE*f=fopen(path,"w");function_train_savetxt(a,f,prec);function_train_savetxt(a,f,prec);fclose(f);
    f=fopen(path,"r");for(int q=0;q<2;q++){FT*b=function_train_loadtxt(f);ft_same("train-text",s,d,a,b,0,calc_ok(s,d));function_train_free(b);}fclose(f);unlink(path);
    function_train_free(a);spv_free(s,d);
}
