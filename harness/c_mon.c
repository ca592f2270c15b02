/* The library's own memo of function evaluations: exactly-once evaluation, faithful recall, hash table and lists. */
#include <unistd.h>
#include "model.h"
#include "monitoring.h"
struct spy{size_t d;size_t calls;double*xs;double*vs;size_t cap;};
static double spy_f(const double*x,void*a){struct spy*s=a;if(s->calls<s->cap){memcpy(s->xs+s->calls*s->d,x,8*s->d);}double v=0;for(size_t i=0;i<s->d;i++)v=v*1.7+sin(3*x[i]+(double)i);v=ldexp(v,(int)(s->calls*37%1200)-600)*(s->calls%11==3?0:1);if(s->calls<s->cap)s->vs[s->calls]=v;s->calls++;return v;}
CASE(mon_memo,"P26",120,2500,0){
    size_t d=vr_big(1,5,14),np=vr_int(1,25),tab=vr_chance(0.3)?vr_int(1,3):vr_int(4,200);struct spy s={d,0,malloc(8*d*(np+1)),malloc(8*(np+1)),np+1};
    double*P=malloc(8*d*np),*V=malloc(8*np);int*seen=calloc(np,sizeof(int));
    for(size_t i=0;i<np;i++)for(size_t j=0;j<d;j++){double v;switch(vr_int(0,5)){case 0:v=(double)vr_int(0,5);break;case 1:v=-(double)vr_int(1,3)/4;break;case 2:v=vr_norm()*1e-200;break;case 3:v=vr_norm()*1e200;break;default:v=vr_norm();}
        /* a near neighbour of an earlier point: differs in the ninth digit of one coordinate only */
        P[i*d+j]=v;}
    for(size_t i=1;i<np;i++)if(vr_chance(0.4)){memcpy(P+i*d,P+(i-1)*d,8*d);size_t j=vr_int(0,d-1);switch(vr_int(0,2)){case 0:P[i*d+j]*=1+1e-9*(double)vr_int(1,9);break;case 1:P[i*d+j]=-P[i*d+j];break;default:P[i*d+j]*=2;}}
    /* points are told apart by 15 digits or more: two that differ by rounding only become one */
    for(size_t i=1;i<np;i++)for(size_t k=0;k<i;k++){int near=1;for(size_t j=0;j<d;j++)if(fabs(P[i*d+j]-P[k*d+j])>1e-13*fabs(P[k*d+j])||signbit(P[i*d+j])!=signbit(P[k*d+j]))near=0;if(near)memcpy(P+i*d,P+k*d,8*d);}
    vh_sig("d%zu n%zu t%zu",d,np,tab);
    struct FunctionMonitor*m=function_monitor_initnd(spy_f,&s,d,tab);
    size_t distinct=0;
    for(size_t t=0;t<4*np;t++){size_t i=vr_int(0,np-1),rep=np;for(size_t k=0;k<np;k++)if(seen[k]){int eq=1;for(size_t j=0;j<d;j++)if(P[k*d+j]!=P[i*d+j]||signbit(P[k*d+j])!=signbit(P[i*d+j]))eq=0;if(eq){rep=k;break;}}
        size_t c0=s.calls;double x[16];memcpy(x,P+i*d,8*d);double v=function_monitor_eval(x,m);SAMEBYTES("point-changed",x,P+i*d,8*d);
        if(rep<np){EQZ("recalled-without-call",s.calls,c0);CLOSE("recalled-value",v,V[rep],0);}
        else{ if(EQZ("evaluated-once",s.calls,c0+1)){SAMEBYTES("argument",s.xs+c0*d,P+i*d,8*d);CLOSE("first-value",v,s.vs[c0],0);}V[i]=v;seen[i]=1;distinct++;}
        if(vh_failed())break;}
    EQZ("stored",nstored_hashtable_cp(m->evals),distinct);EQZ("calls",s.calls,distinct);
    char*path=vh_path("mon.txt");FILE*f=fopen(path,"w");function_monitor_print_to_file(m,f);fclose(f);f=fopen(path,"r");size_t rows=0;int ch,last='\n';while((ch=fgetc(f))!=EOF){if(ch=='\n')rows++;last=ch;}rewind(f);{char hd[256]="",*q=hd;TRUE_("printed-header",fgets(hd,256,f)!=NULL);for(size_t j=0;j<d;j++){unsigned long k=999;int m=0;TRUE_("printed-header",sscanf(q," x%lu%n",&k,&m)==1&&k==j);q+=m;}}int*used=calloc(np,sizeof(int));for(size_t r=0;r<distinct;r++){double y[16];size_t k=0;for(;k<=d;k++)if(fscanf(f,"%lf",&y[k])!=1)break;if(!EQZ("printed-columns",k,d+1))break;size_t hit=np;double best=1;for(size_t i=0;i<np;i++)if(seen[i]&&!used[i]){double e=0;for(size_t j=0;j<=d;j++){double w=j<d?P[i*d+j]:V[i];e=fmax(e,fabs(w-y[j])/(1e-13*fabs(w)+1e-14));}if(e<=1&&(hit==np||e<best)){best=e;hit=i;}}if(!TRUE_("printed-row",hit<np))break;used[hit]=1;}free(used);fclose(f);unlink(path);EQZ("printed-rows",rows,distinct+1);TRUE_("printed-end",last=='\n');
    function_monitor_free(m);free(P);free(V);free(seen);free(s.xs);free(s.vs);
}
static char*key_rand(void){size_t n=vr_big(0,12,90);char*k=malloc(n+1);int hi=vr_chance(0.2);for(size_t i=0;i<n;i++)k[i]=hi?(char)vr_int(1,255):"ab01"[vr_int(0,3)];k[n]=0;return k;}
CASE(mon_table,"P26",120,2500,0){
    size_t n=vr_int(1,40),size=vr_chance(0.4)?1:vr_int(1,60);vh_sig("n%zu s%zu",n,size);TRUE_("empty-table",create_hashtable_cp(0)==NULL);
    struct HashtableCpair*h=create_hashtable_cp(size);char**K=malloc(n*sizeof*K);double*V=malloc(8*n);size_t cnt=0;struct PairList*pl=NULL;
    for(size_t i=0;i<n;i++){char*k=key_rand();double v=vr_val()*pow(10,vr_unif(-200,200));size_t at=cnt;for(size_t q=0;q<cnt;q++)if(!strcmp(K[q],k))at=q;
        TRUE_("hash-range",hashsimple(size,k)<size);EQZ("hash-stable",hashsimple(size,k),hashsimple(size,k));
        char*sv=serialize_double_packed(v);char*got=lookup_key(h,k);EQZ("present",got!=NULL,at<cnt);free(got);
        struct Cpair*c=cpair_create(k,sv);int rc=add_cpair(h,c);EQZ("add-code",rc,at<cnt?2:0);
        if(at==cnt){K[cnt]=strdup(k);V[cnt++]=v;pair_push(&pl,c);}
        struct Cpair*c2=copy_cpair(c);TRUE_("copy-equal",cpair_isequal(c,c2)==1);cpair_free(c2);
        size_t pos=pair_list_index(pl,c);if(at==cnt-1&&strcmp(K[cnt-1],k)==0&&V[cnt-1]==v)EQZ("newest-first",pos,1);else if(at<cnt&&fabs(V[at]-v)>=1e-20)EQZ("not-in-list",pos,0);
        cpair_free(c);free(sv);free(k);EQZ("list-length",pair_list_len(pl),cnt);EQZ("table-count",nstored_hashtable_cp(h),cnt);if(vh_failed())break;}
    for(size_t q=0;q<cnt;q++){char*g=lookup_key(h,K[q]);if(TRUE_("found",g!=NULL))CLOSE("kept-first-value",deserialize_double_packed(g),V[q],0);free(g);
        char*sv=serialize_double_packed(V[q]);struct Cpair*c=cpair_create(K[q],sv);EQZ("list-position",pair_list_index(pl,c),cnt-q);char*sw=serialize_double_packed(V[q]*1.5+1);struct Cpair*e=cpair_create(K[q],sw);TRUE_("other-value-differs",cpair_isequal(c,e)==0);cpair_free(c);cpair_free(e);free(sv);free(sw);}
    pair_list_delete(&pl);TRUE_("list-empty",pl==NULL&&pair_list_len(pl)==0);free_hashtable_cp(h);for(size_t q=0;q<cnt;q++)free(K[q]);free(K);free(V);
    /* value lists */
    struct storevals*sv=NULL;size_t m=vr_big(0,8,40),vd=vr_chance(0.6)?2:vr_int(1,12);double*X=malloc(8*vd*(m+1));for(size_t i=0;i<m;i++){double x[12];for(size_t j=0;j<vd;j++)x[j]=X[vd*i+j]=vr_norm();PushVal(&sv,vd,x,(double)i);x[0]=99;}
    size_t q=0;for(struct storevals*c=sv;c;c=c->next,q++){if(q>=m)break;CLOSE("value-order",c->f,(double)(m-1-q),0);SAMEBYTES("value-point",c->x,X+vd*(m-1-q),8*vd);EQZ("value-dim",c->dim,vd);}EQZ("value-count",q,m);
    if(vd==2){char*path=vh_path("vals.txt");FILE*f=fopen(path,"w");PrintVals2d(f,sv);fclose(f);f=fopen(path,"r");char line[256];size_t rows=0;while(fgets(line,sizeof line,f))rows++;fclose(f);unlink(path);EQZ("value-rows",rows,m+1);}
    DeleteStoredVals(&sv);TRUE_("values-empty",sv==NULL);free(X);
}

/* many points, many coordinates, large tables */
static double big_f(const double*x,void*a){size_t*c=a;c[0]++;double v=0;for(size_t i=0;i<c[1];i++)v=v*0.9+cos(x[i]*(1+(double)i));return v;}
CASE(mon_big,"P26",6,100,VH_SLOW){
    size_t d=vr_int(1,30),np=vr_int(50,400),tab=vr_chance(0.5)?vr_int(1,10):vr_int(100,20000),cnt[2]={0,d};vh_sig("d%zu n%zu t%d",d,np,tab>10);
    double*P=malloc(8*d*np);for(size_t i=0;i<d*np;i++)P[i]=vr_chance(0.3)?(double)vr_int(0,3):vr_norm();for(size_t i=0;i<np;i++)P[i*d]=vr_norm(); /* distinct */
    struct FunctionMonitor*m=function_monitor_initnd(big_f,cnt,d,tab);double*V=malloc(8*np);
    for(size_t i=0;i<np;i++)V[i]=function_monitor_eval(P+i*d,m);EQZ("big-calls",cnt[0],np);EQZ("big-stored",nstored_hashtable_cp(m->evals),np);
    for(size_t t=0;t<np;t++){size_t i=vr_int(0,np-1);CLOSE("big-recall",function_monitor_eval(P+i*d,m),V[i],0);}EQZ("big-recall-calls",cnt[0],np);
    size_t c0=cnt[0];for(size_t i=0;i<np;i++){cnt[0]=0;CLOSE("big-value",V[i],big_f(P+i*d,cnt),0);}cnt[0]=c0;
    function_monitor_free(m);free(P);free(V);
}
