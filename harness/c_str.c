/* Strings, arrays, text and binary number formats, files, random variates. */
#include "model.h"
#include <unistd.h>
#include <fcntl.h>
static char*rstr(size_t maxn,const char*al){size_t n=vr_big(0,maxn,12*maxn);char*s=malloc(n+1);for(size_t i=0;i<n;i++)s[i]=al[vr_int(0,strlen(al)-1)];s[n]=0;return s;}
CASE(str_strip,"P22",500,6000,0){
    char*s=rstr(14,vr_chance(0.5)?" ab":"  x");size_t n=strlen(s),i=0,j=n;vh_sig("n%zu",n);
    while(i<j&&s[i]==' ')i++;while(j>i&&s[j-1]==' ')j--;
    char*w=malloc(n+1);memcpy(w,s,n+1);strip_blank_ends(w);
    TRUE_("strip-blank",strlen(w)==j-i&&!memcmp(w,s+i,j-i));free(w);
    char l=s[0]?s[vr_int(0,n-1)]:'q',r=s[0]?s[vr_int(0,n-1)]:'z';i=0;j=n;while(i<n&&s[i]==l)i++;while(j>i&&s[j-1]==r)j--;
    w=malloc(n+1);memcpy(w,s,n+1);strip_ends(w,l,r);TRUE_("strip-ends",strlen(w)==j-i&&!memcmp(w,s+i,j-i));free(w);free(s);
}
CASE(str_bite,"P22",500,6000,0){
    char*s=rstr(16,"ab,:");size_t n=strlen(s);char tok=",:a"[vr_int(0,2)];vh_sig("n%zu %c",n,tok);
    /* repeated biting and parsing split at the same places */
    char*w=malloc(n+1);memcpy(w,s,n+1);size_t N=0;char*cps=malloc(n+1);memcpy(cps,s,n+1);char**p=parse_string(cps,tok,&N);
    TRUE_("parse-input",!strcmp(cps,s));
    size_t cnt=1;for(size_t i=0;i<n;i++)cnt+=s[i]==tok;EQZ("parse-count",N,cnt);
    size_t pos=0;for(size_t k=0;k<N&&!vh_failed();k++){size_t e=pos;while(e<n&&s[e]!=tok)e++;TRUE_("parse-piece",strlen(p[k])==e-pos&&!memcmp(p[k],s+pos,e-pos));
        char*b=bite_string(w,tok);if(e<n){TRUE_("bite-piece",b&&!strcmp(b,p[k]));TRUE_("bite-rest",!strcmp(w,s+e+1));}else{TRUE_("bite-none",b==NULL);TRUE_("bite-unchanged",!strcmp(w,s+pos));}
        free(b);pos=e+1;}
    for(size_t k=0;k<N;k++)free(p[k]);free(p);free(cps);
    TRUE_("bite-null",bite_string(NULL,tok)==NULL);
    memcpy(w,s,n+1);char*tk=rstr(3,"ab,:");if(!tk[0]){free(tk);tk=strdup("a,");}char*m=strstr(s,tk);char*b=bite_string2(w,tk);
    if(m){TRUE_("bite2-piece",b&&strlen(b)==(size_t)(m-s)&&!memcmp(b,s,(size_t)(m-s)));TRUE_("bite2-rest",!strcmp(w,m+strlen(tk)));}else{TRUE_("bite2-none",b==NULL&&!strcmp(w,s));}
    free(b);free(tk);free(w);
    /* concatenation */
    char*t=rstr(9,"xyz");char*c=concat_string(vr_chance(0.1)?NULL:s,t);size_t lc=strlen(c);TRUE_("concat",(lc==n+strlen(t)&&!memcmp(c,s,n)&&!strcmp(c+n,t))||!strcmp(c,t));free(c);
    char*o=NULL;size_t L=0;char ref[512]="";for(int k=0;k<3;k++){char*q=rstr(5,"pq");concat_string_ow(&o,q);strcat(ref,q);L+=strlen(q);free(q);}TRUE_("concat-ow",!strcmp(o,ref)&&strlen(o)==L);free(o);free(t);free(s);
}
CASE(str_num,"P22",500,6000,0){
    int base=(int)vr_int(2,36);int v=vr_chance(0.2)?(vr_chance(0.5)?INT32_MIN:INT32_MAX):vr_chance(0.3)?(int)vr_int(0,6)-3:vr_chance(0.3)?(int)vr_int(0,50)-25:(int)vr_u64();char b[64];vh_sig("b%d s%d",base,v<0);
    itoa(v,b,base);char*e;long q=strtol(b,&e,base);TRUE_("itoa",q==v&&*e==0);
    itoa(v,b,vr_chance(0.5)?1:37);TRUE_("itoa-badbase",b[0]==0);
    /* binary primitives */
    unsigned char buf[2048];memset(buf,0xAB,2048);size_t n=vr_big(0,20,200);double*x=vh_dvec(n+1);if(n)x[0]=vr_chance(0.3)?NAN:vr_chance(0.5)?-0.0:4.9e-324;
    size_t sz=vr_u64()>>vr_int(0,40);double dv=vr_val();int iv=(int)vr_u64();char ch=(char)vr_int(0,255);
    unsigned char*p=buf;p=serialize_int(p,iv);p=serialize_size_t(p,sz);p=serialize_double(p,dv);p=serialize_doublep(p,x,n);p=serialize_char(p,ch);
    EQZ("ser-length",p-buf,sizeof(int)+sizeof(size_t)+8+sizeof(size_t)+8*n+1);TRUE_("ser-overrun",*p==0xAB);TRUE_("ser-char",(char)p[-1]==ch);
    int i2;size_t s2,n2;double d2,*x2=NULL;unsigned char*r=buf;r=deserialize_int(r,&i2);r=deserialize_size_t(r,&s2);r=deserialize_double(r,&d2);r=deserialize_doublep(r,&x2,&n2);
    TRUE_("deser-int",i2==iv);TRUE_("deser-size",s2==sz);SAMEBYTES("deser-double",&d2,&dv,8);EQZ("deser-n",n2,n);if(n==n2)SAMEBYTES("deser-arr",x2,x,8*n);EQZ("deser-length",r-buf,p-buf-1);free(x2);
    /* text and packed doubles */
    double a=vr_chance(0.1)?0:vr_norm()*pow(10,vr_unif(-250,250));char*t=serialize_double_to_text(a);double g=deserialize_double_from_text(t);free(t);CLOSE("text-double",g,a,2e-14*fabs(a));
    char*pk=serialize_double_packed(a);g=deserialize_double_packed(pk);free(pk);SAMEBYTES("packed-double",&g,&a,8);
    size_t m=vr_big(1,8,60);double*y=vh_dvec(m);for(size_t k=0;k<m;k++)y[k]*=pow(10,vr_unif(-30,30));char*ta=serialize_darray_to_text(m,y);size_t mg;double*yg=deserialize_darray_from_text(ta,&mg);EQZ("text-n",mg,m);if(mg==m)for(size_t k=0;k<m;k++)CLOSE("text-array",yg[k],y[k],2e-14*fabs(y[k]));
    free(ta);free(yg);
    char*pa=serialize_double_arr_packed(m,y);for(size_t k=0;k<m;k++){g=deserialize_double_packed(pa+12*k);SAMEBYTES("packed-array",&g,&y[k],8);}free(pa);
    free(y);free(x);
}
CASE(str_readtxt,"P22",300,4000,0){
    size_t R=vr_big(1,6,40),C=vr_big(1,5,24);double*a=vh_dvec(R*C);for(size_t i=0;i<R*C;i++)a[i]*=pow(10,vr_unif(-5,5));char*s=malloc(R*C*60+R*4+40);s[0]=0;size_t L=0;const char*seps[]={" ",",","\t",", ","  "};const char*sep=seps[vr_int(0,4)];int trail=(int)vr_int(0,2);vh_sig("%zux%zu sep%d t%d",R,C,sep[0],trail);
    for(size_t i=0;i<R;i++){for(size_t j=0;j<C;j++)L+=(size_t)sprintf(s+L,"%.17g%s",a[i*C+j],j+1<C?sep:"");if(i+1<R||trail>0)L+=(size_t)sprintf(s+L,"\n");if(trail==2&&vr_chance(0.3))L+=(size_t)sprintf(s+L,"\n");}
    char*w=strdup(s);size_t r,c;double*d=readtxt_double_array(w,&r,&c);EQZ("read-rows",r,R);EQZ("read-cols",c,C);if(r==R&&c==C)SAMEBYTES("read-values",d,a,8*R*C);free(d);free(w);
    char*path=vh_path("a.txt");FILE*f=fopen(path,"w");fwrite(s,1,L,f);fclose(f);f=fopen(path,"r");d=readfile_double_array(f,&r,&c);fclose(f);TRUE_("readfile",d!=NULL);if(d){EQZ("readfile-rows",r,R);EQZ("readfile-cols",c,C);if(r==R&&c==C)SAMEBYTES("readfile-values",d,a,8*R*C);free(d);}
    f=fopen(path,"w");fclose(f);f=fopen(path,"r");d=readfile_double_array(f,&r,&c);TRUE_("readfile-empty",d==NULL);free(d);fclose(f);unlink(path);free(a);free(s);
}
CASE(arr_save,"P22",200,2500,0){
    size_t R=vr_big(1,6,20),C=vr_big(1,6,20);if(vr_chance(0.05)){R=vr_int(1,90);C=vr_int(1,40);}double*a=vh_dvec(R*C);char*path=vh_path("arr.bin");vh_sig("%zux%zu",R,C);double*a0=malloc(8*R*C);memcpy(a0,a,8*R*C);
    TRUE_("save",darray_save(R,C,a,path,0)==1);SAMEBYTES("save-input",a,a0,8*R*C);double*b=darray_load(path,0);TRUE_("load",b!=NULL);if(b){SAMEBYTES("load-values",a,b,8*R*C);free(b);}
    /* any shortened file is refused */
    FILE*f=fopen(path,"r");fseek(f,0,SEEK_END);long n=ftell(f);fclose(f);long cut=(long)vr_int(0,(size_t)n-1);if(truncate(path,cut)==0){b=darray_load(path,0);TRUE_("load-truncated",b==NULL);free(b);}
    unlink(path);b=darray_load(path,0);TRUE_("load-missing",b==NULL);free(b);
    if(access("/dev/full",W_OK)==0){TRUE_("save-full",darray_save(R,C,a,(char*)"/dev/full",0)==0);TRUE_("save-full-text",darray_save(R,C,a,(char*)"/dev/full",1)==0);}
    TRUE_("save-unwritable",darray_save(R,C,a,(char*)"/proc/nonexistent/x",0)==0);
    char*pt=vh_path("arr.txt");TRUE_("save-text",darray_save(R,C,a,pt,1)==1);f=fopen(pt,"r");char line[4096];if(f&&fgets(line,4096,f)){{char*q=line;for(size_t j=0;j<C;j++){unsigned long k=99999;int m=0;TRUE_("save-text-header",sscanf(q," x%lu%n",&k,&m)==1&&k==j);q+=m;}TRUE_("save-text-header-end",strspn(q," \n")==strlen(q));}size_t i=0;for(i=0;fgets(line,4096,f);i++){char*q=line;for(size_t j=0;j<C;j++){char*e;double v=strtod(q,&e);TRUE_("save-text-format",e!=q);q=e;if(i<R)CLOSE("save-text-value",v,a[j*R+i],1e-15*fabs(a[j*R+i]));}}EQZ("save-text-rows",i,R);fclose(f);}unlink(pt);
    free(a);free(a0);
}
CASE(arr_build,"P22",400,5000,0){
    size_t n=vr_int(2,vr_chance(0.05)?400:20);double lo=vr_unif(-9,9),hi=lo+vr_unif(0.01,9);vh_sig("n%zu",n);
    double*x=linspace(lo,hi,n);SAMEBYTES("linspace-ends",&x[0],&lo,8);SAMEBYTES("linspace-ends",&x[n-1],&hi,8);for(size_t i=0;i<n;i++){CLOSE("linspace",x[i],lo+(hi-lo)*(double)i/(double)(n-1),1e-14*(fabs(lo)+fabs(hi)));if(i)TRUE_("linspace-increasing",x[i]>x[i-1]);}free(x);
    double*dd[12];size_t row=vr_big(0,2,11);dd_row_linspace(dd,row,lo,hi,n);CLOSE("dd_row",dd[row][n-1],hi,0);CLOSE("dd_row",dd[row][0],lo,0);free(dd[row]);
    int a=(int)vr_int(0,6)-3,b=a+(int)vr_int(1,5);x=logspace(a,b,n);for(size_t i=0;i<n;i++)CLOSE("logspace",x[i],pow(10,a+(double)(b-a)*(double)i/(double)(n-1)),1e-12*pow(10,b));free(x);
    size_t N;double st=vr_unif(0.05,1);x=arange(lo,hi,st,&N);TRUE_("arange-n",N>=1&&lo+st*(double)(N-1)<=hi+1e-12&&lo+st*(double)N>hi-1e-12);for(size_t i=0;i<N;i++)CLOSE("arange",x[i],lo+st*(double)i,1e-13*(fabs(lo)+fabs(hi)));free(x);
    double*v=vh_dvec(n);x=diag(n,v);for(size_t i=0;i<n*n;i++)CLOSE("diag",x[i],i%(n+1)==0?v[i/(n+1)]:0,0);free(x);
    size_t r=vr_big(1,4,14),c1=vr_big(1,4,14),c2=vr_big(1,4,14);double*p=vh_dvec(r*c1),*q=vh_dvec(r*c2);x=dconcat_cols(r,c1,c2,p,q);SAMEBYTES("concat_cols",x,p,8*r*c1);SAMEBYTES("concat_cols",x+r*c1,q,8*r*c2);free(x);free(p);free(q);
    double pr=1;for(size_t i=0;i<n;i++)pr*=v[i];CLOSE("dprod",dprod(n,v),pr,1e-12*fabs(pr));size_t sz[12];int is[12];size_t ps=1,np=vr_big(1,4,12);int pi=1;for(size_t i=0;i<np;i++){sz[i]=vr_int(1,9);is[i]=vr_chance(0.3)?-1:np>4?(int)vr_int(1,4):(int)vr_int(0,8)-4;ps*=sz[i];pi*=is[i];}EQZ("iprod_sz",iprod_sz(np,sz),ps);TRUE_("iprod",iprod(np,is)==pi);CLOSE("prod-empty",dprod(0,v),1,0);EQZ("prod-empty",iprod_sz(0,sz),1);
    x=dones(n);for(size_t i=0;i<n;i++)CLOSE("dones",x[i],1,0);free(x);x=darray_val(n,lo);for(size_t i=0;i<n;i++)CLOSE("darray_val",x[i],lo,0);free(x);x=dzeros(n);for(size_t i=0;i<n;i++)CLOSE("dzeros",x[i],0,0);free(x);int*iz=izeros(n);for(size_t i=0;i<n;i++)TRUE_("izeros",iz[i]==0);free(iz);
    x=drandu(n);for(size_t i=0;i<n;i++)TRUE_("drandu-range",x[i]>=-1&&x[i]<=1);free(x);
    size_t nd=vr_big(1,4,14);double**A=malloc_dd(nd),**B=malloc_dd(nd);for(size_t i=0;i<nd;i++){A[i]=vh_dvec(n);B[i]=calloc(n,8);}copy_dd(nd,n,B,A);for(size_t i=0;i<nd;i++)SAMEBYTES("copy_dd",A[i],B[i],8*n);B[0][0]+=1;TRUE_("copy_dd-independent",A[0][0]!=B[0][0]);free_dd(nd,A);free_dd(nd,B);free_dd(2,NULL);
    struct c3Vector*cv=c3vector_alloc(n,v);v[0]+=1;TRUE_("c3vector-independent",cv->elem[0]!=v[0]);struct c3Vector*c3=c3vector_copy(cv);EQZ("c3vector-size",c3->size,n);SAMEBYTES("c3vector-copy",c3->elem,cv->elem,8*n);c3->elem[0]=99;TRUE_("c3vector-independent",cv->elem[0]!=99);TRUE_("c3vector-null",c3vector_copy(NULL)==NULL);
    size_t nv=vr_big(3,5,14);struct c3Vector**arr=c3vector_array_alloc(nv);for(size_t i=0;i<nv;i++)TRUE_("c3array-null",arr[i]==NULL);arr[1]=cv;arr[2]=c3;for(size_t i=3;i<nv;i++){double*z=vh_dvec(i);arr[i]=c3vector_alloc(i,z);free(z);}struct c3Vector**ar2=c3vector_array_copy(nv,arr);TRUE_("c3array-copy",ar2[0]==NULL&&ar2[1]!=cv&&ar2[1]->elem[1]==cv->elem[1]&&ar2[2]->elem[0]==99);for(size_t i=3;i<nv;i++)if(TRUE_("c3array-copy",ar2[i]&&ar2[i]!=arr[i]&&ar2[i]->size==i))SAMEBYTES("c3array-copy-values",ar2[i]->elem,arr[i]->elem,8*i);c3vector_array_free(nv,arr);c3vector_array_free(nv,ar2);c3vector_free(NULL);
    free(v);
}
/* sample statistics of the random variates: 6-sigma style bounds, fixed seeds */
CASE(rand_stats,"P22",12,60,VH_SLOW|VH_NODET){
    srand((unsigned)vr_int(1,100000));size_t n=40000;double s=0,s2=0,s4=0,mn=2,mx=-1;
    for(size_t i=0;i<n;i++){double u=randu();s+=u;s2+=u*u;mn=dmin(mn,u);mx=dmax(mx,u);}TRUE_("randu-range",mn>=0&&mx<=1);CLOSE("randu-mean",s/(double)n,0.5,7*0.2887/200);CLOSE("randu-var",s2/(double)n,1.0/3,7*0.298/200);TRUE_("randu-spread",mn<0.01&&mx>0.99);
    s=s2=s4=0;double s3=0,prev=0,cor=0;for(size_t i=0;i<n;i++){double u=randn();s+=u;s2+=u*u;s3+=u*u*u;s4+=u*u*u*u;cor+=u*prev;prev=u;}
    CLOSE("randn-mean",s/(double)n,0,7.0/200);CLOSE("randn-var",s2/(double)n,1,7*1.4143/200);CLOSE("randn-skew",s3/(double)n,0,7*3.9/200);CLOSE("randn-kurt",s4/(double)n,3,7*9.8/200);CLOSE("randn-corr",cor/(double)n,0,7.0/200);
    double mean=vr_chance(0.15)?vr_unif(490,1500):vr_unif(0.1,30);vh_sig("mean%d",mean>400?1:0);size_t m=mean>400?400:8000;s=s2=0;for(size_t i=0;i<m;i++){double k=(double)poisson(mean);s+=k;s2+=(k-mean)*(k-mean);}
    CLOSE("poisson-mean",s/(double)m,mean,7*sqrt(mean/(double)m));CLOSE("poisson-var",s2/(double)m,mean,8*sqrt((2*mean*mean+mean)/(double)m));
}
