#define _GNU_SOURCE
#include "vh.h"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <dirent.h>
#include <errno.h>

/* ------------------------------------------------------------------ PRNG */
#define TLS static __thread
TLS uint64_t S[4];
static inline uint64_t rotl(uint64_t x,int k){return (x<<k)|(x>>(64-k));}
static uint64_t smix(uint64_t *x){uint64_t z=(*x+=0x9e3779b97f4a7c15ULL);z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL;z=(z^(z>>27))*0x94d049bb133111ebULL;return z^(z>>31);}
uint64_t vr_u64(void){uint64_t r=rotl(S[1]*5,7)*9,t=S[1]<<17;S[2]^=S[0];S[3]^=S[1];S[1]^=S[2];S[0]^=S[3];S[2]^=t;S[3]=rotl(S[3],45);return r;}
double vr_u01(void){return ((vr_u64()>>11)+0.5)*(1.0/9007199254740992.0);}
double vr_unif(double a,double b){return a+(b-a)*vr_u01();}
double vr_norm(void){double u=vr_u01(),v=vr_u01();return sqrt(-2*log(u))*cos(2*M_PI*v);}
size_t vr_big(size_t lo,size_t hi,size_t big){return vr_chance(0.12)?vr_int(hi+1,big):vr_int(lo,hi);}
size_t vr_int(size_t lo,size_t hi){return lo+(size_t)(vr_u64()%(uint64_t)(hi-lo+1));}
int vr_chance(double p){return vr_u01()<p;}
double vr_coef(void){static const double v[5]={0,1,-1,2,-0.5};return vr_chance(0.35)?v[vr_int(0,4)]:vr_norm();}
double vr_val(void){
    switch(vr_int(0,9)){
    case 0: return 0.0;
    case 1: return 1.0;
    case 2: return -1.0;
    case 3: return (double)vr_int(1,9)*(vr_chance(0.5)?1:-1);
    case 4: return vr_norm()*1e3;
    case 5: return vr_norm()*1e-3;
    default: return vr_norm();
    }
}
void vr_sorted(size_t n,double lb,double ub,double*x,double minfrac){
    /* gaps drawn from [minfrac,1], normalised: strictly increasing, includes both ends */
    if(n==1){x[0]=lb;return;}
    double tot=0; double *g=malloc(n*sizeof(double));
    int style=(int)vr_int(0,2);
    for(size_t i=0;i<n-1;i++){g[i]=(style==0)?1.0:(minfrac+(1-minfrac)*(style==1?vr_u01():pow(vr_u01(),3)));tot+=g[i];}
    double s=0;x[0]=lb;
    for(size_t i=1;i<n-1;i++){s+=g[i-1];x[i]=lb+(ub-lb)*s/tot;}
    x[n-1]=ub;free(g);
}
double *vh_dvec(size_t n){double*v=malloc((n?n:1)*sizeof(double));for(size_t i=0;i<n;i++)v[i]=vr_norm();return v;}

/* ------------------------------------------------------------------ log */
static int logfd=-1;
static FILE *dumpf=NULL;
int vh_tier=0;
TLS long nchk,nfail_iter; TLS long nobs; TLS uint64_t digest; TLS char sig[400];
TLS const char *curname="?"; TLS long curiter=-1; TLS int jobid; /* 0: the main run, else a job of the thread workload */
static char scratchdir[512];
#define NHIT 512
static struct {char k[64];long n;} hits[NHIT]; static int nhits;
static void logw(const char*fmt,...){char b[1400];va_list a;va_start(a,fmt);int n=vsnprintf(b,sizeof b-1,fmt,a);va_end(a);if(n>(int)sizeof b-2)n=sizeof b-2;b[n]=0;
    for(int i=0;i<n-1;i++)if(b[i]=='\n')b[i]=' ';
    if(write(logfd,b,strlen(b))<0){}}
void vh_hit(const char*w){if(jobid)return;for(int i=0;i<nhits;i++)if(!strncmp(hits[i].k,w,63)){hits[i].n++;return;}if(nhits<NHIT){strncpy(hits[nhits].k,w,63);hits[nhits].n=1;nhits++;}}
void vh_sig(const char*fmt,...){char b[200];va_list a;va_start(a,fmt);vsnprintf(b,sizeof b,fmt,a);va_end(a);
    size_t l=strlen(sig),m=strlen(b);if(l+m+2<sizeof sig){if(l)sig[l++]=' ';memcpy(sig+l,b,m+1);}}
void vh_obs(double v){nobs++;uint64_t u;memcpy(&u,&v,8);digest=(digest^u)*0x100000001b3ULL;digest^=digest>>29;if(dumpf&&!jobid)fprintf(dumpf,"%s %ld %ld %.17g\n",curname,curiter,nobs,v);}
void vh_obs_arr(size_t n,const double*v){for(size_t i=0;i<n;i++)vh_obs(v[i]);}
void vh_fail(const char*key,const char*fmt,...){char b[900];va_list a;va_start(a,fmt);vsnprintf(b,sizeof b,fmt,a);va_end(a);nfail_iter++;
    if(nfail_iter<=6&&!jobid)logw("V %s %ld %s %s\n",curname,curiter,key,b);}
int vh_failed(void){return (int)nfail_iter;}
static const char*base(const char*f){const char*s=strrchr(f,'/');return s?s+1:f;}
int vh_close_(const char*key,const char*f,int l,double got,double want,double tol){
    nchk++;vh_obs(got);
    if(isnan(got)||isnan(want)||!(fabs(got-want)<=tol)){
        if(isinf(got)&&isinf(want)&&got==want)return 1;
        vh_fail(key,"got %.17g want %.17g diff %.3g tol %.3g at %s:%d [%s]",got,want,got-want,tol,base(f),l,sig);return 0;}
    return 1;}
int vh_true_(const char*key,const char*f,int l,int ok,const char*e){nchk++;if(!ok){vh_fail(key,"not (%s) at %s:%d [%s]",e,base(f),l,sig);return 0;}return 1;}
int vh_eqz_(const char*key,const char*f,int l,size_t g,size_t w){nchk++;if(g!=w){vh_fail(key,"got %zu want %zu at %s:%d [%s]",g,w,base(f),l,sig);return 0;}return 1;}
int vh_bytes_(const char*key,const char*f,int l,const void*a,const void*b,size_t n){nchk++;if(n&&memcmp(a,b,n)){size_t i=0;while(((const char*)a)[i]==((const char*)b)[i])i++;vh_fail(key,"bytes differ at offset %zu of %zu at %s:%d [%s]",i,n,base(f),l,sig);return 0;}return 1;}
const char*vh_scratch(void){return scratchdir;}
char*vh_path(const char*n){TLS char p[4][700];TLS int k;k=(k+1)&3;if(jobid)snprintf(p[k],700,"%s/j%d_%s",scratchdir,jobid,n);else snprintf(p[k],700,"%s/%s",scratchdir,n);return p[k];}

/* ------------------------------------------------------------------ registry */
static struct vh_case*head;
void vh_register(struct vh_case*c){c->next=head;head=c;}

/* ------------------------------------------------------------------ allocation monitor */
#define TB (1u<<20)
static void **tab; static size_t *tabsz; static volatile int tracking; static long live; static long livebytes; static int inhook;
static size_t hp(const void*p){uint64_t x=(uint64_t)(uintptr_t)p;x*=0x9e3779b97f4a7c15ULL;return (size_t)(x>>44)&(TB-1);}
static long overfl; static long nallocs;
#define TOMB ((void*)1)
static void mh(const volatile void*p,size_t sz){if(!tracking||inhook||!p)return;inhook=1;nallocs++;size_t h=hp((const void*)p);size_t n=0;
    while(tab[h]&&tab[h]!=TOMB&&n<TB){h=(h+1)&(TB-1);n++;}
    if(n<TB){tab[h]=(void*)p;tabsz[h]=sz;live++;livebytes+=(long)sz;}else overfl++;inhook=0;}
static void fh(const volatile void*p){if(!tracking||inhook||!p)return;inhook=1;size_t h=hp((const void*)p);size_t n=0;
    while(tab[h]&&n<TB){if(tab[h]==(void*)p){tab[h]=TOMB;live--;livebytes-=(long)tabsz[h];break;}h=(h+1)&(TB-1);n++;}inhook=0;}
extern int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*)) __attribute__((weak));
static int leakmode;
static int countfds(void){int n=0;DIR*d=opendir("/proc/self/fd");if(!d)return -1;while(readdir(d))n++;closedir(d);return n;}

/* stack pollution so that uninitialised locals differ between determinism runs */
static unsigned stackfill; static int stackon;
static __attribute__((noinline)) void pollute(void){if(!stackon)return;volatile unsigned char b[196608];for(size_t i=0;i<sizeof b;i++)b[i]=(unsigned char)stackfill;__asm__ volatile(""::"r"(b):"memory");}

static void on_cpu(int s){(void)s;logw("H %s %ld\n",curname,curiter);_exit(77);}
static int finished=0;
static void on_exit_(void){if(!finished&&curiter>=0){logw("X %s %ld exit-called\n",curname,curiter);}}

static long cpulimit=60;
static void seed_iter(uint64_t seed,const char*name,long it){
    uint64_t h=1469598103934665603ULL;for(const char*c=name;*c;c++)h=(h^(unsigned char)*c)*1099511628211ULL;
    uint64_t x=seed*0x9e3779b97f4a7c15ULL+h+(uint64_t)it*0xd1342543de82ef95ULL;smix(&x);
    for(int i=0;i<4;i++)S[i]=smix(&x);
    srand((unsigned)vr_u64()); srandom((unsigned)vr_u64()); srand48((long)vr_u64());
}
/* the C library's generator is process-wide; jobs of the thread workload get one of their own */
int __real_rand(void);void __real_srand(unsigned);
TLS uint64_t jrand;
int __wrap_rand(void){if(!jobid)return __real_rand();jrand=jrand*6364136223846793005ULL+1442695040888963407ULL;return (int)((jrand>>33)&0x7fffffff);}
void __wrap_srand(unsigned x){if(!jobid)__real_srand(x);else jrand=x;}
size_t vh_ncases(void){size_t n=0;for(struct vh_case*c=head;c;c=c->next)n++;return n;}
struct vh_case*vh_case_at(size_t i){struct vh_case*c=head;while(i--)c=c->next;return c;}
uint64_t vh_job(struct vh_case*c,uint64_t seed,int id){
    jobid=id;nfail_iter=0;nobs=0;nchk=0;digest=1469598103934665603ULL;sig[0]=0;uint64_t x=seed;for(int i=0;i<4;i++)S[i]=smix(&x);jrand=seed;
    c->fn();
    uint64_t r=digest^((uint64_t)nfail_iter<<56)^((uint64_t)nchk<<32)^(uint64_t)nobs;return r;}
static void run_iter(struct vh_case*c,uint64_t seed,long it){
    curname=c->name;curiter=it;nfail_iter=0;nobs=0;nchk=0;digest=1469598103934665603ULL;sig[0]=0;
    seed_iter(seed,c->name,it);
    logw("B %s %ld\n",c->name,it);
    struct itimerval tv;memset(&tv,0,sizeof tv);tv.it_value.tv_sec=cpulimit;setitimer(ITIMER_PROF,&tv,NULL);
    pollute();
    c->fn();
    memset(&tv,0,sizeof tv);setitimer(ITIMER_PROF,&tv,NULL);
}
static void quiet_tmp(void){ /* empty the scratch directory */
    DIR*d=opendir(scratchdir);if(!d)return;struct dirent*e;while((e=readdir(d))){if(e->d_name[0]=='.')continue;char p[900];snprintf(p,sizeof p,"%s/%s",scratchdir,e->d_name);unlink(p);}closedir(d);}

int main(int argc,char**argv){
    const char*cs=NULL;uint64_t seed=1;long from=0,to=1;const char*log=NULL,*dump=NULL,*out="/dev/null";int list=0;
    for(int i=1;i<argc;i++){
        if(!strcmp(argv[i],"--list"))list=1;
        else if(!strcmp(argv[i],"--case"))cs=argv[++i];
        else if(!strcmp(argv[i],"--seed"))seed=strtoull(argv[++i],0,10);
        else if(!strcmp(argv[i],"--from"))from=atol(argv[++i]);
        else if(!strcmp(argv[i],"--to"))to=atol(argv[++i]);
        else if(!strcmp(argv[i],"--log"))log=argv[++i];
        else if(!strcmp(argv[i],"--dump"))dump=argv[++i];
        else if(!strcmp(argv[i],"--out"))out=argv[++i];
        else if(!strcmp(argv[i],"--scratch"))snprintf(scratchdir,sizeof scratchdir,"%s",argv[++i]);
        else if(!strcmp(argv[i],"--leak"))leakmode=1;
        else if(!strcmp(argv[i],"--thorough"))vh_tier=1;
        else if(!strcmp(argv[i],"--cpu"))cpulimit=atol(argv[++i]);
        else if(!strcmp(argv[i],"--stackfill")){stackon=1;stackfill=(unsigned)strtoul(argv[++i],0,0);}
    }
    if(list){for(struct vh_case*c=head;c;c=c->next)printf("%s|%s|%d|%d|%d\n",c->name,c->props,c->nq,c->nt,c->flags);return 0;}
    struct vh_case*c=head;while(c&&strcmp(c->name,cs?cs:""))c=c->next;
    if(!c){fprintf(stderr,"no such case\n");return 3;}
    if(!log)logfd=dup(2);else logfd=open(log,O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC,0600);
    if(logfd<0)return 3;
    if(dump)dumpf=fopen(dump,"w");
    if(strcmp(out,"-")){ if(!freopen(out,"a",stdout))return 3; }
    setvbuf(stdout,NULL,_IOFBF,1<<16);
    if(scratchdir[0]&&chdir(scratchdir)){}
    signal(SIGPROF,on_cpu);atexit(on_exit_);
    if(leakmode&&__sanitizer_install_malloc_and_free_hooks){tab=calloc(TB,sizeof(void*));tabsz=calloc(TB,sizeof(size_t));__sanitizer_install_malloc_and_free_hooks(mh,fh);}
    else leakmode=0;
    for(long it=from;it<to;it++){
        if(leakmode){
            printf(" ");fprintf(stderr,"%s","");fflush(stdout);
            long l1=0,b1=0,f1=0;int rep;
            /* growth must persist when the very same iteration is repeated: one-off caches are not leaks */
            for(rep=0;rep<3;rep++){
                memset(tab,0,TB*sizeof(void*));live=0;livebytes=0;
                int f0=countfds();
                tracking=1;run_iter(c,seed,it);tracking=0;
                f1=countfds()-f0;l1=live;b1=livebytes;
                quiet_tmp();
                if(l1<=0&&f1<=0)break;
            }
            if(rep==3){
                if(l1>0)vh_fail("leak","%ld blocks / %ld bytes still allocated after every object of the case was freed, on 3 repetitions [%s]",l1,b1,sig);
                if(f1>0)vh_fail("fdleak","%ld file descriptors still open after the case, on 3 repetitions [%s]",f1,sig);
            }
        }
        else { run_iter(c,seed,it); quiet_tmp(); }
        logw("E %s %ld %ld %ld %016llx %ld %s\n",c->name,it,nchk,nfail_iter,(unsigned long long)digest,nallocs,sig);
    }
    curiter=-1;
    for(int i=0;i<nhits;i++)logw("C %s %ld\n",hits[i].k,hits[i].n);
    if(dumpf)fclose(dumpf);
    finished=1;
    return 0;
}
