/* Several threads, each with objects of its own: any two workloads of this harness run at the same time must give
   bit for bit what they give alone, and ThreadSanitizer must see no conflicting access. */
#include <pthread.h>
#include "vh.h"
struct job{struct vh_case*c;uint64_t seed,alone,together;int id,reps;pthread_barrier_t*b;};
static void*worker(void*a){struct job*j=a;pthread_barrier_wait(j->b);for(int r=0;r<j->reps;r++){uint64_t g=vh_job(j->c,j->seed,j->id);if(r==0||g!=j->alone)j->together=g;}return NULL;}
static void*solo(void*a){struct job*j=a;j->alone=vh_job(j->c,j->seed,j->id);return NULL;}
/* the library's normal generator keeps its pair in static storage (one generator per process, like rand()): samplers are left out */
static int usable(struct vh_case*c){return !(c->flags&(VH_SLOW|VH_NODET))&&strncmp(c->name,"threads",7)&&strcmp(c->name,"prob_mvn")&&strcmp(c->name,"ar_random");}
static struct vh_case*pick(void){for(;;){struct vh_case*c=vh_case_at(vr_int(0,vh_ncases()-1));if(usable(c))return c;}}
static void go(size_t T,struct job*J){
    pthread_t t[8];pthread_barrier_t b;pthread_barrier_init(&b,NULL,(unsigned)T);
    for(size_t i=0;i<T;i++){J[i].id=(int)i+1;J[i].b=&b;J[i].seed=vr_u64();pthread_create(&t[0],NULL,solo,&J[i]);pthread_join(t[0],NULL);J[i].together=~J[i].alone;}
    for(size_t i=0;i<T;i++)pthread_create(&t[i],NULL,worker,&J[i]);
    for(size_t i=0;i<T;i++)pthread_join(t[i],NULL);
    for(size_t i=0;i<T;i++){if(J[i].alone!=J[i].together)vh_fail("threads-interfere","%s gives another result next to %s",J[i].c->name,J[(i+1)%T].c->name);TRUE_("thread-result",J[i].alone==J[i].together);}
    pthread_barrier_destroy(&b);
}
CASE(threads_same,"P23",25,400,VH_NOLEAK|VH_NODET){
    size_t T=vr_int(2,4);struct job J[8];struct vh_case*c=pick();for(size_t i=0;i<T;i++){J[i].c=c;J[i].reps=2;}vh_sig("%s",c->name);go(T,J);
}
CASE(threads_mixed,"P23",25,400,VH_NOLEAK|VH_NODET){
    size_t T=vr_int(2,6);struct job J[8];for(size_t i=0;i<T;i++){J[i].c=pick();J[i].reps=1;vh_sig("%.6s",J[i].c->name);}go(T,J);
}
