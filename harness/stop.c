#include "copyright.h"
/* Harness "stop" (C01): uniform gas at rest (dt = 1/2 exactly), with termination requests delivered at chosen points.
 *   $VF_SIG: list "rank:cyc:kind:n;..." ; kinds:
 *     w  raise SIGTERM in the user hook of cycle cyc         (before the stop decision)
 *     o  raise SIGTERM in the output at the start of the cycle after cyc-1 cycles (cyc being worked on)
 *     e  MPI: at entry of the n-th MPI call after the user hook of cycle cyc;   x  at its exit
 *     i  serial/MPI: at the n-th machine instruction after the user hook of cycle cyc (x86 trap flag)
 *     f  after the main loop;  F in the final output;   t  wall clock (MPI_Wtime) jumps ahead in cycle cyc
 *   Logs every delivery and the end of the loop. */
#define _GNU_SOURCE
#define VF_OWN_INLOOP
#define VF_OWN_AFTERLOOP
#define VF_OWN_OUTFUN
#include "vf_stubs.h"
#include <signal.h>
#include <ucontext.h>

typedef struct { int r,c; char k; long n; int done; } Sg;
static Sg sg[64]; static int nsg=-1;
static int curcyc=0,ended=0,calls=-1,armed=0,walljump=0,inside=0;
static volatile long ninst=0; static volatile long want=-1; static volatile int stepping=0,fired=0;
static long total=0;

static void load(void){
  const char *e=getenv("VF_SIG"); int n;
  if(nsg>=0) return; nsg=0;
  while(e&&*e){
    Sg *s=&sg[nsg]; 
    if(sscanf(e,"%d:%d:%c:%ld%n",&s->r,&s->c,&s->k,&s->n,&n)!=4) break;
    s->done=0; nsg++; e+=n; if(*e==';') e++;
  }
}
static void ev(const char *w,int c,char k,long n){
  FILE *f=vf_log(); if(!f) return;
  fprintf(f,"{\"ev\":\"%s\",\"cyc\":%d,\"k\":\"%c\",\"n\":%ld}\n",w,c,k,n); fflush(f);
}
static void hit(Sg *s){ s->done=1; ev("sig",s->c,s->k,s->n); raise(SIGTERM); }
static void at(char k,int c,long n){ int i,me;
  if(inside) return; inside=1; me=vf_rank();
  load(); for(i=0;i<nsg;i++) if(!sg[i].done&&sg[i].r==me&&sg[i].k==k&&sg[i].c==c&&sg[i].n==n) hit(&sg[i]);
  inside=0;
}
#if defined(__x86_64__)
static void trap(int s,siginfo_t *si,void *u){
  ucontext_t *c=(ucontext_t*)u;
  if(!stepping){ c->uc_mcontext.gregs[REG_EFL]&=~0x100L; return; }
  if(ninst++==want){ fired=1; raise(SIGTERM); }
}
static void tf_on(long n){ struct sigaction a; memset(&a,0,sizeof a); a.sa_sigaction=trap; a.sa_flags=SA_SIGINFO; sigaction(SIGTRAP,&a,NULL);
  ninst=0; want=n; fired=0; stepping=1;
  __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq":::"memory","cc"); }
static void tf_off(void){ if(!stepping) return; stepping=0; __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq":::"memory","cc"); total=ninst; }
#else
static void tf_on(long n){} static void tf_off(void){}
#endif
static int stepc=-1; static Sg *steps=NULL;

#ifdef MPI_PARALLEL
static void pre(void){ if(calls>=0&&!ended&&!inside) at('e',curcyc,calls); }
static void post(void){ if(calls>=0&&!ended&&!inside){ at('x',curcyc,calls); calls++; } }
#define W(name,decl,use) int name decl { int q; pre(); q=P##name use; post(); return q; }
W(MPI_Allreduce,(const void *a,void *b,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c),(a,b,n,t,o,c))
W(MPI_Reduce,(const void *a,void *b,int n,MPI_Datatype t,MPI_Op o,int r,MPI_Comm c),(a,b,n,t,o,r,c))
W(MPI_Bcast,(void *a,int n,MPI_Datatype t,int r,MPI_Comm c),(a,n,t,r,c))
W(MPI_Barrier,(MPI_Comm c),(c))
W(MPI_Irecv,(void *a,int n,MPI_Datatype t,int s,int g,MPI_Comm c,MPI_Request *r),(a,n,t,s,g,c,r))
W(MPI_Isend,(const void *a,int n,MPI_Datatype t,int s,int g,MPI_Comm c,MPI_Request *r),(a,n,t,s,g,c,r))
W(MPI_Waitall,(int n,MPI_Request *r,MPI_Status *s),(n,r,s))
W(MPI_Waitany,(int n,MPI_Request *r,int *i,MPI_Status *s),(n,r,i,s))
double MPI_Wtime(void){ return PMPI_Wtime()+(walljump?1.0e7:0.0); }
#endif

void problem(DomainS *pD){
  GridS *pG=pD->Grid; int i,j,k; load();
  for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
    memset(&(pG->U[k][j][i]),0,sizeof(ConsS)); pG->U[k][j][i].d=1.0;
  }
}
void Userwork_in_loop(MeshS *pM){
  int i,me=vf_rank();
  tf_off();
  curcyc=pM->nstep+1; calls=0;
  at('w',curcyc,0);
  for(i=0;i<nsg;i++) if(sg[i].r==me&&sg[i].k=='t'&&sg[i].c==curcyc){ walljump=1; ev("sig",curcyc,'t',0); }
  for(i=0;i<nsg;i++) if(sg[i].r==me&&sg[i].k=='i'&&sg[i].c==curcyc&&!sg[i].done){ sg[i].done=1; steps=&sg[i]; stepc=curcyc; tf_on(sg[i].n); }
}
static void stepdone(void){
  tf_off();
  if(steps){ if(fired) ev("sig",steps->c,'i',steps->n); else ev("miss",steps->c,'i',total); steps=NULL; }
}
void Userwork_after_loop(MeshS *pM){
  stepdone();
  ended=1; ev("end",pM->nstep,'-',0);
  at('f',0,0);
}
static void probe(MeshS *pM,OutputS *pO){
  stepdone();
  if(ended){ ev("final",pM->nstep,'-',0); at('F',0,0); }
  else { { int q=calls; calls=-1; ev("top",pM->nstep,(char)45,q); }; if(curcyc||pO->num>0) at('o',pM->nstep+1,0); }
}
VOutFun_t get_usr_out_fun(const char *name){ return strcmp(name,"probe")==0?probe:NULL; }
