#include "copyright.h"
/* Harness "drive": a problem generator whose flow state is prescribed cycle by cycle by a scenario file ($VF_SCN), so
 * that the specification controls the wave speeds seen by the code and hence the sequence of time steps.
 *
 *   lines of $VF_SCN:   Z cyc nl nd i j k d v1 v2 v3 a2 c1 c2 c3 f1 f2 f3
 *   zone (i,j,k) of domain nd on level nl (indices within the domain) has, in the state from which the step after
 *   cycle cyc is computed, density d, velocity v, sound speed squared a2 (adiabatic gas only), cell field c, left-face
 *   field f.  All other zones: d=1, v=0, a2=$VF_A2 (default 1), B=0.
 *   SIG cyc rank point n : see sig part below (C01)
 *
 * Logs to $VF_LOG.<rank> one record per observation, all numbers as integers in units of 2^-VF_TICK. */
#define VF_OWN_INLOOP
#define VF_OWN_AFTERLOOP
#define VF_OWN_OUTFUN
#include "vf_stubs.h"
#include <signal.h>
#ifdef PARTICLES
#include "particles/prototypes.h"
#include "particles/particle.h"
#endif

static double base_a2=1.0;
static int gamma_set=0;
typedef struct { int cyc,nl,nd,i,j,k; double d,v[3],a2,c[3],f[3]; } Zn;
static Zn *zn=NULL; static int nzn=-1;
typedef struct { int cyc,nl,nd; double x[3],v[3]; } Pn;
static Pn *pn=NULL; static int npn=0;

static void load(void){
  const char *e=getenv("VF_SCN"); char l[1024]; FILE *f;
  if(nzn>=0) return;
  nzn=0; base_a2=(double)vf_env("VF_A2",1);
  if(e==NULL || (f=fopen(e,"r"))==NULL) return;
  while(fgets(l,sizeof l,f)){
    if(l[0]=='Z'){
      zn=realloc(zn,(nzn+1)*sizeof(Zn));
      Zn *z=&zn[nzn++];
      if(sscanf(l+1,"%d %d %d %d %d %d %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf",&z->cyc,&z->nl,&z->nd,&z->i,&z->j,&z->k,
        &z->d,&z->v[0],&z->v[1],&z->v[2],&z->a2,&z->c[0],&z->c[1],&z->c[2],&z->f[0],&z->f[1],&z->f[2])!=17) exit(78);
    }
  }
  fclose(f);
}

static void fill(DomainS *pD,int nl,int nd,int cyc){
  GridS *pG=pD->Grid; int i,j,k,n;
  for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
    memset(&(pG->U[k][j][i]),0,sizeof(ConsS));
    pG->U[k][j][i].d=1.0;
#ifndef BAROTROPIC
    pG->U[k][j][i].E=base_a2/Gamma/Gamma_1;
#endif
#ifdef MHD
    pG->B1i[k][j][i]=pG->B2i[k][j][i]=pG->B3i[k][j][i]=0.0;
    if(i==pG->ie) pG->B1i[k][j][i+1]=0.0;
    if(j==pG->je && pG->Nx[1]>1) pG->B2i[k][j+1][i]=0.0;
    if(k==pG->ke && pG->Nx[2]>1) pG->B3i[k+1][j][i]=0.0;
#endif
  }
  for(n=0;n<nzn;n++){
    Zn *z=&zn[n];
    if(z->cyc!=cyc||z->nl!=nl||z->nd!=nd) continue;
    i=z->i-(pG->Disp[0]-pD->Disp[0])+pG->is; j=z->j-(pG->Disp[1]-pD->Disp[1])+pG->js; k=z->k-(pG->Disp[2]-pD->Disp[2])+pG->ks;
    if(i<pG->is||i>pG->ie||j<pG->js||j>pG->je||k<pG->ks||k>pG->ke) continue;
    ConsS *u=&(pG->U[k][j][i]);
    u->d=z->d; u->M1=z->d*z->v[0]; u->M2=z->d*z->v[1]; u->M3=z->d*z->v[2];
#ifdef MHD
    double b[3]; int m;
    for(m=0;m<3;m++) b[m]=fabs(z->c[m])+fabs(z->f[m]-z->c[m]);
    u->B1c=z->c[0]; u->B2c=z->c[1]; u->B3c=z->c[2];
    pG->B1i[k][j][i]=z->f[0]; pG->B2i[k][j][i]=z->f[1]; pG->B3i[k][j][i]=z->f[2];
#endif
#ifndef BAROTROPIC
    u->E=z->a2*z->d/Gamma/Gamma_1+0.5*z->d*(z->v[0]*z->v[0]+z->v[1]*z->v[1]+z->v[2]*z->v[2]);
#ifdef MHD
    u->E+=0.5*(b[0]*b[0]+b[1]*b[1]+b[2]*b[2]);
#endif
#endif
  }
}

static long tick(double x){
  double t=ldexp(x,(int)vf_env("VF_TICK",12));
  if(!(fabs(t)<1e9) || t!=floor(t)) return -999;
  return (long)t;
}

static void obs(MeshS *pM,const char *what){
  FILE *f=vf_log(); int nl,nd,n=0;
  if(f==NULL) return;
  fprintf(f,"{\"ev\":\"%s\",\"cyc\":%d,\"t\":%ld,\"dt\":%ld,\"g\":[",what,pM->nstep,tick(pM->time),tick(pM->dt));
  for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++) if(pM->Domain[nl][nd].Grid!=NULL){
    GridS *pG=pM->Domain[nl][nd].Grid;
    fprintf(f,"%s[%ld,%ld]",n++?",":"",tick(pG->time),tick(pG->dt));
  }
  fprintf(f,"]}\n"); fflush(f);
}

static int ndone=0;
void problem(DomainS *pD){
  load();
#ifdef VISCOSITY
  nu_iso=par_getd_def("problem","nu_iso",0.0); nu_aniso=par_getd_def("problem","nu_aniso",0.0);
#endif
  fill(pD,pD->Level,pD->DomNumber,0);
}
void Userwork_in_loop(MeshS *pM){
  int nl,nd;
  load();
  if(vf_env("VF_TOP",0)) obs(pM,"top");
  for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++) if(pM->Domain[nl][nd].Grid!=NULL)
    fill(&(pM->Domain[nl][nd]),nl,nd,pM->nstep+1);
}
void Userwork_after_loop(MeshS *pM){ obs(pM,"end"); }
static void probe(MeshS *pM,OutputS *pO){ obs(pM,"probe"); }
/* a scheduled user output: reports its block, number and time */
static void named(MeshS *pM,OutputS *pO){
  FILE *f=vf_log(); if(f){ fprintf(f,"{\"ev\":\"named\",\"n\":%d,\"num\":%d,\"t\":%ld,\"cyc\":%d}\n",pO->n,pO->num,tick(pM->time),pM->nstep); fflush(f); }
}
VOutFun_t get_usr_out_fun(const char *name){ return strcmp(name,"probe")==0?probe:strcmp(name,"named")==0?named:NULL; }
