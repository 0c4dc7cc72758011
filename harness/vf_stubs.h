/* Default definitions of the problem-generator API, and a small ndjson logger.  A harness defines VF_OWN_xxx for the
 * functions it provides itself. */
#ifndef VF_STUBS_H
#define VF_STUBS_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"

static int vf_rank(void){
#ifdef MPI_PARALLEL
  int r; MPI_Comm_rank(MPI_COMM_WORLD,&r); return r;
#else
  return 0;
#endif
}
static int vf_size(void){
#ifdef MPI_PARALLEL
  int r; MPI_Comm_size(MPI_COMM_WORLD,&r); return r;
#else
  return 1;
#endif
}
static FILE *vf_fp=NULL;
/* log file $VF_LOG.<rank>; opened in append mode, absolute path expected */
static FILE *vf_log(void){
  if(vf_fp==NULL){
    const char *e=getenv("VF_LOG"); char b[1024];
    if(e==NULL) return NULL;
    snprintf(b,sizeof b,"%s.%d",e,vf_rank());
    vf_fp=fopen(b,"a");
    if(vf_fp==NULL){ fprintf(stderr,"cannot open %s\n",b); exit(77); }
    setvbuf(vf_fp,NULL,_IOLBF,1<<16);
  }
  return vf_fp;
}
static long vf_env(const char *n,long def){ const char *e=getenv(n); return (e&&*e)?atol(e):def; }

#ifndef VF_OWN_RESTART
void problem_write_restart(MeshS *pM, FILE *fp){ return; }
void problem_read_restart(MeshS *pM, FILE *fp){ return; }
#endif
#ifndef VF_OWN_EXPR
ConsFun_t get_usr_expr(const char *expr){ return NULL; }
#endif
#ifndef VF_OWN_OUTFUN
VOutFun_t get_usr_out_fun(const char *name){ return NULL; }
#endif
#ifndef VF_OWN_INLOOP
void Userwork_in_loop(MeshS *pM){ return; }
#endif
#ifndef VF_OWN_AFTERLOOP
void Userwork_after_loop(MeshS *pM){ return; }
#endif
#ifdef PARTICLES
#ifndef VF_OWN_PAR
PropFun_t get_usr_par_prop(const char *name){ return NULL; }
void gasvshift(const Real x1, const Real x2, const Real x3, Real *u1, Real *u2, Real *u3){ return; }
void Userforce_particle(Real3Vect *ft, const Real x1, const Real x2, const Real x3,
                        const Real v1, const Real v2, const Real v3){ return; }
#endif
#endif
#ifdef RESISTIVITY
#ifndef VF_OWN_ETA
void get_eta_user(GridS *pG, int i, int j, int k, Real *eta_O, Real *eta_H, Real *eta_A){ *eta_O=0.; *eta_H=0.; *eta_A=0.; }
#endif
#endif
#endif
