#include "copyright.h"
/* Harness "shear": rows of integers along y in a shearing box.  At the initial output, for each of the displacements in
 * $VF_SHIFTS (eighths of a zone), the active zones are refilled, the time (or, mode "fargo", the timestep) is set so that the
 * shear is that displacement, and the boundary values are set (or the orbital advection is done); all zones before and after
 * go to $VF_DUMP.<rank> in binary.
 *   ghost: displacement qshear*Omega_0*Lx*time = shift/8 dx2        fargo: qshear*Omega_0*dt*dx1 = shift/8 dx2 */
#define VF_OWN_OUTFUN
#include "vf_stubs.h"
static int done=0;
static uint64_t mix(uint64_t x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
#ifdef MHD
#define NF 3
#else
#define NF 0
#endif
#ifndef BAROTROPIC
#define NE 1
#else
#define NE 0
#endif
#ifdef SELF_GRAVITY
#define NP 1
#else
#define NP 0
#endif
#define NV (4+NE+NF+NSCALARS+NF+NP)
static Real *var(GridS *pG,int v,int k,int j,int i){
  ConsS *u=&(pG->U[k][j][i]);
  if(v==0) return &u->d;
  if(v==1) return &u->M1;
  if(v==2) return &u->M2;
  if(v==3) return &u->M3;
  v-=4;
#ifndef BAROTROPIC
  if(v==0) return &u->E;
  v-=1;
#endif
#ifdef MHD
  if(v==0) return &u->B1c;
  if(v==1) return &u->B2c;
  if(v==2) return &u->B3c;
  v-=3;
#endif
#if (NSCALARS>0)
  if(v<NSCALARS) return &u->s[v];
  v-=NSCALARS;
#endif
#ifdef MHD
  if(v==0) return &(pG->B1i[k][j][i]);
  if(v==1) return &(pG->B2i[k][j][i]);
  if(v==2) return &(pG->B3i[k][j][i]);
  v-=3;
#endif
#ifdef SELF_GRAVITY
  if(v==0) return &(pG->Phi[k][j][i]);
#endif
  exit(79);
}
/* integer profile of row (v,i,k): constant, ramps, parabola, random, spike; flat: every row constant along y */
static double prof(uint64_t seed,int flat,int v,int k,int j,int i,int n){
  uint64_t h=mix(mix(mix(seed+101*v)+i)+977*k); int kind=flat?0:(int)(h%5),b=(int)((h>>8)%12),a=1+(int)((h>>16)%4),c=(int)((h>>24)%n),x;
  x=(j-c+n)%n;
  if(v==0) b+=8;
  if(kind==0) return b;
  if(kind==1) return b+a*(x<=n/2?x:n-x);
  if(kind==2){ x=(x<=10?x:x<=15?30-2*x:0); a=1+a%2; return b+a*((x+3)*(x+4)/2); }
  if(kind==3) return b+(double)(mix(h+j)%(8*a));
  return b+(x==0?6*a:0);
}
static void fill(DomainS *pD,uint64_t seed,int flat){
  GridS *pG=pD->Grid; int i,j,k,v;
  for(v=0;v<NV;v++){
    int f=v-(NV-NP-NF),e[3]={pG->ie,pG->je,pG->ke};
    for(k=0;k<=pG->ke+(pG->Nx[2]>1?nghost:0);k++) for(j=0;j<=pG->je+(pG->Nx[1]>1?nghost:0);j++) for(i=0;i<=pG->ie+nghost;i++) *var(pG,v,k,j,i)=-5000.0;
    if(f>=0 && f<NF && NF && pG->Nx[f]>1) e[f]++;
    for(k=pG->ks;k<=e[2];k++) for(j=pG->js;j<=e[1];j++) for(i=pG->is;i<=e[0];i++){
      int p[3]={i-pG->is+pG->Disp[0],j-pG->js+pG->Disp[1],k-pG->ks+pG->Disp[2]};
      if(f==1||f==2) p[f]%=pD->Nx[f];
      *var(pG,v,k,j,i)=prof(seed,flat,v,p[2],p[1],p[0],pD->Nx[1]);
    }
  }
#ifdef MHD
  for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
    ConsS *U=&(pG->U[k][j][i]);
    U->B1c=0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1]);
    U->B2c=0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i]);
    U->B3c=pG->B3i[k][j][i]; if(pG->Nx[2]>1) U->B3c=0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i]);
  }
#endif
#ifndef BAROTROPIC
  for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++) pG->U[k][j][i].E+=400.0;
#endif
}
static void out(FILE *f,GridS *pG,DomainS *pD,int what,long s){
  int hd[12]={0x5ea6,what,(int)s,NV,pG->Disp[0],pG->Disp[1],pG->Disp[2],0,0,0,NF,0},v,i,j,k,m; int g[3];
  for(m=0;m<3;m++){ g[m]=pG->Nx[m]>1?nghost:0; hd[7+m]=pG->Nx[m]; }
  hd[11]=nghost;
  fwrite(hd,sizeof hd,1,f);
  for(v=0;v<NV;v++) for(k=pG->ks-g[2];k<=pG->ke+g[2];k++) for(j=pG->js-g[1];j<=pG->je+g[1];j++) for(i=pG->is-g[0];i<=pG->ie+g[0];i++){ double x=*var(pG,v,k,j,i); fwrite(&x,8,1,f); }
}
static void dump(MeshS *pM,OutputS *pO){
  DomainS *pD=&(pM->Domain[0][0]); GridS *pG=pD->Grid; char *e=getenv("VF_SHIFTS"),b[1024]; FILE *f; uint64_t seed=(uint64_t)par_geti("problem","seed");
  double Lx=pD->RootMaxX[0]-pD->RootMinX[0],q=qshear*Omega_0; int far=(int)vf_env("VF_FARGO",0),flat;
  if(done) return;
  done=1;
  snprintf(b,sizeof b,"%s.%d",getenv("VF_DUMP"),vf_rank()); f=fopen(b,"wb"); if(!f) exit(77);
  while(e&&*e){
    long s=strtol(e,&e,10); if(*e==',') e++;
    seed=mix(seed); flat=(int)(far && (seed>>40)%3==0);
    fill(pD,seed,flat);
    pG->time=pM->time=0.0;
    if(far) bvals_mhd(pD);
    out(f,pG,pD,0,s);
    if(far){
#ifdef FARGO
      pG->dt=pM->dt=(s/8.0)*pG->dx2/(q*pG->dx1);
      Fargo(pD);
#endif
    } else {
      pG->time=pM->time=(s/8.0)*pG->dx2/(q*Lx);
      bvals_mhd(pD);
#ifdef SELF_GRAVITY
      bvals_grav(pD);
#endif
    }
    out(f,pG,pD,1,s);
  }
  fclose(f);
}
void problem(DomainS *pD){
  Omega_0=par_getd("problem","omega"); qshear=par_getd("problem","qshear"); ShBoxCoord=par_geti_def("problem","shcoord",0)?xz:xy;
#ifdef SELF_GRAVITY
  four_pi_G=1.0; grav_mean_rho=1.0;
#endif
  fill(pD,1,0);
}
VOutFun_t get_usr_out_fun(const char *name){ return strcmp(name,"rows")==0?dump:NULL; }
