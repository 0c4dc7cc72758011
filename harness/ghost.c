#include "copyright.h"
/* Harness "ghost": fills the active zones and faces of every Domain with distinct integers, and logs every zone and face,
 * ghost zones included, after the boundary values have been set (initial output).  $VF_USER: bit mask of the six sides on
 * which a user boundary function (constant 777) is enrolled. */
#define VF_OWN_OUTFUN
#include "vf_stubs.h"
static int done=0;
#ifdef MHD
#define NF 3
#else
#define NF 0
#endif
#ifndef BAROTROPIC
#define NE 1
#else
#define NE 0
#endif
#ifdef MHD
#define NBC 3
#else
#define NBC 0
#endif
#define NV (4+NE+NBC+NSCALARS+NF)
static Real *var(GridS *pG,int v,int k,int j,int i){
  ConsS *u=&(pG->U[k][j][i]);
  if(v==0) return &u->d;
  if(v==1) return &u->M1;
  if(v==2) return &u->M2;
  if(v==3) return &u->M3;
  v-=4;
#ifndef BAROTROPIC
  if(v==0) return &u->E;
  v-=1;
#endif
#ifdef MHD
  if(v==0) return &u->B1c;
  if(v==1) return &u->B2c;
  if(v==2) return &u->B3c;
  v-=3;
#endif
#if (NSCALARS>0)
  if(v<NSCALARS) return &u->s[v];
  v-=NSCALARS;
#endif
#ifdef MHD
  if(v==0) return &(pG->B1i[k][j][i]);
  if(v==1) return &(pG->B2i[k][j][i]);
  if(v==2) return &(pG->B3i[k][j][i]);
#endif
  exit(79);
}
static void box(GridS *pG,int lo[3],int hi[3],int skip){ /* user boundary: set all variables in a box to 777; skip: the normal
   face field is left alone on the first plane (1) */
  int v,i,j,k;
  for(v=0;v<NV;v++){
    int l[3]={lo[0],lo[1],lo[2]},h[3]={hi[0],hi[1],hi[2]},f=v-(NV-NF);
    if(f>=0 && f==(skip&3) && (skip&4)) l[f]++;
    if(f>=0 && pG->Nx[f]>1 && f!=(skip&3)) h[f]=MIN(h[f]+1, f==0?pG->ie+nghost:f==1?pG->je+nghost:pG->ke+nghost);
    for(k=l[2];k<=h[2];k++) for(j=l[1];j<=h[1];j++) for(i=l[0];i<=h[0];i++) *var(pG,v,k,j,i)=777.0;
  }
}
static void sides(GridS *pG,int dir,int right){
  int g[3]={0,0,0},s[3]={pG->is,pG->js,pG->ks},e[3]={pG->ie,pG->je,pG->ke},lo[3],hi[3],m;
  for(m=0;m<3;m++) if(pG->Nx[m]>1) g[m]=nghost;
  for(m=0;m<3;m++){ lo[m]=s[m]-(m<dir?g[m]:0); hi[m]=e[m]+(m<dir?g[m]:0); }
  if(right){ lo[dir]=e[dir]+1; hi[dir]=e[dir]+g[dir]; } else { lo[dir]=s[dir]-g[dir]; hi[dir]=s[dir]-1; }
  box(pG,lo,hi,dir|(right?4:0));
}
static void u0(GridS *p){sides(p,0,0);} static void u1(GridS *p){sides(p,0,1);} static void u2(GridS *p){sides(p,1,0);}
static void u3(GridS *p){sides(p,1,1);} static void u4(GridS *p){sides(p,2,0);} static void u5(GridS *p){sides(p,2,1);}

static void dump(MeshS *pM,OutputS *pO){
  int nl,nd,i,j,k,v; FILE *f=vf_log();
  if(done) return;
  done=1;
  for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++){
    DomainS *pD=&pM->Domain[nl][nd]; GridS *pG=pD->Grid;
    if(pG==NULL) continue;
    int g[3]={0,0,0}; for(i=0;i<3;i++) if(pG->Nx[i]>1) g[i]=nghost;
    fprintf(f,"{\"level\":%d,\"disp\":[%d,%d,%d],\"nx\":[%d,%d,%d],\"v\":[",nl,pG->Disp[0]-pD->Disp[0],pG->Disp[1]-pD->Disp[1],
      pG->Disp[2]-pD->Disp[2],pG->Nx[0],pG->Nx[1],pG->Nx[2]);
    for(v=0;v<NV;v++){
      int c=0;
      fprintf(f,"%s[",v?",":"");
      for(k=pG->ks-g[2];k<=pG->ke+g[2];k++) for(j=pG->js-g[1];j<=pG->je+g[1];j++) for(i=pG->is-g[0];i<=pG->ie+g[0];i++){
        double x=*var(pG,v,k,j,i);
        long y=(x==floor(x) && fabs(x)<2e9)?(long)x:-1999999999L;
        fprintf(f,"%s%ld",c++?",":"",y);
      }
      fprintf(f,"]");
    }
    fprintf(f,"]}\n");
  }
}
void problem(DomainS *pD){
  GridS *pG=pD->Grid; int i,j,k,v,u=(int)vf_env("VF_USER",0);
  int n1=pD->Nx[0]+1,n2=pD->Nx[1]+1;
  VGFun_t fun[6]={u0,u1,u2,u3,u4,u5}; enum BCDirection d[6]={left_x1,right_x1,left_x2,right_x2,left_x3,right_x3};
  for(v=0;v<NV;v++){
    int f=v-(NV-NF);
    int e[3]={pG->ie,pG->je,pG->ke};
    if(f>=0 && pG->Nx[f]>1) e[f]++;
    for(k=pG->ks;k<=e[2];k++) for(j=pG->js;j<=e[1];j++) for(i=pG->is;i<=e[0];i++){
      int p[3]={i-pG->is+pG->Disp[0]-pD->Disp[0],j-pG->js+pG->Disp[1]-pD->Disp[1],k-pG->ks+pG->Disp[2]-pD->Disp[2]};
      if(f>=0 && p[f]==pD->Nx[f] && pD->Nx[f]>1 && vf_env(f==0?"VF_PER1":f==1?"VF_PER2":"VF_PER3",0)) p[f]=0;
      *var(pG,v,k,j,i)=(double)((v+1)*100000+(p[2]*n2+p[1])*n1+p[0]+1);
    }
  }
  for(v=0;v<6;v++) if(u&(1<<v)) bvals_mhd_fun(pD,d[v],fun[v]);
}
VOutFun_t get_usr_out_fun(const char *name){ return strcmp(name,"bv")==0?dump:NULL; }
