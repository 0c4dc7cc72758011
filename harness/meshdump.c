#include "copyright.h"
/* Harness "meshdump": logs the mesh as the code built it: one ndjson record per Grid held by this process, written at the
 * initial output (after the boundary-value initialisation).  Coordinates are integers in units of 1/16. */
#define VF_OWN_OUTFUN
#include "vf_stubs.h"
static int done=0;
#ifdef MPI_PARALLEL
static int world(MPI_Comm c,int r){
  MPI_Group a,w; int o=-2;
  if(r<0 || c==MPI_COMM_NULL) return r<0?-1:-3;
  MPI_Comm_group(c,&a); MPI_Comm_group(MPI_COMM_WORLD,&w);
  int n; MPI_Group_size(a,&n);
  if(r<n) MPI_Group_translate_ranks(a,1,&r,w,&o); else o=-4;
  MPI_Group_free(&a); MPI_Group_free(&w);
  return o;
}
#endif
static long tick(double x){ double y=16.0*x; return (y==floor(y))?(long)y:999999999L; }
#ifdef STATIC_MESH_REFINEMENT
static void ovr(FILE *f,const char *name,GridS *pG,GridOvrlpS *o,int n,DomainS *pD,int child){
  int q,m,fc; int s[3]={pG->is,pG->js,pG->ks};
  fprintf(f,",\"%s\":[",name);
  for(q=0;q<n;q++){
    int r=0;
#ifdef MPI_PARALLEL
    r=world(child?pD->Comm_Children:pD->Comm_Parent,o[q].ID);
#endif
    fprintf(f,"%s{\"rank\":%d,\"domn\":%d,\"lo\":[",q?",":"",r,o[q].DomN);
    for(m=0;m<3;m++) fprintf(f,"%s%d",m?",":"",o[q].ijks[m]-s[m]+pG->Disp[m]);
    fprintf(f,"],\"hi\":[");
    for(m=0;m<3;m++) fprintf(f,"%s%d",m?",":"",o[q].ijke[m]-s[m]+pG->Disp[m]+1);
    fprintf(f,"],\"faces\":["); r=0;
    for(fc=0;fc<6;fc++) if(o[q].myFlx[fc]!=NULL) fprintf(f,"%s[%d,%d]",r++?",":"",fc/2+1,(fc%2)?1:-1);
    fprintf(f,"]}");
  }
  fprintf(f,"]");
}
#endif
static void dump(MeshS *pM,OutputS *pO){
  int nl,nd,i,m; FILE *f=vf_log();
  if(done) return;
  done=1;
  for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++){
    DomainS *pD=&pM->Domain[nl][nd]; GridS *pG=pD->Grid; Real x[3];
    if(pG==NULL) continue;
    fprintf(f,"{\"level\":%d,\"domn\":%d,\"rank\":%d,\"disp\":[%d,%d,%d],\"nx\":[%d,%d,%d]",nl,nd,vf_rank(),
      pG->Disp[0],pG->Disp[1],pG->Disp[2],pG->Nx[0],pG->Nx[1],pG->Nx[2]);
    fprintf(f,",\"ddisp\":[%d,%d,%d],\"dnx\":[%d,%d,%d],\"dng\":[%d,%d,%d]",pD->Disp[0],pD->Disp[1],pD->Disp[2],
      pD->Nx[0],pD->Nx[1],pD->Nx[2],pD->NGrid[0],pD->NGrid[1],pD->NGrid[2]);
    fprintf(f,",\"min\":[%ld,%ld,%ld],\"max\":[%ld,%ld,%ld],\"cc\":[[",tick(pG->MinX[0]),tick(pG->MinX[1]),tick(pG->MinX[2]),
      tick(pG->MaxX[0]),tick(pG->MaxX[1]),tick(pG->MaxX[2]));
    for(i=pG->is;i<=pG->ie;i++){ cc_pos(pG,i,pG->js,pG->ks,&x[0],&x[1],&x[2]); fprintf(f,"%s%ld",i>pG->is?",":"",tick(x[0])); }
    fprintf(f,"],[");
    for(i=pG->js;i<=pG->je;i++){ cc_pos(pG,pG->is,i,pG->ks,&x[0],&x[1],&x[2]); fprintf(f,"%s%ld",i>pG->js?",":"",tick(x[1])); }
    fprintf(f,"],[");
    for(i=pG->ks;i<=pG->ke;i++){ cc_pos(pG,pG->is,pG->js,i,&x[0],&x[1],&x[2]); fprintf(f,"%s%ld",i>pG->ks?",":"",tick(x[2])); }
    fprintf(f,"]],\"act\":[%d,%d,%d]",pG->ie-pG->is+1,pG->je-pG->js+1,pG->ke-pG->ks+1);
    int id[6]={pG->lx1_id,pG->rx1_id,pG->lx2_id,pG->rx2_id,pG->lx3_id,pG->rx3_id};
    fprintf(f,",\"nb\":[");
    for(m=0;m<6;m++){
      int r=id[m];
#ifdef MPI_PARALLEL
      r=world(pD->Comm_Domain,r);
#endif
      fprintf(f,"%s%d",m?",":"",r);
    }
    fprintf(f,"]");
#ifdef STATIC_MESH_REFINEMENT
    ovr(f,"kids",pG,pG->CGrid,pG->NCGrid,pD,1);
    ovr(f,"pars",pG,pG->PGrid,pG->NPGrid,pD,0);
#else
    fprintf(f,",\"kids\":[],\"pars\":[]");
#endif
    fprintf(f,"}\n");
  }
}
void problem(DomainS *pD){
  GridS *pG=pD->Grid; int i,j,k;
  for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
    memset(&(pG->U[k][j][i]),0,sizeof(ConsS)); pG->U[k][j][i].d=1.0;
#ifndef BAROTROPIC
    pG->U[k][j][i].E=1.0;
#endif
  }
}
VOutFun_t get_usr_out_fun(const char *name){ return strcmp(name,"mesh")==0?dump:NULL; }
