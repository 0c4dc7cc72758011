#include "copyright.h"
/* Harness "parts": particles on a gas at rest are moved by prescribed displacements ($VF_PARTS) through Integrate_Particles (no drag, unit time step)
 * and bvals_particle; reports all particles before and after the boundary conditions, and the binned particles, after every move.
 * Positions in $VF_PARTS are in units of 1/8 zone from the lower edge of the domain.
 *   N R / id type p1 p2 p3 (N lines) / R times N lines of three triples mode val e: mode 0: moves by val; mode 1 (-1): to val beyond the upper (lower)
 *   edge of its Grid, if that is not farther than 39 units (else by val); e: deviation of the target (-1,0,1 units in the last place). */
#define VF_OWN_OUTFUN
#include "vf_stubs.h"
#include "particles/prototypes.h"
#include "particles/particle.h"
static int N_,R_,*ty_; static int (*p0_)[3]; static int (*mv_)[9];
static double rmin_[3],u_[3];
static void read_(DomainS *pD){
  FILE *f=fopen(getenv("VF_PARTS"),"r"); int n,r,id;
  if(!f || fscanf(f,"%d %d",&N_,&R_)!=2) exit(77);
  ty_=calloc(N_+1,sizeof(int)); p0_=calloc(N_+1,sizeof *p0_); mv_=calloc((size_t)(N_+1)*(R_+1),sizeof *mv_);
  for(n=0;n<N_;n++) if(fscanf(f,"%d %d %d %d %d",&id,&ty_[n],&p0_[n][0],&p0_[n][1],&p0_[n][2])!=5) exit(77);
  for(r=0;r<R_;r++) for(n=0;n<N_;n++){ int *m=mv_[r*N_+n]; int z; for(z=0;z<9;z++) if(fscanf(f,"%d",m+z)!=1) exit(77); }
  fclose(f);
  for(n=0;n<3;n++){ rmin_[n]=pD->RootMinX[n]; u_[n]=pD->dx[n]/8.0; }
}
void problem(DomainS *pD){
  GridS *pG=pD->Grid; int i,j,k,n,q,N[3],m; long np=0;
  read_(pD);
  for(m=0;m<3;m++) N[m]=pG->Nx[m]>1?pG->Nx[m]+2*nghost:1;
  for(k=0;k<N[2];k++) for(j=0;j<N[1];j++) for(i=0;i<N[0];i++){
    ConsS *U=&(pG->U[k][j][i]); memset(U,0,sizeof *U); U->d=1.0;
#ifndef BAROTROPIC
    U->E=1.0;
#endif
  }
  for(q=0;q<npartypes;q++){
    grproperty[q].num=0; tstop0[q]=1.0e30;
#ifdef FEEDBACK
    grproperty[q].m=(Real)(q+1);
#endif
  }
  for(n=0;n<N_;n++){
    double x[3]; GrainS *gr; int in=1;
    for(m=0;m<3;m++){ x[m]=pD->Nx[m]>1?rmin_[m]+p0_[n][m]*u_[m]:0.5*(pG->MinX[m]+pG->MaxX[m]); if(pD->Nx[m]>1 && !(x[m]>=pG->MinX[m] && x[m]<pG->MaxX[m])) in=0; }
    if(!in) continue;
    if(np+2>pG->arrsize) particle_realloc(pG,np+200);
    gr=&(pG->particle[np++]); gr->x1=x[0]; gr->x2=x[1]; gr->x3=x[2]; gr->v1=gr->v2=gr->v3=0.0;
    gr->property=ty_[n]; grproperty[gr->property].num++; gr->pos=1; gr->my_id=n;
#ifdef MPI_PARALLEL
    gr->init_id=(n*5)%3;
#endif
  }
  pG->nparticle=np;
}
static void all_(FILE *f,const char *name,GridS *pG){
  long p; fprintf(f,",\"%s\":[",name);
  for(p=0;p<pG->nparticle;p++){ GrainS *g=&(pG->particle[p]); int ii=-1;
#ifdef MPI_PARALLEL
    ii=g->init_id;
#endif
    fprintf(f,"%s[%ld,%d,%d,%d,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g]",p?",":"",g->my_id,g->property,ii,(int)g->pos,g->x1,g->x2,g->x3,g->v1,g->v2,g->v3); }
  fprintf(f,"]");
}
static void probe(MeshS *pM, OutputS *pO){
  static int done=0; DomainS *pD=&(pM->Domain[0][0]); GridS *pG=pD->Grid; FILE *f=vf_log(); int r,m,i,j,k,first; long p; Real dt;
  if(done++ || !pG || !f) return;
  fprintf(f,"{\"grid\":[%d,%d,%d,%d,%d,%d],\"min\":[%.17g,%.17g,%.17g],\"max\":[%.17g,%.17g,%.17g],\"rmin\":[%.17g,%.17g,%.17g],\"u\":[%.17g,%.17g,%.17g]",
    pG->Disp[0],pG->Disp[1],pG->Disp[2],pG->Nx[0],pG->Nx[1],pG->Nx[2],pG->MinX[0],pG->MinX[1],pG->MinX[2],pG->MaxX[0],pG->MaxX[1],pG->MaxX[2],
    rmin_[0],rmin_[1],rmin_[2],u_[0],u_[1],u_[2]);
  all_(f,"a",pG); fprintf(f,"}\n");
  for(r=0;r<R_;r++){
    for(p=0;p<pG->nparticle;p++){
      GrainS *g=&(pG->particle[p]); Real *x[3]={&g->x1,&g->x2,&g->x3},*v[3]={&g->v1,&g->v2,&g->v3}; int *mv=mv_[r*N_+(int)g->my_id];
      for(m=0;m<3;m++){
        double q,t,s; int z,d=mv[3*m+1],e=mv[3*m+2];
        *v[m]=0.0; if(pD->Nx[m]==1) continue;
        q=floor((*x[m]-rmin_[m])/u_[m]+0.5);
        if(mv[3*m]){ long f=(mv[3*m]>0?pG->Disp[m]+pG->Nx[m]:pG->Disp[m])*8L+d*mv[3*m]; if(labs(f-(long)q)<=39) d=(int)(f-(long)q); }
        t=rmin_[m]+(q+d)*u_[m];
        if(fabs(t-pG->MaxX[m])<1.0e-6*u_[m]) t=pG->MaxX[m];
        if(fabs(t-pG->MinX[m])<1.0e-6*u_[m]) t=pG->MinX[m];
        if(d==0){ *x[m]=(t==pG->MaxX[m])?nextafter(t,-1.0e30):t; continue; }
        if(e) t=nextafter(t,e*1.0e30);
        *v[m]=d*u_[m]; s=t-*v[m];
        for(z=0;z<8 && s+*v[m]!=t;z++) s=nextafter(s,(s+*v[m]<t)?1.0e30:-1.0e30);
        *x[m]=s;
      }
    }
    dt=pG->dt; pG->dt=1.0;
    get_gasinfo(pG);
    Integrate_Particles(pD);
    fprintf(f,"{\"r\":%d",r); all_(f,"b",pG); fflush(f);
    bvals_particle(pD);
    all_(f,"a",pG);
    particle_to_grid(pD,property_all);
    fprintf(f,",\"c\":["); first=1;
    for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
      GPCouple *c=&(pG->Coup[k][j][i]);
      if(c->grid_d==0.0 && c->grid_v1==0.0 && c->grid_v2==0.0 && c->grid_v3==0.0) continue;
      fprintf(f,"%s[%d,%d,%d,%.17g,%.17g,%.17g,%.17g]",first?"":",",i-pG->is+pG->Disp[0],j-pG->js+pG->Disp[1],k-pG->ks+pG->Disp[2],c->grid_d,c->grid_v1,c->grid_v2,c->grid_v3); first=0;
    }
    fprintf(f,"]");
#ifdef FEEDBACK
    { int q,c,z0[3],z1[3],L[3]={pG->is,pG->js,pG->ks}; Real t0[64]; Real3Vect cell1;
      for(m=0;m<3;m++){ z0[m]=pG->Nx[m]>1?L[m]-nghost:L[m]; z1[m]=L[m]+pG->Nx[m]-1+(pG->Nx[m]>1?nghost:0); }
      cell1.x1=pG->Nx[0]>1?1.0/pG->dx1:0.0; cell1.x2=pG->Nx[1]>1?1.0/pG->dx2:0.0; cell1.x3=pG->Nx[2]>1?1.0/pG->dx3:0.0;
      for(q=0;q<npartypes;q++){ t0[q]=tstop0[q]; tstop0[q]=64.0; }
      feedback_predictor(pD); exchange_gpcouple(pD,1);
      fprintf(f,",\"p\":["); first=1;
      for(k=z0[2];k<=z1[2];k++) for(j=z0[1];j<=z1[1];j++) for(i=z0[0];i<=z1[0];i++){
        GPCouple *g=&(pG->Coup[k][j][i]);
        if(g->fb1==0.0 && g->fb2==0.0 && g->fb3==0.0 && g->FBstiff==0.0) continue;
        fprintf(f,"%s[%d,%d,%d,%.17g,%.17g,%.17g,%.17g]",first?"":",",i-pG->is+pG->Disp[0],j-pG->js+pG->Disp[1],k-pG->ks+pG->Disp[2],g->FBstiff,g->fb1,g->fb2,g->fb3); first=0;
      }
      feedback_clear(pG);
      fprintf(f,"],\"o\":[");
      for(p=0;p<pG->nparticle;p++){
        GrainS g=pG->particle[p],h; int o[3];
        for(m=0;m<3;m++) o[m]=pG->Nx[m]>1?2*((int)((g.my_id*7+r*5+m*3+pG->Nx[0])%7)-3):0;
        fprintf(f,"%s[%ld,%d,%d,%d]",p?",":"",g.my_id,o[0],o[1],o[2]);
        g.x1+=o[0]*u_[0]; g.x2+=o[1]*u_[1]; g.x3+=o[2]*u_[2]; h=g;
        for(c=0;c<2;c++){ GrainS *w=c?&h:&g; Real e=c?0.5:-0.5; if(pG->Nx[0]>1) w->x1+=e*u_[0]; if(pG->Nx[1]>1) w->x2+=e*u_[1]; if(pG->Nx[2]>1) w->x3-=e*u_[2]; }
        feedback_corrector(pG,&g,&h,cell1,g.v1,g.v2,g.v3,1.0);
      }
      exchange_gpcouple(pD,2);
      fprintf(f,"],\"k\":["); first=1;
      for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
        GPCouple *g=&(pG->Coup[k][j][i]);
        if(g->fb1==0.0 && g->fb2==0.0 && g->fb3==0.0) continue;
        fprintf(f,"%s[%d,%d,%d,%.17g,%.17g,%.17g]",first?"":",",i-pG->is+pG->Disp[0],j-pG->js+pG->Disp[1],k-pG->ks+pG->Disp[2],g->fb1,g->fb2,g->fb3); first=0;
      }
      feedback_clear(pG);
      fprintf(f,"]");
      for(q=0;q<npartypes;q++) tstop0[q]=t0[q];
    }
#endif
    fprintf(f,",\"num\":["); for(m=0;m<npartypes;m++) fprintf(f,"%s%ld",m?",":"",grproperty[m].num);
    fprintf(f,"]}\n"); fflush(f);
    pG->dt=dt;
  }
}
VOutFun_t get_usr_out_fun(const char *name){ return strcmp(name,"probe")==0?probe:NULL; }
