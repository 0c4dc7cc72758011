#include "copyright.h"
/* Harness "evolve": a generic flow whose initial state is a function of integer zone/node positions (independent of the
 * decomposition), with shear of all physics options; reports per cycle
 *   - a digest of the complete state (bits of every variable of every active zone), $VF_HASH
 *   - compensated volume totals, divergence, parent/child consistency, $VF_SUM
 *   - binary dumps of all active zones and faces at the cycles listed in $VF_DUMPAT ("0,3,7"), to $VF_DUMP.<rank>
 * Parameters in <problem>: seed damp vamp pamp bamp noise vmean1..3 b01..3 jump, perm (0-2: cyclic shift of the axes, 3-5: two axes swapped), mir1..3
 * (mirror flags), lin (1: linear fields). */
#define VF_OWN_OUTFUN
#define VF_OWN_RESTART
#include "vf_stubs.h"
#ifdef PARTICLES
#include "particles/prototypes.h"
#include "particles/particle.h"
#endif
#define LMAX 3                      /* finest level: positions in units of 2^-(LMAX+1) root zones */
static int NB[3];                   /* root zones along the base axes */
static const int PI_[6][3]={{0,1,2},{1,2,0},{2,0,1},{1,0,2},{0,2,1},{2,1,0}};  /* PI_[perm][m]: axis of this frame of base axis m */
static int inv_(int p,int a){ int m; for(m=0;m<3;m++) if(PI_[p][m]==a) return m; return 0; }
static uint64_t seed; static int perm,mir[3],lin,nd_;
static double spot=1.0,dlog=0.0,damp,vamp,pamp,bamp,noise,vmean[3],b0[3],jump;
static int scaleq,uniform,wall[3],bclip; static double pscale;

static uint64_t mix(uint64_t x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
static double rnd(uint64_t h){ return (double)(mix(h)>>11)/4503599627370496.0-1.0; }   /* [-1,1) */

#ifdef SHEARING_BOX
static Real shpot(const Real x1,const Real x2,const Real x3){
#ifdef FARGO
  return 0.0*x1;
#else
  return -qshear*Omega_0*Omega_0*x1*x1;
#endif
}
#endif
static int RN[3];                   /* root zones along the axes of this frame */
/* static potential <problem> gpot (amplitude): periodic; gwall=1: even about all edges; glin1..3: a uniform field in this frame instead. Cooling <problem> cool */
static double gpot,coolamp,glin[3],XM[3],XL[3]; static int gwall;
static Real statpot(const Real x1,const Real x2,const Real x3){
  double x[3]={x1,x2,x3},s=0.0,ph[3]={0,0,0}; int m,q;
  if(glin[0]!=0.0||glin[1]!=0.0||glin[2]!=0.0) return glin[0]*x1+glin[1]*x2+glin[2]*x3;
  for(q=0;q<3;q++){ uint64_t h=mix(seed+1000*60+q); double c=1.0,f=0.0;
    for(m=0;m<3;m++) if(NB[m]>1){ int a=PI_[perm][m],k=(int)((h>>(8*m))%3)-1; double y=(x[a]-XM[a])/XL[a]; if(mir[m]) y=1.0-y; if(q==0&&k==0) k=1;
      if(gwall) c*=cos(2.0*PI*k*y); else f+=k*y; }
    ph[q]=gwall?c:sin(2.0*PI*(f+rnd(h^5)));
    s+=(0.5+0.2*rnd(h^77))*ph[q]; }
  return gpot*s;
}
static Real coolfun(const Real d,const Real P,const Real dt){ (void)dt; return coolamp*d*(P/d-0.7); }
static void params(void){
  int m,q; char b[20];
  for(q=1;q<30;q++){ sprintf(b,"domain%d",q); if(par_exist(b,"level") && par_geti(b,"level")==0){ RN[0]=par_geti(b,"Nx1"); RN[1]=par_geti(b,"Nx2"); RN[2]=par_geti(b,"Nx3"); break; } }
  seed=mix((uint64_t)par_geti_def("problem","seed",1)); spot=par_getd_def("problem","spot",1.0); dlog=par_getd_def("problem","dlog",0.0);
  damp=par_getd_def("problem","damp",0.2); vamp=par_getd_def("problem","vamp",0.2); pamp=par_getd_def("problem","pamp",0.2);
  bamp=par_getd_def("problem","bamp",0.1); noise=par_getd_def("problem","noise",0.05); jump=par_getd_def("problem","jump",1.0);
  perm=par_geti_def("problem","perm",0); lin=par_geti_def("problem","lin",0); scaleq=par_geti_def("problem","scaleq",0);
  uniform=par_geti_def("problem","uniform",0); pscale=par_getd_def("problem","pscale",1.0); bclip=par_geti_def("problem","bclip",0);
  for(m=0;m<3;m++){
    sprintf(b,"vmean%d",m+1); vmean[m]=par_getd_def("problem",b,0.0);
    sprintf(b,"b0%d",m+1); b0[m]=par_getd_def("problem",b,0.0);
    sprintf(b,"wall%d",m+1); wall[m]=par_geti_def("problem",b,0);  /* no field through the edges along base axis m */
    sprintf(b,"mir%d",m+1); mir[m]=par_geti_def("problem",b,0);
  }
  nd_=1; for(m=1;m<3;m++) if(RN[m]>1) nd_++;
  { int x; for(m=0;m<3;m++) NB[m]=RN[PI_[perm][m]]; for(x=1;x<=3;x++){ sprintf(b,"base%d",x); NB[x-1]=par_geti_def("problem",b,NB[x-1]); } }   /* base<m>=1: no dependence on base axis m (embedded problem) */
  gpot=par_getd_def("problem","gpot",0.0); gwall=par_geti_def("problem","gwall",0); coolamp=par_getd_def("problem","cool",0.0);
  for(q=1;q<30;q++){ sprintf(b,"domain%d",q); if(par_exist(b,"level") && par_geti(b,"level")==0){ int a; for(a=0;a<3;a++){ char c[8]; sprintf(c,"x%dmin",a+1); XM[a]=par_getd(b,c); sprintf(c,"x%dmax",a+1); XL[a]=par_getd(b,c)-XM[a]; } break; } }
  for(m=0;m<3;m++){ sprintf(b,"glin%d",m+1); glin[m]=par_getd_def("problem",b,0.0); }
  if(gpot!=0.0) StaticGravPot=statpot;
#ifndef BAROTROPIC
  if(coolamp!=0.0) CoolingFunc=coolfun;
#endif
#ifdef SELF_GRAVITY
  four_pi_G=par_getd_def("problem","four_pi_G",1.0);
  grav_mean_rho=par_getd_def("problem","grav_mean_rho",1.0);
#endif
#ifdef SHEARING_BOX
  Omega_0=par_getd_def("problem","omega",1.0); qshear=par_getd_def("problem","qshear",1.5); ShBoxCoord=par_geti_def("problem","shcoord",0)?xz:xy;
  ShearingBoxPot=par_geti_def("problem","shpot",1)?shpot:NULL;
#endif
#ifdef VISCOSITY
  nu_iso=par_getd_def("problem","nu_iso",0.0); nu_aniso=par_getd_def("problem","nu_aniso",0.0);
#endif
#ifdef THERMAL_CONDUCTION
  kappa_iso=par_getd_def("problem","kappa_iso",0.0); kappa_aniso=par_getd_def("problem","kappa_aniso",0.0);
#endif
#ifdef RESISTIVITY
  eta_Ohm=par_getd_def("problem","eta_Ohm",0.0); Q_Hall=par_getd_def("problem","Q_H",0.0); Q_AD=par_getd_def("problem","Q_AD",0.0);
  d_ind=par_getd_def("problem","d_ind",0.0);
#endif
}
/* smooth periodic function number f at base position p (units above) */
static double wave(int f,const long p[3],int mask){
  double s=0.0; int q,m;
  for(q=0;q<3;q++){
    uint64_t h=mix(seed+1000*f+q); double ph=0.0;
    for(m=0;m<3;m++){
      long L=(long)NB[m]<<(LMAX+1); int k;
      if(NB[m]==1 || !(mask&(1<<m))) continue;
      k=(int)((h>>(8*m))%3)-1; if(q==0 && k==0) k=1;
      ph+=(double)(((k*p[m])%L+L)%L)/(double)L;
    }
    s+=(0.4+0.2*rnd(h^77))*sin(2.0*PI*(ph+rnd(h^5)));
  }
  return s/1.5;
}
static double noi(int f,int lev,const long p[3],int mask){
  uint64_t h=seed+7777*(uint64_t)f; int m;
  for(m=0;m<3;m++){
    long L=(long)NB[m]<<(LMAX+1);
    h=mix(h^(uint64_t)((mask&(1<<m))&&NB[m]>1?((p[m]%L)+L)%L:12345));
  }
  (void)lev;
  return rnd(h);
}
/* base position of a point of this frame: q in units of 2^-(LMAX+1) root zones */
static void tobase(const long q[3],long p[3]){
  int m;
  for(m=0;m<3;m++){
    int a=PI_[perm][m]; long L=(long)NB[m]<<(LMAX+1);
    p[m]=NB[m]==1?0:mir[m]?(L-q[a]):q[a];
  }
}
static double scal(int f,int lev,const long q[3]){
  long p[3]; tobase(q,p);
  if(spot<1.0){ int m; for(m=0;m<3;m++) if(NB[m]>1 && fabs((double)p[m]/(double)((long)NB[m]<<(LMAX+1))-0.5)>0.5*spot) return 0.0; }   /* perturbed only around the centre */
  if(lin){ int m; double s=0; for(m=0;m<3;m++) if(NB[m]>1) s+=rnd(seed+31*f+m)*((double)p[m]/(double)((long)NB[m]<<(LMAX+1))-0.5); return s; }
  return wave(f,p,7)+noise*noi(f,lev,p,7);
}
static double dens(int lev,const long q[3]){
  double d=dlog!=0.0?exp(dlog*scal(0,lev,q)):1.0+damp*scal(0,lev,q); long p[3],L=(long)NB[0]<<(LMAX+1); tobase(q,p);
  if(jump!=1.0 && p[0]>L/4 && p[0]<3*L/4) d*=jump;
  return d;
}
/* vector potential along base axis c (independent of coordinate c) */
static double apot(int c,const long p[3]){
  int mask=7&~(1<<c); double L=0; int m;
  for(m=0;m<3;m++) if(NB[m]>1) L=MAX(L,(double)NB[m]);
  { double w=1.0; for(m=0;m<3;m++) if(wall[m] && m!=c && NB[m]>1){ double x=(double)p[m]/(double)((long)NB[m]<<(LMAX+1)); w*=4.0*x*(1.0-x); }
  w*=bamp*(L/6.0*wave(20+c,p,mask)+0.12*noise*noi(20+c,0,p,mask))/(double)NB[0];
  if(bclip) w=c==2?MAX(w,0.0):0.0;        /* field-free regions */
  return w; }
}
/* A along axis a of this frame at q: sign changes under mirroring (axial/polar: handled through dA/dx of mirrored axes) */
static double apoth(int a,const long q[3]){
  long p[3]; int c=inv_(perm,a); double s; int m;
  tobase(q,p);
  /* polar/axial: B is an axial vector; mirroring axis m reverses the components of B parallel to the mirror plane */
  s=apot(c,p);
  /* A (polar for axial B): component along the mirrored axis is reversed -> A'_c = -A_c if c mirrored */
  for(m=0;m<3;m++) if(mir[m] && m==c) s=-s;
  return s;
}
#ifdef MHD
static double aat(GridS *pG,int lev,int a,long q0,long q1,long q2){ long q[3]={q0,q1,q2}; (void)pG; (void)lev; return apoth(a,q); }
#endif

void problem(DomainS *pD){
  GridS *pG=pD->Grid; int i,j,k,n,m,lev=pD->Level;
  long u; /* half zone of this level */
  params();
  u=1L<<(LMAX-lev);
#define QC(i,s,d,mm) (RN[mm]>1?((2L*((i)-(s)+pG->Disp[mm])+1)*u):(1L<<LMAX))
#ifdef SELF_GRAVITY
  if(par_geti_def("problem","truemean",0)){ /* mean density of the root Domain (no refinement) */
    double s=0.0,c=0.0; long n0=0,w=1L<<LMAX;
    for(k=0;k<RN[2];k++) for(j=0;j<RN[1];j++) for(i=0;i<RN[0];i++){ long q[3]={(2L*i+1)*w,RN[1]>1?(2L*j+1)*w:w,RN[2]>1?(2L*k+1)*w:w}; double y=dens(0,q)-c,t=s+y; c=(t-s)-y; s=t; n0++; }
    grav_mean_rho=s/n0;
  }
#endif
#define QN(i,s,d,mm) (RN[mm]>1?((2L*((i)-(s)+pG->Disp[mm]))*u):0L)
  for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
    long q[3]={QC(i,pG->is,0,0),QC(j,pG->js,0,1),QC(k,pG->ks,0,2)},p[3]; double d,P,v[3],vb[3];
    ConsS *U=&(pG->U[k][j][i]);
    memset(U,0,sizeof(ConsS));
    tobase(q,p);
    d=dens(lev,q); P=(dlog!=0.0?exp(dlog*scal(1,lev,q)):1.0+pamp*scal(1,lev,q))*pscale;
    if(jump!=1.0){ long L=(long)NB[0]<<(LMAX+1); if(p[0]>L/4 && p[0]<3*L/4) P*=jump; }
    for(m=0;m<3;m++) vb[m]=vmean[m]+vamp*scal(2+m,lev,q);
    if(uniform){ d=1.0; P=1.0; for(m=0;m<3;m++) vb[m]=vmean[m]; }
    for(m=0;m<3;m++) v[PI_[perm][m]]=mir[m]?-vb[m]:vb[m];
#if defined(SHEARING_BOX) && !defined(FARGO)
    { Real sx1,sx2,sx3; cc_pos(pG,i,j,k,&sx1,&sx2,&sx3); if(pG->Nx[1]==1||(pG->Nx[2]==1&&ShBoxCoord==xz)) { v[2]-=qshear*Omega_0*sx1; vb[2]=v[2]; } else { v[1]-=qshear*Omega_0*sx1; vb[1]=v[1]; } }
#endif
    U->d=d; U->M1=d*v[0]; U->M2=d*v[1]; U->M3=d*v[2];
#ifndef BAROTROPIC
    U->E=P/Gamma_1+0.5*d*(vb[0]*vb[0]+vb[1]*vb[1]+vb[2]*vb[2]);
#endif
#if (NSCALARS>0)
    for(n=0;n<NSCALARS;n++) U->s[n]=(n==0&&scaleq)?d:uniform?d*(1.0+n):(lin?(2.0+scal(8+n,lev,q)):d*(1.0+0.5*scal(8+n,lev,q)));
#endif
  }
#ifdef MHD
  { int e[3]={pG->ie,pG->je,pG->ke},f; double dx[3]={pG->dx1,pG->dx2,pG->dx3};
    double bz[3]; /* mean field in this frame (axial vector under mirrors) */
    for(m=0;m<3;m++){ int s=0,c; for(c=0;c<3;c++) if(mir[c] && c!=m) s++; if(perm>2) s++; bz[PI_[perm][m]]=wall[m]?0.0:((s%2)?-b0[m]:b0[m]); }
    for(f=0;f<3;f++){
      int ee[3]={e[0],e[1],e[2]},a=(f+1)%3,b=(f+2)%3;
      if(pG->Nx[f]>1) ee[f]++;
      for(k=pG->ks;k<=ee[2];k++) for(j=pG->js;j<=ee[1];j++) for(i=pG->is;i<=ee[0];i++){
        int id[3]={i,j,k},ss[3]={pG->is,pG->js,pG->ks}; long lo[3],hi[3]; double B=bz[f];
        for(m=0;m<3;m++){ lo[m]=QN(id[m],ss[m],0,m); hi[m]=QN(id[m]+1,ss[m],0,m); }
        if(RN[f]==1) lo[f]=0;
        if(!uniform){
        /* B_f = dA_b/dx_a - dA_a/dx_b (cyclic f,a,b) */
        if(RN[a]>1){ long q1[3]={lo[0],lo[1],lo[2]},q2[3]={lo[0],lo[1],lo[2]}; q2[a]=hi[a]; B+=(aat(pG,lev,b,q2[0],q2[1],q2[2])-aat(pG,lev,b,q1[0],q1[1],q1[2]))/dx[a]; }
        if(RN[b]>1){ long q1[3]={lo[0],lo[1],lo[2]},q2[3]={lo[0],lo[1],lo[2]}; q2[b]=hi[b]; B-=(aat(pG,lev,a,q2[0],q2[1],q2[2])-aat(pG,lev,a,q1[0],q1[1],q1[2]))/dx[b]; }
        }
        if(f==0) pG->B1i[k][j][i]=B; else if(f==1) pG->B2i[k][j][i]=B; else pG->B3i[k][j][i]=B;
      }
    }
    for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
      ConsS *U=&(pG->U[k][j][i]);
      U->B1c=0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1]);
      U->B2c=pG->B2i[k][j][i]; if(pG->Nx[1]>1) U->B2c=0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i]);
      U->B3c=pG->B3i[k][j][i]; if(pG->Nx[2]>1) U->B3c=0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i]);
#ifndef BAROTROPIC
      U->E+=0.5*(SQR(U->B1c)+SQR(U->B2c)+SQR(U->B3c));
#endif
    }
  }
#endif
#ifdef SPECIAL_RELATIVITY
  for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
    ConsS *U=&(pG->U[k][j][i]); double d=U->d,v[3]={U->M1/d,U->M2/d,U->M3/d},v2=v[0]*v[0]+v[1]*v[1]+v[2]*v[2],P=U->E-0.5*d*v2,g2=1.0/(1.0-v2),w,vB=0,B2=0,B[3]={0,0,0};
#ifdef MHD
    B[0]=U->B1c; B[1]=U->B2c; B[2]=U->B3c; B2=B[0]*B[0]+B[1]*B[1]+B[2]*B[2]; vB=v[0]*B[0]+v[1]*B[1]+v[2]*B[2]; P-=0.5*B2;
#endif
    P*=Gamma_1; w=(d+Gamma/Gamma_1*P)*g2;
    U->d=d*sqrt(g2); U->M1=(w+B2)*v[0]-vB*B[0]; U->M2=(w+B2)*v[1]-vB*B[1]; U->M3=(w+B2)*v[2]-vB*B[2];
    U->E=w-P+0.5*B2*(1.0+v2)-0.5*vB*vB;
  }
#endif
#ifdef PARTICLES
  { long np=0; int every=par_geti_def("problem","parevery",5),ty=par_geti_def("particle","partypes",1),q; double rat=par_getd_def("problem","parmass",0.1);
    for(q=0;q<ty;q++){
      grproperty[q].num=0;
      tstop0[q]=par_getd_def("problem","tstop",0.5);
#ifdef FEEDBACK
      grproperty[q].m=rat;
#endif
    }
    for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
      long g=((long)(k-pG->ks+pG->Disp[2])*pD->Nx[1]+(j-pG->js+pG->Disp[1]))*pD->Nx[0]+(i-pG->is+pG->Disp[0]); Real x[3]; GrainS *gr;
      if(mix(seed^(uint64_t)g)%every) continue;
      if(np+2>pG->arrsize) particle_realloc(pG,np+200);
      gr=&(pG->particle[np]); cc_pos(pG,i,j,k,&x[0],&x[1],&x[2]);
      gr->property=(int)(mix(seed+g)%ty); grproperty[gr->property].num++;
      gr->x1=x[0]+0.4*pG->dx1*rnd(seed+3*g); gr->x2=x[1]+(pG->Nx[1]>1?0.4*pG->dx2*rnd(seed+3*g+1):0.0); gr->x3=x[2]+(pG->Nx[2]>1?0.4*pG->dx3*rnd(seed+3*g+2):0.0);
      gr->v1=vamp*3*rnd(seed+5*g); gr->v2=vamp*3*rnd(seed+5*g+1); gr->v3=vamp*3*rnd(seed+5*g+2);
      gr->pos=1; gr->my_id=g;
#ifdef MPI_PARALLEL
      gr->init_id=0;
#endif
      np++;
    }
    pG->nparticle=np;
  }
#endif
}
void problem_read_restart(MeshS *pM, FILE *fp){ params();
#ifdef PARTICLES
  { int q,ty=par_geti_def("particle","partypes",1); for(q=0;q<ty;q++){ tstop0[q]=par_getd_def("problem","tstop",0.5);
#ifdef FEEDBACK
    grproperty[q].m=par_getd_def("problem","parmass",0.1);
#endif
  } }
#endif
}
void problem_write_restart(MeshS *pM, FILE *fp){ return; }

/*------------------------------------------------------------------ observation */
static uint64_t bits(Real x){ double y=x; uint64_t u; memcpy(&u,&y,8); return u; }
#define NCELL 24
static int cellvars(GridS *pG,int k,int j,int i,double *v){
  ConsS *U=&(pG->U[k][j][i]); int n=0;
#if (NSCALARS>0)
  int s;
#endif
  v[n++]=U->d; v[n++]=U->M1; v[n++]=U->M2; v[n++]=U->M3;
#ifndef BAROTROPIC
  v[n++]=U->E;
#endif
#ifdef MHD
  v[n++]=U->B1c; v[n++]=U->B2c; v[n++]=U->B3c;
#endif
#if (NSCALARS>0)
  for(s=0;s<NSCALARS;s++) v[n++]=U->s[s];
#endif
#ifdef SELF_GRAVITY
  v[n++]=pG->Phi[k][j][i];
#endif
  return n;
}
static int hashon=-1,sumon,dumpn=-1; static long dumpat[64]; static FILE *dfp=NULL;
static void probe(MeshS *pM,OutputS *pO){
  int nl,nd,i,j,k,n; FILE *f=vf_log(); uint64_t H=0; double v[NCELL]; long npar=0;
  if(hashon<0){
    char *e=getenv("VF_DUMPAT"); hashon=(int)vf_env("VF_HASH",1); sumon=(int)vf_env("VF_SUM",0); dumpn=0;
    while(e&&*e&&dumpn<64){ dumpat[dumpn++]=strtol(e,&e,10); if(*e==',') e++; }
  }
  if(f) fprintf(f,"{\"cyc\":%d,\"t\":\"%016llx\",\"dt\":\"%016llx\"",pM->nstep,(unsigned long long)bits(pM->time),(unsigned long long)bits(pM->dt));
  if(sumon) fprintf(f,",\"g\":[");
  int first=1;
  for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++){
    DomainS *pD=&pM->Domain[nl][nd]; GridS *pG=pD->Grid;
    if(pG==NULL) continue;
    for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
      int g[3]={i-pG->is+pG->Disp[0],j-pG->js+pG->Disp[1],k-pG->ks+pG->Disp[2]};
      uint64_t z=mix(mix(mix(nl*1000003ULL+g[0])+g[1])+g[2]); int nv=cellvars(pG,k,j,i,v);
      for(n=0;n<nv;n++) H+=mix(z^mix(bits(v[n])+n));
#ifdef MHD
      H+=mix(z^mix(bits(pG->B1i[k][j][i])+101))+mix(z^mix(bits(pG->B2i[k][j][i])+102))+mix(z^mix(bits(pG->B3i[k][j][i])+103));
      if(i==pG->ie && pG->Disp[0]+pG->Nx[0]==pD->Disp[0]+pD->Nx[0]) H+=mix(z^mix(bits(pG->B1i[k][j][i+1])+104));
      if(pG->Nx[1]>1 && j==pG->je && pG->Disp[1]+pG->Nx[1]==pD->Disp[1]+pD->Nx[1]) H+=mix(z^mix(bits(pG->B2i[k][j+1][i])+105));
      if(pG->Nx[2]>1 && k==pG->ke && pG->Disp[2]+pG->Nx[2]==pD->Disp[2]+pD->Nx[2]) H+=mix(z^mix(bits(pG->B3i[k+1][j][i])+106));
#endif
    }
#ifdef PARTICLES
    { long p; for(p=0;p<pG->nparticle;p++){ GrainS *g=&(pG->particle[p]); if(g->pos!=1) continue; npar++;
        uint64_t z=mix(mix(g->my_id)+g->property);
        H+=mix(z^bits(g->x1))+mix(z^(bits(g->x2)+1))+mix(z^(bits(g->x3)+2))+mix(z^(bits(g->v1)+3))+mix(z^(bits(g->v2)+4))+mix(z^(bits(g->v3)+5)); } }
#endif
    if(sumon){
      /* volume totals with compensated summation, and divergence relative to B/dx */
      double S[NCELL],C[NCELL],vol=pG->dx1*(pG->Nx[1]>1?pG->dx2:1.0)*(pG->Nx[2]>1?pG->dx3:1.0),md=0.0,mb=0.0,mc=0.0,dq=0.0,sp=0.0,v0[NCELL]; int nv=0;
      cellvars(pG,pG->ks,pG->js,pG->is,v0);
      for(n=0;n<NCELL;n++) S[n]=C[n]=0.0;
      for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
        if(sumon==2){ /* composite: only zones not covered by a finer Domain */
          int c,cov=0; if(nl+1<pM->NLevels) for(c=0;c<pM->DomainsPerLevel[nl+1];c++){
            DomainS *q=&pM->Domain[nl+1][c]; int g[3]={i-pG->is+pG->Disp[0],j-pG->js+pG->Disp[1],k-pG->ks+pG->Disp[2]},m,in=1;
            for(m=0;m<3;m++) if(pM->Nx[m]>1 && !(2*g[m]>=q->Disp[m] && 2*g[m]<q->Disp[m]+q->Nx[m])) in=0;
            if(in) cov=1; }
          if(cov) goto div;
        }
        nv=cellvars(pG,k,j,i,v);
#ifndef BAROTROPIC
        if(gpot!=0.0){ Real px,py,pz; cc_pos(pG,i,j,k,&px,&py,&pz); v[4]+=v[0]*statpot(px,py,pz); }   /* energy in the potential included */
#endif
        for(n=0;n<nv;n++) sp=MAX(sp,fabs(v[n]-v0[n]));
        for(n=0;n<nv;n++){ double y=vol*v[n]-C[n],t=S[n]+y; C[n]=(t-S[n])-y; S[n]=t; }
#if (NSCALARS>0)
        dq=MAX(dq,fabs(pG->U[k][j][i].s[0]-pG->U[k][j][i].d));
#endif
        div: ;
#ifdef MHD
        { double d=(pG->B1i[k][j][i+1]-pG->B1i[k][j][i])/pG->dx1,b=fabs(pG->B1i[k][j][i])+fabs(pG->B1i[k][j][i+1]),e;
          e=fabs(pG->U[k][j][i].B1c-0.5*(pG->B1i[k][j][i+1]+pG->B1i[k][j][i]));
          if(pG->Nx[1]>1){ d+=(pG->B2i[k][j+1][i]-pG->B2i[k][j][i])/pG->dx2; b+=fabs(pG->B2i[k][j][i])+fabs(pG->B2i[k][j+1][i]); e=MAX(e,fabs(pG->U[k][j][i].B2c-0.5*(pG->B2i[k][j+1][i]+pG->B2i[k][j][i]))); }
          else e=MAX(e,fabs(pG->U[k][j][i].B2c-pG->B2i[k][j][i]));
          if(pG->Nx[2]>1){ d+=(pG->B3i[k+1][j][i]-pG->B3i[k][j][i])/pG->dx3; b+=fabs(pG->B3i[k][j][i])+fabs(pG->B3i[k+1][j][i]); e=MAX(e,fabs(pG->U[k][j][i].B3c-0.5*(pG->B3i[k+1][j][i]+pG->B3i[k][j][i]))); }
          else e=MAX(e,fabs(pG->U[k][j][i].B3c-pG->B3i[k][j][i]));
          md=MAX(md,fabs(d)); mb=MAX(mb,b); mc=MAX(mc,e); }
#endif
      }
      if(f){
        fprintf(f,"%s{\"l\":%d,\"n\":%d,\"dx\":%.17g,\"div\":%.6g,\"bmax\":%.6g,\"bc\":%.6g,\"dq\":%.6g,\"sp\":%.6g,\"s\":[",first?"":",",nl,nd,pG->dx1,md,mb,mc,dq,sp);
        nv=cellvars(pG,pG->ks,pG->js,pG->is,v);
        for(n=0;n<nv;n++) fprintf(f,"%s%.17g",n?",":"",S[n]);
        fprintf(f,"]}"); first=0;
      }
    }
    for(n=0;n<dumpn;n++) if(dumpat[n]==pM->nstep){
      int hd[12],nv=0; double v2[NCELL];
      if(dfp==NULL){ char b[1024]; snprintf(b,sizeof b,"%s.%d",getenv("VF_DUMP"),vf_rank()); dfp=fopen(b,"ab"); if(!dfp) exit(77); }
      nv=cellvars(pG,pG->ks,pG->js,pG->is,v2);
      hd[0]=0x7e57; hd[1]=pM->nstep; hd[2]=nl; hd[3]=nd; hd[4]=pG->Disp[0]; hd[5]=pG->Disp[1]; hd[6]=pG->Disp[2];
      hd[7]=pG->Nx[0]; hd[8]=pG->Nx[1]; hd[9]=pG->Nx[2]; hd[10]=nv;
#ifdef MHD
      hd[11]=1;
#else
      hd[11]=0;
#endif
      if(vf_env("VF_GHOST",0)){ /* all zones, ghost zones included */
        int g[3],m; int N[3]; for(m=0;m<3;m++){ g[m]=pG->Nx[m]>1?nghost:0; hd[4+m]-=g[m]; hd[7+m]+=2*g[m]; N[m]=hd[7+m]; }
        hd[11]|=2;
        { double tt[2]={pM->time,pM->dt}; fwrite(hd,sizeof hd,1,dfp); fwrite(tt,sizeof tt,1,dfp); }
        for(k=0;k<N[2];k++) for(j=0;j<N[1];j++) for(i=0;i<N[0];i++){ cellvars(pG,k,j,i,v2); fwrite(v2,8,nv,dfp); }
#ifdef MHD
        { double x; for(m=0;m<3;m++) for(k=0;k<N[2];k++) for(j=0;j<N[1];j++) for(i=0;i<N[0];i++){ x=m==0?pG->B1i[k][j][i]:m==1?pG->B2i[k][j][i]:pG->B3i[k][j][i]; fwrite(&x,8,1,dfp); } }
#endif
        fflush(dfp); break;
      }
      { double tt[2]={pM->time,pM->dt}; fwrite(hd,sizeof hd,1,dfp); fwrite(tt,sizeof tt,1,dfp); }
      for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){ cellvars(pG,k,j,i,v2); fwrite(v2,8,nv,dfp); }
#ifdef MHD
      { double x; for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie+1;i++){ x=pG->B1i[k][j][i]; fwrite(&x,8,1,dfp); }
        for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je+(pG->Nx[1]>1);j++) for(i=pG->is;i<=pG->ie;i++){ x=pG->B2i[k][j][i]; fwrite(&x,8,1,dfp); }
        for(k=pG->ks;k<=pG->ke+(pG->Nx[2]>1);k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){ x=pG->B3i[k][j][i]; fwrite(&x,8,1,dfp); } }
#endif
      fflush(dfp);
      break;
    }
  }
  if(sumon && f) fprintf(f,"]");
  if(f){ fprintf(f,",\"h\":\"%016llx\",\"np\":%ld}\n",(unsigned long long)H,npar); fflush(f); }
}
VOutFun_t get_usr_out_fun(const char *name){ return strcmp(name,"probe")==0?probe:NULL; }
