#include "copyright.h"
/* Harness "par" (C05): executes parameter-access calls from $VF_SCN inside the real program (after its own reading of the
 * input file, command line and distribution), logs the answers, dumps the data base to $VF_DUMP.<rank> and ends.
 *   line of $VF_SCN:  op|block|name|value                                                          */
#include "vf_stubs.h"
static void ans(const char *a){ FILE *f=vf_log(); const char *c; fprintf(f,"\""); for(c=a;*c;c++){ if(*c=='"'||*c=='\\') fputc('\\',f); fputc(*c<32?'?':*c,f);} fprintf(f,"\"\n"); fflush(f); }
static void ansm(double d){ char b[64]; snprintf(b,sizeof b,"%.0f",d*1000.0); ans(b); }
static void ansi(int i){ char b[64]; snprintf(b,sizeof b,"%d",i); ans(b); }
static char *fld(char **p){ char *s=*p,*e=strpbrk(s,"|\n"); if(e){ *e=0; *p=e+1; } return s; }
static const double rt[]={1.0/3.0,0.1,1.0e-7/3.0,123456.789e10/7.0,2.0/3.0e5,4.0*3.14159265358979323846};
void problem(DomainS *pD){
  FILE *f=fopen(getenv("VF_SCN"),"r"); char l[1024],*p,*op,*b,*n,*v; int i,first=vf_env("VF_FIRST",1);
  ans("start");
  while(f&&fgets(l,sizeof l,f)){
    p=l; op=fld(&p); b=fld(&p); n=fld(&p); v=fld(&p);
    if(!strcmp(op,"exist")) ansi(par_exist(b,n));
    else if(!strcmp(op,"gets")){ char *q=par_gets(b,n); ans(q); strcpy(q,""); free(q); }
    else if(!strcmp(op,"geti")) ansi(par_geti(b,n));
    else if(!strcmp(op,"getd")) ansm(par_getd(b,n));
    else if(!strcmp(op,"getsdef")) ans(par_gets_def(b,n,v));
    else if(!strcmp(op,"getidef")) ansi(par_geti_def(b,n,atoi(v)));
    else if(!strcmp(op,"getddef")) ansm(par_getd_def(b,n,atof(v)));
    else if(!strcmp(op,"sets")){ par_sets(b,n,v,"comment"); ans("ok"); }
    else if(!strcmp(op,"seti")){ par_seti(b,n,"%d",atoi(v),NULL); ans("ok"); }
    else if(!strcmp(op,"setd")){ par_setd(b,n,"%g",atof(v),"comment"); ans("ok"); }
  }
  /* defaults survive being stored, here (first run) and after a reload (second run) */
  for(i=0;i<(int)(sizeof rt/sizeof rt[0]);i++){ char nm[16]; sprintf(nm,"r%d",i);
    if(first){ if(par_getd_def("vf_rt",nm,rt[i])!=rt[i]) ans("rt-default"); }
    if(par_getd("vf_rt",nm)!=rt[i]) ans("rt-stored");
  }
  { char d[1024]; FILE *g; snprintf(d,sizeof d,"%s.%d",getenv("VF_DUMP"),vf_rank()); g=fopen(d,"w"); par_dump(1,g); fclose(g);
    strcat(d,".txt"); g=fopen(d,"w"); par_dump(2,g); fprintf(g,"garbage\n<p>\nx = 5\n"); fclose(g); }
#ifdef MPI_PARALLEL
  MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize();
#endif
  exit(0);
}
