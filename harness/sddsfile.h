// particle files in SDDS form (as ELEGANT writes them) and a reader for SDDS outputs
#pragma once
#include "fix.h"
#include "SDDS.h"
#include <cstdlib>
namespace fix {
struct Col{ std::string name; std::vector<double> v; };
inline void sddsWrite(const std::string&fn,int particles,double charge,const std::vector<Col>&c,bool ascii=false,const char*nP="Particles",const char*nQ="Charge"){ SDDS_DATASET d; SDDS_InitializeOutput(&d,ascii?SDDS_ASCII:SDDS_BINARY,1,NULL,NULL,(char*)fn.c_str());
  if(nP)SDDS_DefineSimpleParameter(&d,(char*)nP,NULL,SDDS_LONG); if(nQ)SDDS_DefineSimpleParameter(&d,(char*)nQ,(char*)"C",SDDS_DOUBLE); for(auto&k:c)SDDS_DefineSimpleColumn(&d,(char*)k.name.c_str(),NULL,SDDS_DOUBLE); SDDS_WriteLayout(&d); int n=c.empty()?0:c[0].v.size(); SDDS_StartPage(&d,n);
  if(nP)SDDS_SetParameters(&d,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,nP,particles,NULL); if(nQ)SDDS_SetParameters(&d,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,nQ,charge,NULL); for(auto&k:c)if(n)SDDS_SetColumnFromDoubles(&d,SDDS_SET_BY_NAME,(double*)k.v.data(),n,k.name.c_str()); SDDS_WritePage(&d); SDDS_Terminate(&d); }
struct SddsFile{ bool ok=false; int pages=0; std::map<std::string,double> par; std::map<std::string,std::vector<double>> col; int rows=0; std::vector<std::string> names; };
inline SddsFile sddsRead(const std::string&fn){ SddsFile r; SDDS_DATASET d; std::string f=fn; if(SDDS_InitializeInput(&d,&f[0])!=1){SDDS_ClearErrors();return r;}
  int pg; while((pg=SDDS_ReadPage(&d))>0){ r.pages++; if(pg==1){ r.rows=SDDS_CountRowsOfInterest(&d); int32_t n=0; char**nm=SDDS_GetColumnNames(&d,&n); for(int i=0;i<n;i++){ r.names.push_back(nm[i]); double*v=r.rows>0?SDDS_GetColumnInDoubles(&d,nm[i]):0; if(v||r.rows==0){ r.col[nm[i]]=std::vector<double>(v,v+(v?r.rows:0)); std::free(v);} std::free(nm[i]); } std::free(nm); n=0; nm=SDDS_GetParameterNames(&d,&n); for(int i=0;i<n;i++){ double v; if(SDDS_GetParameterAsDouble(&d,nm[i],&v))r.par[nm[i]]=v; std::free(nm[i]); } std::free(nm); r.ok=true; } }
  SDDS_Terminate(&d); SDDS_ClearErrors(); return r; }
}
