// helpers shared by the TEUFEL harnesses
#pragma once
#include "../mc/mc.h"
#include "global.h"
#include "vector.h"
#include "fields.h"
#include "fieldtrace.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"
#include <vector>
#include <string>
#include <algorithm>
#include <memory>
#include <functional>
typedef Vector V;
inline std::string vs(V v){return mc::F("(%.17g,%.17g,%.17g)",v.x,v.y,v.z);}
inline bool vclose(V a,V b,double rel,double scale=0){ double s=std::max(std::max(a.norm(),b.norm()),scale);
  return mc::near(a.x,b.x,rel,s)&&mc::near(a.y,b.y,rel,s)&&mc::near(a.z,b.z,rel,s);}
inline bool fclose_(ElMagField a,ElMagField b,double rel,double sE=0,double sB=0){return vclose(a.E(),b.E(),rel,sE)&&vclose(a.B(),b.B(),rel,sB);}
inline std::string fs(ElMagField f){return "E"+vs(f.E())+"B"+vs(f.B());}
inline void hv(mc::H&h,V v){h.d(v.x).d(v.y).d(v.z);}
inline bool veq(V a,V b){return a.x==b.x&&a.y==b.y&&a.z==b.z;}
inline bool feq(ElMagField a,ElMagField b){return veq(a.E(),b.E())&&veq(a.B(),b.B());}
// smooth field coded by position and time; reference code evaluates the same formula
struct CodedField: public GeneralField {
  double e,b; CodedField(double e_,double b_):e(e_),b(b_){}
  bool is_external() override {return true;}
  static ElMagField eval(double e,double b,double t,V X){ double w=t*1e9;
    return ElMagField(V(e*(1+0.3*X.x-0.2*w),e*(-0.5+0.1*X.z+0.4*X.y),e*(0.25+0.2*X.y*X.x+0.1*w)),
                      V(b*(0.3-0.1*X.z),b*(1+0.2*X.x+0.3*w),b*(-0.4+0.5*X.y)));}
  ElMagField Field(double t,V X) override {return eval(e,b,t,X);}
};
template<class T> struct Own{ std::vector<T*> v; ~Own(){for(T*p:v)delete p;} T*operator()(T*p){v.push_back(p);return p;} };
// Lienard-Wiechert field of charge q (units e) at distance given source state
inline ElMagField LW(double q,V X,V P,V A,V obs){
  double g2=P.x*P.x+P.y*P.y+P.z*P.z+1,g=std::sqrt(g2); V bt=P/g, bp=A/g; V R=obs-X; double r=R.norm(); V n=R/r;
  double k=1-dot(bt,n),k3=k*k*k; V E=(n-bt)/(r*r*k3*g2)+cross(n,cross(n-bt,bp))/(r*k3*SpeedOfLight);
  E=E*(q*ElementaryCharge/(4.0*Pi*EpsNull)); return ElMagField(E,cross(n,E)/SpeedOfLight);}
