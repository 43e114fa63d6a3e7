STRIPS=r'''
int main(int c,char**v){ if(c>1){ std::vector<double> a=rd(v[1],"ElMagField"),b=rd(v[2],"ElMagField"); if(a.size()<6||a.size()!=b.size()) return 1; double m=0,mb=0; for(sz i=0;i<a.size();i++){ double&s=(i%6<3)?m:mb; s=fmax(s,fabs(a[i])); } if(!(m>0))return 1; for(sz i=0;i<a.size();i++) expect("field",b[i],a[i],1e-6*((i%6<3)?m:mb)); return bad; }
'''
SEEDS=[
dict(id='c06-search-hint',p='C06',
 edits=[('src/particle.cpp','''            while (i2-i1 > 1)
            {
                int iMid = (i2+i1)/2;
                Vector RVecMid''','''            // consecutive queries mostly proceed in time - start from the last segment found
            static thread_local int last_index = 0;
            static thread_local double last_time = 0.0;
            if ((obs_time>=last_time) && (last_index>i1) && (last_index<i2))
            {
                i1 = last_index;
                RVec1 = obs_pos - X[i1];
                t1 = obs_time - (Time[i1] + RVec1.norm() / SpeedOfLight);
            };
            last_time = obs_time;
            while (i2-i1 > 1)
            {
                int iMid = (i2+i1)/2;
                Vector RVecMid'''),
  ('src/particle.cpp','''            double frac = t1/(t1-t2);
''','''            last_index = i1;
            double frac = t1/(t1-t2); // position within the segment
''')],
 needs='two queries in the middle of the trajectory, the second one later but at a point so far away that the field was emitted earlier',
 breaks='the field of the wrong part of the trajectory is returned',
 cpp=r'''
struct S: public GeneralField { bool is_external() override {return true;} ElMagField Field(double t,V X) override { return ElMagField(V(0,0,0),V(0,0.02*sin(60*X.z),0)); } };
int main(){ S s; ChargedParticle p(-1,1,201); p.initTrajectory(0,V(0,0,0),V(0,0,10),V(0,0,0)); p.InitVay(5e-12,&s); for(int i=0;i<200;i++)p.StepVay(&s);
 double T=5e-12; V near(0.3,0.05,0.2),far(3,0.05,0.2);
 auto arr=[&](int i,V o){ V r=o-p.TrajPoint(i); return p.TrajTime(i)+r.norm()/SpeedOfLight; };
 double tn=arr(170,near)+1e-13; // late part seen from near by
 double tf=arr(40,far)+1e-13;  // early part seen from far away, a later observation
 ElMagField a=p.RetardedField(tf,far); p.RetardedField(0.0,far); ElMagField b=p.RetardedField(tn,near); ElMagField c=p.RetardedField(tf,far); ElMagField d=p.RetardedField(tf+1e-14,far); p.RetardedField(tn+1e-14,near); ElMagField e=p.RetardedField(tf+1e-14,far);
 double sc=a.E().norm()+d.E().norm(); if(!(sc>0))return 1; expectv("E",c.E()/sc,a.E()/sc,1e-9); expectv("E",e.E()/sc,d.E()/sc,1e-6); return bad; }
'''),
dict(id='c07-short-segments',p='C07',
 edits=[('src/particle.cpp','''	    if ((ts2>tmin) && (ts1<tmax))
''','''	    // segments much shorter than a bucket are negligible
	    if ((ts2>tmin) && (ts1<tmax) && (dts>1e-5*dt))
''')],
 needs='tracking steps which appear very short to the observer (relativistic particle seen from ahead) compared to the sampling interval',
 breaks='the contributions of these steps are missing although together they fill the bucket',
 cpp=r'''
int main(){ // a fast particle coming straight towards the observer: arrival times of its steps nearly coincide
 int n=2000; double g=1000; HomogeneousField f(V(0,0,0),V(0,1,0)); ChargedParticle p(-1,1,n+1); p.initTrajectory(0,V(0,0,0),V(0,0,sqrt(g*g-1)),V(0,0,0)); p.InitVay(1e-13,&f); for(int i=0;i<n;i++)p.StepVay(&f);
 auto arr=[&](int i,V ob){ V r=ob-p.TrajPoint(i); return p.TrajTime(i)+r.norm()/SpeedOfLight; };
 V o(0,0.01,1); double t1=arr(0,o),t2=arr(n,o); double dt=t2-t1; 
 FieldTrace a(t1-5*dt,dt,11); p.integrateFieldTrace(o,&a); 
 V s(0,0,0); for(sz i=0;i<11;i++) s+=a.get_field(i).E()*dt;
 auto fld=[&](int i){ double t=arr(i,o); if(i==0)return p.RetardedField(t*(1-1e-12),o).E(); if(i==n)return p.RetardedField(t*(1-1e-12),o).E(); return p.RetardedField(t,o).E(); };
 V w(0,0,0); for(int i=0;i<n;i++) w+=(fld(i)+fld(i+1))*(0.5*(arr(i+1,o)-arr(i,o)));
 double k=w.norm(); if(!(k>0))return 1; fprintf(stderr,"ratio %g\n",(t2-t1)/n/dt); expectv("integral",s/k,w/k,1e-2);
 FieldTrace b(t1-500*dt,200*dt,7); p.integrateFieldTrace(o,&b); V u(0,0,0); for(sz i=0;i<7;i++) u+=b.get_field(i).E()*(200*dt); expectv("integral",u/k,w/k,1e-2);
 return bad; }
'''),
dict(id='c10-start-tolerance',p='C10',
 edits=[('src/fieldtrace.cpp','''    if (t0 != other.t0) throw(IOexception("FieldTrace::operator+= - start time mismatch."));''','''    if (fabs(t0-other.t0)>dt) throw(IOexception("FieldTrace::operator+= - start time mismatch."));''')],
 needs='adding a trace shifted by a fraction of a sample',
 breaks='traces which do not match in time are added sample by sample instead of being rejected',
 cpp=r'''
int main(){ for(int k=-8;k<=8;k++){ FieldTrace a(1e-9,1e-12,5),b(1e-9+k*0.25e-12,1e-12,5); bool thrown=false; try{ a+=b; }catch(std::exception&){ thrown=true; } if(thrown!=(k!=0)){ fprintf(stderr,"shift of %g samples: %s\n",0.25*k,thrown?"rejected":"accepted"); bad=1; } } return bad; }
'''),
dict(id='c08-lattice-cache',p='C08',
 edits=[('src/fields.cpp','''    // this initalizes with zero
    ElMagField total = ElMagField();
''','''    // repeated evaluation for the same point need not be computed again
    static thread_local Lattice* last_lattice = 0;
    static thread_local std::size_t last_count = 0;
    static thread_local double last_t = 0.0;
    static thread_local Vector last_X;
    static thread_local ElMagField last_field;
    if (last_lattice==this && last_count==elements.size() && last_t==t
        && last_X.x==X.x && last_X.y==X.y && last_X.z==X.z)
        return last_field;
    // start with zero
    ElMagField total = ElMagField();
'''),('src/fields.cpp','''        total += elements.at(i)->Field(t, X);
    };
    return total;
''','''        total += elements.at(i)->Field(t, X);
    };
    last_lattice = this;
    last_count = elements.size();
    last_t = t;
    last_X = X;
    last_field = total;
    return last_field;
''')],
 needs='an element being exchanged (removed and another one added) between two evaluations at the same time and place',
 breaks='the field of the former elements is returned',
 cpp=r'''
int main(){ Lattice l; GeneralField*a=new HomogeneousField(V(1,0,0),V(0,0,0)); l.addElement(a); l.addElement(new HomogeneousField(V(0,1,0),V(0,0,0))); V X(0.1,0.2,0.3);
 expectv("field",l.Field(1e-9,X).E(),V(1,1,0),1e-12); l.remove(0); delete a; l.addElement(new HomogeneousField(V(0,0,5),V(0,0,0))); expectv("field after exchange",l.Field(1e-9,X).E(),V(0,1,5),1e-12); return bad; }
'''),
dict(id='c01-undulator-phase-cache',p='C01',
 edits=[('src/undulator.cpp','''        B.y = BPeak * sin(kz * X.z) * cosh(kz * X.y);
        B.z = BPeak * cos(kz * X.z) * sinh(kz * X.y);
''','''        // the phase only has to be computed when the position changes
        static double last_phase = 0.0;
        static double sin_phase = 0.0;
        static double cos_phase = 1.0;
        double phase = kz * X.z;
        if (phase != last_phase)
        {
            last_phase = phase;
            sin_phase = sin(phase);
            cos_phase = cos(phase);
        };
        B.y = BPeak * sin_phase * cosh(kz * X.y);
        B.z = BPeak * cos_phase * sinh(kz * X.y);
''')],
 needs='several threads evaluating the undulator field at different positions at the same time',
 breaks='a thread uses the phase of another one, single-threaded runs are correct',
 cpp=r'''
#include <omp.h>
int main(){ Mesh m=strip(64,V(0,0.001,0),V(0,0,0.0037),V(0,0.001,0)); m.Nt=300; m.dt=1e-12; for(int i=0;i<64;i++)m.t0.push_back(0); save(m,"m.h5"); double k=2*Pi/0.1;
 omp_set_num_threads(4); Lattice l; PlanarUndulator*u=new PlanarUndulator(V(0,0,0)); u->Setup(0.5,0.1,20); l.addElement(u);
 for(int rep=0;rep<300&&!bad;rep++){ MeshedScreen<Lattice> s("m.h5"); s.init(); s.zero(); s.setSource(&l); s.integrate();
  for(int i=0;i<64&&!bad;i++)for(int t=0;t<300;t++){ ElMagField f=s.get_trace(i).get_field((sz)t); expect("By",f.B().y,0.5*sin(k*m.pos[i].z)*cosh(k*m.pos[i].y),1e-9); if(bad)break; } }
 return bad; }
'''),
dict(id='c16-minus-x-import',p='C16',
 edits=[('src/bunch.cpp','if (fabs(dot(e_s, Vector(1.0,0.0,0.0)))>0.8)','if (dot(e_s, Vector(1.0,0.0,0.0))>0.8)')],
 needs='importing a particle distribution propagating in -x direction',
 breaks='the transverse axes cannot be formed, all momenta become invalid',
 cpp=r'''
static void writeSDDS(const char*fn,int n){ FILE*f=fopen(fn,"w"); fprintf(f,"SDDS1\n&parameter name=Particles, type=long &end\n&parameter name=Charge, type=double &end\n"); for(const char*c:{"x","xp","y","yp","t","p"})fprintf(f,"&column name=%s, type=double &end\n",c); fprintf(f,"&data mode=ascii &end\n%d\n1e-12\n%d\n",n,n); for(int i=0;i<n;i++)fprintf(f,"%g %g %g %g %g %g\n",0.001*i,0.005,0.002,0.01*i,1e-12*i,20.0+i); fclose(f); }
int main(){ writeSDDS("b.sdds",4); V dirs[6]={V(1,0,0),V(-1,0,0),V(0,1,0),V(0,-1,0),V(0,0,1),V(0,0,-1)};
 for(V d:dirs){ Bunch r("b.sdds",d); expect("particles",r.getNOP(),4,0); if(bad)return 1; for(int i=0;i<4;i++){ V p=r.getParticle(i)->getMomentum(); expect("momentum",p.norm(),20.0+i,1e-6); expect("longitudinal momentum",dot(p,d),(20.0+i)/sqrt(1+0.005*0.005+1e-4*i*i),1e-6); } }
 return bad; }
'''),
dict(id='c04-last-instant',p='C04',
 edits=[('src/particle.cpp','    if (time>=t1 && time<=t2)','    if (time>=t1 && time<t2)')],
 needs='asking for the coordinates at exactly the time of the last stored point',
 breaks='zero is returned for a particle which is there',
 cpp=r'''
int main(){ ChargedParticle p(-1,1,3); p.initTrajectory(1e-9,V(1,2,3),V(0.1,0.2,5),V(0,0,0)); V x,m; p.CoordinatesAtTime(1e-9,&x,&m); expectv("single point",x,V(1,2,3),1e-12); HomogeneousField f(V(0,0,0),V(0,0.1,0)); p.InitVay(1e-11,&f); p.StepVay(&f); p.StepVay(&f);
 for(int i=0;i<3;i++){ p.CoordinatesAtTime(p.TrajTime(i),&x,&m); expectv("position",x,p.TrajPoint(i),1e-9); expectv("momentum",m,p.TrajMomentum(i),1e-9); } return bad; }
'''),
dict(id='c09-odd-periods',p='C09',
 edits=[('src/undulator.cpp','''    double z1 = -(NPeriods+1)*LambdaU/2.0;
    double z2 = (NPeriods+1)*LambdaU/2.0;''','''    double z1 = -(NPeriods/2+0.5)*LambdaU;
    double z2 = (NPeriods/2+0.5)*LambdaU;''',1)],
 needs='an undulator with an odd number of periods, looking at its ends',
 breaks='an undulator with an odd number of periods is one period too short',
 cpp=r'''
int main(){ for(int n=1;n<8;n++){ PlanarUndulator u(V(0,0,0)); u.Setup(0.3,0.1,n); double L=(n+1)*0.1/2,k=2*Pi/0.1; for(int i=-200;i<=200;i++){ double z=i*0.00237; double e=0.3*sin(k*z); if(fabs(z)>=L)e=0; else{ if(z<-L+0.1)e*=(z+L)/0.1; if(z>L-0.1)e*=(L-z)/0.1; } expect("By",u.Field(0,V(0,0,z)).B().y,e,1e-9); if(bad)return 1; } } return bad; }
'''),
dict(id='c22-area-accumulates',p='C22',
 edits=[('src/mesh.cpp','''    area = std::vector<double>(Np);
    total_area = 0.0;
    normal''','''    area = std::vector<double>(Np);
    normal''')],
 needs='a mesh which is initialised a second time',
 breaks='the total area counts every cell twice',
 cpp=r'''
#include <sstream>
int main(){ Mesh m; m.p={V(0,0,0),V(1,0,0),V(0,1,0),V(1,1,0)}; m.t={{{0,1,2}},{{1,3,2}}}; centers(m); save(m,"m.h5"); MeshedScreen<Beam> s("m.h5"); for(int k=0;k<3;k++){ s.init(); std::ostringstream o; s.writeReport(&o); std::string t=o.str(); sz i=t.find("total area ="); if(i==std::string::npos)return 1; expect("total area/cm2",atof(t.c_str()+i+12),10000,1); } return bad; }
'''),
dict(id='c23-many-neighbours',p='C23',
 edits=[('src/propagate.cpp','            Eigen::VectorXd xi(count), eta(count), xi2(count), eta2(count), xieta(count), one(count);','''            // a parabola is well determined by this number of points
            if (count>20) count = 20;
            Eigen::VectorXd xi(count), eta(count), xi2(count), eta2(count), xieta(count), one(count);''')],
 needs='a mesh in which more than 20 cells meet in one point',
 breaks='only a part of the neighbourhood enters the derivatives, the result depends on the numbering of the cells',
 cpp=STRIPS+r'''
 int n=26; for(int w=0;w<2;w++){ Mesh s; s.p.push_back(V(0,0,0)); for(int i=0;i<n;i++){ double a=2*Pi*i/n; s.p.push_back(V(0.2*cos(a),0.2*sin(a),0)); } for(int j=0;j<n;j++){ int i=w?(j+11)%n:j; s.t.push_back({{0,1+i,1+(i+1)%n}}); } centers(s); s.Nt=40; s.dt=1e-10;
  for(int j=0;j<n;j++){ V c=s.pos[j]; s.t0.push_back(0); for(int k=0;k<40;k++)for(int q=0;q<6;q++)s.f.push_back((sin(0.2*k+40*c.x*c.x*c.y+3*c.y+q)+cos(31*atan2(c.y,c.x)))*(q<3?1:3e-9)); }
  save(s,w?"s1.h5":"s0.h5"); }
 Mesh t=strip(4,V(0.1,0,1),V(0.5,0,0),V(0,0.3,0)); t.Nt=60;t.dt=1e-10;for(int i=0;i<4;i++)t.t0.push_back(3e-9); save(t,"t.h5"); return 0; }
''',run='''./demo || exit 3
export OMP_NUM_THREADS=1
$R/_build/propagate s0.h5 t.h5 p0.h5 >out.txt || exit 1
$R/_build/propagate s1.h5 t.h5 p1.h5 >out.txt || exit 1
./demo p0.h5 p1.h5 || { echo "result depends on the numbering of the cells"; exit 1; }
exit 0
'''),
dict(id='c26-energy-square-cells',p='C26',
 edits=[('src/source_screen.cpp','total -= dot(S,normal)*dX.norm()*dY.norm();','total -= dot(S,normal)*dX.norm()*dX.norm();')],
 needs='a screen whose cells are not squares',
 breaks='the energy on the screen is wrong by the ratio of the sides',
 cpp=r'''
int main(){ double e[3]; for(int i=0;i<3;i++){ V dx=i==1?V(0.2,0,0):V(0.1,0,0),dy=i==2?V(0,0.3,0):V(0,0.1,0); ScreenObserver<Beam> s("a.h5",V(0,0,0),dx,dy,3,2,0,1e-11,0,0,20); std::vector<double> b(s.getBufferSize(),0.0); for(sz k=0;k<b.size()/6;k++){ b[6*k]=sin(0.3*k); b[6*k+4]=sin(0.3*k)/SpeedOfLight; } s.fromBuffer(b.data(),b.size()); s.generateOutput(); SourceScreen A("a.h5",V(0,0,0),0); e[i]=A.totalEnergy(); }
 if(!(fabs(e[0])>0))return 1; expect("doubled width",e[1]/e[0],2,1e-9); expect("tripled height",e[2]/e[0],3,1e-9); return bad; }
'''),
dict(id='c27-snapshot-accumulates',p='C27',
 edits=[('src/snapshot.cpp','FieldArray[ix][iy] = source->Field(t_obs, CellPosition(ix, iy));','FieldArray[ix][iy] += source->Field(t_obs, CellPosition(ix, iy));')],
 needs='a snapshot of a lattice taken twice',
 breaks='the second field is added to the first one',
 cpp=r'''
int main(){ Lattice l; l.addElement(new HomogeneousField(V(1,2,3),V(4,5,6))); SnapshotObserver<Lattice> s("s.h5",V(0,0,1),V(0.1,0,0),V(0,0.1,0),2,3,1e-9); s.setSource(&l); for(int k=0;k<3;k++){ s.integrate(); s.generateOutput(); std::vector<double> d=rd("s.h5","ElMagField"); expect("size",d.size(),36,0); for(sz i=0;i<d.size();i++)expect("field",d[i],1+i%6,1e-12); } return bad; }
'''),
dict(id='c18-late-particles',p='C18',
 edits=[('src/fel1d.cpp','            if (0.25*dt < fabs(t-time))','            if (0.25*dt < t-time)')],
 needs='particles whose time lags behind the field',
 breaks='the mismatch is not reported, currents are induced at the wrong time',
 cpp=r'''
int main(){ double dt=1e-12; HomogeneousField f(V(0,0,0),V(0,0,0)); for(int k=-2;k<=2;k++){ FEL_1D fel(dt,20); Beam b; b.setTimeStep(dt); Bunch*u=new Bunch(); ChargedParticle*p=new ChargedParticle(-1,1); p->initTrajectory((1+k)*dt,V(0,0,-5*dt*SpeedOfLight),V(0,0,10),V(0,0,0)); u->Add(p); b.Add(u); fel.init(&b); b.setNOTS(1); bool thrown=false; try{ fel.step(&b); }catch(std::exception&e){ fprintf(stderr,"%s\n",e.what()); thrown=true; } if(thrown!=(k!=0)){ fprintf(stderr,"particle %d steps off: %s\n",k,thrown?"rejected":"accepted"); bad=1; } } return bad; }
'''),
dict(id='c02-snapshot-own-part',p='C02',
 edits=[('src/teufel_hybrid.cpp','                obs->setSource(masterBeam);','                obs->setSource(trackedBeam);')],
 needs='more than one process, a snapshot observer which records the particles',
 breaks='the snapshot lists only the particles of the first process',
 cpp=r"""
static int rows(const char*fn){ hid_t f=H5Fopen(fn,H5F_ACC_RDONLY,H5P_DEFAULT); if(f<0)return -1; hid_t d=H5Dopen2(f,"ParticleCoordinates",H5P_DEFAULT); if(d<0)return -2; hid_t s=H5Dget_space(d); return (int)H5Sget_simple_extent_npoints(s)/6; }
int main(int c,char**v){ expect("particles, one process",rows(v[1]),7,0); expect("particles, two processes",rows(v[2]),7,0); return bad; }
""",
 run='''cat > $W/d.xml <<X
<?xml version='1.0'?>
<teufel description='d' author='a'>
<lattice></lattice>
<beam>
<bunch gamma='10' charge='-1e-12' cmr='-1' n='3'><position x='0' y='0' z='0'/><momentum x='0' y='0' z='1'/></bunch>
<bunch gamma='20' charge='-1e-12' cmr='-1' n='4'><position x='0.001' y='0' z='0.01'/><momentum x='0' y='0.1' z='1'/></bunch>
</beam>
<tracking method='Vay' delta_t='1e-11' n='4'></tracking>
<observer><snapshot file='s.h5'><position x='0' y='0' z='0.1'/><hpitch x='0.01' y='0' z='0' n='2'/><vpitch x='0' y='0.01' z='0' n='2'/><time t0='2e-11'/></snapshot></observer>
</teufel>
X
export OMP_NUM_THREADS=1
for n in 1 2; do mkdir $W/$n; (cd $W/$n; timeout 100 mpirun --allow-run-as-root --oversubscribe -np $n $R/_build/teufel ../d.xml >out.txt 2>&1) || { echo "run on $n processes failed"; exit 1; }; done
$W/demo $W/1/s.h5 $W/2/s.h5 || exit 1
exit 0
'''),
dict(id='c15-import-correlation-calc',p='C15',
 edits=[('src/parser.cpp','''                    parseCalcChildren(corrnode);
''','',2)],
 needs='an imported bunch with a calculator statement among its correlations',
 breaks='the statement is ignored, expressions using its variable become zero',
 cpp=r'''
static void writeSDDS(const char*fn,int n){ FILE*f=fopen(fn,"w"); fprintf(f,"SDDS1\n&parameter name=Particles, type=long &end\n&parameter name=Charge, type=double &end\n"); for(const char*c:{"x","xp","y","yp","t","p"})fprintf(f,"&column name=%s, type=double &end\n",c); fprintf(f,"&data mode=ascii &end\n%d\n1e-12\n%d\n",n,n); for(int i=0;i<n;i++)fprintf(f,"%g %g %g %g %g %g\n",0.001*i,0.005,0.002,0.01*i,1e-12*i,20.0+i); fclose(f); }
int main(){ writeSDDS("b.sdds",4);
 double m[2]; for(int k=0;k<2;k++){ pugi::xml_document d; std::string t="<teufel description='d' author='a'><beam><SDDS file='b.sdds'><correlations>"+std::string(k?"<calc var='h' eq='2'/><linear indep='0' dep='1' factor='h'/>":"<linear indep='0' dep='1' factor='2'/>")+"</correlations></SDDS></beam></teufel>"; d.load_string(t.c_str()); InputParser p(d.child("teufel")); Beam b; std::vector<Logger*> l; ProbeInfo pi; p.parseBeam(&b,&l,&pi); expect("particles",b.getNOP(),4,0); if(bad)return 1; m[k]=b.getBunch(0)->getParticle(3)->getPosition().y; }
 expect("correlation",fabs(m[0]-0.002)>1e-4,1,0); expect("correlation with variable",m[1],m[0],1e-9); return bad; }
'''),
]
