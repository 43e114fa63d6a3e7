SEEDS=[
dict(id='c03-copy-gamma',p='C03',
 edits=[('src/particle.cpp','VY_gamma_i1 = origin->VY_gamma_i1;','VY_gamma_i1 = sqrt(P_current.abs2nd()+1.0);')],
 needs='copying a particle in the course of tracking in an electric field',
 breaks='the copy continues with the relativistic factor at the last trajectory point instead of the one at the half step, the trajectories of copy and original deviate',
 cpp='''
int main(){ ChargedParticle p(-1,1,20); p.initTrajectory(0,V(0.1,0.2,0.3),V(1,2,3),V(0,0,0)); HomogeneousField f(V(1e7,3e7,2e7),V(0,0.1,0)); p.InitVay(1e-11,&f); for(int i=0;i<3;i++)p.StepVay(&f);
 ChargedParticle q(&p); for(int i=0;i<4;i++){p.StepVay(&f);q.StepVay(&f);}
 for(int i=0;i<8;i++){ expectv("X",q.TrajPoint(i),p.TrajPoint(i),0); expectv("P",q.TrajMomentum(i),p.TrajMomentum(i),0);} return bad; }
'''),
dict(id='c08-remove-order',p='C08',
 edits=[('src/fields.cpp','elements.erase(elements.begin() + index);','elements[index] = elements.back();\n    elements.pop_back();')],
 needs='removing an element that is not one of the last two from a lattice and using the index of a later one',
 breaks='the order of the remaining elements changes, indices refer to other elements than before',
 cpp='''
int main(){ Lattice l; std::vector<GeneralField*> e; for(int i=0;i<5;i++){ e.push_back(new HomogeneousField(V(i,0,0),V(0,0,0))); l.addElement(e[i]); }
 l.remove(1); e.erase(e.begin()+1); expect("count",l.count(),4,0); for(int i=0;i<4;i++) if(l.at(i)!=e[i]){ fprintf(stderr,"element %d changed\\n",i); bad=1; }
 return bad; }
'''),
dict(id='c11-screen-dty',p='C11',
 edits=[('src/screen.cpp','status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_obs);','status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_obs);')],
 needs='a screen with different time increments in x and y',
 breaks='the file states a wrong time increment between the rows of the screen',
 cpp='''
int main(){ ScreenObserver<Beam> s("s.h5",V(0,0,1),V(0.1,0,0),V(0,0.1,0),2,3,1e-9,1e-12,3e-12,5e-12,4); s.generateOutput();
 expect("dtx",rdat("s.h5","Screen","dtx")*1e12,3,1e-9); expect("dty",rdat("s.h5","Screen","dty")*1e12,5,1e-9); return bad; }
'''),
dict(id='c12-drift-direction',p='C12',
 edits=[('src/bunch.cpp','e_y*yData[i] + v*(t0-tData[i])*SpeedOfLight','e_y*yData[i] + e_s*(beta*(t0-tData[i])*SpeedOfLight)')],
 needs='a particle distribution in which a particle arrives early or late and has a transverse momentum',
 breaks='particles are moved along the axis instead of along their direction of flight when transported to a common time',
 cpp='''
#include "SDDS.h"
int main(){ { FILE*f=fopen("b.sdds","w"); fprintf(f,"SDDS1\\n&parameter name=Particles, type=long, &end\\n&parameter name=Charge, type=double, &end\\n&column name=x, type=double, &end\\n&column name=xp, type=double, &end\\n&column name=y, type=double, &end\\n&column name=yp, type=double, &end\\n&column name=t, type=double, &end\\n&column name=p, type=double, &end\\n&data mode=ascii, &end\\n2\\n1e-12\\n2\\n1e-3 0.5 2e-3 0.25 1e-9 10\\n1e-3 0 2e-3 0 3e-9 10\\n"); fclose(f); }
 Bunch b("b.sdds",V(0,0,1)); expect("NOP",b.getNOP(),2,0); if(b.getNOP()!=2) return 1;
 V d(0.5,0.25,1); for(int i=0;i<2;i++){ V P=b.getParticle(i)->TrajMomentum(0),X=b.getParticle(i)->TrajPoint(0); double beta=P.norm()/sqrt(P.abs2nd()+1); double s=(i?-1e-9:1e-9)*SpeedOfLight*beta; V v=P; v.normalize();
  // on the way back to the reference plane the particle has to pass its recorded coordinates
  V Y=X-v*s; expect("s",Y.z,0,1e-9); expect("r",Y.x*Y.x+Y.y*Y.y,5e-6,1e-9); } return bad; }
'''),
dict(id='c14-default-method',p='C14',
 edits=[('src/parser.cpp','track.attribute("method").value();','track.attribute("method").as_string("Vay");')],
 needs='an input file without a tracking method',
 breaks='the missing mandatory attribute is not rejected',
 run='''for m in "method='Vay'" "" "method='vay'"; do rm -rf $W/r; mkdir $W/r; cat > $W/r/d.xml <<X
<?xml version='1.0'?>
<teufel description='d' author='a'>
<lattice></lattice>
<beam><particle gamma='10' charge='-1' cmr='-1'><position x='0' y='0' z='0'/><momentum x='0' y='0' z='1'/></particle></beam>
<tracking $m delta_t='1e-11' n='4'></tracking>
<observer></observer>
</teufel>
X
(cd $W/r; ulimit -c 0; OMP_NUM_THREADS=1 timeout 100 $R/_build/teufel d.xml >out.txt 2>&1); s=$?
case $m in *Vay*) [ $s = 0 ] || { echo "valid deck rejected"; exit 1; } ;; *) [ $s != 0 ] || { echo "deck with '$m' accepted"; exit 1; } ;; esac
done
exit 0
'''),
dict(id='c15-int-truncation',p='C15',
 edits=[('src/parser.cpp','retval = rint(calc->Eval());','retval = (int)calc->Eval();')],
 needs='an expression for a number of steps the result of which is slightly below an integer',
 breaks='the number is truncated, there is one step less than specified',
 cpp='''
int main(){ pugi::xml_document d; d.load_string("<teufel><a n='0.29*100' m='3' k='1e-9/1e-12+1'/></teufel>"); InputParser p(d.child("teufel")); pugi::xml_node a=d.child("teufel").child("a");
 expect("0.29*100",p.parseInt(a.attribute("n")),29,0); expect("3",p.parseInt(a.attribute("m")),3,0); expect("1001",p.parseInt(a.attribute("k")),1001,0); return bad; }
'''),
dict(id='c19-point-buffer-size',p='C19',
 edits=[('src/point_observer.cpp','if (size==6*Nb)','if (size>=6*Nb)')],
 needs='a buffer larger than the field trace of a point observer',
 breaks='a buffer of wrong size is accepted and the trace is overwritten',
 cpp='''
int main(){ PointObserver<Beam> o("o.sdds",V(0,0,1),0,1e-12,3); std::vector<double> b(24,7.0); bool thrown=false; try{ o.fromBuffer(b.data(),24); }catch(IOexception&){ thrown=true; } catch(RANGEexception&){ thrown=true; }
 if(!thrown){ fprintf(stderr,"wrong size accepted\\n"); bad=1; }
 double *c=o.getBuffer(); for(int i=0;i<18;i++) expect("value",c[i],0,0); return bad; }
'''),
dict(id='c23-shared-distance',p='C23',
 edits=[('src/propagate.cpp','''    volatile int warnings_counter = 0;
''','''    volatile int warnings_counter = 0;
    double R;
'''),('src/propagate.cpp','double R = RVec.norm();','R = RVec.norm();')],
 needs='two or more OpenMP threads working on different target cells at the same time',
 breaks='the distance between source and target cell is shared between the threads, a thread uses the distance computed by another one',
 cpp='''
int main(int c,char**v){ if(c>1){ std::vector<double> a=rd(v[1],"ElMagField"),b=rd(v[2],"ElMagField"); if(a.size()<6||a.size()!=b.size()) return 1; double m=0,mb=0; for(sz i=0;i<a.size();i++){ double&s=(i%6<3)?m:mb; s=fmax(s,fabs(a[i])); } for(sz i=0;i<a.size();i++) expect("field",b[i],a[i],1e-9*((i%6<3)?m:mb)); return bad; }
 Mesh s=strip(30,V(0,0,0),V(0.2,0,0),V(0,0.2,0)),t=strip(60,V(0.3,0,1),V(0.5,0,0),V(0,0.3,0)); s.Nt=64; s.dt=1e-10; for(int i=0;i<30;i++){s.t0.push_back(0);for(int k=0;k<64;k++)for(int q=0;q<6;q++)s.f.push_back(sin(0.1*k+q+i)*(q<3?1:1e-9));}
 t.Nt=64;t.dt=1e-10;for(int i=0;i<60;i++)t.t0.push_back(t.pos[i].norm()/SpeedOfLight);
 save(s,"s.h5"); save(t,"t.h5"); return 0; }
''',run='''./demo || exit 3
P=$R/_build/propagate
OMP_NUM_THREADS=1 $P s.h5 t.h5 ref.h5 >out.txt || exit 1
for i in 1 2 3 4 5 6 7 8; do OMP_NUM_THREADS=8 $P s.h5 t.h5 o.h5 >out.txt || exit 1; ./demo ref.h5 o.h5 || { echo "result depends on the number of threads"; exit 1; }; done
exit 0
'''),
dict(id='c24-mean-normal',p='C24',
 edits=[('src/reflection.cpp','''        Vector normal = source->get_normal(index);
        normal.normalize();
''','''        Vector normal = avg_normal;
        normal.normalize();
''')],
 needs='a mirror that is not flat',
 breaks='the fields of all cells are reflected at the average normal of the mirror',
 cpp='''
int main(int c,char**v){ if(c>1){ std::vector<double> a=rd(v[1],"ElMagField"),b=rd(v[2],"ElMagField"); if(a.size()<6||a.size()!=b.size()) return 1; double m=0,mb=0; for(sz i=0;i<a.size();i++){ double&s=(i%6<3)?m:mb; s=fmax(s,fabs(a[i])); } for(sz i=0;i<a.size();i++) expect("field",b[i],a[i],1e-6*((i%6<3)?m:mb)); return bad; }
 Mesh s; s.p={V(0,0,0),V(0.2,0,0.05),V(0,0.2,0),V(-0.2,0,0.1),V(0,-0.2,0.03)}; s.t={{{0,1,2}},{{0,2,3}},{{0,3,4}},{{0,4,1}}}; centers(s);
 s.Nt=40; s.dt=1e-10; for(int i=0;i<4;i++){ s.t0.push_back(0); V a=s.p[s.t[i][1]]-s.p[s.t[i][0]],b=s.p[s.t[i][2]]-s.p[s.t[i][0]]; V n=cross(a,b); n.normalize(); a.normalize();
  // electric field normal, magnetic field tangential: an ideal conductor leaves these unchanged
  for(int k=0;k<40;k++){ double w=sin(0.2*k+i); V E=n*w,B=a*(w/SpeedOfLight); double q[6]={E.x,E.y,E.z,B.x,B.y,B.z}; s.f.insert(s.f.end(),q,q+6);} }
 Mesh t=strip(5,V(0.1,0,1),V(0.5,0,0),V(0,0.3,0)); t.Nt=60;t.dt=1e-10;for(int i=0;i<5;i++)t.t0.push_back(3e-9); save(s,"s.h5"); save(t,"t.h5"); return 0; }
''',run='''./demo || exit 3
export OMP_NUM_THREADS=1
$R/_build/propagate s.h5 t.h5 p.h5 >out.txt || exit 1
$R/_build/reflection s.h5 t.h5 r.h5 >out.txt || exit 1
./demo p.h5 r.h5 || { echo "reflected fields are wrong"; exit 1; }
exit 0
'''),
dict(id='c25-remove-skips',p='C25',
 edits=[('src/teufel_hybrid.cpp','''            lattice->remove(i_lat);
        } else { 
            i_lat++;
        }
''','''            lattice->remove(i_lat);
        }
        i_lat++;
''')],
 needs='two or more interaction fields following each other in the lattice',
 breaks='every second interaction field stays in the lattice and is included in the lattice observations',
 cpp='''
int main(int c,char**v){ if(c>1){ std::vector<double> a=rd(v[1],"ElMagField"),b=rd(v[2],"ElMagField"); if(a.size()<6||a.size()!=b.size()) return 1; double m=0,mb=0; for(sz i=0;i<a.size();i++){ double&s=(i%6<3)?m:mb; s=fmax(s,fabs(a[i])); } for(sz i=0;i<a.size();i++) expect("field",b[i],a[i],1e-9); return bad; }
 return 3; }
''',
 run='''python3 - $W <<'P'
import sys
fel="<fel1d N='40'><position x='0' y='0' z='0.03'/><prop x='0' y='0' z='1'/><pol x='1' y='0' z='0'/><mode zR='0.1' w0='1e-3' zwaist='0.05'/><seed E0='2e6' lambda='6e-3' tau='4e-11' tstart='1e-11'/></fel1d>"
def deck(n): return "<?xml version='1.0'?><teufel description='d' author='a'><lattice><background><B x='0' y='0.1' z='0'/></background></lattice><beam><particle gamma='10' charge='-1' cmr='-1'><position x='0' y='0' z='0'/><momentum x='0' y='0' z='1'/></particle></beam><tracking method='Vay' delta_t='1e-11' n='6'>"+fel*n+"</tracking><observer><snapshot source='lattice' file='s.h5'><time t0='6e-11'/><position x='0' y='0' z='0.02'/><hpitch x='0.0001' y='0' z='0' n='3'/><vpitch x='0' y='0' z='0.003' n='5'/></snapshot></observer></teufel>"
for n in (0,1,2,3): open(sys.argv[1]+'/d%d.xml'%n,'w').write(deck(n))
P
DECKS
'''),
dict(id='c26-center-time',p='C26',
 edits=[('src/source_screen.cpp','return dtx_src*(double)((int)ix-(int)Nx/2) + dty_src*(double)((int)iy-(int)Ny/2);','return dtx_src*((double)ix-0.5*Nx) + dty_src*((double)iy-0.5*Ny);')],
 needs='a recorded screen with an odd number of cells and a time increment between the cells',
 breaks='all signals are shifted in time by half of the increment between the cells',
 cpp='''
int main(){ for(int i=0;i<2;i++){ ScreenObserver<Beam> s(i?"b.h5":"a.h5",V(0,0,0),V(0.1,0,0),V(0,0.1,0),3,2,0,1e-11,i?4e-11:0,i?-3e-11:0,30); std::vector<double> b(s.getBufferSize(),0.0);
  // only the cell at the center of the screen radiates
  for(int k=0;k<30;k++){ b[(sz)(((1*2+1)*30+k)*6)]=exp(-0.02*(k-15)*(k-15)); b[(sz)(((1*2+1)*30+k)*6+4)]=1e-9*exp(-0.02*(k-15)*(k-15)); } s.fromBuffer(b.data(),b.size()); s.generateOutput(); }
 SourceScreen A("a.h5",V(0,0,0),0),B("b.h5",V(0,0,0),0); double m=0; for(int k=0;k<300;k++){ double t=k*2e-12*20; V X(0.1,0.05,-1.0); V e=A.Field(t,X).E(),f=B.Field(t,X).E(); m=fmax(m,e.norm()); V d=e-f; if(d.norm()>1e-9){ fprintf(stderr,"field differs at %g\\n",t); return 1; } V Y(0.1,0.05,1.0); e=A.Field(t,Y).E(),f=B.Field(t,Y).E(); m=fmax(m,e.norm()); d=e-f; if(d.norm()>1e-9) return 1; }
 if(!(m>1e-6)) { fprintf(stderr,"no field\\n"); return 1; } return bad; }
'''),
dict(id='c27-cell-start-time',p='C27',
 edits=[('src/screen.cpp','source->Field(CellTimeZero(ix,iy)+(double)it*dt_obs, CellPosition(ix,iy))','source->Field(t0_obs+(double)it*dt_obs, CellPosition(ix,iy))')],
 needs='a screen observing the lattice fields with a time increment between the cells',
 breaks='all cells of the screen are observed at the times of the center cell',
 cpp='''
struct T: public GeneralField { bool is_external() override {return true;} ElMagField Field(double t,V X) override { return ElMagField(V(t*1e12,X.x,X.y),V(0,0,0)); } };
int main(){ Lattice l; l.addElement(new T()); ScreenObserver<Lattice> s("s.h5",V(0,0,1),V(0.1,0,0),V(0,0.1,0),3,3,100e-12,1e-12,5e-12,-7e-12,4); s.setSource(&l); s.integrate(); s.generateOutput();
 std::vector<double> d=rd("s.h5","ElMagField"); expect("size",d.size(),3*3*4*6,0); if(bad)return 1;
 for(int ix=0;ix<3;ix++)for(int iy=0;iy<3;iy++)for(int k=0;k<4;k++) expect("t",d[((ix*3+iy)*4+k)*6],100+k+5*(ix-1)-7*(iy-1),1e-6); return bad; }
'''),
dict(id='c28-screen-dt-leak',p='C28',
 edits=[('src/parser.cpp','''        for (pugi::xml_node_iterator it = obsroot.begin(); it != obsroot.end(); ++it)
''','''        // screen timing without increments between the cells unless specified
        double dtx = 0.0;
        double dty = 0.0;
        for (pugi::xml_node_iterator it = obsroot.begin(); it != obsroot.end(); ++it)
'''),('src/parser.cpp','double t0, dt, dtx, dty;','double t0, dt;'),('src/parser.cpp','''                if (!att_dtx)
                    dtx = 0.0;
                else
                    dtx =''','''                if (att_dtx)
                    dtx ='''),('src/parser.cpp','''                if (!att_dty)
                    dty = 0.0;
                else
                    dty =''','''                if (att_dty)
                    dty =''')],
 needs='two screens in one input file, the first with and a later one without a time increment between the cells',
 breaks='the second screen takes over the time increments of the first one',
 cpp='''
int main(){ expect("dtx",rdat("a.h5","Screen","dtx")*1e12,3,1e-9); expect("dty",rdat("a.h5","Screen","dty")*1e12,5,1e-9);
 expect("dtx",rdat("b.h5","Screen","dtx")*1e12,0,1e-9); expect("dty",rdat("b.h5","Screen","dty")*1e12,0,1e-9); expect("dtx",rdat("c.h5","Screen","dtx")*1e12,0,1e-9); expect("dty",rdat("c.h5","Screen","dty")*1e12,-2,1e-9); return bad; }
''',run='''cat > d.xml <<X
<?xml version='1.0'?>
<teufel description='d' author='a'>
<lattice></lattice>
<beam><particle gamma='10' charge='-1' cmr='-1'><position x='0' y='0' z='0'/><momentum x='0' y='0' z='1'/></particle></beam>
<tracking method='Vay' delta_t='1e-11' n='4'></tracking>
<observer>
<screen file='a.h5'><position x='0' y='0' z='1'/><hpitch x='0.1' y='0' z='0' n='2' dt='3e-12'/><vpitch x='0' y='0.1' z='0' n='2' dt='5e-12'/><time t0='0' dt='1e-12' n='4'/></screen>
<screen file='b.h5'><position x='0' y='0' z='1'/><hpitch x='0.1' y='0' z='0' n='2'/><vpitch x='0' y='0.1' z='0' n='2'/><time t0='0' dt='1e-12' n='4'/></screen>
<screen file='c.h5'><position x='0' y='0' z='1'/><hpitch x='0.1' y='0' z='0' n='2'/><vpitch x='0' y='0.1' z='0' n='2' dt='-2e-12'/><time t0='0' dt='1e-12' n='4'/></screen>
</observer>
</teufel>
X
OMP_NUM_THREADS=1 timeout 100 $R/_build/teufel d.xml >out.txt 2>&1 || { tail out.txt; exit 1; }
./demo || exit 1
exit 0
'''),
]
for s in SEEDS:
    if 'run' in s: s['run']=s['run'].replace('DECKS','''export OMP_NUM_THREADS=1
for n in 0 1 2 3; do mkdir $W/$n; (cd $W/$n; timeout 100 $R/_build/teufel ../d$n.xml >out.txt 2>&1) || { echo "run with $n interactions failed"; tail -3 $W/$n/out.txt; exit 1; }
$W/demo $W/0/s.h5 $W/$n/s.h5 || { echo "interaction field observed"; exit 1; }; done
exit 0''')
