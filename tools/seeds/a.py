SEEDS=[
dict(id='c01-mesh-lattice-shared-trace',p='C01',
 edits=[('src/mesh.cpp','''void MeshedScreen<Lattice>::integrate()
{
    int counter = 0;
''','''void MeshedScreen<Lattice>::integrate()
{
    int counter = 0;
    FieldTrace *trace = 0;
'''),('src/mesh.cpp','''        for (int it=0; it<Nt; it++)
        {
            FieldTrace *trace = A[i];
            trace->add(it,''','''        trace = A[i];
        for (int it=0; it<Nt; it++)
        {
            trace->add(it,''')],
 needs='two or more OpenMP threads integrating lattice fields on a meshed screen, one starting its cell while the other is still working on its own',
 breaks='the trace pointer is shared between the threads: samples of one cell are added to the trace of another one',
 cpp='''
#include <omp.h>
struct Slow: public GeneralField { bool is_external() override {return true;} ElMagField Field(double t,V X) override { double s=0; for(int i=0;i<400;i++)s+=sin(1e-3*i+X.x); return ElMagField(V(X.x+0*s,X.y,1e9*t),V(1,s*1e-30,0)); } };
int main(){ Mesh m=strip(24,V(0,0,1),V(0.2,0,0),V(0,0.2,0)); m.Nt=200; m.dt=1e-12; for(int i=0;i<24;i++)m.t0.push_back(1e-13*i); save(m,"m.h5");
 omp_set_num_threads(4); Lattice l; l.addElement(new Slow());
 for(int rep=0;rep<40&&!bad;rep++){ MeshedScreen<Lattice> s("m.h5"); s.init(); s.zero(); s.setSource(&l); s.integrate();
  for(int i=0;i<24;i++)for(int k=0;k<200;k++){ ElMagField f=s.get_trace(i).get_field((sz)k); expect("Ex",f.E().x,m.pos[i].x,1e-12); expect("Ez",f.E().z,1e9*(m.t0[i]+k*1e-12),1e-9); if(bad)break; } }
 return bad; }
'''),
dict(id='c02-distribute-per-bunch',p='C02',
 edits=[('src/teufel_hybrid.cpp','''    int current_node_particles = 0;    // the number of particles already assigned to the current node
''',''),('src/teufel_hybrid.cpp','''        int nop = b->getNOP();
        for (int j=0; j<nop; j++)
        {
            ChargedParticle *master_particle''','''        int nop = b->getNOP();
        int current_node_particles = 0;    // the number of particles already assigned to the current node
        for (int j=0; j<nop; j++)
        {
            ChargedParticle *master_particle''')],
 needs='a beam of two or more bunches with particle numbers that are not multiples of the share of a process, and two or more processes',
 breaks='the fill count of a process restarts with every bunch, processes get more particles than the transfer buffers provide for, particles end up in the wrong place',
 run='''cat > $W/d.xml <<X
<?xml version='1.0'?>
<teufel description='d' author='a'>
<lattice><background><B x='0.01' y='0.05' z='0'/></background></lattice>
<beam>
<bunch gamma='10' charge='-1e-12' cmr='-1' n='3'><position x='0' y='0' z='0'/><momentum x='0' y='0' z='1'/><log file='b1.sdds' step='1'/></bunch>
<bunch gamma='20' charge='-1e-12' cmr='-1' n='3'><position x='0.001' y='0' z='0.01'/><momentum x='0' y='0.1' z='1'/><log file='b2.sdds' step='1'/></bunch>
<bunch gamma='30' charge='-1e-12' cmr='-1' n='2'><position x='0.002' y='0' z='0.02'/><momentum x='0.1' y='0' z='1'/><log file='b3.sdds' step='1'/></bunch>
</beam>
<tracking method='Vay' delta_t='1e-11' n='4'></tracking>
<observer></observer>
</teufel>
X
export OMP_NUM_THREADS=1
for n in 1 2; do mkdir $W/$n; (cd $W/$n; timeout 100 mpirun --allow-run-as-root --oversubscribe -np $n $R/_build/teufel ../d.xml >out.txt 2>&1) || { echo "run on $n processes failed"; exit 1; }; done
python3 - $W <<'P'
import sys
def table(f):
    v=[]
    for l in open(f):
        try: v+= [float(x) for x in l.split()]
        except ValueError: pass
    return v
for b in ('b1','b2','b3'):
    a=table(sys.argv[1]+'/1/'+b+'.sdds'); c=table(sys.argv[1]+'/2/'+b+'.sdds')
    assert len(a)==len(c)>20,(b,len(a),len(c))
    for x,y in zip(a,c): assert abs(x-y)<=1e-9*max(1e-3,abs(x),abs(y)),(b,x,y)
P
[ $? = 0 ] || exit 1
exit 0
'''),
dict(id='c04-mirror-offset',p='C04',
 edits=[('src/particle.cpp','''        Vector position = X[i];
        dx = normal*dot(origin-position,normal);
        X[i] = position + dx*2.0;''','''        X[i] += dx*2.0;''')],
 needs='mirroring a particle that has moved along the mirror normal during tracking (the distance to the plane differs between the trajectory points)',
 breaks='all recorded positions are displaced by the reflection distance of the current position, so only the last point is reflected',
 cpp='''
int main(){ ChargedParticle p(-1,1,10); p.initTrajectory(0,V(0.1,0.2,0.3),V(1,2,3),V(0,0,0)); HomogeneousField f(V(0,0,0),V(0,0.1,0)); p.InitVay(1e-10,&f); for(int i=0;i<3;i++)p.StepVay(&f);
 std::vector<V> x; for(int i=0;i<4;i++)x.push_back(p.TrajPoint(i)); V n(1,0.5,2); n.normalize(); V o(0.5,-0.1,0.7);
 p.Mirror(o,V(1,0.5,2),-1.0);
 for(int i=0;i<4;i++){ V d=x[i]-o; V w=x[i]-n*(2*dot(d,n)); expectv("mirrored point",p.TrajPoint(i),w,1e-12); } expectv("current",p.getPosition(),p.TrajPoint(3),1e-12);
 return bad; }
'''),
dict(id='c05-reinit-first-time',p='C05',
 edits=[('src/particle.cpp','''    t_current = Time.back();
    X_current = X.back();
    P_current = P.back();
    ElMagField EB_h''','''    t_current = Time.front();
    X_current = X.back();
    P_current = P.back();
    ElMagField EB_h''')],
 needs='continuing the tracking of a particle that already has more than one trajectory point',
 breaks='after re-initialisation of the tracking the particle time restarts at the first point of the trajectory',
 cpp='''
int main(){ ChargedParticle p(-1,1,10); p.initTrajectory(1e-10,V(0,0,0),V(0,0,3),V(0,0,0)); HomogeneousField f(V(0,0,0),V(0,0.1,0)); p.InitVay(1e-10,&f); p.StepVay(&f); p.StepVay(&f);
 p.InitVay(5e-11,&f); p.StepVay(&f); expect("number of points",p.getNP(),4,0); for(int i=1;i<p.getNP();i++) if(!(p.TrajTime(i)>p.TrajTime(i-1))){ fprintf(stderr,"time runs backwards\\n"); bad=1; }
 expect("time",p.getTime(),1e-10+2e-10+5e-11,1e-15); return bad; }
'''),
dict(id='c06-coarse-refinement',p='C06',
 edits=[('src/particle.cpp','while (fabs(dfrac)>1e-5 && number_ref<10)','while (fabs(dfrac)>1e-5 && number_ref<2)')],
 needs='an observation point close to the trajectory (or a fast particle seen from the front) so that the refinement of the retarded position needs more than one iteration',
 breaks='the iteration for the retarded source point is stopped too early, the field belongs to a point off the light cone',
 cpp='''
int main(){ ChargedParticle p(-1,1,10); double g=1.5; V P(0,0,sqrt(g*g-1)); p.initTrajectory(0,V(0,0,0),P,V(0,0,0)); HomogeneousField f(V(0,0,0),V(0,0,0)); p.InitVay(1e-9,&f); p.StepVay(&f); p.StepVay(&f); p.StepVay(&f);
 double b=sqrt(g*g-1)/g;
 // analytical field of a charge in uniform motion
 for(int i=0;i<20;i++){ double t=1.7e-9+3e-11*i; V o(0.03+0.004*i,0.02,0.35); V r=o-V(0,0,b*SpeedOfLight*t); double perp2=r.x*r.x+r.y*r.y; double d=pow(g*g*r.z*r.z+perp2,1.5); V E=r*(-ElementaryCharge*g/(4*Pi*EpsNull)/d);
  V got=p.RetardedField(t,o).E(); double s=E.norm(); expectv("E",got/s,E/s,1e-3); }
 return bad; }
'''),
dict(id='c07-first-bucket-start',p='C07',
 edits=[('src/particle.cpp','if ((ts2>tmin) && (ts1<tmax))','if ((ts2>t0) && (ts1<tmax))')],
 needs='a trajectory segment whose end is observed within the first half of the first time bucket of the trace',
 breaks='the contribution of that segment to the first time bucket is lost',
 cpp='''
int main(){ ChargedParticle p(-1e6,1,10); p.initTrajectory(0,V(0,0,0),V(0,0,0.0),V(0,0,0)); HomogeneousField f(V(0,0,0),V(0,0,0)); p.InitVay(1e-10,&f); for(int i=0;i<4;i++)p.StepVay(&f);
 V o(0.3,0.1,0.2); double ta=o.norm()/SpeedOfLight; V E=p.RetardedField(ta+1e-10,o).E();
 // static charge: every bucket completely covered by the trajectory sees exactly the static field
 for(double s: {0.33,1.05}){ FieldTrace t(ta+s*1e-10,0.21e-10,9); p.integrateFieldTrace(o,&t);
 for(int i=0;i<9;i++) expectv("bucket",t.get_field((sz)i).E()/E.norm(),E/E.norm(),1e-6); }
 return bad; }
'''),
dict(id='c09-softedge-length',p='C09',
 edits=[('src/dipole.cpp','double at2 = atan(2.0*d2/t_2);','double at2 = atan(2.0*d2/t_1);')],
 needs='a soft edge dipole with different transition lengths at entrance and exit',
 breaks='the exit edge uses the transition length of the entrance edge',
 cpp='''
int main(){ SoftEdgeDipole d(V(0,1,0),V(0,0,0),V(0,0,-1),0.01,V(0,0,1),V(0,0,1),0.05);
 // at half the transition length behind the exit edge the field has dropped to 1/4
 ElMagField f=d.Field(0,V(0,0,1.025)); expect("By",f.B().y,0.25,0.01); f=d.Field(0,V(0,0,-0.005)); expect("By",f.B().y,0.25,0.02); return bad; }
'''),
dict(id='c10-assign-t0',p='C10',
 edits=[('src/fieldtrace.cpp','''            t0 = t.t0;
            dt = t.dt;
            // for''','''            // start time and sampling of equally sized traces
            if (t0 != t.t0 && dt != t.dt) t0 = t.t0;
            dt = t.dt;
            // for''')],
 needs='assigning a trace with a different start time but the same time step',
 breaks='assignment of a field trace does not take over the start time if the time steps agree',
 cpp='''
int main(){ FieldTrace a(1e-9,1e-12,4), b(5e-9,1e-12,4), c(7e-9,3e-12,4); for(int i=0;i<4;i++)a.set_field((sz)i,ElMagField(V(i,0,0),V(0,i,0)));
 c=a; expect("t0",c.get_t0()*1e9,1,1e-9); b=a; expect("t0",b.get_t0()*1e9,1,1e-9); expect("value",b.get_field(1.001e-9).E().x,1,1e-3); return bad; }
'''),
dict(id='c13-watch-break',p='C13',
 edits=[('src/teufel_hybrid.cpp','''                            std::cout << masterBeam->getNOP() << " particles written." << std::endl;
                            std::cout << std::endl;
                        } else {
                            std::cout << "error " << res << " while writing." << std::endl;
                            std::cout << std::endl;
                        };
                    };
                }
            }
        
        // compute''','''                            std::cout << masterBeam->getNOP() << " particles written." << std::endl;
                            std::cout << std::endl;
                        } else {
                            std::cout << "error " << res << " while writing." << std::endl;
                            std::cout << std::endl;
                        };
                    };
                    // done for this step
                    break;
                }
            }
        
        // compute''')],
 needs='two watch points at the same (non-zero) step',
 breaks='only the first of several watch points belonging to one step is written',
 run='''cat > $W/d.xml <<X
<?xml version='1.0'?>
<teufel description='d' author='a'>
<lattice></lattice>
<beam><particle gamma='10' charge='-1e-12' cmr='-1'><position x='0' y='0' z='0'/><momentum x='0' y='0' z='1'/></particle></beam>
<tracking method='Vay' delta_t='1e-11' n='4'><watch step='2' file='w1.h5'/><watch step='4' file='w2.h5'/><watch-sdds step='2' file='w3.sdds'/><watch step='0' file='w4.h5'/></tracking>
<observer></observer>
</teufel>
X
cd $W; OMP_NUM_THREADS=1 timeout 100 $R/_build/teufel d.xml >out.txt 2>&1 || exit 1
for f in w1.h5 w2.h5 w3.sdds w4.h5; do [ -s $f ] || { echo "$f missing"; exit 1; }; done
exit 0
'''),
dict(id='c16-correlation-accel',p='C16',
 edits=[('src/bunch.cpp','''                case 3: mean += P0.x; break;
                case 4: mean += P0.y; break;
                case 5: mean += P0.z; break;
            };
        };
        mean /= NOP;''','''                case 3: mean += P0.x; break;
                case 4: mean += P0.y; break;
                case 5: mean += P0.norm(); break;
            };
        };
        mean /= NOP;''')],
 needs='a correlation with the longitudinal momentum as the independent coordinate and particles with transverse momenta',
 breaks='the mean of the longitudinal momentum is computed from the total momentum, the dependent coordinate gets an offset',
 cpp='''
int main(){ Bunch b; double sx=0,sx0=0; for(int i=0;i<5;i++){ ChargedParticle*p=new ChargedParticle(-1,1); p->initTrajectory(0,V(0.001*i,0,0.1*i),V(1+i,0.5*i,10+i),V(0,0,0)); b.Add(p); sx0+=0.001*i; }
 b.addCorrelation(5,0,0.01); for(int i=0;i<5;i++)sx+=b.getParticle(i)->getPosition().x; expect("mean x",sx/5,sx0/5,1e-12); expect("x[4]",b.getParticle(4)->getPosition().x,0.004+0.01*2,1e-12); return bad; }
'''),
dict(id='c17-rms-single-pass',p='C17',
 edits=[('src/bunch.cpp','''    Vector mean = avgPosition();
    for(int i=0; i<NOP; i++)
    {
        Vector dev = P[i]->getPosition() - mean;
        sum += dev.square();
    };
    sum /= NOP;
    return sum.root();
}

Vector Bunch::avgMomentum()''','''    Vector mean = Vector(0.0, 0.0, 0.0);
    // accumulate both moments in a single pass over the particles
    for(int i=0; i<NOP; i++)
    {
        Vector pos = P[i]->getPosition();
        mean += pos;
        sum += pos.square();
    };
    mean /= NOP;
    sum /= NOP;
    Vector var = sum - mean.square();
    if (var.x<0.0) var.x = 0.0;
    if (var.y<0.0) var.y = 0.0;
    if (var.z<0.0) var.z = 0.0;
    return var.root();
}

Vector Bunch::avgMomentum()''')],
 needs='a bunch far away from the origin compared to its size (after tracking some metres)',
 breaks='the r.m.s. size is the difference of two large numbers and looses all significance',
 cpp='''
int main(){ Bunch b; for(int i=0;i<4;i++){ ChargedParticle*p=new ChargedParticle(-1,1); p->initTrajectory(0,V(1e-6*(i%2),0,100.0+1e-7*(i%2)),V(0,0,10),V(0,0,0)); b.Add(p); }
 expect("z rms",b.rmsPosition().z*1e7,0.5,1e-4); expect("x rms",b.rmsPosition().x*1e6,0.5,1e-6); return bad; }
'''),
dict(id='c18-field-cell-head',p='C18',
 edits=[('src/fel1d.cpp','int index = rint(delta_z/ds);','int index = (int)(delta_z/ds+0.5);')],
 needs='a query between half a cell and one and a half cells ahead of the head of the field grid',
 breaks='positions up to one and a half cells ahead of the grid are accepted and get the field of cell 0',
 cpp='''
int main(){ double dt=1e-12, ds=dt*SpeedOfLight; FEL_1D f(dt,10); double h=-1e9;
 // scan the grid for its head : the first accepted position must be within half a cell of cell zero
 std::vector<double> ok; for(int i=-300;i<400;i++){ double z=ds*(0.1*i+0.05); try{ f.Field(0,V(0,0,z)); ok.push_back(0.1*i+0.05); }catch(IOexception const&){} }
 if(ok.empty())return 1; expect("extent of the grid in cells",ok.back()-ok.front()+0.1,10.0,0.11); return bad; }
'''),
dict(id='c22-neighbour-vertex',p='C22',
 edits=[('src/mesh.cpp','(ti3==i1) || (ti3==i2) || (ti3==i3) )','(ti3==i2) || (ti3==i3) )')],
 needs='a neighbour whose third vertex is the first vertex of the cell and which shares no other vertex with it',
 breaks='neighbouring cells are missed depending on the order of their vertices',
 cpp='''
int main(){ Mesh m; m.p={V(0,0,0),V(1,0,0),V(0,1,0),V(-1,0,0),V(0,-1,0)}; m.t={{{0,1,2}},{{3,4,0}}}; centers(m); save(m,"m.h5"); MeshedScreen<Beam> s("m.h5"); s.init(); int b[8]; expect("neighbours of 0",s.get_Neighbourhood(0,b),2,0); expect("neighbours of 1",s.get_Neighbourhood(1,b),2,0); return bad; }
'''),
]
