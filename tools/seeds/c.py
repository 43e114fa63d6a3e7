SEEDS=[
dict(id='c20-screen-write-status',p='C20',
 edits=[('src/screen.cpp','''    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dwrite(dset)"));
''','')],
 needs='the medium failing exactly when the field data of a screen are written (the cell positions were written before)',
 breaks='the failure writing the fields of a screen is not reported, the file is left without its fields',
 cpp=r'''
#include <dlfcn.h>
static int failing=-1,count=0;
extern "C" herr_t H5Dwrite(hid_t d,hid_t m,hid_t s,hid_t f,hid_t p,const void*b){ static auto real=(herr_t(*)(hid_t,hid_t,hid_t,hid_t,hid_t,const void*))dlsym(RTLD_NEXT,"H5Dwrite"); if(count++==failing)return -1; return real(d,m,s,f,p,b); }
int main(){ for(failing=-1;failing<20;failing++){ count=0; ScreenObserver<Beam> s("o.h5",V(0,0,1),V(0.1,0,0),V(0,0.1,0),2,3,0,1e-12,0,0,4); bool thrown=false; try{ s.generateOutput(); }catch(std::exception&e){ thrown=true; } bool hit=failing>=0&&count>failing; if(failing>=0&&!hit)break; if(hit!=thrown){ fprintf(stderr,"write %d failing: %s\n",failing,thrown?"reported":"not reported"); bad=1; } } return bad; }
'''),
dict(id='c20-one-output-ends-all',p='C20',
 edits=[('src/teufel_hybrid.cpp','''            catch (exception const & e) { cout << e.what() << endl;}
        }
        // if (teufel::rank == 0) delete reduceBuffer;''','''            catch (exception const & e) { cout << e.what() << endl; delete[] reduceBuffer; delete[] nodeBuffer; break; }
        }
        // if (teufel::rank == 0) delete reduceBuffer;''')],
 needs='several observers, the output of one that is not the last cannot be written',
 breaks='the outputs of all following observers are lost although they could be written',
 run='''cat > $W/d.xml <<X
<?xml version='1.0'?>
<teufel description='d' author='a'>
<lattice></lattice>
<beam><particle gamma='10' charge='-1e-12' cmr='-1'><position x='0' y='0' z='0'/><momentum x='0' y='0' z='1'/></particle></beam>
<tracking method='Vay' delta_t='1e-11' n='4'></tracking>
<observer>
<snapshot file='nodir/s1.h5'><position x='0' y='0' z='0.1'/><hpitch x='0.01' y='0' z='0' n='2'/><vpitch x='0' y='0.01' z='0' n='2'/><time t0='3e-10'/></snapshot>
<snapshot file='s2.h5'><position x='0' y='0' z='0.1'/><hpitch x='0.01' y='0' z='0' n='2'/><vpitch x='0' y='0.01' z='0' n='2'/><time t0='3e-10'/></snapshot>
</observer>
</teufel>
X
cd $W; OMP_NUM_THREADS=1 timeout 100 $R/_build/teufel d.xml >out.txt 2>&1
[ -s s2.h5 ] || { echo "s2.h5 missing"; exit 1; }
exit 0
'''),
dict(id='c21-clear-keeps-list',p='C21',
 edits=[('src/beam.cpp','''    NOB = 0;
    NOTS = 0;
    B.clear();
''','''    NOB = 0;
    NOTS = 0;
''')],
 needs='a beam that is cleared and filled again',
 breaks='the list of bunches keeps pointers to destroyed bunches, new bunches are not found, destroyed ones are used and destroyed again',
 cpp=r'''
int main(){ Beam b; b.Add(new Bunch(2,-1,1)); b.Add(new Bunch(1,-1,1)); b.clear(); Bunch*n=new Bunch(3,-1,1); b.Add(n); if(b.getBunch(0)!=n){ fprintf(stderr,"bunch 0 is not the one added\n"); _exit(1); } return bad; }
'''),
dict(id='c21-short-buffer',p='C21',
 edits=[('src/fieldtrace.cpp','''    if (Nb != N)
        throw(IOexception("FieldTrace::set - size mismatch."));''','''    if (Nb > N)
        throw(IOexception("FieldTrace::set - size mismatch."));''')],
 needs='filling a field trace from a buffer shorter than the trace',
 breaks='memory behind the end of the buffer is read',
 cpp=r'''
int main(){ FieldTrace t(0,1,4); std::vector<ElMagField> b(6); for(sz n=0;n<=6;n++){ bool thrown=false; try{ t.set_buffer(b.data(),n); }catch(std::exception&){ thrown=true; } if(thrown!=(n!=4)){ fprintf(stderr,"buffer of %d for 4 samples: %s\n",(int)n,thrown?"rejected":"accepted"); bad=1; } } return bad; }
'''),
dict(id='c21-replace-leak',p='C21',
 edits=[('src/bunch.cpp','''        delete P[i];
        P[i] = part;
''','''        if (part->getNP()>P[i]->getNP()) delete P[i];
        P[i] = part;
''')],
 needs='replacing a particle by one with no more trajectory points (as received from another process), over and over',
 breaks='the replaced particles are never released, memory accumulates',
 cpp=r'''
#include <stdlib.h>
#include <new>
static long live=0;
void* operator new(size_t n){ live++; return malloc(n); } void operator delete(void*p)noexcept{ if(p)live--; free(p); } void operator delete(void*p,size_t)noexcept{ if(p)live--; free(p); }
static ChargedParticle* part(int n){ ChargedParticle*p=new ChargedParticle(-1,1); p->initTrajectory(0,V(0,0,0),V(0,0,1),V(0,0,0)); HomogeneousField f(V(0,0,0),V(0,0,0)); p->InitVay(1e-12,&f); for(int i=0;i<n;i++)p->StepVay(&f); return p; }
int main(){ long before=0; for(int k=0;k<2;k++){ before=live; { Bunch b; b.Add(part(2)); b.replaceParticle(0,part(1)); b.replaceParticle(0,part(3)); b.replaceParticle(0,part(0)); } } if(live!=before){ fprintf(stderr,"%ld blocks left behind\n",live-before); bad=1; } return bad; }
'''),
]
