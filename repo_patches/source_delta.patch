From edd96c9f1269b20c270f389037fdacfb044e8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 01/37] fix: ChargedParticle::Shift and Mirror must move the
 last trajectory point too

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index ce0afd5..49f4b97 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -343,7 +343,7 @@ void ChargedParticle::initTrajectory(double t, Vector x, Vector p, Vector a)
 void ChargedParticle::Shift(Vector delta, double f_charge)
 {
     X_current += delta;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         Vector position = X[i];
         X[i] = position + delta;
@@ -366,7 +366,7 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
         Vector position = X[i];
-- 
2.43.0


From 6acf21885c691953dc55f36d312b53b4614b2c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 02/37] fix: copying a ChargedParticle must keep the recorded
 fields

---
 src/particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index 49f4b97..480426f 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -90,6 +90,8 @@ ChargedParticle::ChargedParticle(const ChargedParticle *origin)
     X_current = origin->X_current;
     P_current = origin->P_current;
     A_current = origin->A_current;
+    E_current = origin->E_current;
+    B_current = origin->B_current;
     if (NP > 0)
     {
         Time = origin->Time;
-- 
2.43.0


From 8af2cc754508aca001017f28e57af737bf8451dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 03/37] fix: restoring a ChargedParticle without trajectory
 points reads from empty vectors

---
 src/particle.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 480426f..042d7bc 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -143,6 +143,8 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
     VY_gamma_i1 = *b++;
     // now restore the trajectory data
     clearTrajectory();
+    Npre = 0;
+    t_current = 0.0;
     if (nPre > 0) preAllocate(nPre);
     for (int n=0; n<nTraj; n++)
     {
@@ -162,10 +164,13 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
         double az = *b++;
         A.push_back(Vector(ax,ay,az));
     }
-    t_current = Time.back();
-    X_current = X.back();
-    P_current = P.back();
-    A_current = A.back();
+    if (NP > 0)
+    {
+        t_current = Time.back();
+        X_current = X.back();
+        P_current = P.back();
+        A_current = A.back();
+    }
 }
 
 ChargedParticle::~ChargedParticle()
-- 
2.43.0


From eea9ddef137a2d00a438c81d05d6fff722bad516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 04/37] fix: back-extrapolated retarded fields must refer to
 the start time of the trajectory

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 042d7bc..16c40e7 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -655,8 +655,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             // compute the time t at emission of the signal (field)
-            // t is always negative
-            double t0 = obs_time;
+            // relative to the first trajectory point - t is always negative
+            double t0 = obs_time - Time[0];
             double bR = dot(SourceBeta,Rc);
             double bb = dot(SourceBeta,SourceBeta);
             double RR = dot(Rc,Rc);
-- 
2.43.0


From 7db8e8aa8f6d77ed9b4434bd4155cffed35ffa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 05/37] fix: field trace bucket indices must stay within the
 trace at its edges

---
 src/particle.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 16c40e7..75232c9 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -809,8 +809,8 @@ void ChargedParticle::integrateFieldTrace(
 		    // both cases are handled with the same code
 	        {
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
-		        if (idx2>nots) idx2=nots;
+		        // limited to the trace range (also protects against rounding at the edges)
+		        int idx2 = (int)fmin(fmax(round((ts2-t0)/dt),0.0),(double)nots);
 		        // handle all fully covered buckets
 		        for (int idx=0; idx<idx2; idx++)
 		        {
@@ -835,10 +835,11 @@ void ChargedParticle::integrateFieldTrace(
 		    // both cases are handled with the same code
 	        {
 		        // observation bucket in which the step start falls
-		        int idx1 = round((ts1-t0)/dt);
+		        // limited to the trace range (also protects against rounding at the edges)
+		        int idx1 = (int)fmin(fmax(round((ts1-t0)/dt),0.0),(double)(nots-1));
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
-		        if (idx2>nots) idx2=nots;
+		        // limited to the trace range (also protects against rounding at the edges)
+		        int idx2 = (int)fmin(fmax(round((ts2-t0)/dt),0.0),(double)nots);
 		        if (idx1==idx2)
 		        // time step if fully within one bucket
 		        {
-- 
2.43.0


From 4c58aba4585e1b2091e11652f95291b9d822104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 06/37] fix: derivative of a field trace with less than 2
 samples accesses invalid memory

---
 src/fieldtrace.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index 9f8b816..7fb4481 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -202,6 +202,12 @@ FieldTrace* FieldTrace::derivative()
     // create a new field trace as a copy
     FieldTrace* temp = new FieldTrace(*this);
     if (temp==0) throw(IOexception("FieldTrace::derivative() - error allocating memory."));
+    // with less than 2 samples there is no change over time
+    if (N<2)
+    {
+        temp->zero();
+        return(temp);
+    }
     // compute the new data
     temp->set_field(0, (trace[1]-trace[0])/dt );
     for (std::size_t i=1; i<N-1; i++)
-- 
2.43.0


From 8aa81fa5146efa6601ad139e34feba029d02c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 07/37] fix: arrays allocated with new[] must be released with
 delete[]

---
 src/mesh.cpp          | 20 ++++++++++----------
 src/screen.cpp        |  4 ++--
 src/snapshot.cpp      |  2 +-
 src/source_screen.cpp |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 9a696a6..36ec8e5 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -61,7 +61,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     triangle_points = std::vector<Vector>(Ncp);
     for (int icp=0; icp<Ncp; icp++)
         triangle_points[icp] = pos[icp];
-    delete pos;
+    delete[] pos;
     
     // read the position dataset
     dataset = H5Dopen2(file, "ObservationPosition", H5P_DEFAULT);
@@ -87,7 +87,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     field_points = std::vector<Vector>(Np);
     for (int ip=0; ip<Np; ip++)
         field_points[ip] = pos[ip];
-    delete pos;
+    delete[] pos;
 
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
@@ -113,7 +113,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p3 = *bt++;
         triangles[ip] = tri;
     }
-    delete buf;
+    delete[] buf;
     
     // read the trace timing dataset
     // it is not an error if there are no data available
@@ -173,7 +173,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             if (tr==0) throw(IOexception("MeshedScreen - error allocating memory."));
             A[ip] = tr;
         }
-        delete t0_buf;
+        delete[] t0_buf;
     }
 
     // read the field dataset
@@ -206,7 +206,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             trace->set_buffer(buf,Nt);
             buf += Nt;
         }
-        delete field;
+        delete[] field;
     }
         
     status = H5Fclose (file);
@@ -494,7 +494,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshCornerPoints"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshCornerPoints"));
-    delete cbuffer;
+    delete[] cbuffer;
 
     // write the position dataset
     if (DEBUGLEVEL>=2) cout << "writing mesh center points" << endl;
@@ -552,7 +552,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationPosition"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationPosition"));
-    delete pbuffer;
+    delete[] pbuffer;
 
     // write the mesh triangles
     if (DEBUGLEVEL>=2) cout << "writing mesh triangles" << endl;
@@ -610,7 +610,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshTriangles"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshTriangles"));
-    delete tribuffer;
+    delete[] tribuffer;
 
     // write the timing dataset
     if (DEBUGLEVEL>=2) cout << "writing timing" << endl;
@@ -669,7 +669,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationTime"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationTime"));
-    delete t0buffer;
+    delete[] t0buffer;
 
     // write the fields dataset
     if (DEBUGLEVEL>=2) cout << "writing fields" << endl;
@@ -724,7 +724,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ElMagField"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ElMagField"));
-    delete fbuffer;
+    delete[] fbuffer;
 
     // we are done with the file
     status = H5Fclose (file);
diff --git a/src/screen.cpp b/src/screen.cpp
index 7d00ab7..609bb5b 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -483,7 +483,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
 // end NEW
 
@@ -548,7 +548,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Fclose()"));
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index be9ec7e..df11b9e 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -65,7 +65,7 @@ SnapshotObserver<SourceT>::SnapshotObserver(
 template <typename SourceT>
 SnapshotObserver<SourceT>::~SnapshotObserver()
 {
-    if (particlesStored>0) delete particleBuffer;
+    if (particlesStored>0) delete[] particleBuffer;
 }
 
 template <>
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 77e6c53..2cabeeb 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -192,7 +192,7 @@ SourceScreen::SourceScreen(
     }
     
     // done with the field data
-    delete field_buf;
+    delete[] field_buf;
         
     // done with the file
     status = H5Fclose (file);
@@ -410,7 +410,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
     // Create dataspace for the field data.
     // Setting maximum size to NULL sets the maximum size to be the current size.
@@ -473,7 +473,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Fclose()"));
-- 
2.43.0


From 785a07a34b876a71e2a35a1b78f5e2e1387dedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 08/37] fix: close all HDF5 attribute and dataspace handles

Unclosed attributes keep the file open until the program ends. Writing the same
file once more (e.g. the debug output when creating a second SourceScreen) fails.
---
 src/fel1d.cpp         |  4 ++++
 src/logger.cpp        | 10 ++++++++++
 src/screen.cpp        | 24 ++++++++++++++++++++++++
 src/snapshot.cpp      |  8 ++++++++
 src/source_screen.cpp | 22 ++++++++++++++++++++++
 5 files changed, 68 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ce405a3..ca733a4 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -413,6 +413,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_INT, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
@@ -424,6 +426,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_DOUBLE, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
diff --git a/src/logger.cpp b/src/logger.cpp
index fd43482..71e6e89 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -299,6 +299,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -308,6 +310,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -419,6 +423,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -428,6 +434,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -437,6 +445,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOD)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOD);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOD)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOD)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOD)"));
     
diff --git a/src/screen.cpp b/src/screen.cpp
index 609bb5b..6db9f3f 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -350,6 +350,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx) - old"));
     // attach scalar attribute Nx
@@ -359,6 +361,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny) - old"));
     // Close and release resources.
@@ -420,6 +424,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -429,6 +435,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -438,6 +446,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -447,6 +457,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -456,6 +468,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -465,6 +479,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -474,6 +490,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -523,6 +541,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -531,6 +551,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -539,6 +561,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // Close and release resources.
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index df11b9e..7be63e2 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -275,6 +275,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr1<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr1)"));
     status = H5Awrite(attr1, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr1)"));
+    status = H5Aclose (attr1);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr1)"));
     status = H5Sclose (atts1);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts1)"));
     hid_t atts2  = H5Screate(H5S_SCALAR);
@@ -283,6 +285,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr2<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr2)"));
     status = H5Awrite(attr2, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr2)"));
+    status = H5Aclose (attr2);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr2)"));
     status = H5Sclose (atts2);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts2)"));
     // Close and release resources.
@@ -329,6 +333,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t_obs);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(t0)"));
     // Close and release resources.
@@ -376,6 +382,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
         if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(N_particles)"));
         status = H5Awrite(attr, H5T_NATIVE_INT, &particlesStored);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(N_particles)"));
+        status = H5Aclose (attr);
+        if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(N_particles)"));
         status = H5Sclose (atts);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(N_particles)"));
         // Close and release resources.
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 2cabeeb..0966093 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -156,6 +156,8 @@ SourceScreen::SourceScreen(
     if (dims[1] != Ny) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[1] != Ny"));
     if (dims[2] != NOTS) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[2] != NOTS"));
     if (dims[3] != 6) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[3] != 6"));
+    status = H5Sclose(dspace);
+    if (status<0) throw(IOexception("SourceScreen - error closing dataspace of dataset ElMagField"));
     
     // buffer the data
     if (dataset<0) throw(IOexception("SourceScreen - error opening dataset ElMagField"));
@@ -346,6 +348,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -355,6 +359,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -364,6 +370,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -374,6 +382,8 @@ void SourceScreen::WriteField(
     double t0_src = 0.0;
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -383,6 +393,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -392,6 +404,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -401,6 +415,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -448,6 +464,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -456,6 +474,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -464,6 +484,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // Close and release resources.
-- 
2.43.0


From 79610914376cceab0540569addd9eb006277be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 09/37] fix: cells with more than 24 neighbours overran the
 buffers of propagate and reflection

---
 src/propagate.cpp  | 7 ++++---
 src/reflection.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index ab8b79d..f8866cf 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -152,8 +152,9 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            // (a mesh point may be shared by any number of cells)
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -187,7 +188,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
diff --git a/src/reflection.cpp b/src/reflection.cpp
index 18fa839..8366949 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -234,8 +234,9 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            // (a mesh point may be shared by any number of cells)
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -269,7 +270,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
-- 
2.43.0


From d534dc0a443d766b52bfb76adaea972a07124ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 10/37] fix: propagate requires 3 arguments, with 2 it used
 argv[3]=NULL

---
 src/propagate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index f8866cf..eee0729 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -62,7 +62,7 @@ int main(int argc, char* argv[])
     std::cout << std::endl;
     std::cout << "Propagate Radiation from Screen to Screen" << std::endl << std::endl;
     
-    if (argc<3)
+    if (argc<4)
     {
         std::cout << "Usage: propagate sourcefile targetfile outfile" << std::endl;
         return 1;
-- 
2.43.0


From 40a35c07048e5da311e09189153e8f36f5583892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 11/37] fix: retarded field traces without net energy flow are
 not zero fields

Contributions for which the time integral of E x B vanishes (e.g. only E different from zero)
were dropped from the diffraction integrals of propagate and reflection.
---
 src/fieldtrace.cpp | 5 ++++-
 src/fieldtrace.h   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index 7fb4481..6e5f25d 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -231,12 +231,15 @@ void FieldTrace::cancel_long_fields(Vector normal)
 
 void FieldTrace::retard(double delta_t, FieldTrace *target)
 {
+    bool is_zero = true;
     for (std::size_t i=0; i<target->get_N(); i++)
     {
         double t = target->get_time(i) - delta_t;
         target->trace[i] = get_field(t);
+        if (not target->trace[i].isNull()) is_zero = false;
     };
-    if (target->Poynting().norm()==0.0)
+    // fields with no net energy flow (e.g. E only) are valid fields
+    if (is_zero)
     {
         if (DEBUGLEVEL>=2)
         { 
diff --git a/src/fieldtrace.h b/src/fieldtrace.h
index 198d49a..c7aff4b 100644
--- a/src/fieldtrace.h
+++ b/src/fieldtrace.h
@@ -152,7 +152,7 @@ public:
      *  @param delta_t - the amount of retardation in seconds
      *  @param target - the new trace (fields will be overwritten)
      *  The target trace timing will be retained.
-     *  This method throws an exception if the returned field trace has zero radiation intensity.
+     *  This method throws an exception if the returned field trace is zero throughout.
      *  This is usually an indication for the time frame of the retarded trace
      *  not overlaping with the retarded source fields.
      */
-- 
2.43.0


From a8e1f5f3d5aa6708f210660cea07d94c557a4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 12/37] fix: Bunch from SDDS file: long file names, release of
 resources, inconsistent particle number

---
 src/bunch.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 55444f2..9071819 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -27,6 +27,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cstring>
+#include <cstdlib>
 #include "SDDS.h"
 #include "hdf5.h"
 
@@ -192,17 +193,23 @@ Bunch::Bunch(const char *filename, Vector dir)
     NOP = 0;
     std::cout << "reading particles from SDDS file " << filename << std::endl;
     // make a copy of the filename to make it changable
-    char fn[100];
-    strncpy (fn, filename, sizeof(fn)-1);
+    std::vector<char> fn(filename, filename+strlen(filename)+1);
     SDDS_DATASET SDDS_dataset;
     // SDDS_InitializeInput - returns 1 on success, 0 on failure 
-    if (SDDS_InitializeInput(&SDDS_dataset, fn ) != 1)
+    if (SDDS_InitializeInput(&SDDS_dataset, fn.data() ) != 1)
     {
         std::cout << "cannot read SDDS file " << filename;
         std::cout << " : creating empty bunch." << std::endl;
         return;
     };
     
+    // all resources are released whenever we return from here
+    struct SDDS_closer {
+        SDDS_DATASET *data;
+        std::vector<void*> mem;
+        ~SDDS_closer() { for (void *m : mem) free(m); SDDS_Terminate(data); }
+    } closer { &SDDS_dataset, {} };
+
     /*! @todo: unclear what this example is doing
      *  something like this may be needed for multi-page files
      *
@@ -217,9 +224,11 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "SDDS ReadPage(1) returns " << page << std::endl;
         SDDS_PrintErrors(stderr, SDDS_VERBOSE_PrintErrors);
+        return;
     }
     char parName[] = "Particles";
     int32_t *nopData = SDDS_GetParameterAsLong(&SDDS_dataset, parName, NULL);
+    closer.mem.push_back(nopData);
     if (nopData==NULL)
     {
         std::cout << "cannot read number of particles" << std::endl;
@@ -233,6 +242,7 @@ Bunch::Bunch(const char *filename, Vector dir)
     // the file value is the total charge [C] unsigned value
     char chName[] = "Charge";
     double *chData = SDDS_GetParameterAsDouble(&SDDS_dataset, chName, NULL);
+    closer.mem.push_back(chData);
     if (chData==NULL)
     {
         std::cout << "cannot read charge" << std::endl;
@@ -246,6 +256,7 @@ Bunch::Bunch(const char *filename, Vector dir)
 
     char xName[] = "x";
     double *xData = SDDS_GetColumnInDoubles(&SDDS_dataset, xName);
+    closer.mem.push_back(xData);
     if (xData==NULL)
     {
         std::cout << "cannot read x column" << std::endl;
@@ -255,6 +266,7 @@ Bunch::Bunch(const char *filename, Vector dir)
 
     char xpName[] = "xp";
     double *xpData = SDDS_GetColumnInDoubles(&SDDS_dataset, xpName);
+    closer.mem.push_back(xpData);
     if (xpData==NULL)
     {
         std::cout << "cannot read xp column" << std::endl;
@@ -264,6 +276,7 @@ Bunch::Bunch(const char *filename, Vector dir)
 
     char yName[] = "y";
     double *yData = SDDS_GetColumnInDoubles(&SDDS_dataset, yName);
+    closer.mem.push_back(yData);
     if (yData==NULL)
     {
         std::cout << "cannot read y column" << std::endl;
@@ -273,6 +286,7 @@ Bunch::Bunch(const char *filename, Vector dir)
 
     char ypName[] = "yp";
     double *ypData = SDDS_GetColumnInDoubles(&SDDS_dataset, ypName);
+    closer.mem.push_back(ypData);
     if (ypData==NULL)
     {
         std::cout << "cannot read yp column" << std::endl;
@@ -282,6 +296,7 @@ Bunch::Bunch(const char *filename, Vector dir)
 
     char pName[] = "p";
     double *pData = SDDS_GetColumnInDoubles(&SDDS_dataset, pName);
+    closer.mem.push_back(pData);
     if (pData==NULL)
     {
         std::cout << "cannot read p column" << std::endl;
@@ -291,6 +306,7 @@ Bunch::Bunch(const char *filename, Vector dir)
 
     char tName[] = "t";
     double *tData = SDDS_GetColumnInDoubles(&SDDS_dataset, tName);
+    closer.mem.push_back(tData);
     if (tData==NULL)
     {
         std::cout << "cannot read t column" << std::endl;
@@ -298,6 +314,13 @@ Bunch::Bunch(const char *filename, Vector dir)
         return;
     };
 
+    // the header must not announce more particles than there are data rows
+    if (file_NOP<0 || file_NOP>SDDS_RowCount(&SDDS_dataset))
+    {
+        std::cout << "number of particles does not match the data : creating empty bunch." << std::endl;
+        return;
+    };
+
     NOP = file_NOP;
     // t is the arrival time at a given z-plane
     // compute the mean arrival time of the bunch
-- 
2.43.0


From 50d0fcb0cff8b83af3bef2c92b0bac3648162422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:06 +0000
Subject: [PATCH 13/37] fix: SDDS watch point: number of particles as
 documented, charge in Coulomb (unsigned as expected by the reader)

---
 src/beam.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index c673b6e..d4cacf9 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -326,6 +326,7 @@ int Beam::WriteWatchPointSDDS(std::string filename)
     }
     if  (
         SDDS_DefineSimpleParameter(&data,"NumberOfParticles","", SDDS_LONG)!=1 ||
+        SDDS_DefineSimpleParameter(&data,"Particles","", SDDS_LONG)!=1 ||
         SDDS_DefineSimpleParameter(&data,"Charge","C", SDDS_DOUBLE)!=1
         )
     {
@@ -365,14 +366,14 @@ int Beam::WriteWatchPointSDDS(std::string filename)
     // write the single valued variables
     // cout << "SDDS write parameters" << endl;
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "NumberOfParticles", NOP, NULL ) !=1
+        "NumberOfParticles", NOP, "Particles", NOP, NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
         return 6;
     }
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "Charge", ElementaryCharge*getTotalCharge(), NULL ) !=1
+        "Charge", fabs(getTotalCharge()), NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
-- 
2.43.0


From a6abeb03cc26bdf8218240c3117babe52a9ff025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 14/37] fix: MeshedScreen::get_dt() truncated the time step to
 an integer

---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 9d5673c..4c50044 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -124,7 +124,7 @@ public:
     int get_Nt() { return Nt; }
 
     /* Get the length of the time steps */
-    int get_dt() { return dt; }
+    double get_dt() { return dt; }
 
     //! @todo all index operations should be range-checked
     /*! Get the position of one grid cell */
-- 
2.43.0


From 4e3d31e5c1ab9bd9df7cbbb69f4bf0d28b8e4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 15/37] fix: MeshedScreen::init() local coordinate system
 degenerated for surfaces facing -y

---
 src/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 36ec8e5..815533d 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -253,7 +253,7 @@ void MeshedScreen<SourceT>::init()
             if (DEBUGLEVEL>=1) cout << "WARNING: MeshedScreen normals are not aligned well enough" << std::endl;
     };
     // setup the cell-local coordinate systems
-    if (avg_normal.y < 0.7)
+    if (fabs(avg_normal.y) < 0.7)
     {
         // if the average normal vector is sufficiently far off the y direction
         // xi is confined to lay in the x-z-plane
-- 
2.43.0


From 08a7e8017b10a7f1015b3b88644bac2bcb85dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 16/37] fix: observer buffers with more than 2^31 values:
 integer overflow of the buffer size

---
 src/mesh.cpp          |  6 +++---
 src/mesh.h            |  2 +-
 src/screen.cpp        |  4 ++--
 src/screen.h          |  2 +-
 src/snapshot.cpp      |  2 +-
 src/snapshot.h        |  2 +-
 src/teufel_hybrid.cpp | 29 +++++++++++++++++++----------
 7 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 815533d..1d2e03e 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -163,7 +163,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         // now we have all information to create the field traces
         if (teufel::rank==0)
         {
-            std::cout << "allocating " << (double)(6*Np*Nt) * sizeof(double) / 1e6 << " MB of memory per node";
+            std::cout << "allocating " << 6.0*Np*Nt * sizeof(double) / 1e6 << " MB of memory per node";
             std::cout << std::endl << std::endl;
         }    
         A.resize(Np);
@@ -187,7 +187,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     {
         dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
         if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ElMagField"));
-        ElMagField* field = new ElMagField[Np*Nt];
+        ElMagField* field = new ElMagField[(std::size_t)Np*Nt];
         if (field==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
             H5T_NATIVE_DOUBLE, 		// mem type id
@@ -682,7 +682,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     dataspace = H5Screate_simple (3, fdims, NULL);
     if (dataspace<0) throw(IOexception("MeshedScreen - error creating dataspace for ElMagField"));
     // buffer the data
-    double *fbuffer = new double[Np*Nt*6];
+    double *fbuffer = new double[getBufferSize()];
     if (fbuffer==0) throw(IOexception("MeshedScreen - error allocating memory."));
     double *fbp = fbuffer;
     for (int ip=0; ip<Np; ip++)
diff --git a/src/mesh.h b/src/mesh.h
index 4c50044..e5bc978 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -162,7 +162,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Np*Nt*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Np*Nt*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freed
diff --git a/src/screen.cpp b/src/screen.cpp
index 6db9f3f..8bae06b 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -67,7 +67,7 @@ ScreenObserver<SourceT>::ScreenObserver(
         std::cout << "dX = (" << dX.x << ", " << dX.y << ", " << dX.z << ") m" << std::endl;
         std::cout << "dY = (" << dY.x << ", " << dY.y << ", " << dY.z << ") m" << std::endl;
         std::cout << "t0=" << t0_obs << "  dt=" << dt_obs << "  dtx=" << dtx_obs << "  dty=" << dty_obs << std::endl;
-        std::cout << "allocating " << (double)(6*Nx*Ny*NOTS) * sizeof(double) / 1e6 << " MB of memory per node";
+        std::cout << "allocating " << 6.0*Nx*Ny*NOTS * sizeof(double) / 1e6 << " MB of memory per node";
         std::cout << std::endl << std::endl;
     }    
 
@@ -273,7 +273,7 @@ double* ScreenObserver<SourceT>::getBuffer()
 template <typename SourceT>
 void ScreenObserver<SourceT>::fromBuffer(double *buffer, std::size_t size)
 {
-    if (size==Nx*Ny*NOTS*6)
+    if (size==getBufferSize())
     {
         double *bp = buffer;
         for (unsigned int ix = 0; ix < Nx; ix++)
diff --git a/src/screen.h b/src/screen.h
index 1345af6..9ce62b0 100644
--- a/src/screen.h
+++ b/src/screen.h
@@ -150,7 +150,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Nx*Ny*NOTS*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Nx*Ny*NOTS*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freeed
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index 7be63e2..e8c84c5 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -201,7 +201,7 @@ double* SnapshotObserver<SourceT>::getBuffer()
 template <typename SourceT>
 void SnapshotObserver<SourceT>::fromBuffer(double *buffer, std::size_t size)
 {
-    if (size==Nx*Ny*6)
+    if (size==getBufferSize())
     {
         ElMagField field;
         double *bp = buffer;
diff --git a/src/snapshot.h b/src/snapshot.h
index b5181fb..e8d847d 100644
--- a/src/snapshot.h
+++ b/src/snapshot.h
@@ -131,7 +131,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Nx*Ny*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Nx*Ny*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freed
diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index db0ee40..38817d8 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -723,7 +723,7 @@ int main(int argc, char *argv[])
         // collect all the field computed on the individual nodes into the master node
         //! @todo this should be done in chunks, otherwise we temporarily need
         // 3 times the observer memory (original and 2 buffers).
-        unsigned int count = observer->getBufferSize();
+        std::size_t count = observer->getBufferSize();
         std::cout << "Node " << teufel::rank << " allocating buffers for "<< count << " doubles" << std::endl;
         // fill the buffer and get its address
         double* nodeBuffer = observer->getBuffer();
@@ -743,15 +743,24 @@ int main(int argc, char *argv[])
         usleep(100000);
         if (teufel::rank == 0)
             std::cout << std::endl << "All buffers allocated." << std::endl << std::flush;
-        MPI_Reduce(
-            nodeBuffer,                 // send buffer
-            reduceBuffer,               // receive buffer
-            count,                      // number of values
-            MPI_DOUBLE,                 // data type
-            MPI_SUM,                    // operation
-            0,                          // rank of the root process
-            MPI_COMM_WORLD              // communicator
-        );
+        // MPI counts are of type int, larger buffers are transferred in pieces
+        const std::size_t max_count = 1<<30;
+        std::size_t transferred = 0;
+        do
+        {
+            std::size_t piece = count-transferred;
+            if (piece>max_count) piece = max_count;
+            MPI_Reduce(
+                nodeBuffer+transferred,     // send buffer
+                reduceBuffer+transferred,   // receive buffer
+                piece,                      // number of values
+                MPI_DOUBLE,                 // data type
+                MPI_SUM,                    // operation
+                0,                          // rank of the root process
+                MPI_COMM_WORLD              // communicator
+            );
+            transferred += piece;
+        } while (transferred<count);
         MPI_Barrier(MPI_COMM_WORLD);
         usleep(100000);
         if (teufel::rank == 0)
-- 
2.43.0


From 69e483ea13e1db07b07bdcf55a15d49735dda8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 17/37] fix: program terminated when a memory size exceeded
 2^31 kB (2 TB of virtual memory)

---
 src/teufel_hybrid.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index 38817d8..ecfc97f 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -102,7 +102,7 @@ int main(int argc, char *argv[])
 
     char processor_name[MPI_MAX_PROCESSOR_NAME];
     int namelen;
-    int mem_size = -1;
+    long mem_size = -1;
     int PID = getpid();
     MPI_Get_processor_name(processor_name, &namelen);
     std::string line;
@@ -119,7 +119,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="MemTotal") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         myfile.close();
@@ -143,7 +143,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -285,7 +285,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -357,7 +357,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -447,7 +447,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -601,7 +601,7 @@ int main(int argc, char *argv[])
                     std::string name = line.substr(0, pos);
                     std::string rest = line.erase(0,pos+1);
                     if (name=="VmSize") {
-                        mem_size = std::stoi(rest);
+                        mem_size = std::stol(rest);
                     }
                 }
                 cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -631,7 +631,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
-- 
2.43.0


From d880d57d3968386cd8142847cc9c6736d99f9a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 18/37] fix: fields of lattice observers were multiplied by the
 number of MPI nodes

---
 src/teufel_hybrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index ecfc97f..4a9e2a5 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -710,7 +710,8 @@ int main(int argc, char *argv[])
         if (auto obs = dynamic_cast<Observer<Lattice>*>(observer))
         {
             obs->setSource(lattice);
-            obs->integrate();
+            // the lattice is identical on all nodes, its field must not be summed over the nodes
+            if (teufel::rank == 0) obs->integrate();
         }
         double stop_time = MPI_Wtime();
         MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From e374662ed670fb0fb9b5c4b188c74d19f29d9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 19/37] fix: debug files of a SourceScreen were written by all
 MPI nodes at the same time

---
 src/source_screen.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 0966093..9b7c24a 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -222,8 +222,11 @@ SourceScreen::SourceScreen(
     // when we are done we write the field to files
     // for debugging purpose only
     //! @todo remove this
-    WriteField("SourceScreenTraces_DEBUG.h5", Traces);
-    WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    if (teufel::rank==0)
+    {
+        WriteField("SourceScreenTraces_DEBUG.h5", Traces);
+        WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    }
   
 }
 
-- 
2.43.0


From 1bf32da73107fbd99f064c3644052c1f84207d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 20/37] fix: calculator statements of undulators and dipoles
 were evaluated twice

The parser already evaluates the <calc> children of an element before it
constructs the object (waves do not repeat it either). Statements like
eq="a+1" for variable a were applied twice.
---
 src/dipole.cpp    | 2 --
 src/undulator.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/dipole.cpp b/src/dipole.cpp
index cda844e..9e27f41 100644
--- a/src/dipole.cpp
+++ b/src/dipole.cpp
@@ -47,7 +47,6 @@ HardEdgeDipole::HardEdgeDipole(Vector B, Vector p1, Vector n1, Vector p2, Vector
 HardEdgeDipole::HardEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::HardEdgeDipole - <B> not found."));
@@ -147,7 +146,6 @@ SoftEdgeDipole::SoftEdgeDipole(Vector B, Vector p1, Vector n1, double t1, Vector
 SoftEdgeDipole::SoftEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::SoftEdgeDipole - <B> not found."));
diff --git a/src/undulator.cpp b/src/undulator.cpp
index 88851c8..8322b5b 100644
--- a/src/undulator.cpp
+++ b/src/undulator.cpp
@@ -39,7 +39,6 @@ PlanarUndulator::PlanarUndulator(Vector pos) :
 PlanarUndulator::PlanarUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::PlanarUndulator - undulator <position> not found."));
@@ -140,7 +139,6 @@ TransverseGradientUndulator::TransverseGradientUndulator(Vector pos) :
 TransverseGradientUndulator::TransverseGradientUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::TransverseGradientUndulator - undulator <position> not found."));
-- 
2.43.0


From f34318082bedf356d3e107812bfeb443ace5acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 21/37] fix: calculator statements inside <correlations> were
 rejected as unknown correlation

---
 src/parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index 5b87dfd..d01a23c 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -448,6 +448,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     {
                         pugi::xml_node cn = *cit;
                         std::string ctype = cn.name();
+                        // calculator statements have been evaluated already
+                        if (ctype == "calc") continue;
                         if (ctype == "linear")
                         {
                             int ind = 0;
@@ -545,6 +547,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     {
                         pugi::xml_node cn = *cit;
                         std::string ctype = cn.name();
+                        // calculator statements have been evaluated already
+                        if (ctype == "calc") continue;
                         if (ctype == "linear")
                         {
                             int ind = 0;
-- 
2.43.0


From bd13674b70f4d811b7cbd9c13a488bf260495df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 22/37] fix: the documented calculator constant _mu0 was not
 defined

---
 src/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index d01a23c..9a0e511 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -48,6 +48,7 @@ InputParser::InputParser(const pugi::xml_node node)
     calc->DefineConst("_h", (double)PlanckH);
     calc->DefineConst("_mec2", (double)mecsquared);
     calc->DefineConst("_eps0", (double)EpsNull);
+    calc->DefineConst("_mu0", (double)MuNull);
     calc->DefineConst("_pi", (double)Pi);
     // evaluate all <calc> nodes present as children of root
     parseCalcChildren(root);
-- 
2.43.0


From c7fa197ef9ef98b4788cc4dbc523a834f1d9d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 23/37] fix: attributes of particles and bunches did not see
 the variables defined inside the entry

The <calc> children were evaluated after gamma, charge and cmr had been
read (silently using 0 or an outdated value); those of <SDDS> were ignored.
---
 src/parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 9a0e511..5234ff4 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -313,11 +313,11 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 parseCalc(entry);
             else if (type == "particle")
             {
+                parseCalcChildren(entry);
                 double gamma = parseDouble(entry.attribute("gamma"));
                 double betagamma = sqrt(gamma * gamma - 1.0);
                 double charge = parseDouble(entry.attribute("charge"))/ElementaryCharge;
                 double cmr = parseDouble(entry.attribute("cmr"));
-                parseCalcChildren(entry);
                 double t0;
                 pugi::xml_node timenode = entry.child("time");
                 if (!timenode)
@@ -366,12 +366,12 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
             }
             else if (type == "bunch")
             {
+                parseCalcChildren(entry);
                 double gamma = parseDouble(entry.attribute("gamma"));
                 double betagamma = sqrt(gamma * gamma - 1.0);
                 double charge = parseDouble(entry.attribute("charge"))/ElementaryCharge;
                 double cmr = parseDouble(entry.attribute("cmr"));
                 int NoP = entry.attribute("n").as_int(1);
-                parseCalcChildren(entry);
                 double t0 = 0.0;
                 double x, y, z;
                 double xrms = 0.0;
@@ -524,6 +524,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 pugi::xml_attribute sddsname = entry.attribute("file");
                 if (!sddsname)
                     throw(IOexception("InputParser::parseBeam - <SDDS> attribute file not found."));   
+                parseCalcChildren(entry);
                 // parse propagation  direction of the input beam
                 Vector dir = Vector(0.0, 0.0, 1.0);
                 pugi::xml_node dirnode = entry.child("dir");
-- 
2.43.0


From 8d432844987c9f9a166999a81aaa701671c2626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 24/37] fix: the FEL interaction evaluated the time step
 expression again

Variables redefined between the start of the tracking section and the
interaction gave it another time step than the beam.
---
 src/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 5234ff4..7aeaf37 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -661,7 +661,7 @@ void InputParser::parseTracking(
                 parseCalcChildren(child);
                 // the interaction object parses its own input, we provide a reference to the parser
                 // the timestep attribute has already been evaluated - thats necessary
-                FEL_1D* fel_interaction = new FEL_1D(parseDouble(timestep), child, this);
+                FEL_1D* fel_interaction = new FEL_1D(beam->getTimeStep(), child, this);
                 interactions->push_back(fel_interaction);
             }
             else if (type == "watch")
-- 
2.43.0


From 3cd92b285ef51f2710892919d823a61bb8d723b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 25/37] fix: integer attributes ignored the calculator

Expressions were silently cut at the first character which is not a digit
(n="2*50" gave 2 particles, n="nx" none) while all numerical input values
can be calculated.
---
 src/fel1d.cpp     |  2 +-
 src/parser.cpp    | 54 ++++++++++++++++++++++++-----------------------
 src/undulator.cpp |  4 ++--
 3 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ca733a4..e0e619d 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -106,7 +106,7 @@ FEL_1D::FEL_1D(
         FileName = fn.as_string();
         step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
-        if (st) step_Output = st.as_int();
+        if (st) step_Output = parser->parseInt(st);
         createOutput = true;
     } else {
         createOutput = false;
diff --git a/src/parser.cpp b/src/parser.cpp
index 7aeaf37..7574833 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -356,7 +356,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <particle> filename for log not found."));
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(single, fn.as_string(), step);
                     logs->push_back(logger);
                 }
@@ -371,7 +371,9 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 double betagamma = sqrt(gamma * gamma - 1.0);
                 double charge = parseDouble(entry.attribute("charge"))/ElementaryCharge;
                 double cmr = parseDouble(entry.attribute("cmr"));
-                int NoP = entry.attribute("n").as_int(1);
+                int NoP = 1;
+                pugi::xml_attribute nop = entry.attribute("n");
+                if (nop) NoP = parseInt(nop);
                 double t0 = 0.0;
                 double x, y, z;
                 double xrms = 0.0;
@@ -489,7 +491,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     //! @todo if step is not given it becomes 0 and leads to divide-by-zero errors
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -507,10 +509,10 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for trajectories not found."));
                     int step = 1;
                     pugi::xml_attribute st = trajnode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     int particles = 1000000;
                     pugi::xml_attribute np = trajnode.attribute("particles");
-                    if (np) particles = np.as_int();
+                    if (np) particles = parseInt(np);
                     TrajectoryLogger<Bunch>* traj_logger = new TrajectoryLogger<Bunch>(bunch, fn.as_string(), step, particles);
                     logs->push_back(traj_logger);
                 };
@@ -586,7 +588,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for log not found."));
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -609,10 +611,10 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 probe->filename = filename.as_string();
                 probe->step = 1;
                 pugi::xml_attribute st = entry.attribute("step");
-                if (st) probe->step = st.as_int();
+                if (st) probe->step = parseInt(st);
                 probe->number = 1;
                 pugi::xml_attribute nm = entry.attribute("number");
-                if (nm) probe->number = nm.as_int();
+                if (nm) probe->number = parseInt(nm);
             }
             else
                 throw(IOexception("InputParser::parseBeam - unknown type of beam entry."));
@@ -756,8 +758,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         snapObs = new SnapshotObserver<Beam>(
                             fn.as_string(),
                             pos, h, v,
-                            nh.as_int(),
-                            nv.as_int(),
+                            parseInt(nh),
+                            parseInt(nv),
                             t0 );
                         snapObs->setSourceType(BeamObservation);
                     }
@@ -766,8 +768,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         snapObs = new SnapshotObserver<Lattice>(
                             fn.as_string(),
                             pos, h, v,
-                            nh.as_int(),
-                            nv.as_int(),
+                            parseInt(nh),
+                            parseInt(nv),
                             t0 );
                         snapObs->setSourceType(LatticeObservation);
                     }
@@ -778,8 +780,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     snapObs = new SnapshotObserver<Beam>(
                         fn.as_string(),
                         pos, h, v,
-                        nh.as_int(),
-                        nv.as_int(),
+                        parseInt(nh),
+                        parseInt(nv),
                         t0 );
                     snapObs->setSourceType(BeamObservation);
                 }
@@ -847,9 +849,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         screenObs = new ScreenObserver<Beam>(
                             fn.as_string(),
                             pos, dx, dy,
-                            nh.as_int(),
-                            nv.as_int(),
-                            t0, dt, dtx, dty, nt.as_int() );
+                            parseInt(nh),
+                            parseInt(nv),
+                            t0, dt, dtx, dty, parseInt(nt) );
                         screenObs->setSourceType(BeamObservation);
                     }
                     else if (std::string(src.value()) == "lattice")
@@ -857,9 +859,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         screenObs = new ScreenObserver<Lattice>(
                             fn.as_string(),
                             pos, dx, dy,
-                            nh.as_int(),
-                            nv.as_int(),
-                            t0, dt, dtx, dty, nt.as_int() );
+                            parseInt(nh),
+                            parseInt(nv),
+                            t0, dt, dtx, dty, parseInt(nt) );
                         screenObs->setSourceType(LatticeObservation);
                     }
                     else throw(IOexception("InputParser::parseObservers - <screen> illegal source attribute."));
@@ -869,9 +871,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     screenObs = new ScreenObserver<Beam>(
                         fn.as_string(),
                         pos, dx, dy,
-                        nh.as_int(),
-                        nv.as_int(),
-                        t0, dt, dtx, dty, nt.as_int() );
+                        parseInt(nh),
+                        parseInt(nv),
+                        t0, dt, dtx, dty, parseInt(nt) );
                     screenObs->setSourceType(BeamObservation);
                 }
                 listObservers->push_back(screenObs);
@@ -946,7 +948,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         PointObserver<Beam> *pointObs = new PointObserver<Beam>(
                             fn.as_string(),
                             pos,
-                            t0, dt, nt.as_int() );
+                            t0, dt, parseInt(nt) );
                         pointObs->setSourceType(BeamObservation);
                         listObservers->push_back(pointObs);
                     }
@@ -955,7 +957,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         PointObserver<Lattice> *pointObs = new PointObserver<Lattice>(
                             fn.as_string(),
                             pos,
-                            t0, dt, nt.as_int() );
+                            t0, dt, parseInt(nt) );
                         pointObs->setSourceType(LatticeObservation);
                         listObservers->push_back(pointObs);
                     }
@@ -966,7 +968,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     PointObserver<Beam> *pointObs = new PointObserver<Beam>(
                         fn.as_string(),
                         pos,
-                        t0, dt, nt.as_int() );
+                        t0, dt, parseInt(nt) );
                     pointObs->setSourceType(BeamObservation);
                     listObservers->push_back(pointObs);
                 }
diff --git a/src/undulator.cpp b/src/undulator.cpp
index 8322b5b..37773a5 100644
--- a/src/undulator.cpp
+++ b/src/undulator.cpp
@@ -57,7 +57,7 @@ PlanarUndulator::PlanarUndulator(const pugi::xml_node node, InputParser *parser)
     {
         double B = parser->parseDouble(field.attribute("B"));
         double period = parser->parseDouble(field.attribute("period"));
-        int N = field.attribute("N").as_int(0);
+        int N = parser->parseInt(field.attribute("N"));
         Setup(B, period, N);
     }
 }
@@ -161,7 +161,7 @@ TransverseGradientUndulator::TransverseGradientUndulator(const pugi::xml_node no
         pugi::xml_attribute modatt = field.attribute("modulation");
         if (modatt) mod=parser->parseDouble(modatt);
         double period = parser->parseDouble(field.attribute("period"));
-        int N = field.attribute("N").as_int(0);
+        int N = parser->parseInt(field.attribute("N"));
         Setup(B, kx, mod, period, N);
     }
 }
-- 
2.43.0


From 6bed83f13c05462f3e3268bad94e4aef7efc345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 26/37] fix: a log step of zero ended the program with a
 division by zero

---
 src/fel1d.cpp  |  1 +
 src/parser.cpp | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index e0e619d..ccf27c1 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -107,6 +107,7 @@ FEL_1D::FEL_1D(
         step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
         if (st) step_Output = parser->parseInt(st);
+        if (step_Output<1) throw(IOexception("InputParser::FEL1D - step of the log must be at least 1."));
         createOutput = true;
     } else {
         createOutput = false;
diff --git a/src/parser.cpp b/src/parser.cpp
index 7574833..468e7b4 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -357,6 +357,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = parseInt(st);
+                    if (step<1) throw(IOexception("InputParser::parseBeam - step of a log must be at least 1."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(single, fn.as_string(), step);
                     logs->push_back(logger);
                 }
@@ -489,9 +490,9 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     pugi::xml_attribute fn = lognode.attribute("file");
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for log not found."));
                     int step = 1;
-                    //! @todo if step is not given it becomes 0 and leads to divide-by-zero errors
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = parseInt(st);
+                    if (step<1) throw(IOexception("InputParser::parseBeam - step of a log must be at least 1."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -510,6 +511,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = trajnode.attribute("step");
                     if (st) step = parseInt(st);
+                    if (step<1) throw(IOexception("InputParser::parseBeam - step of a log must be at least 1."));
                     int particles = 1000000;
                     pugi::xml_attribute np = trajnode.attribute("particles");
                     if (np) particles = parseInt(np);
@@ -589,6 +591,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = parseInt(st);
+                    if (step<1) throw(IOexception("InputParser::parseBeam - step of a log must be at least 1."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -609,9 +612,11 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 if (!filename)
                     throw(IOexception("InputParser::parseBeam - <probe> attribute file not found."));
                 probe->filename = filename.as_string();
-                probe->step = 1;
+                int step = 1;
                 pugi::xml_attribute st = entry.attribute("step");
-                if (st) probe->step = parseInt(st);
+                if (st) step = parseInt(st);
+                if (step<1) throw(IOexception("InputParser::parseBeam - step of a log must be at least 1."));
+                probe->step = step;
                 probe->number = 1;
                 pugi::xml_attribute nm = entry.attribute("number");
                 if (nm) probe->number = parseInt(nm);
-- 
2.43.0


From bdbf209aaa9b4602266081093e8ccbaa57623086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 27/37] fix: the default FEL_1D interaction had its magnetic
 direction unset

e_x was assigned twice, leaving the electric field along y and no magnetic field.
---
 src/fel1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ccf27c1..9432607 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -38,7 +38,7 @@ FEL_1D::FEL_1D(
     step_Output = 1;
     prop = Vector(0.0, 0.0, 1.0);
     e_x = Vector(1.0, 0.0, 0.0);
-    e_x = Vector(0.0, 1.0, 0.0);
+    e_y = Vector(0.0, 1.0, 0.0);
     head = Vector(0.0, 0.0, 0.0);
     origin = head;
     createOutput = false;
-- 
2.43.0


From dafe235e17e30e0c5fbc4780a037b9c939acb27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 28/37] fix: the recording interval of an FEL_1D interaction
 without log was uninitialized

step() computes the step number modulo this value.
---
 src/fel1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 9432607..7969190 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -98,13 +98,13 @@ FEL_1D::FEL_1D(
     e_x.normalize();
     e_y = cross(prop, e_x);
     // define file output if requested
+    step_Output = 1;
     pugi::xml_node lognode = node.child("log");
     if (lognode)
     {
         pugi::xml_attribute fn = lognode.attribute("file");
         if (!fn) throw(IOexception("InputParser::FEL1D - <log> filename for log not found."));
         FileName = fn.as_string();
-        step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
         if (st) step_Output = parser->parseInt(st);
         if (step_Output<1) throw(IOexception("InputParser::FEL1D - step of the log must be at least 1."));
-- 
2.43.0


From 1593c5f0e372f240688dffd29dbd5a8999a34825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 29/37] fix: FEL_1D interactions with less than 2 grid cells
 wrote outside their field arrays

---
 src/fel1d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 7969190..9054cdb 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -138,6 +138,8 @@ FEL_1D::FEL_1D(
 
 void FEL_1D::setup(double ZR, double w0, double z_w)
 {
+    if (N_field < 2)
+        throw(IOexception("FEL1D::setup() - the grid must have at least 2 cells"));
     // proper orthonormalization of (e_x, e_y, prop) is assumed
     dz = prop * (-dt*SpeedOfLight);
     field_E = std::vector<double>(N_field, 0.0);
-- 
2.43.0


From 57074ccd391d7c24a16545efc2e65117d3ffaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 30/37] fix: SourceScreen keeps the fields in the coordinate
 system of the file

The recorded fields were projected onto the screen axes but never transformed
back, so the emitted field of any screen not aligned with x, y had wrong
directions.
---
 src/source_screen.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 9b7c24a..928eb6e 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -183,11 +183,9 @@ SourceScreen::SourceScreen(
     	    FieldTrace* tr = new FieldTrace(CellTimeZero(ix,iy),dt_src,NOTS);
     	    if (tr==0) throw(IOexception("SourceScreen - error allocating memory."));
     	    tr -> set_buffer(b, NOTS);
-    	    // the field data are expressed in screen-local coordinates
-    	    tr -> transform(ex,ey,normal);
     	    // coax the fields to be purely transversal
-    	    // (cancel the z component in the screen-local frame)
-    	    tr -> cancel_long_fields(Vector(0.0,0.0,1.0));
+    	    // (cancel the component along the screen normal)
+    	    tr -> cancel_long_fields(normal);
     	    Traces[ix][iy] = tr;
     	    b+=NOTS;
     	};
-- 
2.43.0


From def0c4b055d8cd592db096d3f4248d196ebe0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 31/37] fix: report failures writing logs and interaction
 fields without losing the other outputs

---
 src/teufel_hybrid.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index 4a9e2a5..c4cf777 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -653,11 +653,26 @@ int main(int argc, char *argv[])
     // write the logged data
     if (teufel::rank == 0)
     {
+        // a failure to write one file must not prevent the other outputs from being produced
         for (int i=0; i<(int)listLoggers.size(); i++)
-            listLoggers.at(i)->WriteData();
+        {
+            try {
+                listLoggers.at(i)->WriteData();
+            }
+            catch (std::exception &exc) {
+                std::cout << "error writing logged data - " << exc.what() << std::endl;
+            }
+        }
 
         for (InteractionField* f : interactions)
-            f->write_output();
+        {
+            try {
+                f->write_output();
+            }
+            catch (std::exception &exc) {
+                std::cout << "error writing interaction data - " << exc.what() << std::endl;
+            }
+        }
     }
 
     // ===============================================================
-- 
2.43.0


From 286974553426fa76ac671d3df6cff2df81d428c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 32/37] fix: exceptions keep a copy of their message (it may be
 composed at run time)

---
 src/global.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/global.h b/src/global.h
index a3f5956..8680fb0 100644
--- a/src/global.h
+++ b/src/global.h
@@ -33,6 +33,7 @@
 #include <stdlib.h>
 #include <iostream>
 #include <exception>
+#include <string>
 
 #define ElementaryCharge 1.6021766208e-19       // [As]
 #define mecsquared 0.5109989461e6               // electron mass [eV]
@@ -78,9 +79,10 @@ double current_time();
 class IOexception: public std::exception
 {
 public:
-    IOexception(const char* message) {m=message;}
-    virtual const char* what() const throw() {return m;};
-    const char* m;
+    IOexception(const std::string &message) : m(message) {}
+    virtual ~IOexception() throw() {}
+    virtual const char* what() const throw() {return m.c_str();};
+    std::string m;
 };
 
 /*! 
@@ -90,9 +92,10 @@ public:
 class RANGEexception: public std::exception
 {
 public:
-    RANGEexception(const char* message) {m=message;}
-    virtual const char* what() const throw() {return m;};
-    const char* m;
+    RANGEexception(const std::string &message) : m(message) {}
+    virtual ~RANGEexception() throw() {}
+    virtual const char* what() const throw() {return m.c_str();};
+    std::string m;
 };
 
 /*! a data struct to hold the definition of a watch point
-- 
2.43.0


From 9608a4d1360269668a2870c391b4ed4e7db4d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 33/37] fix: SourceScreen reports failing reads and
 inconsistent files

---
 src/source_screen.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 928eb6e..95e0e96 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -37,6 +37,7 @@ SourceScreen::SourceScreen(
     if (teufel::rank==0) std::cout << "screen field source : " << filename << std::endl;
     herr_t status;
     hid_t dataset, attr;
+    htri_t exists;
     if (teufel::rank==0) std::cout << "reading HDF5 file " << filename << std::endl;
     hid_t file = H5Fopen (filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
     if (file<0) throw(IOexception("SourceScreen - error opening the file."));
@@ -70,25 +71,31 @@ SourceScreen::SourceScreen(
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dt"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dt"));
-    attr = H5Aopen_name(dataset, "dtx");
-    if (attr<0)
+    exists = H5Aexists(dataset, "dtx");
+    if (exists<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
+    if (exists==0)
         {
             dtx_src = 0.0;
         }
     else
         {
+            attr = H5Aopen_name(dataset, "dtx");
+            if (attr<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
             status =  H5Aread(attr, H5T_NATIVE_DOUBLE, &dtx_src);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
             status = H5Aclose(attr);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
         }
-    attr = H5Aopen_name(dataset, "dty");
-    if (attr<0)
+    exists = H5Aexists(dataset, "dty");
+    if (exists<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dty"));
+    if (exists==0)
         {
             dty_src = 0.0;
         }
     else
         {
+            attr = H5Aopen_name(dataset, "dty");
+            if (attr<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dty"));
             status =  H5Aread(attr, H5T_NATIVE_DOUBLE, &dty_src);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dty"));
             status = H5Aclose(attr);
@@ -96,6 +103,12 @@ SourceScreen::SourceScreen(
         }
         
     // read the vectors
+    hid_t vspace = H5Dget_space(dataset);
+    if (vspace<0) throw(IOexception("SourceScreen - error reading dataset Screen"));
+    hssize_t vsize = H5Sget_simple_extent_npoints(vspace);
+    status = H5Sclose(vspace);
+    if (status<0) throw(IOexception("SourceScreen - error closing dataspace of dataset Screen"));
+    if (vsize != 4*3) throw(IOexception("SourceScreen - error reading dataset Screen - wrong size"));
     double* buf = new double[4*3];
     if (buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -142,16 +155,16 @@ SourceScreen::SourceScreen(
     }    
 
     // read the field dataset
-    ElMagField* field_buf = new ElMagField[getBufferSize()];
-    if (field_buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
+    if (dataset<0) throw(IOexception("SourceScreen - error opening dataset ElMagField"));
     
     // sanity check the field sizes
     hid_t dspace = H5Dget_space(dataset);
+    if (dspace<0) throw(IOexception("SourceScreen - error reading dataset ElMagField - dataspace"));
     int ndims = H5Sget_simple_extent_ndims(dspace);
     if (ndims != 4) throw(IOexception("SourceScreen - error reading dataset ElMagField - dimension != 4"));
     hsize_t dims[4];
-    H5Sget_simple_extent_dims(dspace, dims, NULL);
+    if (H5Sget_simple_extent_dims(dspace, dims, NULL) != 4) throw(IOexception("SourceScreen - error reading dataset ElMagField - size"));
     if (dims[0] != Nx) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[0] != Nx"));
     if (dims[1] != Ny) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[1] != Ny"));
     if (dims[2] != NOTS) throw(IOexception("SourceScreen - error reading dataset ElMagField - size[2] != NOTS"));
@@ -160,7 +173,8 @@ SourceScreen::SourceScreen(
     if (status<0) throw(IOexception("SourceScreen - error closing dataspace of dataset ElMagField"));
     
     // buffer the data
-    if (dataset<0) throw(IOexception("SourceScreen - error opening dataset ElMagField"));
+    ElMagField* field_buf = new ElMagField[getBufferSize()];
+    if (field_buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     status = H5Dread (dataset,
         H5T_NATIVE_DOUBLE, 		// mem type id
         H5S_ALL, 			    // mem space id
-- 
2.43.0


From 9e96a3b5e2a2eb0cafe40314e2257a6ffe976e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 34/37] fix: MeshedScreen checks dataset sizes and triangle
 corners before reading, reports failing lookups

---
 src/mesh.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 1d2e03e..4fcd054 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -27,6 +27,16 @@
 #include <omp.h>
 #include "hdf5.h"
 
+// check that a dataset holds the expected number of values before it is read into a buffer of that size
+static void check_size(hid_t dataset, hssize_t expected, const char* message)
+{
+    hid_t space = H5Dget_space(dataset);
+    if (space<0) throw(IOexception(message));
+    hssize_t size = H5Sget_simple_extent_npoints(space);
+    herr_t status = H5Sclose(space);
+    if (status<0 || size!=expected) throw(IOexception(message));
+}
+
 template <typename SourceT>
 MeshedScreen<SourceT>::MeshedScreen(std::string filename)
 {
@@ -47,6 +57,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
+    check_size(dataset, 3*(hssize_t)Ncp, "MeshedScreen - wrong size of dataset MeshCornerPoints");
     Vector *pos = new Vector[Ncp];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -72,6 +83,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
+    check_size(dataset, 3*(hssize_t)Np, "MeshedScreen - wrong size of dataset ObservationPosition");
     // create and fill a buffer
     pos = new Vector[Np];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
@@ -92,6 +104,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
     if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset MeshTriangles"));
+    check_size(dataset, 3*(hssize_t)Np, "MeshedScreen - wrong size of dataset MeshTriangles");
     int* buf = new int[3*Np];
     if (buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -111,13 +124,17 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p1 = *bt++;
         tri.p2 = *bt++;
         tri.p3 = *bt++;
+        if (tri.p1<0 || tri.p1>=Ncp || tri.p2<0 || tri.p2>=Ncp || tri.p3<0 || tri.p3>=Ncp)
+            throw(IOexception("MeshedScreen - dataset MeshTriangles refers to non-existing corner points"));
         triangles[ip] = tri;
     }
     delete[] buf;
     
     // read the trace timing dataset
     // it is not an error if there are no data available
-    if (H5Lexists(file, "ObservationTime", H5P_DEFAULT)<=0)
+    htri_t exists = H5Lexists(file, "ObservationTime", H5P_DEFAULT);
+    if (exists<0) throw(IOexception("MeshedScreen - error looking for dataset ObservationTime"));
+    if (exists==0)
     {
         // no data available
         if (DEBUGLEVEL>=1) cout << "dataset ObservationTime not existing" << std::endl;
@@ -149,6 +166,8 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
         status = H5Aclose(attr);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
+        if (Nt<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute Nt"));
+        check_size(dataset, Np, "MeshedScreen - wrong size of dataset ObservationTime");
         double* t0_buf = new double[Np];
         if (t0_buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
@@ -178,7 +197,9 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
 
     // read the field dataset
     // it is not an error if there are no data available
-    if (H5Lexists(file, "ElMagField", H5P_DEFAULT)<=0)
+    exists = H5Lexists(file, "ElMagField", H5P_DEFAULT);
+    if (exists<0) throw(IOexception("MeshedScreen - error looking for dataset ElMagField"));
+    if (exists==0)
     {
         // no data available
         if (DEBUGLEVEL>=1) cout << "dataset ElMagField not existing" << std::endl;
@@ -187,6 +208,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     {
         dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
         if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ElMagField"));
+        check_size(dataset, 6*(hssize_t)Np*Nt, "MeshedScreen - wrong size of dataset ElMagField");
         ElMagField* field = new ElMagField[(std::size_t)Np*Nt];
         if (field==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
-- 
2.43.0


From d9ce1f1e47794f7a1ad5b6d6ce92a7e0e515cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 35/37] fix: SnapshotObserver lost the particle buffer when
 stored again or empty

---
 src/snapshot.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index e8c84c5..02352be 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -65,7 +65,7 @@ SnapshotObserver<SourceT>::SnapshotObserver(
 template <typename SourceT>
 SnapshotObserver<SourceT>::~SnapshotObserver()
 {
-    if (particlesStored>0) delete[] particleBuffer;
+    delete[] particleBuffer;
 }
 
 template <>
@@ -115,6 +115,10 @@ int SnapshotObserver<Beam>::storeParticlePositions()
 {
     Vector X, BG;
     int NOP = getNumParticles();
+    // release the buffer of a former call
+    delete[] particleBuffer;
+    particleBuffer = 0;
+    particlesStored = 0;
     particleBuffer = new double[6*NOP];
     if (particleBuffer==0)
     {
-- 
2.43.0


From 4bb47e343f2465928c197aef9f4e834c1ba757c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 36/37] fix: loggers keep a copy of their file name

---
 src/logger.cpp | 6 +++---
 src/logger.h   | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 71e6e89..708a8f2 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -81,7 +81,7 @@ int ParameterLogger<objectT>::WriteData()
 {
     cout << "writing SDDS file " << fn << endl;
     SDDS_DATASET data;
-    if (1 != SDDS_InitializeOutput(&data,SDDS_ASCII,1,NULL,NULL,fn))
+    if (1 != SDDS_InitializeOutput(&data,SDDS_ASCII,1,NULL,NULL,fn.c_str()))
     {
 	    cout << "WriteSDDS - error initializing output\n";
 	    return 1;
@@ -252,7 +252,7 @@ int TrajectoryLogger<objectT>::WriteData()
 
     herr_t status;
     // Create a new file using the default properties.
-    hid_t file = H5Fcreate (FileName, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t file = H5Fcreate (FileName.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (file<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Fcreate()"));
     
     // Create dataspace for the observation positions.
@@ -376,7 +376,7 @@ int ProbeLogger<objectT>::WriteData()
 
     herr_t status;
     // Create a new file using the default properties.
-    hid_t file = H5Fcreate (FileName, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    hid_t file = H5Fcreate (FileName.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (file<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Fcreate()"));
     
     // Create dataspace for the observation positions.
diff --git a/src/logger.h b/src/logger.h
index 3520fc3..aacb71a 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -21,6 +21,7 @@
 
 #pragma once
 
+#include <string>
 #include <vector>
 #include "vector.h"
 #include "beam.h"
@@ -136,7 +137,7 @@ private:
     objectT *Beam;
     
     //! the file name
-    const char* fn;
+    std::string fn;
 
     //! the number of stored datasets
     unsigned int NOTS;
@@ -230,7 +231,7 @@ private:
     objectT *Beam;
     
     //! the file name
-    const char* FileName;
+    std::string FileName;
 
     //! the number of stored datasets
     unsigned int NOTS;
@@ -315,7 +316,7 @@ private:
     objectT *Beam;
     
     //! the file name
-    const char* FileName;
+    std::string FileName;
 
     //! the number of stored datasets
     unsigned int NOTS;
-- 
2.43.0


From b422138d1023cd8e0db5255e418cadf7ae2ecab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 37/37] fix: FEL_1D reporting a time mismatch accessed the
 first bunch of an empty beam

---
 src/fel1d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 9054cdb..2574c14 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -232,7 +232,8 @@ void FEL_1D::step(Beam *beam)
         std::cout << "FEL1D::step() - time mismatch" << std::endl;
         std::cout << "  step=" << N_steps << "   time=" << 1e9*time << " ns" << std::endl;
         std::cout << "  beam is at step=" << step_beam << "  t=" << 1e9*step_beam*dt << " ns" << std::endl;
-        std::cout << "  first bunch particles average time t=" << 1e9*beam->getBunch(0)->avgTime() << " ns" << std::endl;
+        if (beam->getNOB()>0)
+            std::cout << "  first bunch particles average time t=" << 1e9*beam->getBunch(0)->avgTime() << " ns" << std::endl;
         throw(IOexception("FEL1D::step() - beam is at different time"));
     }
 
-- 
2.43.0

