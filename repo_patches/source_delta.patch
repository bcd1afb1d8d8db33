From 78b2bf339dc665afee66930dae716d66059b12e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:29 +0000
Subject: [PATCH 01/15] fix: wrap negative indices in Filter::applyFilter for
 any grid size

int % size_t converts the negative index to a huge unsigned number, which
only gives the right remainder when the grid size is a power of two.
---
 cxx/Filter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 005b23e..7fc16a1 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -236,8 +236,9 @@ Filter::applyFilter() {
         bool insideLocalDomain = true;
         for (size_t j = 0; j < this->ndims; ++j) {
           indOffset[j] = (int) inds[j] + offset[j];
-          // periodic boundary conditions
-          indOffset[j] %= this->globalDims[j];
+          // periodic boundary conditions (the index can be negative)
+          int n = (int) this->globalDims[j];
+          indOffset[j] = (indOffset[j] % n + n) % n;
 
           // check if inside local MPI domain
           insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
-- 
2.43.0


From 7396bdf4bf41ca6327fd61264a31f0b84ebf4cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:29 +0000
Subject: [PATCH 02/15] fix: halo exchange for stencils that reach further than
 one cell

The full offset was used as the direction of the neighbor, the window only
held the ghosts of the first offset on a side, and further offsets on the
same side created windows that were never released.
---
 cxx/Filter.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 7fc16a1..fc43826 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -70,10 +70,15 @@ Filter::Filter(const std::vector<size_t>& globalDims,
       const std::vector<int> side = this->getSideFromOffset(offset);
       const size_t numGhosts = this->getNumberOfGhostsFromOffset(offset);
 
-      std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
-      this->winNumGhosts.insert(pSNG);
+      // the window must hold the ghosts of the widest offset on this side
+      size_t& maxNumGhosts = this->winNumGhosts[side];
+      maxNumGhosts = (numGhosts > maxNumGhosts? numGhosts: maxNumGhosts);
+    }
 
-      this->newWindow(side);
+    // one window per side
+    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin();
+      it != this->winNumGhosts.end(); ++it) {
+      this->newWindow(it->first);
     }
 }
 
@@ -209,8 +214,14 @@ Filter::applyFilter() {
       // the corresponding window side on the remote sub-domain
       const std::vector<int>& side = this->getSideFromOffset(offset);
 
+      // direction of the neighbor, opposite of side
+      std::vector<int> dir(this->ndims);
+      for (size_t j = 0; j < this->ndims; ++j) {
+        dir[j] = - side[j];
+      }
+
       // apply periodic BCs, sub-domains wrap around to find the neighbor rank
-      int neighborRk = this->dcmp.getNeighborRank(this->rk, offset);
+      int neighborRk = this->dcmp.getNeighborRank(this->rk, dir);
 
       MultiArrayIter wit = this->getWindowIter(neighborRk, side);
 
-- 
2.43.0


From e83e8946b087fec696c3c4c2252397b62cf4a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:29 +0000
Subject: [PATCH 03/15] fix: filter without a valid decomposition holds no
 cells

The default iterator left its number of terms uninitialised, so printing,
summing or saving such a filter read memory at random.
---
 cxx/Filter.cpp       | 5 +++++
 cxx/MultiArrayIter.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index fc43826..a9c227f 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -499,6 +499,11 @@ Filter::computeCheckSum(const std::string& inOrOut) {
 void 
 Filter::saveVTK(const std::string& filename) {
 
+    if (!this->validDecomp) {
+      // there is no data to save
+      return;
+    }
+
     size_t ntot = 1;
     for (size_t i = 0; i < this->ndims; ++i) {
       ntot *= globalDims[i];
diff --git a/cxx/MultiArrayIter.h b/cxx/MultiArrayIter.h
index 071dcac..415e2b5 100644
--- a/cxx/MultiArrayIter.h
+++ b/cxx/MultiArrayIter.h
@@ -21,7 +21,7 @@ public:
 /**
  * No argument constructor
  */
-	MultiArrayIter() {}
+	MultiArrayIter() : rowMajor(false), ntot(0), ndims(0), bigIndex(0) {}
 
 /**
  * Constructor
-- 
2.43.0


From ef8cf684e111834f935e7da3c677ad7618d0cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:29 +0000
Subject: [PATCH 04/15] fix: consider the first valid decomposition when
 looking for the best one

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 8c0f2a3..bda1f02 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -71,7 +71,7 @@ CubeDecomp::computeOptimalDecomp() {
     // find the optimal decomp
     std::vector<size_t> bestDecomp = validDecomps[0];
     double minCost = std::numeric_limits<double>::max();
-    for (size_t i = 1; i < validDecomps.size(); ++i) {
+    for (size_t i = 0; i < validDecomps.size(); ++i) {
       double cost = this->computeCost(validDecomps[i]);
       if (cost < minCost) {
         minCost = cost;
-- 
2.43.0


From 0ab6cd59134c95bab18235aafad64a08fb4782b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 05/15] fix: report errors when writing VTK files instead of
 ignoring them

---
 cxx/writeVTK.cpp     | 2 ++
 upwind/cxx/saveVTK.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cxx/writeVTK.cpp b/cxx/writeVTK.cpp
index a83d4b7..6f4ddfe 100644
--- a/cxx/writeVTK.cpp
+++ b/cxx/writeVTK.cpp
@@ -61,6 +61,8 @@ void writeVTK(const std::string& filename,
   size_t numCells = nx * ny * nz;
   
   std::ofstream file;
+  // do not go on silently if the file cannot be written
+  file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
   file.open(filename.c_str());
   file << "# vtk DataFile Version 2.0\n";
   file << "produced by laplacian\n";
diff --git a/upwind/cxx/saveVTK.h b/upwind/cxx/saveVTK.h
index b268437..e3898d4 100644
--- a/upwind/cxx/saveVTK.h
+++ b/upwind/cxx/saveVTK.h
@@ -1,5 +1,7 @@
   void saveVTK(const std::string& filename) {
     std::fstream file;
+    // do not go on silently if the file cannot be written
+    file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
     file.open(filename.c_str(), std::ios_base::out);
     file << "# vtk DataFile Version 2.0\n";
     file << "upwind.cxx\n";
-- 
2.43.0


From 1000c07c6cf70fac14a81001b0e3a136bcf996f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:30 +0000
Subject: [PATCH 06/15] fix: thread banner of the Fortran programs raced on
 shared variables

---
 upwind/fortran/upwind.F90    | 2 +-
 upwind/fortran/upwindF03.F90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 0e2d7bc..ab061cd 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -284,7 +284,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index a6ce65f..199ae20 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -291,7 +291,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
-- 
2.43.0


From be926be09efc979ed5faec871792d8b01c7ccd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:30 +0000
Subject: [PATCH 07/15] fix: Fortran programs report a VTK file that could not
 be written completely

---
 upwind/fortran/upwind.F90       | 12 +++++++++++-
 upwind/fortran/upwindF03.F90    | 12 +++++++++++-
 upwind/fortran/upwindF08.F90    | 12 +++++++++++-
 upwind/fortran/upwindF08Gpu.F90 | 12 +++++++++++-
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index ab061cd..74772f5 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -156,13 +156,15 @@ contains
         type(upwind_type) :: obj
         character(len=*), intent(in) :: filename
         
+        integer, parameter :: i8 = selected_int_kind(15)
         integer iunit, i
+        integer(i8) :: endPos, fileSize
         
         ! f2008
         !open(newunit = iunit, file = filename, status = 'unknown')
         iunit = 10
         ! f95
-        open(unit = iunit, file = filename, status = 'unknown')
+        open(unit = iunit, file = filename, status = 'unknown', access = 'stream', form = 'formatted')
         write(iunit, '(a)') '# vtk DataFile Version 2.0'
         write(iunit, '(a)') 'upwind.f90'
         write(iunit, '(a)') 'ASCII'
@@ -216,7 +218,15 @@ contains
             write(iunit, '(e20.7)') obj % f(i)
         enddo
     
+        inquire(unit = iunit, pos = endPos)
         close(iunit)
+
+        ! data lost when the last buffer is flushed are not reported by close
+        inquire(file = filename, size = fileSize)
+        if (fileSize /= endPos - 1) then
+            write(0, '(a, a)') 'ERROR: could not write all the data to ', filename
+            stop 1
+        endif
     
     end subroutine
 
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 199ae20..07b8339 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -164,13 +164,15 @@ contains
         class(upwind_type) :: this
         character(len=*), intent(in) :: filename
         
+        integer, parameter :: i8 = selected_int_kind(15)
         integer iunit, i
+        integer(i8) :: endPos, fileSize
         
         ! f2008
         !open(newunit = iunit, file = filename, status = 'unknown')
         iunit = 10
         ! f95
-        open(unit = iunit, file = filename, status = 'unknown')
+        open(unit = iunit, file = filename, status = 'unknown', access = 'stream', form = 'formatted')
         write(iunit, '(a)') '# vtk DataFile Version 2.0'
         write(iunit, '(a)') 'upwind.f90'
         write(iunit, '(a)') 'ASCII'
@@ -224,7 +226,15 @@ contains
             write(iunit, '(e20.7)') this % f(i)
         enddo
     
+        inquire(unit = iunit, pos = endPos)
         close(iunit)
+
+        ! data lost when the last buffer is flushed are not reported by close
+        inquire(file = filename, size = fileSize)
+        if (fileSize /= endPos - 1) then
+            write(0, '(a, a)') 'ERROR: could not write all the data to ', filename
+            stop 1
+        endif
     
     end subroutine
 
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index de381bc..f38fbe3 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -168,13 +168,15 @@ contains
         class(upwind_type) :: this
         character(len=*), intent(in) :: filename
         
+        integer, parameter :: i8 = selected_int_kind(15)
         integer iunit, i
+        integer(i8) :: endPos, fileSize
         
         ! f2008
         !open(newunit = iunit, file = filename, status = 'unknown')
         iunit = 10
         ! f95
-        open(unit = iunit, file = filename, status = 'unknown')
+        open(unit = iunit, file = filename, status = 'unknown', access = 'stream', form = 'formatted')
         write(iunit, '(a)') '# vtk DataFile Version 2.0'
         write(iunit, '(a)') 'upwind.f90'
         write(iunit, '(a)') 'ASCII'
@@ -228,7 +230,15 @@ contains
             write(iunit, '(e20.7)') this % f(i)
         enddo
     
+        inquire(unit = iunit, pos = endPos)
         close(iunit)
+
+        ! data lost when the last buffer is flushed are not reported by close
+        inquire(file = filename, size = fileSize)
+        if (fileSize /= endPos - 1) then
+            write(0, '(a, a)') 'ERROR: could not write all the data to ', filename
+            stop 1
+        endif
     
     end subroutine
 
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 17d9dd0..cc8d268 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -261,13 +261,15 @@ contains
         class(upwind_type) :: this
         character(len=*), intent(in) :: filename
         
+        integer, parameter :: i8 = selected_int_kind(15)
         integer iunit, i
+        integer(i8) :: endPos, fileSize
         
         ! f2008
         !open(newunit = iunit, file = filename, status = 'unknown')
         iunit = 10
         ! f95
-        open(unit = iunit, file = filename, status = 'unknown')
+        open(unit = iunit, file = filename, status = 'unknown', access = 'stream', form = 'formatted')
         write(iunit, '(a)') '# vtk DataFile Version 2.0'
         write(iunit, '(a)') 'upwind.f90'
         write(iunit, '(a)') 'ASCII'
@@ -321,7 +323,15 @@ contains
             write(iunit, '(e20.7)') this % f(i)
         enddo
     
+        inquire(unit = iunit, pos = endPos)
         close(iunit)
+
+        ! data lost when the last buffer is flushed are not reported by close
+        inquire(file = filename, size = fileSize)
+        if (fileSize /= endPos - 1) then
+            write(0, '(a, a)') 'ERROR: could not write all the data to ', filename
+            stop 1
+        endif
     
     end subroutine
 
-- 
2.43.0


From 0727972946ebdd21612e10ae68854ed2ded9af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:48 +0000
Subject: [PATCH 08/15] fix: upwindOMP5 distributed dependent time steps over
 the teams

---
 upwind/cxx/upwindOMP5.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/upwind/cxx/upwindOMP5.cxx b/upwind/cxx/upwindOMP5.cxx
index 685bc0c..399e9e3 100644
--- a/upwind/cxx/upwindOMP5.cxx
+++ b/upwind/cxx/upwindOMP5.cxx
@@ -65,15 +65,15 @@ void advect(int numTimeSteps, double deltaTime) {
             map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])
     {
 	
-       #pragma omp target teams distribute
+	   // the time steps depend on each other, only the cells are distributed
 	   for (int istep = 0; istep < numTimeSteps; ++istep) {
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
                 fOldPtr[i] = fPtr[i];
             }
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From 5c3f95c414bda78e3e0432663c2feb80b1e22d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:01 +0000
Subject: [PATCH 09/15] fix: index set was shared by all iterations of the
 OpenACC loop in upwind.F90

---
 upwind/fortran/upwind.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 74772f5..e221f23 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -120,7 +120,7 @@ contains
 
         ! iterate over the cells
         !$OMP PARALLEL DO PRIVATE(i, j, inds, oldIndex, upI)
-        !$acc parallel loop
+        !$acc parallel loop private(j, inds, oldIndex, upI)
         do i = 1, obj % ntot
 
             ! compute the index set of this cell
-- 
2.43.0


From 415e0a558830e37769e7a05fd7fa18c36cb271c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 10/15] fix: Python MPI program could not gather its field for
 the VTK file

---
 upwind/python/upwindMPI.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 8cfdce2..ddc42a2 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -115,7 +115,8 @@ class Upwind:
     if self.rk == 0:
       res = numpy.zeros(self.numCells, numpy.float64)
 
-    fRoot = MPI.COMM_WORLD.gather(self.f, root=0)
+    # a plain array: the distributed array class cannot be pickled
+    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)
 
     if self.rk == 0:
       for rk in range(self.sz):
-- 
2.43.0


From a580d73d79cb36e310a4f0bc649f9f286c23fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 11/15] fix: separate the cell values in the VTK files of the
 Python programs

---
 upwind/python/saveVTK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/saveVTK.py b/upwind/python/saveVTK.py
index 8ca5095..94cab6a 100644
--- a/upwind/python/saveVTK.py
+++ b/upwind/python/saveVTK.py
@@ -57,6 +57,6 @@ def rectilinear(fname, xAxis, yAxis, zAxis, data):
     f.write("LOOKUP_TABLE default\n")
       
     for i in range(len(flatData)):
-      f.write(f'{flatData[i]}')
+      f.write(f'{flatData[i]} ')
       if (i + 1) % 10 == 0:
           f.write('\n')
-- 
2.43.0


From 549c3f162d93e4a6a9b9cb68ad3dd4f5ad1ca3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:53 +0000
Subject: [PATCH 12/15] fix: matmult ignored the given sizes depending on the
 value of an uninitialised variable

---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index fb507ee..9794f11 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -97,7 +97,7 @@ program test
         if (len_trim(argv) == 0) exit
 
         ! covnert string to integer
-        read(argv, *) val
+        read(argv, *, iostat=ier) val
 
         if (ier == 0) then
 
-- 
2.43.0


From 02ae205bfd0fb58f463f22f239543af4235c64c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 13/15] fix: products of divisors were accumulated in an int
 when looking for a decomposition

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index bda1f02..973a690 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -55,7 +55,7 @@ CubeDecomp::computeOptimalDecomp() {
       for (size_t j = 0; j < this->ndims; ++j) {
         decomp[j] = primeNumbers[j][ decompInds[j] ];
       }
-      size_t n = std::accumulate(decomp.begin(), decomp.end(), 1, std::multiplies<size_t>());
+      size_t n = std::accumulate(decomp.begin(), decomp.end(), (size_t) 1, std::multiplies<size_t>());
       if (n == this->nprocs) {
         validDecomps.push_back(decomp);
       }
-- 
2.43.0


From 87ad8f5eee913d0c60995016e81db41e799d3d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 14/15] fix: reject grid sizes, dimensions and step counts that
 are not valid

A negative -numCells, -numDims or -numSteps was converted to a huge unsigned
number: the MPI programs ran out of memory, crashed or never ended.
---
 laplacian/cxx/laplacian.cxx     | 5 +++++
 laplacian/cxx/testStencil2d.cxx | 5 +++++
 upwind/cxx/upwindMpi.cxx        | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/laplacian/cxx/laplacian.cxx b/laplacian/cxx/laplacian.cxx
index 23de62e..480bf64 100644
--- a/laplacian/cxx/laplacian.cxx
+++ b/laplacian/cxx/laplacian.cxx
@@ -45,6 +45,11 @@ int main(int argc, char** argv) {
   bool success = args.parse(argc, argv);
   bool help = args.get<bool>("-h");
 
+  if (success && (args.get<int>("-numCells") < 1 || args.get<int>("-numDims") < 1)) {
+    // there is no grid to compute on (or no end to the computation)
+    success = false;
+  }
+
   if (success && !help) {
 
     size_t numCells = (size_t) args.get<int>("-numCells");
diff --git a/laplacian/cxx/testStencil2d.cxx b/laplacian/cxx/testStencil2d.cxx
index 3e7705a..4d7f851 100644
--- a/laplacian/cxx/testStencil2d.cxx
+++ b/laplacian/cxx/testStencil2d.cxx
@@ -54,6 +54,11 @@ int main(int argc, char** argv) {
   bool success = args.parse(argc, argv);
   bool help = args.get<bool>("-h");
 
+  if (success && args.get<int>("-numCells") < 1) {
+    // there is no grid to compute on (or no end to the computation)
+    success = false;
+  }
+
   if (success && !help) {
 
     size_t numCells = (size_t) args.get<int>("-numCells");
diff --git a/upwind/cxx/upwindMpi.cxx b/upwind/cxx/upwindMpi.cxx
index 3b5408d..82007c3 100644
--- a/upwind/cxx/upwindMpi.cxx
+++ b/upwind/cxx/upwindMpi.cxx
@@ -45,6 +45,11 @@ int main(int argc, char** argv) {
   bool success = args.parse(argc, argv);
   bool help = args.get<bool>("-h");
 
+  if (success && (args.get<int>("-numCells") < 1 || args.get<int>("-numSteps") < 0)) {
+    // there is no grid to compute on (or no end to the computation)
+    success = false;
+  }
+
   if (success && !help) {
 
     // number of space dimensions
-- 
2.43.0


From 1e98b44ded1fe4561e27e3d9c5a2997255f0b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:28 +0000
Subject: [PATCH 15/15] fix: Fortran VTK files listed the coordinates of the
 axes in the opposite order to DIMENSIONS

---
 upwind/fortran/upwind.F90       | 26 +++++++++++++-------------
 upwind/fortran/upwindF03.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08Gpu.F90 | 26 +++++++++++++-------------
 4 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index e221f23..c84524a 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -184,10 +184,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(1) + 1, ' double'
-        do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
-        enddo
+        if (obj % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
+            do i = 1, obj % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (obj % ndims > 1) then
@@ -201,15 +206,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (obj % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(3) + 1, ' double'
-            do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
+        do i = 1, obj % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 07b8339..9132add 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -192,10 +192,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -209,15 +214,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index f38fbe3..33bc255 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -196,10 +196,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -213,15 +218,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index cc8d268..ff0016c 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -289,10 +289,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -306,15 +311,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
-- 
2.43.0

