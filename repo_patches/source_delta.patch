From c2a7c9ca6464ae45f1a953f27d73b9d280496541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 01/57] fix: exit with a failure status after reporting a fatal
 error

---
 include/gravity/potentialClass.h |  8 ++---
 include/utils/simpleops.h        |  2 +-
 lib/fft/fftCode.cpp              | 30 ++++++++---------
 lib/gadget/gadget_output.cpp     | 12 +++----
 lib/io/readWrite.pHdf5.cpp       | 56 ++++++++++++++++----------------
 lib/propagator/laplacian.cpp     |  2 +-
 lib/scalar/scalarField.cpp       |  4 +--
 lib/utils/parse.cpp              |  2 +-
 8 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index d3b09e4..11cd963 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -112,7 +112,7 @@
 
 					if (afield->LowMem()) {
 						LogError ("Error: potential not supported in lowmem runs");
-						exit(0);
+						exit(1);
 					}
 
 					/* better use the tuned one */
@@ -560,7 +560,7 @@ LogMsg(VERB_PARANOID,"[GV] end GraHybridCpu()");
 		size_t rLz    = Lz/ref;
 		if ((ref*rLx != Lx) || (ref*rLz != Lz)) {
 			LogError("Non integer reduction factor!");
-			exit(0);
+			exit(1);
 		}
 		// LogOut(VERB_PARANOID,"")
 		/* fidx = iZ*n2 + iiy*shift*Lx +ix*shift +sy
@@ -622,7 +622,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 
 		if ((ref*rLx != Lx) || (ref*rLz != Lz)) {
 			LogError("Non integer reduction factor!");
-			exit(0);
+			exit(1);
 		}
 		size_t hrLx      = (rLx >> 1)+1;
 		size_t hrLy      = (rLx >> 1);
@@ -712,7 +712,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 		size_t rLz    = Lz/ref;
 		if ((ref*rLx != Lx) || (ref*rLz != Lz)) {
 			LogError("Non integer reduction factor!");
-			exit(0);
+			exit(1);
 		}
 		// Float norm = (Float) ref*ref;
 
diff --git a/include/utils/simpleops.h b/include/utils/simpleops.h
index b5f4507..40693ed 100644
--- a/include/utils/simpleops.h
+++ b/include/utils/simpleops.h
@@ -156,7 +156,7 @@
 
 		LogMsg(VERB_NORMAL,"[ex] Expanding field (padtype %d) Nx %d Nz %d nx %d nz %d\n", ftipo1, Nx, Nz, nx, nz);
 		if (!axion->Reduced()){
-			LogError("Error: Scalar not reduced!"); exit(0);}
+			LogError("Error: Scalar not reduced!"); exit(1);}
 
 		// Float *m = static_cast<Float>(axion->mStart());
 		// Float *v = static_cast<Float>(axion->vStart());
diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 0869994..7f7e308 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -105,7 +105,7 @@ namespace AxionFFT {
 		Lz = axion->TotalDepth()/red;
 		if ( (Lx*red != axion->Length()) || (Lz*red != axion->TotalDepth()) ){
 			LogError("Non-integer reduction factor for FFT, exit!");
-			exit(0);
+			exit(1);
 		}
 
 
@@ -155,7 +155,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -169,7 +169,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -183,7 +183,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -198,7 +198,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -212,7 +212,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -238,7 +238,7 @@ namespace AxionFFT {
 
 						if (axion->LowMem()) {
 							LogError ("[fftC] Plans FFT_SPSX FFT_RDSX_M don't work with lowmem");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -251,7 +251,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create R->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -356,7 +356,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -370,7 +370,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -384,7 +384,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -399,7 +399,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -413,7 +413,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create C->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -438,7 +438,7 @@ namespace AxionFFT {
 
 						if (axion->LowMem()) {
 							LogError ("[fftC] Plans FFT_SPSX FFT_RDSX_M don't work with lowmem");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
@@ -452,7 +452,7 @@ namespace AxionFFT {
 
 						if (axion->m2Cpu() == nullptr) {
 							LogError ("Can't create R->C plan with m2 in lowmem runs");
-							exit(0);
+							exit(1);
 						}
 
 						if (dFft & FFT_FWD)
diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index b543b7e..66d3209 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -750,15 +750,15 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	/*  Write the slab data  */
 	H5Sselect_hyperslab(vSpc1, H5S_SELECT_SET, vOffset, stride, vSlab, nullptr);
 	auto rErr = H5Dwrite (vSt1_id, dataType, memSpace, vSpc1, plist_id, static_cast<char *> (axion->m2Cpu())+(slab*(Lz*2 + 1)*dataSize));
-	if ((rErr < 0)) { LogError ("Error writing position dataset"); prof.stop(); exit(0); }
+	if ((rErr < 0)) { LogError ("Error writing position dataset"); prof.stop(); exit(1); }
 	
 	H5Sselect_hyperslab(vSpc2, H5S_SELECT_SET, vOffset, stride, vSlab, nullptr);
 	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, static_cast<char *> (axion->vBackGhost())+(slab*(Lz*2+1)*dataSize));
-	if ((vErr < 0)) { LogError ("Error writing velocity dataset"); prof.stop(); exit(0); }
+	if ((vErr < 0)) { LogError ("Error writing velocity dataset"); prof.stop(); exit(1); }
 	
         H5Sselect_hyperslab(mSpce, H5S_SELECT_SET, &offset, NULL, &slab, NULL);
 	auto mErr = H5Dwrite (mSts_id, dataType, semSpace, mSpce, plist_id, (static_cast<char *> (axion->m2Cpu())+(slab*(Lz+1))*dataSize));
-	if ((mErr < 0)) { LogError ("Error writing mass dataset"); prof.stop(); exit(0); }
+	if ((mErr < 0)) { LogError ("Error writing mass dataset"); prof.stop(); exit(1); }
         
         commSync();
     
@@ -778,7 +778,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
             iArray[idx] = offset + idx;
                 
         auto rErr = H5Dwrite (sSts_id, H5T_NATIVE_HSIZE, semSpace, sSpce, plist_id, (static_cast<char *> (vArray)));
-        if (rErr < 0) { LogError ("Error writing particle tag"); prof.stop(); exit(0); }
+        if (rErr < 0) { LogError ("Error writing particle tag"); prof.stop(); exit(1); }
         commSync();
     }
     LogOut("\n[gadgetme] Filled particle IDs!");
@@ -1642,7 +1642,7 @@ LogOut("Excess broadcasted\n");
 		{
 			LogError ("Error writing position/velocity dataset");
 			prof.stop();
-			exit(0);
+			exit(1);
 		}
 
 		commSync();
@@ -1669,7 +1669,7 @@ LogOut("Excess broadcasted\n");
 		{
 			LogError ("Error writing particle tag");
 			prof.stop();
-			exit(0);
+			exit(1);
 		}
 
 		commSync();
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 779a710..21ef8c2 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -672,7 +672,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	if ((mset_id < 0) || (vset_id < 0))
 	{
 		LogError ("Error creating datasets");
-		exit (0);
+		exit (1);
 	}
 
 	/*	We read 2D slabs as a workaround for the 2Gb data transaction limitation of MPIO	*/
@@ -703,11 +703,11 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		if (mErr < 0)
 		{
 			LogError ("Error writing dataset");
-			exit(0);
+			exit(1);
 		}
 		if (axion->Field() != FIELD_NAXION)
 			if (vErr < 0){
-				LogError ("Error writing dataset"); exit(0);}
+				LogError ("Error writing dataset"); exit(1);}
 
 		//commSync();
 	}
@@ -2102,7 +2102,7 @@ void	writeDensity	(Scalar *axion, MapType fMap, double eMax, double eMin)
 		{
 			LogError ("Error writing dataset");
 			prof.stop();
-			exit(0);
+			exit(1);
 		}
 	}
 
@@ -2261,7 +2261,7 @@ void	writeString	(Scalar *axion, StringData strDat, const bool rData)
 			{
 				LogError ("Error writing dataset");
 				prof.stop();
-				exit(0);
+				exit(1);
 			}
 		}
 
@@ -3199,7 +3199,7 @@ void	writeEDens (Scalar *axion, MapType fMap)
 		{
 			LogError("Error creating rho dataset");
 			prof.stop();
-			exit (0);
+			exit (1);
 		}
 
 		rSpace = H5Dget_space (rset_id);
@@ -3212,7 +3212,7 @@ void	writeEDens (Scalar *axion, MapType fMap)
 		{
 			LogError("Error creating theta dataset");
 			prof.stop();
-			exit (0);
+			exit (1);
 		}
 
 		tSpace = H5Dget_space (tset_id);
@@ -3225,7 +3225,7 @@ void	writeEDens (Scalar *axion, MapType fMap)
 		{
 			LogError("Error creating aux dataset");
 			prof.stop();
-			exit (0);
+			exit (1);
 		}
 
 		aSpace = H5Dget_space (aset_id);
@@ -3254,7 +3254,7 @@ void	writeEDens (Scalar *axion, MapType fMap)
 			{
 				LogError ("Error writing rho dataset");
 				prof.stop();
-				exit(0);
+				exit(1);
 			}
 		}
 
@@ -3275,7 +3275,7 @@ void	writeEDens (Scalar *axion, MapType fMap)
 			{
 				LogError ("Error writing theta dataset");
 				prof.stop();
-				exit(0);
+				exit(1);
 			}
 		}
 
@@ -3296,7 +3296,7 @@ void	writeEDens (Scalar *axion, MapType fMap)
 			{
 				LogError ("Error writing theta dataset");
 				prof.stop();
-				exit(0);
+				exit(1);
 			}
 		}
 
@@ -3480,7 +3480,7 @@ void	writeEDensReduced (Scalar *axion, int index, int newNx, int newNz)
 	{
 		LogError("Error creating dataset");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	/*	We read 2D slabs as a workaround for the 2Gb data transaction limitation of MPIO	*/
@@ -3506,7 +3506,7 @@ void	writeEDensReduced (Scalar *axion, int index, int newNx, int newNz)
 		{
 			LogError ("Error writing dataset");
 			prof.stop();
-			exit(0);
+			exit(1);
 		}
 
 		//commSync();
@@ -3776,7 +3776,7 @@ void	writeMapHdf5s	(Scalar *axion, int slicenumbertoprint)
 	{
 		LogError ("Fatal error creating datasets");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	/*	We read 2D slabs as a workaround for the 2Gb data transaction limitation of MPIO	*/
@@ -3788,7 +3788,7 @@ void	writeMapHdf5s	(Scalar *axion, int slicenumbertoprint)
 	{
 		LogError ("Fatal error");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	hsize_t offset = 0;
@@ -3805,7 +3805,7 @@ void	writeMapHdf5s	(Scalar *axion, int slicenumbertoprint)
 	{
 		LogError ("Error writing dataset /map/m");
 		prof.stop();
-		exit(0);
+		exit(1);
 	}
 
 	if (axion->Field() != FIELD_NAXION){
@@ -3819,7 +3819,7 @@ void	writeMapHdf5s	(Scalar *axion, int slicenumbertoprint)
 		{
 			LogError ("Error writing dataset /map/v");
 			prof.stop();
-			exit(0);
+			exit(1);
 		}
 	}
 
@@ -3973,7 +3973,7 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 	{
 		LogError ("Fatal error creating datasets");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	/*	We read 2D slabs as a workaround for the 2Gb data transaction limitation of MPIO	*/
@@ -3985,7 +3985,7 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 	{
 		LogError ("Fatal error");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	hsize_t partial = total/commSize();
@@ -4006,7 +4006,7 @@ void	writeMapHdf5s2	(Scalar *axion, int slicenumbertoprint)
 		if ((mErr < 0) || (vErr < 0))
 		{
 			LogError ("Error writing dataset");
-			exit(0);
+			exit(1);
 		}
 	}
 
@@ -4149,7 +4149,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 	{
 		LogError ("Fatal error creating datasets");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	eSpace = H5Dget_space (eSet_id);
@@ -4158,7 +4158,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 	{
 		LogError ("Fatal error");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	hsize_t offset = 0;
@@ -4174,7 +4174,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 	{
 		LogError ("Error writing dataset /map/E");
 		prof.stop();
-		exit(0);
+		exit(1);
 	}
 
 	LogMsg (VERB_HIGH, "Write energy map successful");
@@ -4303,7 +4303,7 @@ void	writePMapHdf5s	(Scalar *axion, char *eCh)
 	{
 		LogError ("Fatal error creating datasets");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	eSpace = H5Dget_space (eSet_id);
@@ -4312,7 +4312,7 @@ void	writePMapHdf5s	(Scalar *axion, char *eCh)
 	{
 		LogError ("Fatal error");
 		prof.stop();
-		exit (0);
+		exit (1);
 	}
 
 	hsize_t offset = 0;
@@ -4328,7 +4328,7 @@ void	writePMapHdf5s	(Scalar *axion, char *eCh)
 	{
 		LogError ("Error writing dataset %s",eCh);
 		prof.stop();
-		exit(0);
+		exit(1);
 	}
 
 	LogMsg (VERB_HIGH, "Write energy projection successful");
@@ -5277,7 +5277,7 @@ LogOut("Excess broadcasted\n");
 		{
 			LogError ("Error writing position/velocity dataset");
 			prof.stop();
-			exit(0);
+			exit(1);
 		}
 
 		commSync();
@@ -5304,7 +5304,7 @@ LogOut("Excess broadcasted\n");
 		{
 			LogError ("Error writing particle tag");
 			prof.stop();
-			exit(0);
+			exit(1);
 		}
 
 		commSync();
diff --git a/lib/propagator/laplacian.cpp b/lib/propagator/laplacian.cpp
index fea8efc..27a232c 100755
--- a/lib/propagator/laplacian.cpp
+++ b/lib/propagator/laplacian.cpp
@@ -40,7 +40,7 @@ class	Laplacian : public Tunable
 					    Sf(field->Surf()), field(field) {
 		if (field->LowMem()) {
 			LogError ("Error: laplacian not supported in lowmem runs");
-			exit(0);
+			exit(1);
 		}
 	}
 
diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3165347..abeb7fb 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -749,7 +749,7 @@ void	Scalar::sendGeneral(CommOperation opComm, size_t count, MPI_Datatype dataTy
 
 	if (nchunks > NMPICHUNK){
 		LogError("Number of ghost chunks %d larger than precompiled maximum %d. Change NMPICHUNK in scalarField.cpp and recompile again!", nchunks, NMPICHUNK);
-		exit(0);
+		exit(1);
 	}
 
 	int sendBytes[nchunks];
@@ -923,7 +923,7 @@ void	Scalar::sendGhosts(FieldIndex fIdx, CommOperation opComm)
 
 	if (nchunks > NMPICHUNK){
 		LogError("Number of ghost chunks %d larger than precompiled maximum %d. Change NMPICHUNK in scalarField.cpp and recompile again!", nchunks, NMPICHUNK);
-		exit(0);
+		exit(1);
 	}
 
 
diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index c4ef53e..8964bfd 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -195,7 +195,7 @@ void	createMeasLogList() {
 	FILE *cacheFile = nullptr;
 	if ( !((cacheFile  = fopen("./measfile.dat", "r")) == nullptr) ){
 		printf("[cmll] Error: measfile.dat found. Rename, delete and rerun this generator.\n");
-		exit(0);
+		exit(1);
 	}
 
 		/* calculates logif */
-- 
2.43.0


From 4c44143d33584147c8be2351067c1f62e0b709b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 02/57] fix: cosine QCD force in double precision mixed up real
 and imaginary lanes

---
 include/utils/triSimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index e37961b..03be42f 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -529,9 +529,9 @@ inline _MData_	opCode(md2_pd, const _MData_ &x)
 inline _MData_	opCode(vqcd0_pd, const _MData_ &x)
 {
 #if defined(__AVX__)
-	return	opCode(mul_pd, opCode(permute_pd, x, 0b00010001), opCode(permute_pd, x, 0b01010101));  //(y,x)*(y,y)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b01010101), opCode(permute_pd, x, 0b11111111));  //(y,x)*(y,y)
 #else
-	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0101));
+	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0011));
 #endif
 }
 #undef	_MData_
-- 
2.43.0


From 8cf2a133bef243f7d7bb0d48337324cefc275e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 03/57] fix: radial damping in double precision summed the
 wrong lane for every second site

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index a518fd9..712e52c 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -380,7 +380,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
@@ -1315,7 +1315,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
-- 
2.43.0


From 2c991fce28991ab753d348848b16d99309c93305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 04/57] fix: force of the N=2 QCD potential had the wrong sign
 in some kernels

---
 include/propagator/propXeon.h  | 4 ++--
 include/propagator/sPropXeon.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index 712e52c..ca7cf02 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -303,7 +303,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -1608,7 +1608,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 					mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 				break;
 				case V_QCD2:
-					mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+					mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 				break;
 				case V_QCDL:
 				case V_QCDC:
diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index 8cfffd7..c6e99d2 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -179,7 +179,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -400,7 +400,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+						mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_ps,
-- 
2.43.0


From 6978756a740c752402edc74276ca2e2ac9788cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 05/57] fix: spectral propagator damping ignored the damping
 time scale and assumed R'/R = 1/R

---
 include/propagator/propClass.h |  3 +++
 include/propagator/sPropXeon.h | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 009cd8a..a2ca23b 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -808,6 +808,7 @@
 		ppar.ood2a  = ood2;
 		ppar.gamma  = axion->BckGnd()->Gamma();
 		ppar.frw    = axion->BckGnd()->Frw();
+		ppar.dectime= axion->BckGnd()->DecTime();
 		ppar.fMom1 = -(4.*M_PI*M_PI)/(axion->BckGnd()->PhysSize()*axion->BckGnd()->PhysSize()*((double) axion->TotalSize()));
 
 		/* Returns ghost size region in slices */
@@ -830,6 +831,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			sPropKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, d0, S, V+S, precision);
 			*z += dz*d0;
@@ -847,6 +849,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			sPropKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, S, V+S, precision);
 		}
diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index c6e99d2..ab7412a 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -41,6 +41,8 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 	const double gamma = ppar.gamma;
 	const double LL    = ppar.lambda;
 	const double Rpp   = ppar.Rpp;
+	const double Rp    = ppar.Rp;
+	const double deti  = ppar.dectime;
 	const double fMom  = ppar.fMom1;
 
 	if (precision == FIELD_DOUBLE)
@@ -80,7 +82,9 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 
 		const double R4 = R2*R2;
 		const double LaLa = LL*2./R4;
-		const double GGGG = gamma/R;
+		double GGGG = gamma/R;
+		if (deti > 0)
+			GGGG *= R2/deti;
 		const double mola = GGGG*dzc/2.;
 		const double damp1 = 1./(1.+mola);
 		const double damp2 = (1.-mola)*damp1;
@@ -225,13 +229,13 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 					tmp = opCode(sub_pd,
 						opCode(fmadd_pd, mMx, opCode(set1_pd, dzc), mPy),
 						opCode(mul_pd, opCode(mul_pd, opCode(set1_pd, epsi), opCode(div_pd, mel, mPx)),
-							opCode(fmadd_pd, opCode(sub_pd,vecmv,opCode(div_pd,mPx,opCode(set1_pd, R))), opCode(set1_pd, 2.0), opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
+							opCode(fmadd_pd, opCode(sub_pd,vecmv,opCode(mul_pd,mPx,opCode(set1_pd, Rp))), opCode(set1_pd, 2.0), opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
 #else
 					tmp = opCode(sub_pd,
 						opCode(add_pd, mPy, opCode(mul_pd, mMx, opCode(set1_pd, dzc))),
 						opCode(mul_pd, opCode(mul_pd, opCode(set1_pd, epsi), opCode(div_pd, mel, mPx)),
 							opCode(add_pd,
-								opCode(mul_pd, opCode(sub_pd,vecmv,opCode(div_pd,mPx,opCode(set1_pd, R))), opCode(set1_pd, 2.0)),
+								opCode(mul_pd, opCode(sub_pd,vecmv,opCode(mul_pd,mPx,opCode(set1_pd, Rp))), opCode(set1_pd, 2.0)),
 								opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
 #endif
 						break;
@@ -308,7 +312,9 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 		const float zN = gasa;
 
 		const float LaLa = LL*2.f/R4;
-		const float GGGG = gamma/Rf;
+		float GGGG = gamma/Rf;
+		if (deti > 0)
+			GGGG *= R2/deti;
 		const float mola = GGGG*dzc/2.f;
 		const float damp1 = 1.f/(1.f+mola);
 		const float damp2 = (1.f-mola)*damp1;
@@ -450,13 +456,13 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 				tmp = opCode(sub_ps,
 					opCode(fmadd_ps, mMx, opCode(set1_ps, dzc), mPy),
 					opCode(mul_ps, opCode(mul_ps, opCode(set1_ps, epsi), opCode(div_ps, mel, mPx)),
-						opCode(fmadd_ps, opCode(sub_ps,vecmv,opCode(div_ps,mPx,opCode(set1_ps, Rf))), opCode(set1_ps, 2.f), opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
+						opCode(fmadd_ps, opCode(sub_ps,vecmv,opCode(mul_ps,mPx,opCode(set1_ps, Rp))), opCode(set1_ps, 2.f), opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
 #else
 				tmp = opCode(sub_ps,
 					opCode(add_ps, mPy, opCode(mul_ps, mMx, opCode(set1_ps, dzc))),
 					opCode(mul_ps, opCode(mul_ps, opCode(set1_ps, epsi), opCode(div_ps, mel, mPx)),
 						opCode(add_ps,
-							opCode(mul_ps, opCode(sub_ps,vecmv,opCode(div_ps,mPx,opCode(set1_ps, Rf))), opCode(set1_ps, 2.f)),
+							opCode(mul_ps, opCode(sub_ps,vecmv,opCode(mul_ps,mPx,opCode(set1_ps, Rp))), opCode(set1_ps, 2.f)),
 							opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
 #endif
 					}
-- 
2.43.0


From e43a0e788904297f016a0b702134e95ddeb9d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 06/57] fix: axion propagator reused the background of an
 earlier stage, and never refreshed the mass in the last kick

---
 include/propagator/propClass.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index a2ca23b..6d50ce4 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -530,6 +530,11 @@
 
 		#pragma unroll
 		for (int s = 0; s<nStages; s+=2) {
+
+			ppar.massA2 = axion->AxionMassSq();
+			ppar.R      = *axion->RV();
+			ppar.Rpp    = axion->Rpp();
+
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
@@ -561,9 +566,9 @@
 			/* Last kick */
 			LogMsg (VERB_PARANOID, "Warning: axion propagator not optimized yet for odd propagators, performance might be reduced");
 
-			const double	c0 = c[nStages], maa = axion->AxionMassSq();
+			const double	c0 = c[nStages];
 
-			ppar.massA  = axion->AxionMassSq();
+			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-- 
2.43.0


From 6a0a30f9c09f2f72e878f4348f2bda457886d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 07/57] fix: low-memory and spectral propagators skipped drifts
 and read past the coefficient arrays

---
 include/propagator/propClass.h | 54 +++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 6d50ce4..f5c5934 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -606,9 +606,21 @@
 			munge(UNFOLD_ALL);
 		}
 
+		auto *cD  = d;
+
+		if (lastStage == PROP_FIRST) {
+			/* First drift no kick c = 0 */
+			const double d0 = d[0];
+
+			updateMThetaXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, S, V+S, precision, xBlock, yBlock, zBlock);
+			*z += dz*d0;
+			axion->updateR();
+			cD = &(d[1]);
+		}
+
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
-			const double	c0 = c[s], d0 = d[s], maa = axion->AxionMassSq();
+			const double	c0 = c[s], d0 = cD[s], maa = axion->AxionMassSq();
 
 			#pragma omp parallel for schedule(static)
 			for (size_t sl=0; sl<Sf; sl++) {
@@ -620,11 +632,11 @@
 
 			applyLaplacian(axion);
 			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, Lx, S, V+S, precision);
-			*z += dz*d[s];
+			*z += dz*d0;
 			axion->updateR();
 		}
 
-		if (lastStage) {
+		if (lastStage == PROP_LAST) {
 			LogMsg (VERB_HIGH, "Warning: spectral propagator not optimized yet for odd propagators, performance might be reduced");
 
 			const double	c0 = c[nStages], maa = axion->AxionMassSq();
@@ -756,6 +768,18 @@
 
 		size_t BO = ppar.Ng*S;
 
+		auto *cD  = d;
+
+		if (lastStage == PROP_FIRST) {
+			/* First drift no kick c = 0 */
+			const double d0 = d[0];
+
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
+			*z += dz*d0;
+			axion->updateR();
+			cD = &(d[1]);
+		}
+
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
 
@@ -763,28 +787,30 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
-			const double c0 = c[s], d0 = d[s];
+			const double c0 = c[s], d0 = cD[s];
 
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
-			/*missing update M?*/
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
 			axion->updateR();
 		}
 
-		if (lastStage) {
+		if (lastStage == PROP_LAST) {
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
 			ppar.lambda = axion->LambdaP();
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			const double c0 = c[nStages];
 
@@ -826,9 +852,21 @@
 			munge(UNFOLD_ALL);
 		}
 
+		auto *cD  = d;
+
+		if (lastStage == PROP_FIRST) {
+			/* First drift no kick c = 0 */
+			const double d0 = d[0];
+
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, S, V+S, precision, xBlock, yBlock, zBlock);
+			*z += dz*d0;
+			axion->updateR();
+			cD = &(d[1]);
+		}
+
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
-			const double	c0 = c[s], d0 = d[s], maa = axion->AxionMassSq();
+			const double	c0 = c[s], d0 = cD[s], maa = axion->AxionMassSq();
 
 			applyLaplacian(axion);
 
@@ -843,7 +881,7 @@
 			axion->updateR();
 		}
 
-		if (lastStage) {
+		if (lastStage == PROP_LAST) {
 			LogMsg (VERB_HIGH, "Warning: spectral propagator not optimized yet for odd propagators, performance might be reduced");
 
 			const double	c0 = c[nStages], maa = axion->AxionMassSq();
-- 
2.43.0


From e5ada389382fcdc490e3264cbe7c4c28473d85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 08/57] fix: spectral axion propagator dropped the R''/R term
 of the equation of motion

---
 include/propagator/propClass.h      |  4 ++--
 include/propagator/sPropThetaXeon.h | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index f5c5934..8d2f803 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -631,7 +631,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, axion->Rpp(), fMom, Lx, S, V+S, precision);
 			*z += dz*d0;
 			axion->updateR();
 		}
@@ -649,7 +649,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, axion->Rpp(), fMom, Lx, S, V+S, precision);
 		}
 		axion->setM2     (M2_DIRTY);
 	}
diff --git a/include/propagator/sPropThetaXeon.h b/include/propagator/sPropThetaXeon.h
index 583aaae..6d7f38a 100755
--- a/include/propagator/sPropThetaXeon.h
+++ b/include/propagator/sPropThetaXeon.h
@@ -27,7 +27,7 @@
 #endif
 
 void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const void * __restrict__ m2_, double *R, const double dz, const double c, const double d,
-			     const double aMass2, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
+			     const double aMass2, const double Rpp, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
 {
 	const size_t Sf = Lx*Lx;
 
@@ -70,6 +70,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_pd, dzc);
 		const _MData_ dzdVec = opCode(set1_pd, dzd);
 		const _MData_ fMVec  = opCode(set1_pd, fMom);
+		const _MData_ RpVec  = opCode(set1_pd, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -86,11 +87,11 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 				vel = opCode(load_pd, &v[idxMz]);
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])));
+				acu = opCode(fmadd_pd, RpVec, mel, opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2]))));
 				tmp = opCode(fmadd_pd, acu, dzcVec, vel);
 				m2l = opCode(fmadd_pd, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
+				acu = opCode(add_pd, opCode(mul_pd, RpVec, mel), opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)))));
 				tmp = opCode(add_pd, vel, opCode(mul_pd, acu, dzcVec));
 				m2l = opCode(add_pd, mel, opCode(mul_pd, tmp, dzdVec));
 #endif
@@ -147,6 +148,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_ps, dzc);
 		const _MData_ dzdVec = opCode(set1_ps, dzd);
 		const _MData_ fMVec  = opCode(set1_ps, fMom);
+		const _MData_ RpVec  = opCode(set1_ps, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -164,11 +166,11 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])));
+				acu = opCode(fmadd_ps, RpVec, mel, opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2]))));
 				tmp = opCode(fmadd_ps, acu, dzcVec, vel);
 				m2l = opCode(fmadd_ps, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
+				acu = opCode(add_ps, opCode(mul_ps, RpVec, mel), opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)))));
 				tmp = opCode(add_ps, vel, opCode(mul_ps, acu, dzcVec));
 				m2l = opCode(add_ps, mel, opCode(mul_ps, tmp, dzdVec));
 #endif
-- 
2.43.0


From 0d26797c0abc8bf8d95f3eaa009ef0bb5e4768be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 09/57] fix: non-relativistic sweeps updated sites twice when
 the block did not divide the lattice

---
 include/propagator/propNaxXeon.h | 6 ++----
 include/propagator/propPaxXeon.h | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 15093c8..a4488d7 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -138,8 +138,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
-				continue;
+			if ((yC >= YC) || (zC >= zF)) continue;
 			{
 				X[0] = xC;
 				X[1] = yC;
@@ -347,8 +346,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
-				continue;
+			if ((yC >= YC) || (zC >= zF)) continue;
 
 			X[0] = xC;
 			X[1] = yC;
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 9ed1901..18fdc58 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -121,8 +121,7 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
-				continue;
+			if ((yC >= YC) || (zC >= zF)) continue;
 			{
 				X[0] = xC;
 				X[1] = yC;
@@ -324,8 +323,7 @@ else
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
-				continue;
+			if ((yC >= YC) || (zC >= zF)) continue;
 			{
 				X[0] = xC;
 				X[1] = yC;
-- 
2.43.0


From c32104c5369578a9713d610c78854c385b76e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 10/57] fix: border planes were kicked twice when a rank holds
 a single stencil depth of planes

---
 include/propagator/propClass.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 8d2f803..218ed9c 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -796,6 +796,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			if (V>BO)
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
@@ -817,6 +818,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			if (V>BO)
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
@@ -1082,6 +1084,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			if (V>BO)
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
@@ -1094,6 +1097,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			if (V>BO)
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d2;
 			axion->updateR();
@@ -1110,6 +1114,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			if (V>BO)
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
@@ -1166,6 +1171,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			if (V>BO)
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 			axion->sendGhosts(FIELD_V, COMM_SDRV);
@@ -1178,6 +1184,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_V, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			if (V>BO)
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
@@ -1196,6 +1203,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
+			if (V>BO)
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
-- 
2.43.0


From 618eba902e9d7445ae7122f32b164d804c8f5508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 11/57] fix: low memory runs planned an FFT on a null array

---
 lib/scalar/scalarField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index abeb7fb..6360afa 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -463,7 +463,8 @@ const std::complex<float> If(0.,1.);
 		AxionFFT::initFFT(prec);
 
 		/* For spectra, reducer, genConf */
-		AxionFFT::initPlan (this, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
+		if (m2 != nullptr)	/* Not allocated in lowmem saxion runs */
+			AxionFFT::initPlan (this, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
 
 		if (fieldType == FIELD_SAXION) {
 			if (!lowmem) {
-- 
2.43.0


From 784cc245d3b2b671854e9e58fe87f77b909921b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 12/57] fix: unsupported potentials stop the run instead of
 silently not propagating

---
 include/propagator/prop-def-mac.h  | 1 +
 include/propagator/propThetaXeon.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/propagator/prop-def-mac.h b/include/propagator/prop-def-mac.h
index 045969e..6e508cc 100644
--- a/include/propagator/prop-def-mac.h
+++ b/include/propagator/prop-def-mac.h
@@ -50,6 +50,7 @@
  	 CASE(aPT,V_QCDL_PQ1_DALL_THETA) \
 	 default: \
 	 LogError ("Error: unrecognized/uninitialised VqcdType %d ",pot); \
+	 exit(1); \
 	 break; \
 	}
 
diff --git a/include/propagator/propThetaXeon.h b/include/propagator/propThetaXeon.h
index 652017a..8ce1cb7 100755
--- a/include/propagator/propThetaXeon.h
+++ b/include/propagator/propThetaXeon.h
@@ -811,6 +811,7 @@ LogMsg(VERB_PARANOID,"[PT] propTheta QCDL %d",V_QCDL);
 		} break;
 		default:
 			LogError("PropXeon Case not recognised: exit!");
+			exit(1);
 		break;
 	}
 }
-- 
2.43.0


From a44d1bef882598c5eda356fcad124e3fb47196d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 13/57] fix: --frw given together with a snapshot was ignored

---
 lib/utils/parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 8964bfd..f2cb77d 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -752,6 +752,7 @@ int	parseArgs (int argc, char *argv[])
 			mink = true;
 			uMI  = true;
 			frw  = 0.0;
+			uFR  = true;
 			PARSE1;
 		}
 
@@ -771,6 +772,7 @@ int	parseArgs (int argc, char *argv[])
 			}
 
 			frw = atof(argv[i+1]);
+			uFR = true;
 
 			if (frw < 0.)
 			{
-- 
2.43.0


From 5b16e5694737e311f328fa54fa2704486e599037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 14/57] fix: an unknown --gadtype was accepted silently

---
 lib/utils/parse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index f2cb77d..62c6098 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -2306,6 +2306,11 @@ int	parseArgs (int argc, char *argv[])
 				printf("Error: unrecognized propagator %s\n", argv[i+1]);
 				exit(1);
 			}
+			else
+			{
+				printf("Error: unrecognized gadget configuration type %s\n", argv[i+1]);
+				exit(1);
+			}
 
 			if (spectral)
 				pType |= PROP_SPEC;
-- 
2.43.0


From af5872ecacc1feef87a42b012f79bfd1a328963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 15/57] fix: options without their value read past the end of
 the command line

---
 lib/utils/parse.cpp | 74 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 67 insertions(+), 7 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 62c6098..7b3564a 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -814,12 +814,24 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--sliceprint"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&slicepp));
 			PARSE2;
 		}
 
 		if (!strcmp(argv[i], "--p2Dslice"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			p2dmapo = true ;
 			defaultmeasType |= MEAS_2DMAP;
 			maty |= MAPT_XYMV;
@@ -830,6 +842,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--p2DsliceYZ"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			p2dmapo = true ;
 			defaultmeasType |= MEAS_2DMAP;
 			maty |= MAPT_YZMV;
@@ -915,6 +933,12 @@ int	parseArgs (int argc, char *argv[])
 
     if (!strcmp(argv[i], "--idxprint"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need an index.\n");
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%lu", reinterpret_cast<size_t*>(&deninfa.idxprint));
 			PARSE2;
 		}
@@ -1767,6 +1791,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--meas2theta"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a measurement type.\n");
+				exit(1);
+			}
+
 
 			MeasureType loco = (MeasureType) atoi(argv[i+1]);
 
@@ -1970,7 +2000,7 @@ int	parseArgs (int argc, char *argv[])
 			icdatst.axtinfo.gradients    = false; //default
 
 			char ff[] = "-";
-			if (argv[i+1][0] == ff[0]){
+			if (i+1 == argc || argv[i+1][0] == ff[0]){
 				icdatst.axtinfo.nMax = -2; //default
 				PARSE1;
 			}
@@ -1983,6 +2013,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.th_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a threshold.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.th_threshold);
       icdatst.axtinfo.th_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -1990,6 +2026,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.vh_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a threshold.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ve_threshold);
       icdatst.axtinfo.ve_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -1997,6 +2039,12 @@ int	parseArgs (int argc, char *argv[])
 
     if (!strcmp(argv[i], "--axitontracker.con_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a threshold.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.con_threshold);
       icdatst.axtinfo.con_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -2004,6 +2052,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.ct_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a threshold.\n");
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ct_threshold);
       icdatst.axtinfo.ct_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -2011,6 +2065,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.printradius"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a radius.\n");
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.printradius);
 			PARSE2;
 		}
@@ -2018,7 +2078,7 @@ int	parseArgs (int argc, char *argv[])
 		if (!strcmp(argv[i], "--axitontracker.gradients"))
 		{
 			icdatst.axtinfo.gradients = true;
-			PARSE2;
+			PARSE1;
 		}
 
 		/* IC's*/
@@ -2240,6 +2300,11 @@ int	parseArgs (int argc, char *argv[])
 			{
 				gadType = VOID;
 			}
+			else
+			{
+				printf("Error: unrecognized gadget configuration type %s\n", argv[i+1]);
+				exit(1);
+			}
 
 			PARSE2;
 		}
@@ -2306,11 +2371,6 @@ int	parseArgs (int argc, char *argv[])
 				printf("Error: unrecognized propagator %s\n", argv[i+1]);
 				exit(1);
 			}
-			else
-			{
-				printf("Error: unrecognized gadget configuration type %s\n", argv[i+1]);
-				exit(1);
-			}
 
 			if (spectral)
 				pType |= PROP_SPEC;
-- 
2.43.0


From 5ab4144375496c7526d23354e5b1425bbe45ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 16/57] fix: scaling a field wrote past v with two or more
 ghost slices, and past m and v in theta mode

---
 lib/scalar/scaleXeon.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index fdd82b5..17473eb 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -5,6 +5,28 @@
 
 using namespace std;
 
+/*	Number of complex elements stored in m, v or m2. In theta mode m and v are real,
+	v has two more slices than the lattice instead of ghosts (except in paxion mode),
+	and m2 can always store a complex field	*/
+static size_t	scaleVolume (Scalar *sField, FieldIndex fIdx)
+{
+	size_t reals = sField->DataSize()/sField->Precision();
+
+	switch (fIdx)
+	{
+		case FIELD_M:
+		return	(reals*sField->eSize())/2;
+
+		case FIELD_V:
+		if (sField->Field() == FIELD_PAXION)
+			return	(reals*sField->eSize())/2;
+		return	(reals*(sField->Size() + 2*sField->Surf()))/2;
+
+		default:
+		return	sField->eSize();
+	}
+}
+
 void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 {
 	switch (sField->Precision())
@@ -12,7 +34,7 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 		case FIELD_DOUBLE:
 		{
 			complex<double> *field;
-			size_t vol = sField->eSize();
+			size_t vol = scaleVolume (sField, fIdx);
 
 			switch (fIdx)
 			{
@@ -50,7 +72,7 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 		{
 			complex<float> *field;
 			float  fac = factor;
-			size_t vol = sField->eSize();
+			size_t vol = scaleVolume (sField, fIdx);
 
 			switch (fIdx)
 			{
-- 
2.43.0


From 16cb9fcb6d7dcf3058f93486f8b49b39fbb8fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 17/57] fix: the exchange begun in Tracker::GroupTags was never
 waited for

---
 include/axiton/trackerClass.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index db37982..bae8428 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -653,6 +653,7 @@
 			void *rB = afield->m2half();
 			LogMsg(VERB_PARANOID,"[MB] send ghosts") ;LogFlush();
 			afield->sendGeneral(COMM_SDRV, sliceBytes, MPI_BYTE, sB, rF, sF, rB);
+			afield->sendGeneral(COMM_WAIT, sliceBytes, MPI_BYTE, sB, rF, sF, rB);
 
 			/* Go over ghost zones and create a dictionary
 			loop over ranks from second and give them a global idx
-- 
2.43.0


From 7040cb4341fa95e0d4aa524622e3a465e9119b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 18/57] fix: a field built as paxion lost two blocks of memory
 and took five more, and part of its v was left unset

---
 lib/scalar/scalarField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 6360afa..23d70ef 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -240,6 +240,7 @@ const std::complex<float> If(0.,1.);
 			alignAlloc ((void**) &v,   mAlign, mBytes);
 			trackAlloc ((void**) &str, n3);
 			totalCPU += mBytes*2 + n3;
+			break;
 
 		case FIELD_FAXION:
 			LogMsg(VERB_NORMAL, "[sca] allocating theta, vheta, rho, vho, gra");
@@ -354,7 +355,7 @@ const std::complex<float> If(0.,1.);
 
 	LogMsg(VERB_NORMAL, "[sca] Setting m,v to 0");
 	memset (m, 0, fSize*v3);
-	memset (v, 0, fSize*(n2*(nLz + 2)));
+	memset (v, 0, (fieldType & (FIELD_PAXION | FIELD_FAXION)) ? mBytes : vBytes);
 	if (fieldType == FIELD_FAXION){
 		memset (rho, 0, fSize*v3);
 		memset (vho, 0, fSize*v3);
-- 
2.43.0


From 173fb609061fadc077e009c535fff569aa752f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 19/57] fix: memory of v (complex fields turned real, paxions)
 and of the faxion arrays was never freed

---
 include/scalar/scalarField.h |  1 +
 lib/scalar/scalarField.cpp   | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/scalar/scalarField.h b/include/scalar/scalarField.h
index 58855fa..c47f454 100755
--- a/include/scalar/scalarField.h
+++ b/include/scalar/scalarField.h
@@ -44,6 +44,7 @@
 		bool folded, M2folded;
 		bool	lowmem;
 		bool    lowmemgpu;
+		bool	vInM;			// v lives in the memory block of m
 		size_t Ng;
 
 		// conformal time
diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 23d70ef..ca09908 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -210,6 +210,7 @@ const std::complex<float> If(0.,1.);
 	const size_t	vBytes = (n2*(nLz + 2))*fSize;
 	LogMsg(VERB_NORMAL, "[sca] Bytes to be allocatted: mBytes %.3e GB, vBytes %.3e GB, strBytes %.3e GB", mBytes/1e9, vBytes/1e9, n3/1e9);
 	size_t totalCPU = 0;
+	vInM = false;
 	switch (fieldType)
 	{
 		case FIELD_SAXION:
@@ -231,6 +232,7 @@ const std::complex<float> If(0.,1.);
 			LogMsg(VERB_NORMAL, "[sca] allocating m, v");
 			alignAlloc ((void**) &m, mAlign, mBytes+vBytes);
 			v = static_cast<void *>(static_cast<char *>(m) + mBytes );
+			vInM = true;
 			trackAlloc ((void**) &str, n3);
 			totalCPU += mBytes+vBytes+n3;
 			break;
@@ -545,9 +547,16 @@ const std::complex<float> If(0.,1.);
 		trackFree(m);
 //printf("%d 1 FType %d\n",commRank(),fieldType);fflush(stdout);commSync();
 
-	if (v != nullptr && (fieldType & FIELD_SAXION))
+	/* The field may have been created as another type */
+	if (v != nullptr && !vInM)
 		trackFree(v);
 
+	if (fieldType & FIELD_FAXION) {
+		trackFree(rho);
+		trackFree(vho);
+		trackFree(g);
+	}
+
 //printf("%d 2\n",commRank());fflush(stdout);commSync();
 
 	if (m2 != nullptr)
-- 
2.43.0


From f21d1e40a5d7104ea26fe9ab04ab3f44be4df559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 20/57] fix: momentum-space runs planned (and measured,
 overwriting) complex transforms on real fields and transforms on a missing m2

---
 lib/scalar/scalarField.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index ca09908..201a203 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -484,18 +484,24 @@ const std::complex<float> If(0.,1.);
 		/* If fspectral initSpectral plans*/
 		if (fpectral) {
 			LogMsg(VERB_NORMAL,"Initialising fspectral plans");
-			// Saxion m inplace
-			AxionFFT::initPlan (this, FFT_CtoC_MtoM,   FFT_FWDBCK, "C2CM2M");
-			// Saxion v inplace
-			AxionFFT::initPlan (this, FFT_CtoC_VtoV,   FFT_FWDBCK, "C2CV2V");
-			AxionFFT::initPlan (this, FFT_CtoC_M2toM2, FFT_FWDBCK, "C2CM22M2");
-			AxionFFT::initPlan (this, FFT_CtoC_M2toM,  FFT_FWDBCK, "C2CM22M");
+			// Saxion m inplace; a real field has no room for them
+			if (fieldType == FIELD_SAXION) {
+				AxionFFT::initPlan (this, FFT_CtoC_MtoM,   FFT_FWDBCK, "C2CM2M");
+				// Saxion v inplace
+				AxionFFT::initPlan (this, FFT_CtoC_VtoV,   FFT_FWDBCK, "C2CV2V");
+				if (m2 != nullptr) {
+					AxionFFT::initPlan (this, FFT_CtoC_M2toM2, FFT_FWDBCK, "C2CM22M2");
+					AxionFFT::initPlan (this, FFT_CtoC_M2toM,  FFT_FWDBCK, "C2CM22M");
+				}
+			}
 			// Axion m/v inplace and m2/m
 			// for WKB? for fspectral axion
 			AxionFFT::initPlan (this, FFT_RtoC_MtoM_WKB,  FFT_FWDBCK, "R2CM2M");
 			AxionFFT::initPlan (this, FFT_RtoC_VtoV_WKB,  FFT_FWDBCK, "R2CV2V");
-			AxionFFT::initPlan (this, FFT_RtoC_M2toM,     FFT_FWDBCK, "R2CM22M");
-			AxionFFT::initPlan (this, FFT_RtoC_M2toV,     FFT_FWDBCK, "R2CM22V");
+			if (m2 != nullptr) {
+				AxionFFT::initPlan (this, FFT_RtoC_M2toM,     FFT_FWDBCK, "R2CM22M");
+				AxionFFT::initPlan (this, FFT_RtoC_M2toV,     FFT_FWDBCK, "R2CM22V");
+			}
 		}
 		/*	If present, read fileName	*/
 
-- 
2.43.0


From 1fb425335b021bd61fef4b26a9a6cd3f823aa779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 21/57] fix: R'/R in the conversion from angle to complex field
 for any expansion

---
 lib/scalar/theta2CmplxXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/theta2CmplxXeon.cpp b/lib/scalar/theta2CmplxXeon.cpp
index b948dce..a29a2d9 100644
--- a/lib/scalar/theta2CmplxXeon.cpp
+++ b/lib/scalar/theta2CmplxXeon.cpp
@@ -22,7 +22,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<double> II = complex<double>{0,1};
 			size_t vol = sField->Size();
 			double r = *sField->RV();
-			double ir = 1/r;
+			double ir = sField->BckGnd()->Rp(*sField->zV());
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<double>*> (sField->mStart());
@@ -46,7 +46,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<float> II = complex<float>{0,1};
 			size_t vol = sField->Size();
 			float r = *sField->RV();
-			float ir = 1/r;
+			float ir = sField->BckGnd()->Rp(*sField->zV());
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<float>*> (sField->mStart());
-- 
2.43.0


From f04d67385708988d36e9b5c50d3c77cfd047bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 22/57] fix: refuse to fold a field whose side is not a
 multiple of the vector length

---
 lib/scalar/folder.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/scalar/folder.cpp b/lib/scalar/folder.cpp
index 94bd2be..4cf543b 100755
--- a/lib/scalar/folder.cpp
+++ b/lib/scalar/folder.cpp
@@ -32,6 +32,11 @@ void	Folder::foldField()
 	fSize = field->DataSize();
 	shift = field->DataAlign()/fSize;
 
+	if (n1 % shift) {
+		LogError("Error: can't fold rows in vectors of %lu points when the side has %lu", shift, n1);
+		exit(1);
+	}
+
 	LogMsg (VERB_NORMAL, "Calling foldField mAlign=%d, fSize=%d, shift=%d", field->DataAlign(), fSize, shift);
 
 	for (size_t iz=0; iz < Lz; iz++)
@@ -226,6 +231,11 @@ void	Folder::unfoldField2DYZ (const size_t sX)
 		fSize = field->DataSize();
 		shift = field->DataAlign()/fSize;
 
+		if (n1 % shift) {
+			LogError("Error: can't fold rows in vectors of %lu points when the side has %lu", shift, n1);
+			exit(1);
+		}
+
 		LogMsg (VERB_NORMAL, "Calling foldField mAlign=%d, fSize=%d, shift=%d", field->DataAlign(), fSize, shift);
 
 		for (size_t iz=0; iz < Lz; iz++)
-- 
2.43.0


From 79a9cc679c98bcb06ca09f030cfaf4b8d9350467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 23/57] fix: bounds of the slices that are unfolded

---
 lib/scalar/folder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/scalar/folder.cpp b/lib/scalar/folder.cpp
index 4cf543b..603e21a 100755
--- a/lib/scalar/folder.cpp
+++ b/lib/scalar/folder.cpp
@@ -110,7 +110,7 @@ void	Folder::unfoldField()
 template<typename cFloat>	// Only rank 0 can do this, and currently we quietly exist for any other rank. This can generate bugs if sZ > local Lz
 void	Folder::unfoldField2D (const size_t sZ)
 {
-	if ((sZ < 0) || (sZ > field->Depth()) || field->Device() == DEV_GPU)
+	if ((sZ < 0) || (sZ >= field->Depth()) || field->Device() == DEV_GPU)
 		return;
 
 	cFloat *mg1 = static_cast<cFloat *> ((void *) field->mFrontGhost());
@@ -157,9 +157,14 @@ void	Folder::unfoldField2D (const size_t sZ)
 template<typename cFloat>
 void	Folder::unfoldField2DYZ (const size_t sX)
 {
-	if ((sX < 0) || (sX > field->Length()) || field->Device() == DEV_GPU)
+	if ((sX < 0) || (sX >= field->Length()) || field->Device() == DEV_GPU)
 		return;
 
+	if (field->Depth() > field->getNg()*n1) {
+		LogError("Error: a YZ slice of %lu x %lu points does not fit in the ghost slices", n1, field->Depth());
+		return;
+	}
+
 	cFloat *mg1 = static_cast<cFloat *> (field->mFrontGhost());
 	cFloat *mg2 = static_cast<cFloat *> (field->mBackGhost());
 	cFloat *m  = static_cast<cFloat *> (field->mStart());
@@ -303,7 +308,7 @@ void	Folder::unfoldField2DYZ (const size_t sX)
 template<typename cFloat>	// Only rank 0 can do this, and currently we quietly exist for any other rank. This can generate bugs if sZ > local Lz
 void	Folder::unfoldM22D (const size_t sZ)
 {
-	if ((sZ < 0) || (sZ > field->Depth()) || field->Device() == DEV_GPU)
+	if ((sZ < 0) || (sZ >= field->Depth()) || field->Device() == DEV_GPU)
 		return;
 
 	cFloat *mg1 = static_cast<cFloat *> ((void *) field->m2FrontGhost());
-- 
2.43.0


From 88bf95aaff19947fcc1dcce49e1a3b0c8cafc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 24/57] fix: room for the ghost slices of v when an axion field
 becomes paxion

---
 lib/scalar/scalarField.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 201a203..6c8f3a3 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -230,11 +230,11 @@ const std::complex<float> If(0.,1.);
 			str = nullptr;
 			//this allocates a slightly larger v to host FFTs in place
 			LogMsg(VERB_NORMAL, "[sca] allocating m, v");
-			alignAlloc ((void**) &m, mAlign, mBytes+vBytes);
+			alignAlloc ((void**) &m, mAlign, mBytes + (mBytes > vBytes ? mBytes : vBytes));	// v gets ghosts in paxion mode
 			v = static_cast<void *>(static_cast<char *>(m) + mBytes );
 			vInM = true;
 			trackAlloc ((void**) &str, n3);
-			totalCPU += mBytes+vBytes+n3;
+			totalCPU += mBytes + (mBytes > vBytes ? mBytes : vBytes) + n3;
 			break;
 		case FIELD_PAXION:
 			LogMsg(VERB_NORMAL, "[sca] allocating m,v for Paxion");
@@ -357,7 +357,7 @@ const std::complex<float> If(0.,1.);
 
 	LogMsg(VERB_NORMAL, "[sca] Setting m,v to 0");
 	memset (m, 0, fSize*v3);
-	memset (v, 0, (fieldType & (FIELD_PAXION | FIELD_FAXION)) ? mBytes : vBytes);
+	memset (v, 0, (fieldType & (FIELD_PAXION | FIELD_FAXION)) || (vInM && mBytes > vBytes) ? mBytes : vBytes);
 	if (fieldType == FIELD_FAXION){
 		memset (rho, 0, fSize*v3);
 		memset (vho, 0, fSize*v3);
-- 
2.43.0


From f5697da42c48e4df1e71538014d16d1d9bf4a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 25/57] fix: a refused change to naxion leaves the field as it
 was

---
 lib/scalar/scalarField.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 6c8f3a3..4e26a4b 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1112,7 +1112,7 @@ void	Scalar::setField (FieldType newType)
 		case	FIELD_NAXION:
 			if ( !(fieldType & FIELD_AXION) )
 				LogError ("Error: transformation to naxion only available from axion mode");
-			else
+			else {
 				fSize *= 2;
 
 				if (device != DEV_GPU)
@@ -1120,14 +1120,16 @@ void	Scalar::setField (FieldType newType)
 
 				fieldType = FIELD_NAXION;
 				LogMsg(VERB_NORMAL,"[sca] Field set to NAXION !");
+			}
 			break;
 
 		case	FIELD_PAXION:
 			if ( !(fieldType & FIELD_AXION) )
 				LogError ("Error: transformation to paxion only available from axion mode");
-			else
+			else {
 				fieldType = FIELD_PAXION;
 				LogMsg(VERB_NORMAL,"[sca] Field set to PAXION (nothing was done at the Scalar class-level)!");
+			}
 			break;
 
 
-- 
2.43.0


From 378014a1175f52b0641f7b85ddd3525ce1b2b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 26/57] fix: a real field is not narrowed when it is declared
 an axion field

---
 lib/scalar/scalarField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 4e26a4b..62f1421 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1079,8 +1079,8 @@ void	Scalar::setField (FieldType newType)
 	{
 		case FIELD_AXION_MOD:
 		case FIELD_AXION:
-		if (fieldType & FIELD_AXION){
-			LogError ("Error: transformation from axion to axion irrelevant");
+		if (fieldType & (FIELD_AXION | FIELD_PAXION | FIELD_FAXION)){
+			LogError ("Error: transformation to axion only available from complex fields");
 			break;
 		}
 			fSize /= 2;
-- 
2.43.0


From f709899a9cb5b5cc1107c3038742b7cce7246b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 27/57] fix: rates of expansion in a radiation + matter
 background (R', R'' ignored the matter correction)

---
 lib/cosmos/cosmos.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 632cc03..4d75e13 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -178,6 +178,8 @@ double  Cosmos::Rpp  (const double ct)
   double rpp;
   if (ueCosm)
     rpp = sRpp(ct)/(ct*ct);
+  else if (frw == 1 && icdatastruc.grav > 0.0)
+    rpp = 0.5*icdatastruc.grav/R(ct);
   else
   {
     // R = ct^frw
@@ -196,6 +198,9 @@ double  Cosmos::Rp  (const double ct)
     rp = (R(ct+1.e-3)-R(ct-1.e-3))/(2.e-3 * R(ct));
     LogMsg(VERB_NORMAL,"[Cos] calculating Rp =R(ct+e)-R(ct-e)/2eR = %e",rp);
   }
+  else if (frw == 1 && icdatastruc.grav > 0.0) {
+    rp = (1 + 0.5 * ct * icdatastruc.grav)/R(ct);
+  }
   else {
   // R = ct^frw
   // R'/R = frw/ct
@@ -272,17 +277,17 @@ double  Cosmos::DAxionMass2Dct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
 
       if (RNow >= zThRes && RNow <= zRestore)
         dMass2 = 0;
 
       if (RNow > zRestore)
-        dMass2 = nQcdr*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcdr*Rp(ct)*AxionMass2(ct);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
       else
         dMass2 = 0.0;
     }
@@ -299,26 +304,27 @@ double  Cosmos::DlogMARDlogct (const double ct)
     return (ct*std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
   }
   else {
-    /*(nqcd/2 + 1)*frw*/
+    /*(nqcd/2 + 1)*ct*R'/R, i.e. (nqcd/2 + 1)*frw for R = ct^frw*/
     double RNow = R(ct);
+    double dlRlct = ct*Rp(ct);
     double dlmRlct;
 
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = dlRlct*(nQcd/2+1);
 
       if (RNow >= zThRes && RNow <= zRestore)
-        dlmRlct = frw;
+        dlmRlct = dlRlct;
 
       if (RNow > zRestore)
-        dlmRlct = frw*(nQcdr/2+1);
+        dlmRlct = dlRlct*(nQcdr/2+1);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = dlRlct*(nQcd/2+1);
       else
-        dlmRlct = frw;
+        dlmRlct = dlRlct;
     }
 
 LogMsg(VERB_PARANOID,"[Cos:] DlogMARDlogct %.2e ",dlmRlct);
-- 
2.43.0


From 659309555f526177854410e4159c6337f1ccc3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 28/57] fix: DlogMARDlogct with a tabulated cosmology
 (misplaced parenthesis)

---
 lib/cosmos/cosmos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 4d75e13..acdddb3 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -301,7 +301,7 @@ double  Cosmos::DlogMARDlogct (const double ct)
 {
   if (ueCosm){
     double e = 1.e-6;
-    return (ct*std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
+    return ct*(std::sqrt(schi(ct+e))*R(ct+e)-std::sqrt(schi(ct-e))*R(ct-e))/(2.*e*std::sqrt(schi(ct))*R(ct));
   }
   else {
     /*(nqcd/2 + 1)*ct*R'/R, i.e. (nqcd/2 + 1)*frw for R = ct^frw*/
-- 
2.43.0


From c3e817fad29dee8be22bc38c38556fb7cf3cd676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 29/57] fix: HubbleConformal was zero for R = ct

---
 lib/scalar/scalarField.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 62f1421..a380746 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1218,13 +1218,8 @@ double  Scalar::Rpp  ()
 
 double  Scalar::HubbleConformal  ()
 {
-	// R'/R = frw/z
-	// since we have R=z^frw
-	//except in the case where frw = 0,1
-	int fr = (int) bckgnd->Frw();
-	double Rp = (fr == 0 || fr == 1) ? 0.0 : (bckgnd->Frw())/(*zV());
-	LogMsg(VERB_PARANOID,"[sca:HC] %.2e (legacy!)",Rp);
-	return Rp ;
+	// R'/R
+	return bckgnd->Rp(*z);
 }
 
 double	Scalar::AxionMass  () {
-- 
2.43.0


From c806aa3762eadb62b1c8620806beddafea890b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 30/57] fix: Saskia(ct) returned the shift of the present time

---
 lib/scalar/scalarField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index a380746..fded1a1 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1500,13 +1500,13 @@ double  Scalar::Saskia  (const double ct)
 
 		case    V_QCD1:
 			if 			((pot & V_PQ) & (V_PQ1 | V_PQ3)){
-				double sh = SaxionShift();
+				double sh = SaxionShift(ct);
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ1 %e",sh);
 				return sh;
 			}
 			else if ((pot & V_PQ) == V_PQ2)
 			{
-				double sh = rsvPQ2(AxionMassSq()/bckgnd->LambdaP (*z));
+				double sh = rsvPQ2(AxionMassSq(ct)/bckgnd->LambdaP (ct));
 				LogMsg(VERB_PARANOID,"[sca:Saskia] Shift PQ2 %e",sh);
 				return sh ;
 			}
-- 
2.43.0


From 4f938090cc353deb9698c510e7f89d87d05a094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 31/57] fix: dzSize(ct) used the expansion rate of the present
 time

---
 lib/scalar/scalarField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index fded1a1..81d707d 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1369,7 +1369,7 @@ double	Scalar::dzSize	   (double zNow) {
 		{
 			double mSfq = 0.;
 			mAfq = sqrt(mAx2*(RNow*RNow) + 12.*oodl*oodl);
-			mAfq = std::max(mAfq,HubbleMassSq());
+			mAfq = std::max(mAfq,bckgnd->Rpp(zNow));
 			double facto = 1.;
 			if ((pot & V_PQ) == V_PQ2)
 							facto = 2. ;
-- 
2.43.0


From 230f53931f8edce259309a3eef91e30162b40b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 32/57] fix: time integrals of the axion mass after and across
 saturation

---
 lib/scalar/scalarField.cpp | 129 +++++++++++--------------------------
 1 file changed, 38 insertions(+), 91 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 81d707d..0a5d092 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1234,114 +1234,61 @@ double	Scalar::AxionMassSq() {
 // and R = z^frw
 double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 
-	double aMass;
-	double RNow      = *RV();
 	double &zThRes   = bckgnd->ZThRes();
-	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
+	double frw       = bckgnd->Frw();
 
 	// assume zrestore is infty
-	// exponent of the time integral
-	if (z > z0){
-		if (z <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z > zThRes) && (z0 < zThRes)){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-	} else {
-		if (z0 <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z0 > zThRes) && (z < zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z0 > zThRes && (z >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
-			return inte;
-		}
-	}
+	// time and mass^2 at saturation
+	double ctTh = pow(zThRes, 1./frw);
+	double m2Th = indi3*indi3*pow(zThRes, nQcd);
+
+	// exponents of the time integral, before and after saturation
+	double eB = frw*(nQcd+nn) + 1;
+	double eA = frw*nn + 1;
+
+	auto before = [&](double a, double b) { return (pow(b, eB)-pow(a, eB))*indi3*indi3/eB; };
+	auto after  = [&](double a, double b) { return (pow(b, eA)-pow(a, eA))*m2Th/eA; };
+
+	if (z0 <= ctTh)
+		return (z <= ctTh) ? before(z0, z) : before(z0, ctTh) + after (ctTh, z);
+	else
+		return (z >= ctTh) ? after (z0, z) : after (z0, ctTh) + before(ctTh, z);
 }
 
 // 2nd time integral of the axion mass^2 R^n assuming it is a truncated power law
 // and R = z^frw
 double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 
-	double aMass;
-	double RNow      = *RV();
 	double &zThRes   = bckgnd->ZThRes();
-	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
+	double frw       = bckgnd->Frw();
 
 	// assume zrestore is infty
-	// exponent of the time integral
-	if (z>z0){
-		if (z <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z > zThRes) && (z0 < zThRes)){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-	} else {
-		if (z0 <= zThRes){
-			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( (z0 > zThRes) && (z < zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
-			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
-			return inte;
-		}
-		if ( z > zThRes && (z0 >= zThRes)){
-			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
-			return inte;
-		}
-	}
-
+	// time and mass^2 at saturation
+	double ctTh = pow(zThRes, 1./frw);
+	double m2Th = indi3*indi3*pow(zThRes, nQcd);
+
+	// exponents of the time integral, before and after saturation
+	double eB = frw*(nQcd+nn) + 1;
+	double eA = frw*nn + 1;
+
+	auto before = [&](double a, double b) {
+		return ((pow(b, eB+1)-pow(a, eB+1))/(eB+1) - pow(a, eB)*(b-a))*indi3*indi3/eB;
+	};
+	auto after  = [&](double a, double b) {
+		return ((pow(b, eA+1)-pow(a, eA+1))/(eA+1) - pow(a, eA)*(b-a))*m2Th/eA;
+	};
+
+	// the first integral up to saturation keeps acting afterwards
+	if (z0 <= ctTh)
+		return (z <= ctTh) ? before(z0, z) : before(z0, ctTh) + after (ctTh, z) + IAxionMassSqn(z0, ctTh, nn)*(z-ctTh);
+	else
+		return (z >= ctTh) ? after (z0, z) : after (z0, ctTh) + before(ctTh, z) + IAxionMassSqn(z0, ctTh, nn)*(z-ctTh);
 }
+
 // Saxion mass squared, perhaps the following functions could be rewriten to use this one
 double  Scalar::SaxionMassSq  ()
 {
-- 
2.43.0


From 3844f07397fd8fadd833de65a7982ad888c6d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 33/57] fix: the gravity tuner chose the coarse grid from the
 timings of each rank

---
 include/gravity/potentialClass.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index 11cd963..ca53c6e 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -4,6 +4,7 @@
 	#include <string>
 	#include <complex>
 	#include <memory>
+	#include <mpi.h>
 	#include "scalar/scalarField.h"
 	#include "scalar/folder.h"
 	#include "enum-field.h"
@@ -204,6 +205,8 @@ LogMsg(VERB_PARANOID,"Full test (index %d)",index);
 		this->Run();
 		double te = (double) Timer()*1.0e-6;
 		double delta = te-t0;
+		/* all ranks must choose the same, the slowest counts */
+		MPI_Allreduce (MPI_IN_PLACE, &delta, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
 
 LogMsg(VERB_PARANOID,"Full delta %e",delta);
 
@@ -224,10 +227,12 @@ LogMsg(VERB_PARANOID,"[GVt] Hybrid test red=%d (index %d)\n",fo, index);
 				t0 = (double) Timer()*1.0e-6;
 				this->Run();
 				te = (double) Timer()*1.0e-6;
-LogMsg(VERB_PARANOID,"Hybrid delta %e",te-t0);
-				if (te-t0 < delta){
+				double deltb = te-t0;
+				MPI_Allreduce (MPI_IN_PLACE, &deltb, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+LogMsg(VERB_PARANOID,"Hybrid delta %e",deltb);
+				if (deltb < delta){
 LogMsg(VERB_PARANOID,"best");
-					delta = te-t0;
+					delta = deltb;
 					best = fo;
 					}
 
-- 
2.43.0


From 481e34f3765314caa7472eade6bb324b29d2e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 34/57] fix: tuner synchronised rank 0 alone and wrote to a
 null file when the cache could not be opened

---
 lib/propagator/propagator.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/propagator/propagator.cpp b/lib/propagator/propagator.cpp
index 7b7a2a3..cd182c4 100755
--- a/lib/propagator/propagator.cpp
+++ b/lib/propagator/propagator.cpp
@@ -755,16 +755,10 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 		if (!newFile) {
 			if ((cacheFile = fopen(tuneName, "a")) == nullptr) {
 				LogError ("Error: can't open cache file, can't save tuning results");
-				commSync();
-				prof.stop();
-				prof.add(prop->Name(), 0., 0.);
 			}
 		} else {
 			if ((cacheFile = fopen(tuneName, "w")) == nullptr) {
 				LogError ("Error: can't create cache file, can't save tuning results");
-				commSync();
-				prof.stop();
-				prof.add(prop->Name(), 0., 0.);
 			}
 		}
 
@@ -779,9 +773,11 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 			fType = 3;
 
 		std::string myDev(field->Device() == DEV_GPU ? "Gpu" : "Cpu");
-		fprintf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", myDev.c_str(), commSize(), omp_get_max_threads(), field->Length(), field->Depth(),
-									fType, prop->TunedBlockX(), prop->TunedBlockY(), prop->TunedBlockZ(), field->getNg());
-		fclose  (cacheFile);
+		if (cacheFile != nullptr) {
+			fprintf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", myDev.c_str(), commSize(), omp_get_max_threads(), field->Length(), field->Depth(),
+										fType, prop->TunedBlockX(), prop->TunedBlockY(), prop->TunedBlockZ(), field->getNg());
+			fclose  (cacheFile);
+		}
 	}
 LogMsg (VERB_NORMAL, "\n");
 
-- 
2.43.0


From 6ecf605659bc486dc8417eacd7dc6d9bb6ffcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 35/57] fix: gadget output: the sending rank left the
 redistribution without answering the receiver

---
 lib/gadget/gadget_output.cpp | 8 ++++----
 lib/io/readWrite.pHdf5.cpp   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 66d3209..a821ed7 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -1561,11 +1561,11 @@ printf("Rank %d received request for %d particles\n", rSend, toSend); fflush(std
 						i++;
 					}
 
-					if (pSent == toSend)
-						break;
+					/* the particles left over from the last site may be all that is needed */
+					bool last = (pSent == toSend);
 
 printf("Rank %d is preparing the data to be sent\n", rSend); fflush(stdout);
-					do {
+					if (!last) do {
 if ((pSent%1024) == 0)
 printf("Rank %d preparing particle %06d\n", rSend, pSent); fflush(stdout);
 						int nPhere = axTmp[lPos];
@@ -1593,7 +1593,7 @@ printf("Rank %d preparing particle %06d\n", rSend, pSent); fflush(stdout);
 					}	while(true);
 
 					MPI_Send (&toSend, 1, MPI_INT, rRecv, 28, MPI_COMM_WORLD);
-					size_t ePos = (i==slab) ? lPos : lPos+1;
+					size_t ePos = (last || i==slab) ? lPos : lPos+1;
 					MPI_Send(&iPos, 1, MPI_UNSIGNED_LONG_LONG, rRecv, 29, MPI_COMM_WORLD);
 					MPI_Send(&ePos, 1, MPI_UNSIGNED_LONG_LONG, rRecv, 30, MPI_COMM_WORLD);
 					MPI_Send(&(axTmp[gAddr]), (ePos-iPos), MPI_INT, rRecv, 26, MPI_COMM_WORLD);
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 21ef8c2..248afe4 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -5196,11 +5196,11 @@ printf("Rank %d received request for %d particles\n", rSend, toSend); fflush(std
 						i++;
 					}
 
-					if (pSent == toSend)
-						break;
+					/* the particles left over from the last site may be all that is needed */
+					bool last = (pSent == toSend);
 
 printf("Rank %d is preparing the data to be sent\n", rSend); fflush(stdout);
-					do {
+					if (!last) do {
 if ((pSent%1024) == 0)
 printf("Rank %d preparing particle %06d\n", rSend, pSent); fflush(stdout);
 						int nPhere = axTmp[lPos];
@@ -5228,7 +5228,7 @@ printf("Rank %d preparing particle %06d\n", rSend, pSent); fflush(stdout);
 					}	while(true);
 
 					MPI_Send (&toSend, 1, MPI_INT, rRecv, 28, MPI_COMM_WORLD);
-					size_t ePos = (i==slab) ? lPos : lPos+1;
+					size_t ePos = (last || i==slab) ? lPos : lPos+1;
 					MPI_Send(&iPos, 1, MPI_UNSIGNED_LONG_LONG, rRecv, 29, MPI_COMM_WORLD);
 					MPI_Send(&ePos, 1, MPI_UNSIGNED_LONG_LONG, rRecv, 30, MPI_COMM_WORLD);
 					MPI_Send(&(axTmp[gAddr]), (ePos-iPos), MPI_INT, rRecv, 26, MPI_COMM_WORLD);
-- 
2.43.0


From 7ec9a21b5cd680729a9c1512a37ac8c404abc135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 36/57] fix: 32-byte string attributes were read into and
 written from 16-byte buffers

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 248afe4..13927dc 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -225,7 +225,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-	char	prec[16], fStr[16], lStr[16], rStr[16], dStr[16], vStr[32], vPQStr[32], icStr[16], smStr[16];
+	char	prec[32], fStr[32], lStr[32], rStr[32], dStr[32], vStr[32], vPQStr[32], icStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -762,7 +762,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16];
+		char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32];
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
@@ -1581,7 +1581,7 @@ void	createMeas (Scalar *axion, int index)
 {
 	hid_t	plist_id, dataType;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16], dStr[16], rStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32], dStr[32], rStr[32];
 	int	length = 32;
 
 //	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -5356,7 +5356,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 
 	FieldPrecision	precision;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], smStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
-- 
2.43.0


From 163287ed18f3fb931436915818325f0cbc9172d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 37/57] fix: readConf did not recognise the PQ2 and PQ3
 potentials as writeConf names them

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 13927dc..1763c7b 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1088,9 +1088,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "VPQ 1"))
 						vqcdType |= V_PQ1;
-					else if ( !strcmp(vStr, "VPQ2"))
+					else if ( !strcmp(vStr, "VPQ 2"))
 						vqcdType |= V_PQ2;
-					else if ( !strcmp(vStr, "VPQ3"))
+					else if ( !strcmp(vStr, "VPQ 3"))
 						vqcdType |= V_PQ3;
 					else {
 						LogError ("Error reading file %s: invalid PQ potential type %s. Use PQ1", base, vStr);
-- 
2.43.0


From 72797af518ef028ca4d4f65410f206fdaa61d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 38/57] fix: an evolution restricted to theta was saved as
 unrestricted

---
 lib/io/readWrite.pHdf5.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 1763c7b..9d09898 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -429,8 +429,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
@@ -1133,6 +1134,8 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "Only Rho"))
 						vqcdType |= V_EVOL_RHO;
+					else if (!strcmp(vStr, "Only Theta"))
+						vqcdType |= V_EVOL_THETA;
 					else if (!strcmp(vStr, "Full"))
 						vqcdType |= V_NONE;
 					else {
-- 
2.43.0


From 727f84eeb3f297fdd233bad6211f3c329e8e52db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 39/57] fix: writeConf left out the kind of initial conditions,
 which readConf reads, when there are none

---
 lib/io/readWrite.pHdf5.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 9d09898..b62410f 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -565,6 +565,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		default:
 		case	CONF_NONE:
 			sprintf(icStr, "None");
+			writeAttribute(icGrp_id, &icStr, "Initial conditions",   attr_type);
 			break;
 	}
 
-- 
2.43.0


From 975428bd3b568f27f2512b5316ef1b5ba44a5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 40/57] fix: configurations with an initial velocity were saved
 with a kind that readConf does not recognise

---
 lib/io/readWrite.pHdf5.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index b62410f..4becba2 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -614,6 +614,14 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			sprintf(smStr, "String + wave");
 			break;
 
+		case	CONF_THETAVEL:
+			sprintf(smStr, "Theta velocity");
+			break;
+
+		case	CONF_VELRAND:
+			sprintf(smStr, "Random velocity");
+			break;
+
 
 		default:
 			sprintf(smStr, "None");
@@ -1241,6 +1249,10 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 					smvarType = CONF_PARRES;
 				} else if (!strcmp(icStr, "String + wave")) {
 					smvarType = CONF_STRWAVE;
+				} else if (!strcmp(icStr, "Theta velocity")) {
+					smvarType = CONF_THETAVEL;
+				} else if (!strcmp(icStr, "Random velocity")) {
+					smvarType = CONF_VELRAND;
 				} else {
 					LogError("Error: unrecognized configuration type %s", icStr);
 				}
-- 
2.43.0


From 3a545fd1a998fed960251fe9005f6ea58ae7df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 41/57] fix: the kinetic energies of a double precision saxion
 field were zero, 1/R^2 was an integer

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index f3379d1..ba4fc1f 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -47,7 +47,7 @@ void	energyKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_
 	const size_t Vo     = ppar.Vo;
 	const size_t Vf     = ppar.Vf;
 	const size_t Vt     = ppar.Vt;
-	const size_t iR2    = 1./R/R;
+	const double iR2    = 1./R/R;
 
 	const size_t Sf = Lx*Lx;
 
-- 
2.43.0


From 3aba6fca52e2906cc6e4b4d5285401f4941ee17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 42/57] fix: the mean radius of a double precision saxion field
 was never stored

---
 lib/energy/energyXeon.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index ba4fc1f..43f6747 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -643,6 +643,7 @@ if (emask & EN_ENE){
 		eRes[TH_POT] = Vth  *zQ;
 		eRes[RH_KIN] = Krho *.5*iR2;
 		eRes[TH_KIN] = Kth  *.5*iR2;
+		eRes[RH_RHO] = Rrho;
 
 		eRes[RH_GRXM] = GxrhoM*o2;
 		eRes[TH_GRXM] = GxthM *o2;
-- 
2.43.0


From d4ce663a768711dbaef08e7777d84a86a0677230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 43/57] fix: masked mean radius added elements behind the end
 of the vector

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 43f6747..487ad06 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -604,7 +604,7 @@ if (emask & EN_ENE){
 								KthM   += tmpS[1] + tmpS[3];
 
 								opCode(store_pd, tmpS, opCode(mul_pd,Frho,Mask));
-								RrhoM  +=  tmpS[0] + tmpS[2] + tmpS[4] + tmpS[6];
+								RrhoM  += tmpS[0] + tmpS[2];
 #else
 								opCode(store_pd, tmpS, opCode(mul_pd,tGx,Mask));
 								GxrhoM +=  tmpS[0];
-- 
2.43.0


From 6d1de381dcea0dc270af8d7bad48619c3a534398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 44/57] fix: threads raced on the masked mean radius and on the
 number of masked sites

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 487ad06..2ee5e61 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -135,7 +135,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 
 			double tmpS[2*step] __attribute__((aligned(Align)));
 
-			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho)
+			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho,RrhoM,nummask)
 			for (size_t idx = Vo; idx < Vf; idx += step)
 			{
 				size_t X[3], idxPx, idxMx, idxPy, idxMy, idxPz, idxMz, idxP0, idxV0;
-- 
2.43.0


From 00d235a526b7ba2e3023c95cd4ac70093d98b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 45/57] fix: the energy of the N=2 axion potential was a
 constant

---
 lib/energy/energyXeon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 2ee5e61..e2a64cf 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -429,8 +429,8 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 						mCg = opCode(mul_pd, hVec, opCode(md2_pd, opCode(mul_pd,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 */
+						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, opCode(mul_pd, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
@@ -1087,8 +1087,8 @@ if (emask & EN_ENE){
 						mCg = opCode(mul_ps, hVec, opCode(md2_ps, opCode(mul_ps,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 */
+						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, opCode(mul_ps, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
-- 
2.43.0


From aca18c2b4977770b0b438ed45f6802d460f5527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 46/57] fix: without QCD potential there is no axion potential
 energy

---
 lib/energy/energy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 5b32730..394d6ba 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -43,7 +43,7 @@ class	Energy : public Tunable
 };
 
 	Energy::Energy(Scalar *field, const double LL, const double delta, void *eRes, VqcdType pot, const double sh, const EnType emap) : field(field),
-	Vt(field->TotalSize()), delta2(delta*delta), aMass2(field->AxionMassSq()), eRes(eRes), pot(pot), fType(field->Field()), shift(sh),
+	Vt(field->TotalSize()), delta2(delta*delta), aMass2((pot & V_QCD) == V_QCD0 ? 0. : field->AxionMassSq()), eRes(eRes), pot(pot), fType(field->Field()), shift(sh),
 	LL(field->LambdaP()), mapmask(emap)
 {
 }
-- 
2.43.0


From f9d802787c5cb6594c9af193253105de208b0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 47/57] fix: the kinetic energy of the axion ignored the matter
 correction of the expansion rate

---
 lib/energy/energyThetaXeon.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/energy/energyThetaXeon.cpp b/lib/energy/energyThetaXeon.cpp
index 317dbc4..3373a1a 100755
--- a/lib/energy/energyThetaXeon.cpp
+++ b/lib/energy/energyThetaXeon.cpp
@@ -28,7 +28,7 @@
 
 template<const bool map, const bool wMod>
 void	energyThetaKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_, void * __restrict__ m2_,
-	double *R, double *z, double frw, const double ood2, const double aMass2,
+	double *R, const double Rp, const double ood2, const double aMass2,
 			 const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, void * __restrict__ eRes_)
 {
 	const size_t Sf = Lx*Lx;
@@ -56,9 +56,8 @@ void	energyThetaKernelXeon(const void * __restrict__ m_, const void * __restrict
 
 		/* computes physical, not comoving enegy density */
 		const double zR  = *R;
-		const double zz  = *z;
 		const double iz  = 1.0/zR;
-		const double d1  = frw*zR/zz;
+		const double d1  = Rp*zR;	// R'
 		const double iz2 = iz*iz;
 		const double iz4 = iz2*iz2;
 		const double zQ  = aMass2;
@@ -279,9 +278,8 @@ void	energyThetaKernelXeon(const void * __restrict__ m_, const void * __restrict
 		/* computes physical, not comoving enegy density */
 
 		const float zR  = *R;
-		const float zz  = *z;
 		const float iz  = 1.f/zR;
-		const float d1  = frw*zR/zz;
+		const float d1  = Rp*zR;	// R'
 		const float iz2 = iz*iz;
 		const float iz4 = iz2*iz2;
 		const float zQ = aMass2;
@@ -495,8 +493,7 @@ void	energyThetaCpu	(Scalar *axionField, const double delta2, const double aMass
 {
 	const double ood2 = 0.25/delta2;
 	double *R  = axionField->RV();
-	double *z  = axionField->zV();
-	double frw = axionField->BckGnd()->Frw();
+	double Rp  = axionField->BckGnd()->Rp(*axionField->zV());	// R'/R
 
 	const FieldPrecision precision = axionField->Precision();
 	const size_t Lx = axionField->Length();
@@ -507,11 +504,11 @@ void	energyThetaCpu	(Scalar *axionField, const double delta2, const double aMass
 
 	switch	(map) {
 		case	true:
-			energyThetaKernelXeon<true, mod>(axionField->mCpu(), axionField->vCpu(), axionField->m2Cpu(), R, z, frw, ood2, aMass2, Lx, Vo, Vf, precision, eRes);
+			energyThetaKernelXeon<true, mod>(axionField->mCpu(), axionField->vCpu(), axionField->m2Cpu(), R, Rp, ood2, aMass2, Lx, Vo, Vf, precision, eRes);
 			break;
 
 		case	false:
-			energyThetaKernelXeon<false,mod>(axionField->mCpu(), axionField->vCpu(), axionField->m2Cpu(), R, z, frw, ood2, aMass2, Lx, Vo, Vf, precision, eRes);
+			energyThetaKernelXeon<false,mod>(axionField->mCpu(), axionField->vCpu(), axionField->m2Cpu(), R, Rp, ood2, aMass2, Lx, Vo, Vf, precision, eRes);
 			break;
 	}
 }
-- 
2.43.0


From 525b2b83966a56a23bb95152d786a822ddf4e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 48/57] fix: the gradient energy of the non-relativistic field
 was divided by R^2 twice

---
 lib/energy/energyPaxionXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index e01d4f6..2a5f679 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -31,7 +31,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 {
 
 	const double R     = ppar.R;
-	const double ood2a = ppar.ood2a/R/R;
+	const double ood2a = ppar.ood2a;
 	const double beta  = ppar.beta;
 	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
 
-- 
2.43.0


From b16403e345c065b302a0ecb27812260e33633be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 49/57] fix: energy maps of the non-relativistic field with
 more than one ghost slice were misplaced

---
 lib/energy/energyPaxionXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index 2a5f679..ea9542a 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -33,7 +33,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 	const double R     = ppar.R;
 	const double ood2a = ppar.ood2a;
 	const double beta  = ppar.beta;
-	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
+	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Vo;
 
 	double * __restrict__ eRes = (double * __restrict__) eRes_;
 	double gxC = 0., gyC = 0., gzC = 0., ntC = 0., ptC = 0.;
@@ -95,7 +95,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 					X[2] = tmi/YC;
 					X[1] = tmi - X[2]*YC;
 					X[0] = idx - tmi*XC;
-					X[2]--;	// Removes ghosts
+					X[2] -= Ng;	// Removes ghosts
 				}
 
 				if (X[0] == XC-step)
-- 
2.43.0


From 279bf0ef41ce2fef6b88b5ed4ee056942a633376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:53 +0000
Subject: [PATCH 50/57] fix: energies without a map overwrote m2 and were
 refused for low memory saxions

---
 lib/energy/energy.cpp     | 10 +++++-----
 lib/energy/energyXeon.cpp | 13 +++++++------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 394d6ba..dfd6456 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -60,7 +60,7 @@ void	Energy::runGpu	()
 	double R       = *field->RV();
 	double Rpp     = field->BckGnd()->Rp(*field->zV())*R;
 
-	const bool map = (mapmask & EN_MAP);
+	const bool map = (mapmask & EN_ONLYMAP);
 
 	switch (fType) {
 		case	FIELD_SAXION:
@@ -98,7 +98,7 @@ void	Energy::runGpu	()
 
 void	Energy::runCpu	()
 {
-	const bool map = (mapmask & EN_MAP); //Update if mask in theta is required FIX ME
+	const bool map = (mapmask & EN_ONLYMAP); //Update if mask in theta is required FIX ME
 
 	switch (fType) {
 		case	FIELD_SAXION:
@@ -136,7 +136,7 @@ using namespace profiler;
 
 void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 {
-	if ( (emap & EN_MAP) && (field->Field() == FIELD_SAXION) && field->LowMem())
+	if ( (emap & EN_ONLYMAP) && (field->Field() == FIELD_SAXION) && field->LowMem())
 	{
 		LogError ("Error: Can't compute energy map for saxion with lowmem kernels\n");
 		return;
@@ -209,7 +209,7 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	prof.stop();
 
 	field->setReduced(false);
-	if (emap & EN_MAP) {
+	if (emap & EN_ONLYMAP) {
 		field->setM2     (M2_ENERGY);
 	}
 
@@ -217,7 +217,7 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	double flops = (field->Field() == FIELD_SAXION ? (pot & (V_QCD1|V_QCDC) ? 111 : 112) : 25)*field->Size()*1e-9;
 	double bytes = 8.*field->DataSize()*field->Size()*1e-9;
 
-	if (emap & EN_MAP) {
+	if (emap & EN_ONLYMAP) {
 		eDark->appendName(" Map");
 		bytes *= 9./8;
 	}
diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index e2a64cf..58b1935 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -452,7 +452,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 #else
 				tVp = opCode(shuffle_pd, mod, mCg, 0b00000001);
 #endif
-				if	(emask & EN_MAP) {
+				if	(emask & EN_ONLYMAP) {
 					mdv = opCode(add_pd,
 						opCode(add_pd,
 							opCode(mul_pd, tKp, opCode(mul_pd,hVec,ivZ2)), /* non-conformal kinetic energy */
@@ -1118,7 +1118,7 @@ if (emask & EN_ENE){
 #endif
 
 // Copy energy map to m2
-				if (emask & EN_MAP) {
+				if (emask & EN_ONLYMAP) {
 // Total energy
 					mdv = opCode(add_ps,
 						opCode(add_ps,
@@ -1357,7 +1357,7 @@ void	energyCpu	(Scalar *field, const double delta2, const double LL, const doubl
 	ppar.Vf    = ppar.Vo + field->Size();
 	ppar.Vt    = field->eSize();
 
-	const bool map  = (mapmask & EN_MAP);
+	const bool map  = (mapmask & EN_ONLYMAP);
 	const bool mask = (mapmask & EN_MASK);
 
 	// reset m2 because only the masked points will be plot
@@ -1452,7 +1452,8 @@ CASE_(pote2,EN_ENEMAPMASK) \
 
 	} else if (field->LowMem())
 	{
-		LogError ("Error: can't produce energy map with lowmem, will compute only averages");
+		if (map)
+			LogError ("Error: can't produce energy map with lowmem, will compute only averages");
 
 #define CASE2_(pote,ene, ene2) \
 case ene: \
@@ -1463,8 +1464,8 @@ break;
 #define CASE2_MULTIE_(pote2) \
 switch (mapmask){ \
 CASE2_(pote2,EN_ENE,EN_MAP) \
-CASE2_(pote2,EN_MASK,EN_ENEMASK) \
-CASE2_(pote2,EN_MAPMASK,EN_ENEMAPMASK) \
+CASE2_(pote2,EN_MASK,EN_MAPMASK) \
+CASE2_(pote2,EN_ENEMASK,EN_ENEMAPMASK) \
 }
 
 		switch (VQcd & V_TYPE) {
-- 
2.43.0


From 9a79849eab5a8460030c22cc87c233078ab3975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:54 +0000
Subject: [PATCH 51/57] fix: threads shared the handedness of the string
 plaquettes in single precision

---
 lib/strings/stringCpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/strings/stringCpu.cpp b/lib/strings/stringCpu.cpp
index 60716c8..c160550 100755
--- a/lib/strings/stringCpu.cpp
+++ b/lib/strings/stringCpu.cpp
@@ -191,7 +191,7 @@ int	analyzeStrFolded	(Scalar *axion, const int index)
 		{
 			complex<float> *mM = static_cast<complex<float>*> (axion->mCpu());
 
-			#pragma omp parallel for default(shared) schedule(static) reduction(+:stlength)
+			#pragma omp parallel for default(shared) private(hand) schedule(static) reduction(+:stlength)
 			for (size_t iz=0; iz<Lz; iz++)
 			{
 
@@ -398,7 +398,7 @@ int	analyzeStrFoldedNP 	(Scalar *axion, const int index)
 		{
 			complex<float> *mM = static_cast<complex<float>*> (axion->mCpu());
 
-			#pragma omp parallel for default(shared) schedule(static) reduction(+:stlength)
+			#pragma omp parallel for default(shared) private(hand) schedule(static) reduction(+:stlength)
 			for (size_t iz=0; iz<Lz; iz++)
 			{
 
@@ -647,7 +647,7 @@ int	analyzeStrUNFolded	(Scalar *axion, const int index)
 		{
 		complex<float> *mM = static_cast<complex<float>*> (axion->mCpu());
 
-		#pragma omp parallel for default(shared) schedule(static) reduction(+:stlength)
+		#pragma omp parallel for default(shared) private(hand) schedule(static) reduction(+:stlength)
 		for (size_t iz=0; iz<Lz; iz++)
 		{
 
-- 
2.43.0


From a489937a1dd355dedc63667f5b5191f1e8226f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 52/57] fix: threads raced on the number of masked axiton sites

---
 lib/spectrum/spectrum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index a35c7c5..7918140 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -3644,7 +3644,7 @@ void	SpecBin::masker	(double radius_mask, StatusM2 out, bool l_cummask) {
 
 									int mp = 0;
 									/* I apply the cut to the unpadded */
-									#pragma omp parallel for schedule(static)
+									#pragma omp parallel for schedule(static) reduction(+:mp)
 									for (size_t idx=0; idx < V; idx++) {
 										size_t X[3];
 										indexXeon::idx2Vec (idx, X, Ly);
-- 
2.43.0


From 805f9f1a62b31773e9223a69a22250120f30e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:10 +0000
Subject: [PATCH 53/57] fix: threads could lose the deepest reach of a mask
 into the neighbouring ranks

---
 lib/spectrum/spectrum.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 7918140..3a3022a 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -629,8 +629,13 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 										 	aux = mFG[(size_t) Ly*yii+xii];
 
 										if ( load > aux ){
-											#pragma omp atomic write
-												mFG[(size_t) Ly*yii+xii] = load;
+											#pragma omp critical
+											{
+												if (load > mFG[(size_t) Ly*yii+xii]) {
+													#pragma omp atomic write
+														mFG[(size_t) Ly*yii+xii] = load;
+												}
+											}
 										}
 									}
 									else {
@@ -642,8 +647,13 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 												aux = mBG[(size_t) (Ly*yii+xii)];
 
 											if (load > aux){
-												#pragma omp atomic write
-													mBG[(size_t) (Ly*yii+xii)] = load;
+												#pragma omp critical
+												{
+													if (load > mBG[(size_t) (Ly*yii+xii)]) {
+														#pragma omp atomic write
+															mBG[(size_t) (Ly*yii+xii)] = load;
+													}
+												}
 											}
 										}
 										else
-- 
2.43.0


From 316c3e08fef2a218a839040a331f66d3f5b722ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 54/57] fix: the mask read labels while other threads were
 updating them

---
 lib/spectrum/spectrum.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 3a3022a..701edee 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -603,7 +603,10 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 					short aux;
 					short load;
 					/* Signals by any defect */
-					if (strdaa[idx] & DEFECT_LABEL){
+					char label;
+					#pragma omp atomic read
+						label = strdaa[idx];
+					if (label & DEFECT_LABEL){
 
 						int rzmin = -rz;
 						int rzmax = rz;
@@ -695,7 +698,10 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 					size_t idx = zi + yi + x;
 
 					/* Signals by any defect */
-					if (strdaa[idx] & DEFECT_LABEL){
+					char label;
+					#pragma omp atomic read
+						label = strdaa[idx];
+					if (label & DEFECT_LABEL){
 						for (int dz = -rz; dz <= rz; dz++) {
 							double raux = radius_mask*radius_mask- (double) ((dz)*(dz));
 							int ry = inflsq(raux);
-- 
2.43.0


From 9b8198fff1c0fd612161e936407bb0efceb11ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 55/57] fix: debug output of the spectral angle propagator read
 sites of other threads

---
 include/propagator/fsPropThetaXeon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/propagator/fsPropThetaXeon.h b/include/propagator/fsPropThetaXeon.h
index 53c48a8..0a4e0c4 100644
--- a/include/propagator/fsPropThetaXeon.h
+++ b/include/propagator/fsPropThetaXeon.h
@@ -263,7 +263,7 @@ if (debug)  LogOut("[aa] idx %lu (%.1f %.1f %.1f %.1f %.1f %.1f %.1f %.1f) \n",i
 						// store
 				opCode(store_ps, &v[idxc], vV);
 				opCode(store_ps, &m[idxc], mV);
-if (debug) LogOut("[aa] m (%.2e, %.2e),(%.2e, %.2e) v (%.2e, %.2e),(%.2e, %.2e) \n",m[idx],m[idx+1],m[idx+2],m[idx+3],v[idx],v[idx+1],v[idx+2],v[idx+3]);
+if (debug) LogOut("[aa] m (%.2e, %.2e),(%.2e, %.2e) v (%.2e, %.2e),(%.2e, %.2e) \n",m[idxc],m[idxc+1],m[idxc+2],m[idxc+3],v[idxc],v[idxc+1],v[idxc+2],v[idxc+3]);
 			}
 		} //end parallel
 		// problem with 000 (division/pV) gives nAn,
-- 
2.43.0


From 3210888c33a70fd53af91c8eb6b2f9ad8f31974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:43 +0000
Subject: [PATCH 56/57] fix: threads shared the groups of axiton candidates
 while filling them

---
 include/axiton/trackerClass.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index bae8428..0d86716 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -530,7 +530,6 @@
 			STRING_XY_POSITIVE = point in the group
 			STRING_MASK        = point belonging to some group (from SearchAxitons)*/
 
-			#pragma omp parallel for schedule(static) shared(groupId)
 			for (int iidx = 0 ; iidx < cidxlist.size(); iidx++)
 			{
 				/* Finds the idx of the tagged point in the tracker list */
-- 
2.43.0


From 34ef1be7838f5d008ec57f26ec328e5ddc097046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 57/57] fix: every thread wrote the number of processors and
 threads

---
 lib/comms/comms.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/comms/comms.cpp b/lib/comms/comms.cpp
index b97950a..cad32e3 100644
--- a/lib/comms/comms.cpp
+++ b/lib/comms/comms.cpp
@@ -233,6 +233,7 @@ int	initComms (int argc, char *argv[], int size, DeviceType dev, LogMpi logMpi,
 	int nProcs, mThreads;
 
 	#pragma omp parallel
+	#pragma omp single
 	{
 		nProcs   = omp_get_num_procs();
 		nThreads = omp_get_num_threads();
-- 
2.43.0

