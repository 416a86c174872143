From 4c9ec1be6841ac554eb70caf666a10dc0b41577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 001/147] fix: RemoveProcess returns whether the process was
 present, and does not erase end()

---
 Merlin++/ProcessStepManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index 892c14e..dffa006 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -173,8 +173,12 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
 {
 	proc_itor p = find(processTable.begin(), processTable.end(), aProcess);
-	p = processTable.erase(p);
-	return p != processTable.end();
+	if(p == processTable.end())
+	{
+		return false;
+	}
+	processTable.erase(p);
+	return true;
 }
 
 void ProcessStepManager::ClearProcesses()
-- 
2.43.0


From c1e32733a0a575b2d6ca57f213fec77d22b5f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:10 +0000
Subject: [PATCH 002/147] fix: inside collimators, drift back and scatter over
 the distance actually travelled, not the nominal bin

---
 Merlin++/CollimateParticleProcess.cpp | 31 ++++++++++++---------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index b07b188..f5cb434 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -103,6 +103,7 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 	{
 		currentComponent = &component;
 		s = 0;
+		int_s = 0;
 		Collimator* aCollimator = dynamic_cast<Collimator*>(&component);
 
 		const CollimatorAperture* tap = dynamic_cast<const CollimatorAperture*> (currentComponent->GetAperture());
@@ -146,8 +147,6 @@ void CollimateParticleProcess::DoProcess(double ds)
 
 	if(fequal(s, next_s))
 	{
-		//This lets the scattering routine know how far down the collimator we are for aperture checking inside the scattering step.
-		int_s = s - ds;
 		DoCollimation();
 		SetNextS();
 	}
@@ -162,14 +161,7 @@ void CollimateParticleProcess::DoProcess(double ds)
 
 double CollimateParticleProcess::GetMaxAllowedStepSize() const
 {
-	if(!is_collimator)
-	{
-		return next_s - s;
-	}
-	else
-	{
-		return bin_size;
-	}
+	return next_s - s;
 }
 
 void CollimateParticleProcess::IndexParticles(bool index)
@@ -205,6 +197,9 @@ void CollimateParticleProcess::DoCollimation()
 	//The aperture of this element
 	const Aperture *ap = currentComponent->GetAperture();
 
+	// Distance travelled since the last collimation: the bunch is drifted back by this much inside collimators
+	const double bin_length = s - int_s;
+
 	// If there are no losses there is no need to go through the expensive
 	// process of copying all the particles to a new bunch. So check first
 	bool any_loss = false;
@@ -214,7 +209,7 @@ void CollimateParticleProcess::DoCollimation()
 
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end(); p++)
 		{
-			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin_size * (*p).xp(), (*p).y() - bin_size * (*p).yp(), s))
+			if(!ap->CheckWithinApertureBoundaries((*p).x() - bin_length * (*p).xp(), (*p).y() - bin_length * (*p).yp(), s))
 			{
 				any_loss = true;
 				first_loss = p - currentBunch->begin();
@@ -261,8 +256,8 @@ void CollimateParticleProcess::DoCollimation()
 	{
 		for(PSvectorArray::iterator p = currentBunch->begin(); p != currentBunch->end();)
 		{
-			(*p).x() -= bin_size * (*p).xp();
-			(*p).y() -= bin_size * (*p).yp();
+			(*p).x() -= bin_length * (*p).xp();
+			(*p).y() -= bin_length * (*p).yp();
 			p++;
 		}
 	}
@@ -284,7 +279,7 @@ void CollimateParticleProcess::DoCollimation()
 			{
 				if(is_collimator)
 				{
-					(*p).ct() += (s - bin_size);
+					(*p).ct() += int_s;
 				}
 
 				lost.push_back(*p);
@@ -315,8 +310,8 @@ void CollimateParticleProcess::DoCollimation()
 		{
 			if(is_collimator)
 			{
-				(*p).x() += bin_size * (*p).xp();
-				(*p).y() += bin_size * (*p).yp();
+				(*p).x() += bin_length * (*p).xp();
+				(*p).y() += bin_length * (*p).yp();
 			}
 
 			//Not interacting with the collimator: "Inside" the aperture; particle lives
@@ -502,7 +497,9 @@ void CollimateParticleProcess::SetNextS()
 
 	if(is_collimator)
 	{
-		active = true;
+		//This lets the scattering routine know how far down the collimator we are for aperture checking inside the scattering step.
+		int_s = s;
+		active = s < currentComponent->GetLength();
 		if((s + bin_size) > currentComponent->GetLength())
 		{
 			next_s = currentComponent->GetLength();
-- 
2.43.0


From 637d572c3f3fb2eb158a75a26a4298a26b4f8160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:06 +0000
Subject: [PATCH 003/147] fix: CollimateParticleProcess deletes only index
 lists it allocated

---
 Merlin++/CollimateParticleProcess.cpp | 14 ++++++++++----
 Merlin++/CollimateParticleProcess.h   |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index f5cb434..d6df69a 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -52,14 +52,14 @@ namespace ParticleTracking
 
 CollimateParticleProcess::CollimateParticleProcess(int priority, int mode, std::ostream* osp) :
 	ParticleBunchProcess("PARTICLE COLLIMATION", priority), cmode(mode), os(osp), createLossFiles(false), file_prefix(
-		""), lossThreshold(1), nstart(0), pindex(nullptr), ColParProTurn(0), FirstElementSet(0), scatter(false),
+		""), lossThreshold(1), nstart(0), pindex(nullptr), own_index(false), ColParProTurn(0), FirstElementSet(0), scatter(false),
 	bin_size(0.1 * PhysicalUnits::meter), Imperfections(false)
 {
 }
 
 CollimateParticleProcess::~CollimateParticleProcess()
 {
-	if(pindex != nullptr)
+	if(own_index)
 	{
 		delete pindex;
 	}
@@ -169,22 +169,28 @@ void CollimateParticleProcess::IndexParticles(bool index)
 	if(index && pindex == nullptr)
 	{
 		pindex = new list<size_t>;
+		own_index = true;
 	}
 	else if(!index && pindex != nullptr)
 	{
-		delete pindex;
+		if(own_index)
+		{
+			delete pindex;
+		}
 		pindex = nullptr;
+		own_index = false;
 	}
 }
 
 void CollimateParticleProcess::IndexParticles(list<size_t>& anIndex)
 {
-	if(!pindex)
+	if(own_index)
 	{
 		delete pindex;
 	}
 
 	pindex = &anIndex;
+	own_index = false;
 }
 
 void CollimateParticleProcess::SetLossThreshold(double losspc)
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 119c680..af1996f 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -167,6 +167,7 @@ protected:
 	double lossThreshold;
 	size_t nstart;
 	std::list<size_t>* pindex;
+	bool own_index;         ///< true if this process allocated the list
 
 	IDTBL idtbl;
 
-- 
2.43.0


From 3bc345d8dc8a22b5d76e160c8ea556ff2096e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:08 +0000
Subject: [PATCH 004/147] fix: track lost particles with the right charge when
 the whole bunch is lost

---
 Merlin++/CollimateParticleProcess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index d6df69a..10ac697 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -251,9 +251,10 @@ void CollimateParticleProcess::DoCollimation()
 		ip = pindex->begin();
 	}
 
+	const double macroCharge = currentBunch->GetTotalCharge() / currentBunch->size();
+
 	//For copying surviving particles to, which is faster than deleting the individual lost particles
-	ParticleBunch* NewBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), currentBunch->GetTotalCharge()
-		/ currentBunch->size());
+	ParticleBunch* NewBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), macroCharge);
 	NewBunch->reserve(currentBunch->size());
 
 	size_t particle_number = 0;
@@ -343,8 +344,7 @@ void CollimateParticleProcess::DoCollimation()
 	if(LostParticlePositions.size() != 0 && !is_collimator)
 	{
 		//make a new particle bunch to track the lost particles
-		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(),
-			currentBunch->GetTotalCharge() / currentBunch->size());
+		ParticleBunch* LostBunch = new ParticleBunch(currentBunch->GetReferenceMomentum(), macroCharge);
 		double length = currentComponent->GetLength();
 		//If we are dealing with a non-zero length element, we must do tracking
 		if(length != 0)
-- 
2.43.0


From dfad333b738a444308591d27134c5192fbb03b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 005/147] fix: collimating at several positions in one element
 no longer reads an emptied input array

---
 Merlin++/CollimateParticleProcess.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 10ac697..64054bb 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -467,8 +467,25 @@ void CollimateParticleProcess::DoCollimation()
 	// Old loss output - depreciated due to CollimationOutput
 	//DoOutput(lost,lost_i);
 
-	//make sure to clear up
-	InputArray.clear();             //The input array
+	//The input array keeps the surviving particles, there can be another collimation in this element
+	if(!is_collimator)
+	{
+		PSvectorArray survivors;
+		survivors.reserve(currentBunch->size());
+		vector<unsigned int>::const_iterator lp = LostParticlePositions.begin();
+		for(size_t n = 0; n < InputArray.size(); n++)
+		{
+			if(lp != LostParticlePositions.end() && *lp == n)
+			{
+				++lp;
+			}
+			else
+			{
+				survivors.push_back(InputArray[n]);
+			}
+		}
+		InputArray.swap(survivors);
+	}
 	LostParticlePositions.clear();  //A list of particles we want to use in the input array
 
 	if(double(nlost) / double(nstart) >= lossThreshold)
-- 
2.43.0


From 014fcc00bad90941943066051136ca976a07940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:05 +0000
Subject: [PATCH 006/147] fix: copied materials have a defined interaction
 length (AC150K used uninitialised memory)

---
 Merlin++/MaterialData.cpp       | 1 +
 Merlin++/MaterialProperties.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index a8b2ebf..3548c92 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -58,6 +58,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 	property["AC150K"] = new MaterialProperties(*property["C"]);
 	property["AC150K"]->dEdx = 0.68;
 	property["AC150K"]->density = 1.650 * gram / cc;
+	property["AC150K"]->Update();
 
 	MakeMixture("IT180", "W Ni Cu", 0.95, 0.35, 0.15, 18.06 * gram / cc);
 
diff --git a/Merlin++/MaterialProperties.cpp b/Merlin++/MaterialProperties.cpp
index 7af3b40..3484c60 100644
--- a/Merlin++/MaterialProperties.cpp
+++ b/Merlin++/MaterialProperties.cpp
@@ -62,6 +62,7 @@ MaterialProperties::MaterialProperties(const MaterialProperties& a)
 	X0 = a.X0;
 	Z = a.Z;
 	extra = new  map<string, double>(*a.extra); // deep copy. Deleted by dtor
+	Update();
 }
 
 MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
@@ -77,6 +78,7 @@ MaterialProperties& MaterialProperties::operator=(const MaterialProperties& a)
 		X0 = a.X0;
 		Z = a.Z;
 		extra = new  map<string, double>(*a.extra);   //deep copy. deleted by dtor
+		Update();
 	}
 	return *this;
 }
-- 
2.43.0


From 81412ee66544321ec6bcc60185b571daf1289bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 007/147] fix: UseSixTrackValues read past the end of its
 cross-section table

---
 Merlin++/MaterialData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/MaterialData.cpp b/Merlin++/MaterialData.cpp
index 3548c92..83be6e3 100644
--- a/Merlin++/MaterialData.cpp
+++ b/Merlin++/MaterialData.cpp
@@ -69,7 +69,7 @@ StandardMaterialData::StandardMaterialData()   // constructor
 
 void StandardMaterialData::UseSixTrackValues()
 {
-	string names3[] = {"Be", "C", "Al", "Fe", "Cu", "W", "Pb"};
+	string names3[] = {"Be", "C", "Cu", "W", "Pb"};
 	double sixtracktotnu[] = {0.268, .331, 1.232, 2.767, 2.960};
 	for(int i = 0; i < int(sizeof(names3) / sizeof(string)); i++)
 		property[names3[i]]->sigma_T = sixtracktotnu[i];
-- 
2.43.0


From cc828ca443ecd3c80703529a17d00aea08a62072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:13 +0000
Subject: [PATCH 008/147] fix: record losses in zero-length elements and losses
 first found at the collimation position itself

---
 Merlin++/CollimateParticleProcess.cpp | 59 ++++++++++++++++-----------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 64054bb..277fa18 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -366,14 +366,15 @@ void CollimateParticleProcess::DoCollimation()
 			//Prepare the tracker to use the current accelerator component
 			currentComponent->PrepareTracker(*LostParticleTracker);
 
-			//While we are still inside the component
-			while((LostParticleTracker->GetRemainingLength()) >= 0 && LostBunch->size() != 0)
+			//While we have not reached the position where these particles are known to be outside
+			while(LostBunch->size() != 0)
 			{
 				double StepSize = bin_size;
-				//If the remaining length of component is less than the step size, set the step size to this value
-				if((LostParticleTracker->GetRemainingLength() - StepSize) < 0)
+				const double Remaining = s - LostParticleTracker->GetIntegratedLength();
+				//If the remaining distance is less than the step size, set the step size to this value
+				if((Remaining - StepSize) < 0)
 				{
-					StepSize = LostParticleTracker->GetRemainingLength();
+					StepSize = Remaining;
 				}
 
 				//Track the appropriate step length
@@ -423,30 +424,31 @@ void CollimateParticleProcess::DoCollimation()
 				}
 
 				//Now move forward...
-				if((LostParticleTracker->GetRemainingLength()) > 0)
-				{
-					LostParticleTracker->TrackStep(StepSize);
-				}
-				if(LostParticleTracker->GetRemainingLength() == 0)
+				if(StepSize <= 0 || fequal(LostParticleTracker->GetRemainingLength(), 0))
 				{
 					break;
 				}
+				LostParticleTracker->TrackStep(StepSize);
 			}
 
-			//If there is anything left - possible bug.
-			if(LostBunch->size() != 0)
+			//Anything left was inside at every step before the position of this collimation, but is outside here
+			for(PSvectorArray::iterator p = LostBunch->begin(); p != LostBunch->end(); p++)
 			{
-				std::cout << "POSSIBLE BUG: Leftovers: " << LostBunch->size() << "\t"
-						  << currentComponent->GetQualifiedName() << "\t"
-						  << LostParticleTracker->GetIntegratedLength() << "\t" << length << std::endl;
-				for(PSvectorArray::iterator p = LostBunch->begin(); p != LostBunch->end(); p++)
+				const double IntegratedLength = LostParticleTracker->GetIntegratedLength();
+				(*p).ct() += IntegratedLength;
+				if((*p).ct() < 0)
 				{
-					(*p).ct() += LostParticleTracker->GetIntegratedLength();
-					if((*p).ct() > length)
-					{
-						(*p).ct() = length;
-					}
-					lost.push_back(*p);
+					(*p).ct() = 0;
+				}
+				if((*p).ct() > length)
+				{
+					(*p).ct() = length;
+				}
+				lost.push_back(*p);
+
+				for(auto &OutIt : CollimationOutputVector)
+				{
+					OutIt->Dispose(*currentComponent, IntegratedLength, (*p), ColParProTurn);
 				}
 			}
 
@@ -455,8 +457,19 @@ void CollimateParticleProcess::DoCollimation()
 			//and the "lost particle bunch"
 			delete LostBunch;
 		}
-		//if the element has zero length nothing needs to be done since all the losses will have occurred at the same point anyway.
+		//if the element has zero length no tracking is needed since all the losses will have occurred at the same point anyway.
 		//So PSvectorArray loss will contain the correct information
+		else
+		{
+			for(PSvectorArray::iterator p = lost.begin(); p != lost.end(); p++)
+			{
+				for(auto &OutIt : CollimationOutputVector)
+				{
+					OutIt->Dispose(*currentComponent, 0, (*p), ColParProTurn);
+				}
+			}
+			delete LostBunch;
+		}
 	}
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 41a766296ea2d6f8c954a1cfae012da6afefee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 009/147] fix: loss maps count the first loss once, and can be
 finalised repeatedly

---
 Merlin++/LossMapCollimationOutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index a0beddf..64b83c3 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -78,6 +78,9 @@ LossMapCollimationOutput::LossMapCollimationOutput(OutputType ot)
 
 void LossMapCollimationOutput::Finalise()
 {
+	// The map is made from all losses so far, whether or not it was finalised before
+	OutputLosses.clear();
+
 	//First sort DeadParticles according to s
 	sort(DeadParticles.begin(), DeadParticles.end(), Compare_LossData);
 
@@ -99,7 +102,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If old element ++loss
-			if(it->ElementName == OutputLosses[outit].ElementName)
+			else if(it->ElementName == OutputLosses[outit].ElementName)
 			{
 				OutputLosses[outit].lost += 1;
 			}
@@ -122,7 +125,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If position is equal
-			if(it->position == OutputLosses[outit].position)
+			else if(it->position == OutputLosses[outit].position)
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From 830356b65b41d118b3505a09e65de15feb12f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:08 +0000
Subject: [PATCH 010/147] fix: the precise loss map does not merge losses of
 two elements that meet at one position

---
 Merlin++/LossMapCollimationOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index 64b83c3..ea39047 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -125,7 +125,7 @@ void LossMapCollimationOutput::Finalise()
 			}
 
 			// If position is equal
-			else if(it->position == OutputLosses[outit].position)
+			else if(it->ElementName == OutputLosses[outit].ElementName && it->position == OutputLosses[outit].position)
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From e208bac91127921fb50031942ad70e0c4ff1499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:32 +0000
Subject: [PATCH 011/147] fix: headings of the detailed collimation output
 match its columns

---
 Merlin++/DetailedCollimationOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/DetailedCollimationOutput.cpp b/Merlin++/DetailedCollimationOutput.cpp
index f446ea2..f501118 100644
--- a/Merlin++/DetailedCollimationOutput.cpp
+++ b/Merlin++/DetailedCollimationOutput.cpp
@@ -41,7 +41,7 @@ void DetailedCollimationOutput::Dispose(AcceleratorComponent& currcomponent, dou
 
 void DetailedCollimationOutput::Output(std::ostream* os)
 {
-	(*os) << "#name s pos x xp y yp type id location turn" << std::endl;
+	(*os) << "#name s pos x xp y yp id turn" << std::endl;
 	for(auto its = DeadParticles.begin(); its != DeadParticles.end(); ++its)
 	{
 		(*os) << std::setw(16) << std::left << its->ElementName;
-- 
2.43.0


From bf7211247859f2d6f774badbc4b7ebecbdd8962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:15 +0000
Subject: [PATCH 012/147] fix: record every absorbed proton, at the depth it
 reached

---
 Merlin++/CollimateProtonProcess.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CollimateProtonProcess.cpp b/Merlin++/CollimateProtonProcess.cpp
index 9725362..4de1fcc 100644
--- a/Merlin++/CollimateProtonProcess.cpp
+++ b/Merlin++/CollimateProtonProcess.cpp
@@ -138,6 +138,13 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 		if((E2 < (E0 / 100.0)))
 		{
+			p.ct() = z;
+
+			for(auto &OutIt : CollimationOutputVector)
+			{
+				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+			}
+
 			return ScatterOutcome::absorbed;
 		}
 
@@ -177,7 +184,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 				for(auto &OutIt : CollimationOutputVector)
 				{
-					OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+					OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 				}
 
 				return ScatterOutcome::absorbed;
@@ -190,7 +197,7 @@ CollimateParticleProcess::ScatterOutcome CollimateProtonProcess::DoScatter(Parti
 
 			for(auto &OutIt : CollimationOutputVector)
 			{
-				OutIt->Dispose(*currentComponent, (z + zstep), p, ColParProTurn);
+				OutIt->Dispose(*currentComponent, z, p, ColParProTurn);
 			}
 			return ScatterOutcome::absorbed;
 		}
-- 
2.43.0


From 8b56e8bcf0f853f397a3732594d31c681aa31dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:43 +0000
Subject: [PATCH 013/147] fix: particles absorbed by a collimator without a
 scattering routine are recorded as lost

---
 Merlin++/CollimateParticleProcess.cpp | 10 ++++++++++
 Merlin++/CollimateParticleProcess.h   |  5 +----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 277fa18..3579886 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -508,6 +508,16 @@ void CollimateParticleProcess::DoCollimation()
 	}
 }
 
+CollimateParticleProcess::ScatterOutcome CollimateParticleProcess::DoScatter(Particle& p)
+{
+	// No scattering: the particle is lost where it meets the jaw
+	for(auto &OutIt : CollimationOutputVector)
+	{
+		OutIt->Dispose(*currentComponent, int_s, p, ColParProTurn);
+	}
+	return ScatterOutcome::absorbed;
+}
+
 void CollimateParticleProcess::SetNextS()
 {
 
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index af1996f..92a6bf2 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -222,10 +222,7 @@ private:
 	 *
 	 * Can be overridden with a scattering routine, for example in CollimateProtonProcess
 	 */
-	virtual ScatterOutcome DoScatter(Particle&)
-	{
-		return ScatterOutcome::absorbed;
-	}
+	virtual ScatterOutcome DoScatter(Particle&);
 
 	/**
 	 * A list of particles we want to use in the input array
-- 
2.43.0


From 620e80983939a2d8c3c81b0f12419ac6d3b89db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:06 +0000
Subject: [PATCH 014/147] fix: apply entrance and exit field maps once per
 passage, also after zero-length steps

---
 Merlin++/ComponentIntegrator.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ComponentIntegrator.h b/Merlin++/ComponentIntegrator.h
index 1e8f60f..c8d1eff 100644
--- a/Merlin++/ComponentIntegrator.h
+++ b/Merlin++/ComponentIntegrator.h
@@ -121,6 +121,8 @@ private:
 
 	double cur_S; ///< current integrated length
 	double tot_S; ///< total length
+	bool entered; ///< entrance field map applied
+	bool exited;  ///< exit field map applied
 
 	/**
 	 *  The current component
@@ -133,7 +135,7 @@ private:
 };
 
 inline ComponentIntegrator::ComponentIntegrator() :
-	cur_S(0), tot_S(0), component(nullptr)
+	cur_S(0), tot_S(0), entered(false), exited(false), component(nullptr)
 {
 }
 
@@ -151,6 +153,7 @@ inline void ComponentIntegrator::SetCurrentComponent(AcceleratorComponent& aComp
 	component = &aComponent;
 	cur_S = 0;
 	tot_S = component->GetLength();
+	entered = exited = false;
 }
 
 inline double ComponentIntegrator::GetIntegratedLength() const
@@ -171,16 +174,19 @@ inline bool ComponentIntegrator::IsValidStep(double ds) const
 
 inline double ComponentIntegrator::Track(double ds)
 {
-	if(AtEntrance())
+	// There can be several steps at the entrance or at the exit, if they have zero length
+	if(AtEntrance() && !entered)
 	{
+		entered = true;
 		TrackEntrance();
 	}
 
 	TrackStep(ds);
 	cur_S += ds;
 
-	if(AtExit())
+	if(AtExit() && !exited)
 	{
+		exited = true;
 		TrackExit();
 	}
 
-- 
2.43.0


From a1d099fd89e76ff3515db3f441fcc182bffea094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 015/147] fix: transverse RF kick moves the particle by half
 the kick angle times the length, not one and a half

---
 Merlin++/TransRFIntegrator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransRFIntegrator.cpp b/Merlin++/TransRFIntegrator.cpp
index c8ce445..899e308 100644
--- a/Merlin++/TransRFIntegrator.cpp
+++ b/Merlin++/TransRFIntegrator.cpp
@@ -36,10 +36,11 @@ struct TRFMap
 		double cx2 = 0.5 * cx1 * len;
 		double cy2 = 0.5 * cy1 * len;
 
-		x.xp() += cx1;
+		// the positions change with the angles at the entrance of the step
 		x.x() += cx2 + len * x.xp();
-		x.yp() += cy1;
+		x.xp() += cx1;
 		x.y() += cy2 + len * x.yp();
+		x.yp() += cy1;
 	}
 
 };
-- 
2.43.0


From 374912178546d4ec08ae2c2e40a6b8f7b15acfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:46 +0000
Subject: [PATCH 016/147] fix: ComponentTracker::TrackStep returns the
 remaining distance, as documented

---
 Merlin++/ComponentTracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ComponentTracker.cpp b/Merlin++/ComponentTracker.cpp
index 865e486..b31e1f6 100644
--- a/Merlin++/ComponentTracker.cpp
+++ b/Merlin++/ComponentTracker.cpp
@@ -105,7 +105,7 @@ double ComponentTracker::TrackStep(double ds)
 
 	double sToExit = integrator->Track(ds);
 	itsState = fequal(sToExit, 0) ? finished : tracking;
-	return itsState;
+	return sToExit;
 }
 
 void ComponentTracker::Reset()
-- 
2.43.0


From 95422e3e5fe00d1af5e5a7321334db90d39dca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:37 +0000
Subject: [PATCH 017/147] fix: LUfactor sizes its pivot array (constructing a
 WakeFieldProcess wrote through a null pointer)

---
 Merlin++/TLASimp.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 49d6d94..f94b82e 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -239,6 +239,7 @@ void LUfactor(Matrix<T>& M, std::vector<int>& pivot, T& sign)
 	const int n = M.ncols();
 
 	std::vector<T> scale(n);
+	pivot.resize(n);
 
 	sign = 1.0;
 	for(int i = 0; i < n; i++)
-- 
2.43.0


From 2aee90926214a34b0ee1d4304381c50c72cd2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:58 +0000
Subject: [PATCH 018/147] fix: charge-slope filter stays inside its window and
 the bins

---
 Merlin++/ParticleBunchUtilities.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b2e1d08..b03eab0 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -135,8 +135,7 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 	{
 		fbins[n] = hbins[n] * a;
 		if(c)
-			//for(m=std::max(0,int(n)-w); m<=std::max(nbins,int(n)+w); m++)// ERROR! m can be set to nbins -> out of range!
-			for(m = std::max(0, int(n) - w); m < std::max(nbins, size_t(n) + w); m++)   // This needs to be checked!
+			for(m = std::max(0, int(n) - w); m < std::min(nbins, n + w + 1); m++)
 			{
 				fpbins[n] += hbins[m] * (*c)[m - n + w] * a;
 			}
-- 
2.43.0


From 9678ad940947dacb6bd3265fee73630b8323a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 019/147] fix: MonitorProcess writes once per passage, at the
 end of the element

---
 Merlin++/MonitorProcess.cpp | 13 +++++++++++++
 Merlin++/MonitorProcess.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/Merlin++/MonitorProcess.cpp b/Merlin++/MonitorProcess.cpp
index 5a431b1..848e214 100644
--- a/Merlin++/MonitorProcess.cpp
+++ b/Merlin++/MonitorProcess.cpp
@@ -9,6 +9,7 @@
 #include "AcceleratorComponent.h"
 #include <fstream>
 #include "ParticleBunchProcess.h"
+#include "utils.h"
 
 using namespace std;
 using namespace ParticleTracking;
@@ -19,6 +20,7 @@ MonitorProcess::MonitorProcess(const string& aID, int prio, const string& prefix
 	active = true;
 	file_prefix = prefix;
 	count = 1;
+	current_s = 0;
 }
 
 void MonitorProcess::SetPrefix(const string& prefix)
@@ -41,6 +43,16 @@ void MonitorProcess::InitialiseProcess(Bunch& bunch)
 }
 void MonitorProcess::DoProcess(const double ds)
 {
+	// Other processes may cut the component into several steps:
+	// record once, when its end is reached
+	const double length = currentComponent->GetLength();
+	current_s += ds;
+	if(!fequal(current_s, length, 1e-12 * length))
+	{
+		return;
+	}
+	active = false;
+
 	string filename;
 	filename = file_prefix + currentComponent->GetName() + "_" + to_string(count);
 
@@ -73,6 +85,7 @@ double MonitorProcess::GetMaxAllowedStepSize() const
 void MonitorProcess::SetCurrentComponent(AcceleratorComponent& component)
 {
 	currentComponent = &component;
+	current_s = 0;
 	string name = currentComponent->GetName();
 	// active if current component name in dump_at_elements
 	active = any_of(dump_at_elements.begin(), dump_at_elements.end(), [&name](string &s){
diff --git a/Merlin++/MonitorProcess.h b/Merlin++/MonitorProcess.h
index 5dd24d7..0868733 100644
--- a/Merlin++/MonitorProcess.h
+++ b/Merlin++/MonitorProcess.h
@@ -27,6 +27,7 @@ private:
 	std::vector<std::string> dump_at_elements;
 	std::string file_prefix;
 	unsigned int count;
+	double current_s;
 
 public:
 	/**
-- 
2.43.0


From ba6e732812c89bfdbb95614b11303dc8094550f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:46 +0000
Subject: [PATCH 020/147] fix: synchrotron radiation kicks are not lost to
 rounding of the step position

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 2fec477..444f8bd 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -167,7 +167,7 @@ void SynchRadParticleProcess::SetCurrentComponent(AcceleratorComponent& componen
 void SynchRadParticleProcess::DoProcess(double ds)
 {
 
-	if(fequal(intS += ds, (nk1 + 1) * dL))
+	if(fequal(intS += ds, (nk1 + 1) * dL, 1e-9 * dL))
 	{
 		double E0 = currentBunch->GetReferenceMomentum();
 		double meanU = for_each(
-- 
2.43.0


From 07d10f2c0fd2b4e9b76f265356896bc5514efec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:23 +0000
Subject: [PATCH 021/147] fix: the electron lens kicks and counts its turn once
 per passage

---
 Merlin++/HollowELensProcess.cpp | 13 ++++++++++++-
 Merlin++/HollowELensProcess.h   |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/Merlin++/HollowELensProcess.cpp b/Merlin++/HollowELensProcess.cpp
index d1e296c..9817015 100644
--- a/Merlin++/HollowELensProcess.cpp
+++ b/Merlin++/HollowELensProcess.cpp
@@ -44,6 +44,7 @@ void HollowELensProcess::SetCurrentComponent(AcceleratorComponent& component)
 	{
 		currentComponent = &component;
 		currentComponentHEL = aHollowELens;
+		current_s = 0;
 
 		double Gamma_p = LorentzGamma(currentBunch->GetReferenceMomentum(), ProtonMass);
 		ProtonBeta = LorentzBeta(Gamma_p);
@@ -54,8 +55,18 @@ void HollowELensProcess::SetCurrentComponent(AcceleratorComponent& component)
 	}
 }
 
-void HollowELensProcess::DoProcess(double /*ds*/)
+void HollowELensProcess::DoProcess(double ds)
 {
+	// Other processes may cut the lens into several steps: the kick is that of
+	// the whole lens, and is applied once, when its end is reached
+	const double length = currentComponent->GetLength();
+	current_s += ds;
+	if(!fequal(current_s, length, 1e-12 * length))
+	{
+		return;
+	}
+	active = false;
+
 	// NB
 	// CalcThetaMax returns +ve theta
 	// CalcKick Radial and Simple return -ve theta
diff --git a/Merlin++/HollowELensProcess.h b/Merlin++/HollowELensProcess.h
index 3bcd349..b7a506a 100644
--- a/Merlin++/HollowELensProcess.h
+++ b/Merlin++/HollowELensProcess.h
@@ -80,6 +80,7 @@ private:
 	// Data Members for Class Attributes
 	HollowElectronLens* currentComponentHEL;
 	double ProtonBeta;
+	double current_s;
 };
 
 } // end namespace ParticleTracking
-- 
2.43.0


From 99bcb53a09b984d1ea5df91580c09da051a997d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:48 +0000
Subject: [PATCH 022/147] fix: monitors make exactly one reading per passage,
 also when cut into steps or measuring at their exit

---
 Merlin++/StdIntegrators.cpp | 36 +++++++++++++++++++++---------------
 Merlin++/StdIntegrators.h   | 11 ++++++++++-
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index 4fd16e7..d1b597f 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -378,29 +378,35 @@ void SWRFStructureCI::TrackStep(double ds)
 } // end namespace THIN_LENS
 
 // Class MonitorCI
-void MonitorCI::TrackStep(double ds)
+void MonitorCI::TrackEntrance()
 {
+	measured = false;
+}
 
+void MonitorCI::TrackStep(double ds)
+{
 	double len = currentComponent->GetLength();
-	if(len == 0)
+	double mpt = currentComponent->GetMeasurementPt() + len / 2;
+	if(len != 0 && !measured && GetIntegratedLength() + ds > mpt)
 	{
-		assert(ds == 0);
+		double s1 = mpt - GetIntegratedLength();
+		ApplyDrift(currentBunch->GetParticles(), s1);
+		//				IncrStep(s1); // need to increment bunch timing
 		currentComponent->MakeMeasurement(*currentBunch);
+		measured = true;
+		ds -= s1;
 	}
-	else
+	ApplyDrift(currentBunch->GetParticles(), ds);
+}
+
+void MonitorCI::TrackExit()
+{
+	// zero-length monitors, and those that measure at their exit
+	if(!measured)
 	{
-		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
-		{
-			double s1 = mpt - GetIntegratedLength();
-			ApplyDrift(currentBunch->GetParticles(), s1);
-			//				IncrStep(s1); // need to increment bunch timing
-			currentComponent->MakeMeasurement(*currentBunch);
-			ds -= s1;
-		}
-		ApplyDrift(currentBunch->GetParticles(), ds);
+		currentComponent->MakeMeasurement(*currentBunch);
+		measured = true;
 	}
-	return;
 }
 
 // Class SolenoidCI
diff --git a/Merlin++/StdIntegrators.h b/Merlin++/StdIntegrators.h
index c7e134e..b5d9f2e 100644
--- a/Merlin++/StdIntegrators.h
+++ b/Merlin++/StdIntegrators.h
@@ -29,7 +29,16 @@ namespace ParticleTracking
 {
 
 // common integrators
-DECL_SIMPLE_INTG(MonitorCI, Monitor)
+class MonitorCI: public ParticleComponentTracker::Integrator<Monitor>
+{
+public:
+	void TrackStep(double);
+	void TrackEntrance();
+	void TrackExit();
+private:
+	bool measured; ///< reading for this passage made
+};
+
 DECL_SIMPLE_INTG(MarkerCI, Marker)
 DECL_SIMPLE_INTG(SolenoidCI, Solenoid)
 //DECL_SIMPLE_INTG(ParticleMapCI,ParticleMapComponent)
-- 
2.43.0


From 225e2f80b727d608d9b991ad8d03a808c276fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 023/147] fix: spin tracking ends its sub-steps and applies
 fringe fields once per passage

---
 Merlin++/SpinParticleProcess.cpp | 20 ++++++++++++++++----
 Merlin++/SpinParticleProcess.h   |  2 ++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index 22309eb..df835b4 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -191,6 +191,8 @@ void SpinParticleProcess::SetCurrentComponent(AcceleratorComponent& component)
 {
 	nk1 = 0;
 	intS = 0;
+	entered = false;
+	exited = false;
 
 	//Get current field of current component
 	currentField = component.GetEMField();
@@ -296,6 +298,12 @@ void SpinParticleProcess::DoProcess(double ds)
 		P0 = pspin;
 	}
 
+	// The fringe fields act once each, however the component is cut into steps
+	const bool atEntrance = !entered;
+	const bool atExit = !exited && fequal(intS + ds, clength, 1e-12 * clength);
+	entered = true;
+	exited = exited || atExit;
+
 	RotateSpinVector rot(isBend);
 
 	Vector3D b;
@@ -307,7 +315,7 @@ void SpinParticleProcess::DoProcess(double ds)
 		double norm = SpeedOfLight / brho / (1.0 + p->dp());
 		double gamma = P0 * (1.0 + p->dp()) / (ElectronMassMeV * MeV);
 
-		if(intS == 0)
+		if(atEntrance)
 		{
 
 			// Apply spin rotation from dipole entrance fringe field
@@ -353,7 +361,7 @@ void SpinParticleProcess::DoProcess(double ds)
 			rot.RotateSpin(b, ds, *spin, gamma);
 		}
 
-		if(fequal(intS + ds, clength))
+		if(atExit)
 		{
 
 			// Apply spin rotation from dipole exit fringe field
@@ -389,12 +397,16 @@ void SpinParticleProcess::DoProcess(double ds)
 	}
 
 	intS += ds;
-
+	if(nk1 + 1 < ns && fequal(intS, (nk1 + 1) * dL, 1e-9 * dL))
+	{
+		nk1++;
+	}
 }
 
 double SpinParticleProcess::GetMaxAllowedStepSize() const
 {
-	return (nk1 + 1) * dL - intS;
+	// the last step ends where the component does, whatever dL was rounded to
+	return (nk1 + 1 < ns ? (nk1 + 1) * dL : clength) - intS;
 }
 
 void SpinParticleProcess::SetNumComponentSteps(int n)
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index a981761..86515a7 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -88,6 +88,8 @@ private:
 	int nk1;
 	double dL;
 	double intS;
+	bool entered;
+	bool exited;
 	const SectorBend* sbend;
 	const Solenoid* solnd;
 	const EMField* currentField;
-- 
2.43.0


From 16dd9ae7baf6e9052182f3b10cc4415dd7aa99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:08 +0000
Subject: [PATCH 024/147] fix: seeding or resetting the generator restarts the
 local generators as well

---
 Merlin++/RandomNG.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 7b6dbf7..5dab377 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -41,6 +41,11 @@ void RandomNG::reset()
 {
 	std::seed_seq ss(master_seed.begin(), master_seed.end());
 	generator.reset(new std::mt19937_64{ss});
+	// local generators start again too; in place, as references to them are kept
+	for(auto& local : generator_store)
+	{
+		resetLocalGenerator(local.first);
+	}
 }
 
 void RandomNG::reset(std::uint32_t iseed)
-- 
2.43.0


From 0ca316c4623f4e086632aded19eb6c26c18ef431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:35 +0000
Subject: [PATCH 025/147] fix: photon spectrum uses the local generator itself,
 not a copy that re-seeding cannot reach

---
 Merlin++/PhotonSpectrumGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhotonSpectrumGen.cpp b/Merlin++/PhotonSpectrumGen.cpp
index 882b8e2..1833e8d 100644
--- a/Merlin++/PhotonSpectrumGen.cpp
+++ b/Merlin++/PhotonSpectrumGen.cpp
@@ -37,7 +37,7 @@ namespace
 
 double Ran1()
 {
-	static auto gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
+	static auto& gen = RandomNG::getLocalGenerator(hash_string("PhotonSpectrumGen"));
 	static auto dist = std::uniform_real_distribution<>{0.0, 1.0};
 	return dist(gen);
 }
-- 
2.43.0


From ff0b65cd91f24db678d4b2b915ba23d19f08a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:02 +0000
Subject: [PATCH 026/147] fix: getGenerator seeds an unseeded generator like
 the other accessors

---
 Merlin++/RandomNG.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Merlin++/RandomNG.cpp b/Merlin++/RandomNG.cpp
index 5dab377..ecb1167 100644
--- a/Merlin++/RandomNG.cpp
+++ b/Merlin++/RandomNG.cpp
@@ -126,6 +126,10 @@ double RandomNG::landau()
 
 std::mt19937_64& RandomNG::getGenerator()
 {
+	if(!generator)
+	{
+		not_seeded();
+	}
 	return *generator;
 }
 
-- 
2.43.0


From 9f3c66050c53d559f950f163df73061e4bca91ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 027/147] fix: radiation with a maximum step size is not
 switched off by another process's shorter step

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index 444f8bd..c4b14ee 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -185,7 +185,7 @@ void SynchRadParticleProcess::DoProcess(double ds)
 		}
 		nk1++;
 	}
-	active = nk1 != ns;
+	active = ns == 0 || nk1 != ns;
 
 }
 
-- 
2.43.0


From 3d72277cdb3ee975ec0d6b5d714e8905d163b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 028/147] fix: interpolated rect-ellipse apertures consider the
 half width at both ends

---
 Merlin++/InterpolatedApertures.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 75ba1bf..84fd9a9 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -101,7 +101,7 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 		}
 	}
 
-	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apFront.ap1, apBack.ap2, apBack.ap3,
+	double minDim = min({apFront.ap1, apFront.ap2, apFront.ap3, apFront.ap4, apBack.ap1, apBack.ap2, apBack.ap3,
 						 apBack.ap4});
 	if(ax + ay < minDim)
 	{
-- 
2.43.0


From 8314465258a52f80273dc35d584610b6386fe07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 029/147] fix: interpolated apertures continue with their last
 entry when rounding puts the position beyond it

---
 Merlin++/InterpolatedApertures.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 84fd9a9..70cef93 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -90,6 +90,10 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 	{
 		z = 0;
 	}
+	if(!ApList.empty() && z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	for(size_t n = 1; n < ApList.size(); ++n)
 	{
@@ -206,6 +210,10 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 	{
 		z = 0;
 	}
+	if(!ApList.empty() && z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
@@ -317,6 +325,10 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 	{
 		z = 0;
 	}
+	if(!ApList.empty() && z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
@@ -431,6 +443,10 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	{
 		z = 0;
 	}
+	if(!ApList.empty() && z > ApList.back().s)
+	{
+		z = ApList.back().s;
+	}
 	//The z coordinate is used to find the other aperture components
 	for(size_t n = 1; n < ApList.size(); n++)
 	{
-- 
2.43.0


From bd2f14ec0f1ff73bf85ebb6e64299241538f45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 030/147] fix: centred collimator jaws that close towards the
 exit are not judged by their entrance gap

---
 Merlin++/CollimatorAperture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/CollimatorAperture.cpp b/Merlin++/CollimatorAperture.cpp
index 2ef3891..dda59cf 100644
--- a/Merlin++/CollimatorAperture.cpp
+++ b/Merlin++/CollimatorAperture.cpp
@@ -25,7 +25,7 @@ inline bool CollimatorAperture::CheckWithinApertureBoundaries(double x, double y
 	{
 		double ax = fabs(x);
 		double ay = fabs(y);
-		if(ax + ay < minDim)
+		if(ax + ay < fmin(minDim, fmin(w_exit, h_exit) / 2))
 			return true;
 	}
 	double x_off = (z * (x_offset_entry - x_offset_exit) / CollimatorLength) - x_offset_entry;
-- 
2.43.0


From 53392f711c4b4f213cac95d66632ff586dcc5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 031/147] fix: collimation counts a turn when the first element
 itself comes round, not one of the same name

---
 Merlin++/CollimateParticleProcess.cpp | 7 +++----
 Merlin++/CollimateParticleProcess.h   | 3 +--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 3579886..69c4ae8 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -52,7 +52,7 @@ namespace ParticleTracking
 
 CollimateParticleProcess::CollimateParticleProcess(int priority, int mode, std::ostream* osp) :
 	ParticleBunchProcess("PARTICLE COLLIMATION", priority), cmode(mode), os(osp), createLossFiles(false), file_prefix(
-		""), lossThreshold(1), nstart(0), pindex(nullptr), own_index(false), ColParProTurn(0), FirstElementSet(0), scatter(false),
+		""), lossThreshold(1), nstart(0), pindex(nullptr), own_index(false), ColParProTurn(0), FirstElement(nullptr), FirstElementSet(0), scatter(false),
 	bin_size(0.1 * PhysicalUnits::meter), Imperfections(false)
 {
 }
@@ -88,12 +88,11 @@ void CollimateParticleProcess::SetCurrentComponent(AcceleratorComponent& compone
 {
 	if(!FirstElementSet)
 	{
-		FirstElementName = component.GetName();
-		FirstElementS = component.GetComponentLatticePosition();
+		FirstElement = &component;
 		FirstElementSet = 1;
 		ColParProTurn = 1;
 	}
-	else if(component.GetName() == FirstElementName && component.GetComponentLatticePosition() == FirstElementS)
+	else if(&component == FirstElement)
 	{
 		++ColParProTurn;
 	}
diff --git a/Merlin++/CollimateParticleProcess.h b/Merlin++/CollimateParticleProcess.h
index 92a6bf2..f0e4373 100644
--- a/Merlin++/CollimateParticleProcess.h
+++ b/Merlin++/CollimateParticleProcess.h
@@ -199,8 +199,7 @@ protected:
 	}
 
 	int ColParProTurn;
-	std::string FirstElementName;
-	double FirstElementS;
+	const AcceleratorComponent* FirstElement;
 	bool FirstElementSet;
 
 private:
-- 
2.43.0


From 8f237e947f1109d59a8f7f34cd7b5ccef59d70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 032/147] fix: the ten-centimetre loss map does not merge bins
 of adjacent elements with the same name

---
 Merlin++/LossMapCollimationOutput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index ea39047..96ed961 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -148,8 +148,8 @@ void LossMapCollimationOutput::Finalise()
 				OutputLosses[outit].lost = 1;
 			}
 			// If in the same bin ++loss
-			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->interval ==
-				OutputLosses[outit].interval))
+			else if((it->ElementName == OutputLosses[outit].ElementName) && (it->s == OutputLosses[outit].s)
+				&& (it->interval == OutputLosses[outit].interval))
 			{
 				OutputLosses[outit].lost += 1;
 			}
-- 
2.43.0


From ba0063aa63e811b45bf5c2b03eaf8b62962eae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 033/147] fix: a bend with only a skew quadrupole error does
 not turn coordinates into NaN

---
 Merlin++/TransportIntegrators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportIntegrators.cpp b/Merlin++/TransportIntegrators.cpp
index 3a316fd..32bea5f 100644
--- a/Merlin++/TransportIntegrators.cpp
+++ b/Merlin++/TransportIntegrators.cpp
@@ -244,7 +244,7 @@ void SectorBendCI::TrackStep(double ds)
 	double len = splitMagnet ? ds / 2.0 : ds;
 
 	// Construct the second-order map
-	RTMap* M = (abs(K1) == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
+	RTMap* M = (K1.real() == 0) ? SectorBendTM(len, h, gamma) : GenSectorBendTM(len, h, K1.real(), 0);
 
 	if(fequal(P0, Pref, REL_ENGY_TOL))
 	{
-- 
2.43.0


From 55f2475f7eedce4d64fa5549031bcae317110ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 034/147] fix: stepping through a beam line treats geometry
 patches and on-axis injection like a tracking run

---
 Merlin++/TrackingSimulation.cpp | 93 +++++++++++++++------------------
 Merlin++/TrackingSimulation.h   |  6 +++
 2 files changed, 48 insertions(+), 51 deletions(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index 417e17b..aa3843e 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -13,48 +13,52 @@
 namespace
 {
 
-template<class II>
-void PerformTracking(ProcessStepManager& aStepper, Bunch& aBunch, bool includeX, bool injOnAxis,
-	SimulationOutput* simop, II first, II last)
+// Track the bunch through one frame. first_frame is true for the first frame of a tracking run.
+void TrackFrame(ProcessStepManager& aStepper, Bunch& aBunch, bool includeX, bool injOnAxis,
+	SimulationOutput* simop, ComponentFrame* frame, bool first_frame)
 {
-	bool fb = true;
-	do
+	if(first_frame && injOnAxis)
 	{
-		ComponentFrame* frame = *first;
-
-		if(fb && injOnAxis)
-		{
-			std::cout << "ignoring first frame transformation" << std::endl;
-		}
+		std::cout << "ignoring first frame transformation" << std::endl;
+	}
 
-		if(includeX && !(fb && injOnAxis))
-		{
-			aBunch.ApplyTransformation(frame->GetEntrancePlaneTransform());
-		}
+	if(includeX && !(first_frame && injOnAxis))
+	{
+		aBunch.ApplyTransformation(frame->GetEntrancePlaneTransform());
+	}
 
-		if(const Transform3D* t = frame->GetEntranceGeometryPatch())
-		{
-			aBunch.ApplyTransformation(*t);
-		}
+	if(const Transform3D* t = frame->GetEntranceGeometryPatch())
+	{
+		aBunch.ApplyTransformation(*t);
+	}
 
-		if(frame->IsComponent())
-		{
-			aStepper.Track(frame->GetComponent());
-		}
-		if(const Transform3D* t = frame->GetExitGeometryPatch())
-		{
-			aBunch.ApplyTransformation(*t);
-		}
+	if(frame->IsComponent())
+	{
+		aStepper.Track(frame->GetComponent());
+	}
+	if(const Transform3D* t = frame->GetExitGeometryPatch())
+	{
+		aBunch.ApplyTransformation(*t);
+	}
 
-		if(includeX)
-		{
-			aBunch.ApplyTransformation(frame->GetExitPlaneTransform());
-		}
-		if(simop)
-		{
-			simop->DoRecord(frame, &aBunch);
-		}
+	if(includeX)
+	{
+		aBunch.ApplyTransformation(frame->GetExitPlaneTransform());
+	}
+	if(simop)
+	{
+		simop->DoRecord(frame, &aBunch);
+	}
+}
 
+template<class II>
+void PerformTracking(ProcessStepManager& aStepper, Bunch& aBunch, bool includeX, bool injOnAxis,
+	SimulationOutput* simop, II first, II last)
+{
+	bool fb = true;
+	do
+	{
+		TrackFrame(aStepper, aBunch, includeX, injOnAxis, simop, *first, fb);
 		fb = false;
 	} while(++first != last);
 }
@@ -63,7 +67,7 @@ void PerformTracking(ProcessStepManager& aStepper, Bunch& aBunch, bool includeX,
 
 template<class I>
 TrackingSimulation::TStepper<I>::TStepper(I f, I l) :
-	first(f), last(l), curr(f)
+	first(f), last(l), curr(f), first_frame(true)
 {
 	cFrame = *curr;
 }
@@ -71,6 +75,7 @@ TrackingSimulation::TStepper<I>::TStepper(I f, I l) :
 template<class I>
 ComponentFrame* TrackingSimulation::TStepper<I>::NextFrame()
 {
+	first_frame = false;
 	curr++;
 	return cFrame = curr == last ? nullptr : *curr;
 }
@@ -266,21 +271,7 @@ void TrackingSimulation::InitStepper(Bunch* aBunch)
 bool TrackingSimulation::StepComponent()
 {
 	assert(cstepper && cstepper->cFrame);
-	ComponentFrame* frame = cstepper->cFrame;
-	if(incX)
-	{
-		bunch->ApplyTransformation(frame->GetEntrancePlaneTransform());
-	}
-	stepper.Track(frame->GetComponent());
-	if(incX)
-	{
-		bunch->ApplyTransformation(frame->GetExitPlaneTransform());
-	}
-
-	if(simOp)
-	{
-		simOp->DoRecord(frame, bunch);
-	}
+	TrackFrame(stepper, *bunch, incX, injOnAxis, simOp, cstepper->cFrame, cstepper->IsFirstFrame());
 
 	return cstepper->NextFrame() != nullptr;
 }
diff --git a/Merlin++/TrackingSimulation.h b/Merlin++/TrackingSimulation.h
index 00c7abe..cad4232 100644
--- a/Merlin++/TrackingSimulation.h
+++ b/Merlin++/TrackingSimulation.h
@@ -86,6 +86,7 @@ private:
 		{
 		}
 		virtual ComponentFrame* NextFrame() = 0;
+		virtual bool IsFirstFrame() const = 0;
 		ComponentFrame* cFrame;
 	};
 
@@ -98,10 +99,15 @@ private:
 	public:
 		TStepper(I f, I l);
 		virtual ComponentFrame* NextFrame();
+		virtual bool IsFirstFrame() const
+		{
+			return first_frame;
+		}
 	private:
 		I first;
 		I last;
 		I curr;
+		bool first_frame;
 	};
 
 public:
-- 
2.43.0


From 70021c6d9f17ee73053997212a83a54018b4a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:45 +0000
Subject: [PATCH 035/147] fix: a ring can be tracked component by component

---
 Merlin++/TrackingSimulation.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index aa3843e..b984bc3 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -242,9 +242,8 @@ void TrackingSimulation::InitStepper(bool genNewBunch)
 		cstepper.reset(new BeamlineStepper(theBeamline.begin(), theBeamline.end()));
 	}
 	else
-	//		cstepper = new RingStepper(theRing,theRing);
 	{
-		cstepper.reset(nullptr);
+		cstepper.reset(new RingStepper(theRing, theRing));
 	}
 }
 
@@ -264,7 +263,7 @@ void TrackingSimulation::InitStepper(Bunch* aBunch)
 	}
 	else
 	{
-		cstepper.reset(nullptr);
+		cstepper.reset(new RingStepper(theRing, theRing));
 	}
 }
 
-- 
2.43.0


From fc82d99c16e9d0525f48151edd42075a819ad0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 036/147] fix: a sequence frame with its origin at an end has
 the total geometry transform of its sub-frames

---
 Merlin++/SequenceFrame.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index b409833..11db0ab 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -378,16 +378,17 @@ double SequenceGeometry::GetGeometryLength() const
 
 void SequenceGeometry::CalculateCachedTransforms()
 {
-	// Set up cached transformations for efficiency
-	if(t_cache == nullptr)
-	{
-		t_cache = new TCache;
-	}
+	// Set up cached transformations for efficiency. The total transform is
+	// calculated from the sub-frames, so any previous cache goes first.
+	delete t_cache;
+	t_cache = nullptr;
+	const Transform3D t_total = GetTotalGeometryTransform();
+	t_cache = new TCache;
 
 	switch(omode)
 	{
 	case SequenceFrame::originAtEntrance:
-		t_cache->t_out = GetTotalGeometryTransform();
+		t_cache->t_out = t_total;
 		break;
 	case SequenceFrame::originAtCenter:
 		//		t_cache->t_in = GetGeometryTransform(0,-len_t/2);
@@ -395,7 +396,7 @@ void SequenceGeometry::CalculateCachedTransforms()
 		CalculateCentreCT();
 		break;
 	case SequenceFrame::originAtExit:
-		t_cache->t_in = GetTotalGeometryTransform().inv();
+		t_cache->t_in = t_total.inv();
 		break;
 	}
 
-- 
2.43.0


From bdccae2fdc759d48a09a7b1008aeac994b880c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 037/147] fix: a tracking run copies its initial bunch with its
 particle type

---
 Merlin++/BunchConstructor.h    | 5 +++--
 Merlin++/ElectronBunch.h       | 4 ++++
 Merlin++/MuonBunch.h           | 4 ++++
 Merlin++/ParticleBunch.h       | 8 ++++++++
 Merlin++/ProtonBunch.h         | 4 ++++
 Merlin++/SMPBunch.h            | 8 ++++++++
 Merlin++/SpinParticleProcess.h | 4 ++++
 7 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BunchConstructor.h b/Merlin++/BunchConstructor.h
index b4b6f7d..4360463 100644
--- a/Merlin++/BunchConstructor.h
+++ b/Merlin++/BunchConstructor.h
@@ -34,7 +34,8 @@ public:
  *	Template class to generate a BunchConstructor which
  *	constructs a Bunch of type B. The Construct() method
  *	always returns a copy of the same (stored) bunch. Class
- *	B must provide a copy constructor.
+ *	B must provide a Clone() method, which copies the bunch
+ *	including its actual (derived) type.
  */
 
 template<class B>
@@ -92,7 +93,7 @@ StaticBunchCtor<B>::~StaticBunchCtor()
 template<class B>
 Bunch* StaticBunchCtor<B>::ConstructBunch(int bunchIndex) const
 {
-	return new B(*sourceBunch);
+	return sourceBunch->Clone();
 }
 
 template<class B>
diff --git a/Merlin++/ElectronBunch.h b/Merlin++/ElectronBunch.h
index 0244b1f..9e9b3f7 100644
--- a/Merlin++/ElectronBunch.h
+++ b/Merlin++/ElectronBunch.h
@@ -59,6 +59,10 @@ public:
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
 	virtual double GetParticleLifetime() const;
+	virtual ElectronBunch* Clone() const
+	{
+		return new ElectronBunch(*this);
+	}
 
 	void set()
 	{
diff --git a/Merlin++/MuonBunch.h b/Merlin++/MuonBunch.h
index 60b2df0..8cb534a 100644
--- a/Merlin++/MuonBunch.h
+++ b/Merlin++/MuonBunch.h
@@ -57,6 +57,10 @@ public:
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
 	virtual double GetParticleLifetime() const;
+	virtual MuonBunch* Clone() const
+	{
+		return new MuonBunch(*this);
+	}
 
 	void set()
 	{
diff --git a/Merlin++/ParticleBunch.h b/Merlin++/ParticleBunch.h
index fef59a9..8be46c4 100644
--- a/Merlin++/ParticleBunch.h
+++ b/Merlin++/ParticleBunch.h
@@ -219,6 +219,14 @@ public:
 	 */
 	virtual double GetParticleLifetime() const;
 
+	/**
+	 * Returns a copy of this bunch, of the same type as this bunch.
+	 */
+	virtual ParticleBunch* Clone() const
+	{
+		return new ParticleBunch(*this);
+	}
+
 #ifdef ENABLE_MPI
 	/**
 	 * Destructor - cleans up MPI code
diff --git a/Merlin++/ProtonBunch.h b/Merlin++/ProtonBunch.h
index 50c5ba6..a544ce6 100644
--- a/Merlin++/ProtonBunch.h
+++ b/Merlin++/ProtonBunch.h
@@ -60,6 +60,10 @@ public:
 	virtual double GetParticleMass() const;
 	virtual double GetParticleMassMeV() const;
 	virtual double GetParticleLifetime() const;
+	virtual ProtonBunch* Clone() const
+	{
+		return new ProtonBunch(*this);
+	}
 
 	void set()
 	{
diff --git a/Merlin++/SMPBunch.h b/Merlin++/SMPBunch.h
index d13e375..08bf6be 100644
--- a/Merlin++/SMPBunch.h
+++ b/Merlin++/SMPBunch.h
@@ -55,6 +55,14 @@ public:
 	 */
 	virtual ~SMPBunch();
 
+	/**
+	 *	Returns a copy of this bunch.
+	 */
+	virtual SMPBunch* Clone() const
+	{
+		return new SMPBunch(*this);
+	}
+
 	/**
 	 *	Returns the total charge (in units of e).
 	 */
diff --git a/Merlin++/SpinParticleProcess.h b/Merlin++/SpinParticleProcess.h
index 86515a7..6b32a94 100644
--- a/Merlin++/SpinParticleProcess.h
+++ b/Merlin++/SpinParticleProcess.h
@@ -46,6 +46,10 @@ public:
 	virtual void Output(std::ostream& os) const;
 	SpinVector GetAverageSpin() const;
 	virtual bool ApplyTransformation(const Transform3D& t);
+	virtual SpinParticleBunch* Clone() const
+	{
+		return new SpinParticleBunch(*this);
+	}
 
 private:
 	SpinVectorArray spinArray;
-- 
2.43.0


From beebc9d26aab742b02dcd592b649ef96e659e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 038/147] fix: transforms within a sequence frame survive
 rounding, are inverted backwards and meet at the frame's centre

---
 Merlin++/SequenceFrame.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 11db0ab..5b5171b 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -260,10 +260,14 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 		s0 += len_t;
 	}
 
-	if(s < 0 || s > len_t || s0 < 0 || s0 > len_t)
+	// s and s0 are usually sums of lengths and can miss the ends by rounding
+	const double tol = 1e-12 * (1 + len_t);
+	if(s < -tol || s > len_t + tol || s0 < -tol || s0 > len_t + tol)
 	{
 		throw BeyondExtent();
 	}
+	s = std::min(std::max(s, 0.0), len_t);
+	s0 = std::min(std::max(s0, 0.0), len_t);
 
 	if(fequal(s0, 0) && fequal(s, len_t))
 	{
@@ -283,7 +287,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s0, l) || s0 < l)
+		if(fequal(s0, l) || s0 < l || *fi == theFrameList->back())
 		{
 			break;
 		}
@@ -298,19 +302,21 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	// Now check if s is also within this frame. If so,
 	// return the local transform
 	Extent ext = (*fi)->GetLocalGeometryExtent();
-	if(fequal(s, l) || s < l)
+	const double sa = std::min(ext.first + s0, ext.second);
+	if(fequal(s, l) || s < l || *fi == theFrameList->back())
 	{
-		return (*fi)->GetGeometryTransform(ext.first + s0, ext.first + s);
+		const Transform3D t = (*fi)->GetGeometryTransform(sa, std::min(ext.first + s, ext.second));
+		return inv_t ? t.inv() : t;
 	}
 
-	Transform3D t = (*fi)->GetGeometryTransform(ext.first + s0, ext.second);
+	Transform3D t = (*fi)->GetGeometryTransform(sa, ext.second);
 	s -= l;
 	fi++;
 
 	for(; fi != theFrameList->end(); fi++)
 	{
 		l = (*fi)->GetGeometryLength();
-		if(fequal(s, l) || s < l)
+		if(fequal(s, l) || s < l || *fi == theFrameList->back())
 		{
 			break;
 		}
@@ -323,7 +329,7 @@ Transform3D SequenceGeometry::GetGeometryTransform(double s0, double s) const
 	// s is now the distance from the entrance plane of the *fi
 
 	ext = (*fi)->GetLocalGeometryExtent();
-	t = ((*fi)->GetGeometryTransform(ext.first, ext.first + s)) * t;
+	t = ((*fi)->GetGeometryTransform(ext.first, std::min(ext.first + s, ext.second))) * t;
 
 	return inv_t ? t.inv() : t;
 }
@@ -427,7 +433,7 @@ void SequenceGeometry::CalculateCentreCT()
 		else if(s > s0)
 		{
 			Extent ext = (*fi)->GetLocalGeometryExtent();
-			double s1 = ext.first + s - s0;
+			double s1 = std::max(ext.second - (s - s0), ext.first);
 			t = (*fi)->GetGeometryTransform(ext.first, s1) * t;
 			t_cache->t_in = t.inv();
 			t = (*fi)->GetGeometryTransform(s1, ext.second);
-- 
2.43.0


From 22ff30a48fb4a8a0cea46e0c39f1c68b4aac3be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:56 +0000
Subject: [PATCH 039/147] fix: radiation of an empty bunch leaves its reference
 momentum alone

---
 Merlin++/SynchRadParticleProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SynchRadParticleProcess.cpp b/Merlin++/SynchRadParticleProcess.cpp
index c4b14ee..6203df6 100644
--- a/Merlin++/SynchRadParticleProcess.cpp
+++ b/Merlin++/SynchRadParticleProcess.cpp
@@ -55,7 +55,7 @@ struct ApplySR
 
 	double MeanEnergyLoss() const
 	{
-		return meanU / n;
+		return n ? meanU / n : 0;
 	}
 
 	void operator()(PSvector& v)
-- 
2.43.0


From 8faadc37554c801aa2e98143f43a3ab09c4a7ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 040/147] fix: a particle written to a stream has its identity
 separated from its coordinates

---
 Merlin++/PSvector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PSvector.cpp b/Merlin++/PSvector.cpp
index 36d8beb..16e64ba 100644
--- a/Merlin++/PSvector.cpp
+++ b/Merlin++/PSvector.cpp
@@ -17,7 +17,7 @@ ostream& operator<<(ostream& os, const PSvector& v)
 		os << setw(24) << scientific << setprecision(10) << v[i];
 	}
 
-	os << v.pid;
+	os << ' ' << v.pid;
 	return os << '\n';
 }
 
-- 
2.43.0


From 071061b3e0d47349884e2f375f4eac78bea58eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 041/147] fix: damaged bunch files are refused instead of
 yielding invented particles

---
 Merlin++/ParticleBunch.cpp | 50 ++++++++++++++++++++++++++++++++------
 Merlin++/SMPBunch.cpp      | 14 +++++------
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index e4bf2c9..77fefb2 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -6,7 +6,9 @@
  */
 
 #include <algorithm>
+#include <cctype>
 #include <iostream>
+#include "MerlinException.h"
 #include "Transform3D.h"
 #include "PSvectorTransform3D.h"
 #include "ParticleBunch.h"
@@ -150,10 +152,19 @@ ParticleBunch::ParticleBunch(double P0, double Q, std::istream& is) :
 	PSvector p;
 	while(is >> p)
 	{
+		// a file that was cut short can end within a number and still look like one
+		if(is.eof() || !isspace(is.peek()))
+		{
+			throw MerlinException("ParticleBunch: damaged or incomplete particle in input");
+		}
 		push_back(p);
 	}
+	if(is.bad() || !is.eof())
+	{
+		throw MerlinException("ParticleBunch: damaged or unreadable input");
+	}
 
-	qPerMP = Q / size();
+	qPerMP = size() ? Q / size() : Q;
 }
 
 ParticleBunch::ParticleBunch(double P0, double Qm) :
@@ -364,8 +375,8 @@ void ParticleBunch::OutputIndexParticle(std::ostream& os, int index) const
 
 void ParticleBunch::Input(double Q, std::istream& is)
 {
-	double reftime, refmom;
-	PSvector p;
+	double reftime = GetReferenceTime(), refmom = GetReferenceMomentum();
+	PSvectorArray particles;
 	string line;
 	while(getline(is, line))
 	{
@@ -373,14 +384,37 @@ void ParticleBunch::Input(double Q, std::istream& is)
 		{
 			continue;
 		}
+		PSvector p(0);
 		istringstream liness(line);
-		liness >> reftime >> refmom >> p;
-		push_back(p);
+		liness >> reftime >> refmom;
+		for(size_t k = 0; k < 6; k++)
+		{
+			liness >> p[k];
+		}
+		// All coordinates must be there, and the line must be a whole one: a file that
+		// was cut short can end within a number and still look like one
+		if(!liness || is.eof() || !(liness.peek() == EOF || isspace(liness.peek())))
+		{
+			throw MerlinException("ParticleBunch::Input: damaged or incomplete line: " + line);
+		}
+		if(!(liness >> p.id()))
+		{
+			p.id() = 0;
+		}
+		particles.push_back(p);
+	}
+	if(is.bad())
+	{
+		throw MerlinException("ParticleBunch::Input: read error");
+	}
 
-		SetReferenceTime(reftime);
-		SetReferenceMomentum(refmom);
+	for(PSvectorArray::const_iterator p = particles.begin(); p != particles.end(); p++)
+	{
+		push_back(*p);
 	}
-	qPerMP = Q / size();
+	SetReferenceTime(reftime);
+	SetReferenceMomentum(refmom);
+	qPerMP = size() ? Q / size() : Q;
 }
 
 void ParticleBunch::SetCentroid()
diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index 07868b5..ff89041 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -7,6 +7,8 @@
 
 #include "SMPBunch.h"
 #include "SMPTransform3D.h"
+#include "MerlinException.h"
+#include <cctype>
 #include <fstream>
 #include <iterator>
 #include <algorithm>
@@ -27,8 +29,7 @@ SMPBunch::SMPBunch(const std::string& fname) :
 	ifstream ifs(fname.c_str());
 	if(!ifs)
 	{
-		cerr << "SMPBunch file not found: " << fname << endl;
-		abort();
+		throw MerlinException("SMPBunch file not found: " + fname);
 	}
 
 	double p0, ct0;
@@ -41,14 +42,14 @@ SMPBunch::SMPBunch(const std::string& fname) :
 	}
 	else
 	{
-		cerr << "Bad SMPBunch file format: " << fname << endl;
-		abort();
+		throw MerlinException("Bad SMPBunch file format: " + fname);
 	}
 	while(ifs)
 	{
 		SliceMacroParticle p;
 		p.Read(ifs);
-		if(ifs)
+		// the last number must be a whole one
+		if(ifs && !ifs.eof() && isspace(ifs.peek()))
 		{
 			slices.push_back(p);
 			Qt += p.Q();
@@ -58,8 +59,7 @@ SMPBunch::SMPBunch(const std::string& fname) :
 
 	if(nmp != 0)
 	{
-		cerr << "Bad SMPBunch file format: " << fname << endl;
-		abort();
+		throw MerlinException("Bad SMPBunch file format: " + fname);
 	}
 
 	sort(begin(), end());
-- 
2.43.0


From 2754e0fd63b427caba9caa1bd0bc8f3e1fa5e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 042/147] fix: TFS tables: keep empty strings, refuse damaged
 numbers, strings and lines, report write errors

---
 Merlin++/DataTable.cpp    | 35 +++++++++++++++--
 Merlin++/DataTableTFS.cpp | 79 ++++++++++++++++++++++++++++++---------
 2 files changed, 93 insertions(+), 21 deletions(-)

diff --git a/Merlin++/DataTable.cpp b/Merlin++/DataTable.cpp
index 514f9f0..4b8f440 100644
--- a/Merlin++/DataTable.cpp
+++ b/Merlin++/DataTable.cpp
@@ -7,8 +7,35 @@
 
 #include "DataTable.h"
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 
+namespace
+{
+// Unlike stod and stoi these do not accept strings that only begin with a number
+double to_double(const std::string& x)
+{
+	char* end;
+	const double d = std::strtod(x.c_str(), &end);
+	if(end == x.c_str() || *end != 0 || x.size() != size_t(end - x.c_str()) || x.find_first_of("xX") != std::string::npos)
+	{
+		throw BadFormatException("Not a number: " + x);
+	}
+	return d;
+}
+
+int to_int(const std::string& x)
+{
+	size_t end;
+	const int i = std::stoi(x, &end);
+	if(end != x.size())
+	{
+		throw BadFormatException("Not an integer: " + x);
+	}
+	return i;
+}
+}
+
 void DataTable::AddColumn(std::string col_name, char type)
 {
 	if(lookup.count(col_name))
@@ -170,10 +197,10 @@ void DataTable::SetWithStr(const std::string col_name, size_t i, std::string x)
 	switch(l.type)
 	{
 	case 'd':
-		Set_d(col_name, i, stod(x));
+		Set_d(col_name, i, to_double(x));
 		break;
 	case 'i':
-		Set_i(col_name, i, stoi(x));
+		Set_i(col_name, i, to_int(x));
 		break;
 	case 's':
 		Set_s(col_name, i, x);
@@ -302,10 +329,10 @@ void DataTable::HeaderSetWithStr(const std::string col_name, std::string x)
 	switch(l.type)
 	{
 	case 'd':
-		HeaderSet_d(col_name, stod(x));
+		HeaderSet_d(col_name, to_double(x));
 		break;
 	case 'i':
-		HeaderSet_i(col_name, stoi(x));
+		HeaderSet_i(col_name, to_int(x));
 		break;
 	case 's':
 		HeaderSet_s(col_name, x);
diff --git a/Merlin++/DataTableTFS.cpp b/Merlin++/DataTableTFS.cpp
index cff913f..df28c4d 100644
--- a/Merlin++/DataTableTFS.cpp
+++ b/Merlin++/DataTableTFS.cpp
@@ -17,8 +17,7 @@ DataTableReaderTFS::DataTableReaderTFS(std::string filename)
 	inf = std::make_shared<std::ifstream>(filename);
 	if(!inf->good())
 	{
-		std::cerr << "Could not open file " << filename << std::endl;
-		exit(1);
+		throw MerlinException("Could not open file " + filename);
 	}
 	in = inf.get();
 }
@@ -54,27 +53,35 @@ static std::vector<std::string> split_line(std::string line)
 	std::string current;
 	current.reserve(64);
 	bool double_quote_on = false;
+	bool in_word = false; // a quoted word can be empty
 
 	for(auto c : line)
 	{
 		if(c == '"')
 		{
 			double_quote_on = !double_quote_on;
+			in_word = true;
 		}
 		else if(!double_quote_on && whitespace.find(c) != std::string::npos)
 		{
-			if(current.length())
+			if(in_word)
 			{
 				sl.push_back(current);
 				current = "";
+				in_word = false;
 			}
 		}
 		else
 		{
 			current += c;
+			in_word = true;
 		}
 	}
-	if(current.length())
+	if(double_quote_on)
+	{
+		throw BadFormatException("Unterminated string: " + line);
+	}
+	if(in_word)
 	{
 		sl.push_back(current);
 	}
@@ -82,6 +89,26 @@ static std::vector<std::string> split_line(std::string line)
 	return sl;
 }
 
+// Read a line. A device error is reported, and so is a last line that ends within a word,
+// as the file may have been cut short there
+static bool read_line(std::istream &in, std::string &line)
+{
+	if(!getline(in, line))
+	{
+		line.clear();
+		if(in.bad())
+		{
+			throw BadFormatException("Error reading table");
+		}
+		return false;
+	}
+	if(in.eof() && line.size() && line.back() != '"' && whitespace.find(line.back()) == std::string::npos)
+	{
+		throw BadFormatException("Incomplete last line: " + line);
+	}
+	return true;
+}
+
 DataTable DataTableReaderTFS::Read()
 {
 	DataTable dt;
@@ -93,7 +120,7 @@ DataTable DataTableReaderTFS::Read()
 
 	// Read header
 	// Lines start with "@". Ends when line starts with "*"
-	while(getline(*in, line))
+	while(read_line(*in, line))
 	{
 		line_number++;
 		words = split_line(line);
@@ -115,7 +142,7 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	//Read column names
-	if(words[0] != "*")
+	if(words.size() == 0 || words[0] != "*")
 	{
 		throw BadFormatException("Expected line starting with '*' or '@' at line " + std::to_string(line_number));
 	}
@@ -125,10 +152,10 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	//Read column types
-	getline(*in, line);
+	read_line(*in, line);
 	line_number++;
 	words = split_line(line);
-	if(words[0] != "$")
+	if(words.size() == 0 || words[0] != "$")
 	{
 		throw BadFormatException("Expected line starting with '$' at line " + std::to_string(line_number));
 	}
@@ -154,7 +181,7 @@ DataTable DataTableReaderTFS::Read()
 	}
 
 	// Read body
-	while(getline(*in, line))
+	while(read_line(*in, line))
 	{
 		line_number++;
 		words = split_line(line);
@@ -190,17 +217,27 @@ DataTableWriterTFS::DataTableWriterTFS(std::string filename) :
 	outf = std::make_shared<std::ofstream>(filename);
 	if(!outf->good())
 	{
-		std::cerr << "Could not open file " << filename << std::endl;
-		exit(1);
+		throw MerlinException("Could not open file " + filename);
 	}
 	out = outf.get();
 }
 
+// TFS has no way to write these characters within a string
+static const std::string& checked_str(const std::string& s)
+{
+	if(s.find_first_of("\"\n") != std::string::npos)
+	{
+		throw BadFormatException("String can not be written to a TFS table: " + s);
+	}
+	return s;
+}
+
 void DataTableWriterTFS::Write(DataTable & dt)
 {
-	std::ios init(NULL);
-	init.copyfmt(*out);
-	*out << std::setprecision(prec_float);
+	// use our own format, whatever the state of the stream
+	const std::ios_base::fmtflags old_flags = out->flags(std::ios_base::skipws | std::ios_base::dec);
+	const std::streamsize old_precision = out->precision(prec_float);
+	const char old_fill = out->fill(' ');
 
 	for(auto &header_name : dt.HeaderNames())
 	{
@@ -218,7 +255,7 @@ void DataTableWriterTFS::Write(DataTable & dt)
 			break;
 		case 's':
 			*out << "%" << dt.HeaderGet_s(header_name).size() << "s ";
-			*out << '"' << dt.HeaderGet_s(header_name) << '"' << std::endl;
+			*out << '"' << checked_str(dt.HeaderGet_s(header_name)) << '"' << std::endl;
 			break;
 		}
 	}
@@ -266,12 +303,20 @@ void DataTableWriterTFS::Write(DataTable & dt)
 				*out << std::setw(width_int) << drow.Get_i(col_name);
 				break;
 			case 's':
-				*out << '"' << drow.Get_s(col_name) << '"';
+				*out << '"' << checked_str(drow.Get_s(col_name)) << '"';
 				break;
 			}
 		}
 		*out << std::endl;
 	}
 
-	out->copyfmt(init);
+	out->flags(old_flags);
+	out->precision(old_precision);
+	out->fill(old_fill);
+
+	out->flush();
+	if(!out->good())
+	{
+		throw MerlinException("Error writing table");
+	}
 }
-- 
2.43.0


From a8cb143334002906ad2751eedbcaf601ce050412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 043/147] fix: ElementRepository keeps insertion order; Count
 and Find no longer negate at random

---
 Merlin++/ElementRepository.cpp | 23 ++++++++++++++++++-----
 Merlin++/ElementRepository.h   | 14 +++++++++++++-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/Merlin++/ElementRepository.cpp b/Merlin++/ElementRepository.cpp
index b7ac8e2..efd8283 100644
--- a/Merlin++/ElementRepository.cpp
+++ b/Merlin++/ElementRepository.cpp
@@ -21,7 +21,7 @@ struct MatchID
 public:
 
 	MatchID(const string& idpat, bool negate = false) :
-		pattern(idpat)
+		neg(negate), pattern(idpat)
 	{
 	}
 	bool operator()(const ModelElement* elmnt) const
@@ -37,8 +37,6 @@ private:
 
 } // end anonymous namespace
 
-template class std::set<ModelElement*>;
-
 ElementRepository::~ElementRepository()
 {
 	for_each(theElements.begin(), theElements.end(), deleter<ModelElement>());
@@ -46,8 +44,23 @@ ElementRepository::~ElementRepository()
 
 bool ElementRepository::Add(ModelElement* anElement)
 {
-	pair<iterator, bool> rv = theElements.insert(anElement);
-	return rv.second;
+	if(lookup.count(anElement))
+	{
+		return false;
+	}
+	theElements.push_back(anElement);
+	lookup.insert(anElement);
+	return true;
+}
+
+bool ElementRepository::Remove(ModelElement* anElement)
+{
+	if(lookup.erase(anElement) == 0)
+	{
+		return false;
+	}
+	theElements.erase(find(theElements.begin(), theElements.end(), anElement));
+	return true;
 }
 
 size_t ElementRepository::Count(const std::string& id) const
diff --git a/Merlin++/ElementRepository.h b/Merlin++/ElementRepository.h
index 7ae4150..70b15ce 100644
--- a/Merlin++/ElementRepository.h
+++ b/Merlin++/ElementRepository.h
@@ -29,7 +29,7 @@ public:
 	 *	Used to map the element ID's to ModelElement objects in
 	 *	the repository.
 	 */
-	typedef std::set<ModelElement*> ElementSet;
+	typedef std::vector<ModelElement*> ElementSet;
 	typedef ElementSet::iterator iterator;
 	typedef ElementSet::const_iterator const_iterator;
 
@@ -44,6 +44,12 @@ public:
 	 */
 	bool Add(ModelElement* anElement);
 
+	/**
+	 *	Removes the element from the repository, without deleting it.
+	 *	Returns true if it was in the repository.
+	 */
+	bool Remove(ModelElement* anElement);
+
 	/**
 	 *	Counts the number of elements in the repository with
 	 *	identifiers which match id. id takes the form
@@ -70,7 +76,13 @@ public:
 	ElementRepository::const_iterator begin() const;
 	ElementRepository::const_iterator end() const;
 
+	/// The elements in the order they were added
 	ElementSet theElements;
+
+private:
+
+	/// The same elements, for fast lookup
+	std::set<ModelElement*> lookup;
 };
 
 inline size_t ElementRepository::Size() const
-- 
2.43.0


From d4bba96d00f37c85959f85ab4bda0262cd423284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 044/147] fix: a pattern not ending in * must match the end of
 the string

---
 Merlin++/StringPattern.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Merlin++/StringPattern.cpp b/Merlin++/StringPattern.cpp
index 7c2f62c..00886b1 100644
--- a/Merlin++/StringPattern.cpp
+++ b/Merlin++/StringPattern.cpp
@@ -83,7 +83,13 @@ bool StringPattern::Match(const std::string& s) const
 			return false;
 		}
 
-		if(allowFloat)
+		if(allowFloat && !wcterm.second && i + 1 == patterns.end())
+		{
+			// no wild card follows, so this must be the end of s
+			const string::size_type l = (*i).length();
+			return s.length() - n >= l && s.compare(s.length() - l, l, *i) == 0;
+		}
+		else if(allowFloat)
 		{
 			n = s.find(*i, n);
 			if(n == string::npos)
-- 
2.43.0


From ee271fc3524c4d07550823e5d8978536b52f6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 045/147] fix: copies of sequence and component frames have a
 geometry of their own; empty sequences

---
 Merlin++/ComponentFrame.h  | 4 ++++
 Merlin++/SequenceFrame.cpp | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ComponentFrame.h b/Merlin++/ComponentFrame.h
index 2a26278..c6ee114 100644
--- a/Merlin++/ComponentFrame.h
+++ b/Merlin++/ComponentFrame.h
@@ -122,6 +122,10 @@ inline ComponentFrame::ComponentFrame(AcceleratorComponent& ac, const string& id
 inline ComponentFrame::ComponentFrame(const ComponentFrame& rhs) :
 	LatticeFrame(rhs), theComponent(rhs.theComponent), blI(0)
 {
+	if(theComponent)
+	{
+		SetGeometry(theComponent->GetGeometry());
+	}
 }
 
 inline ComponentFrame::ComponentFrame(AcceleratorComponent* ac, const string& id) :
diff --git a/Merlin++/SequenceFrame.cpp b/Merlin++/SequenceFrame.cpp
index 5b5171b..c0dd744 100644
--- a/Merlin++/SequenceFrame.cpp
+++ b/Merlin++/SequenceFrame.cpp
@@ -106,7 +106,8 @@ SequenceFrame::SequenceFrame(const string& id, Origin originLoc) :
 SequenceFrame::SequenceFrame(const SequenceFrame& rhs) :
 	LatticeFrame(rhs)
 {
-	itsSeqGeom = new SequenceGeometry(*(rhs.itsSeqGeom));
+	itsSeqGeom = new SequenceGeometry(&subFrames, rhs.itsSeqGeom->omode);
+	itsSeqGeom->len_t = rhs.itsSeqGeom->len_t;
 	SetGeometry(itsSeqGeom);
 	CopySubFrames(rhs.subFrames);
 }
@@ -410,6 +411,11 @@ void SequenceGeometry::CalculateCachedTransforms()
 
 void SequenceGeometry::CalculateCentreCT()
 {
+	if(theFrameList->empty())
+	{
+		return;
+	}
+
 	double s = 0;
 	double s0 = len_t / 2;
 
-- 
2.43.0


From 9b522a7412b8c65003aaed28436ce896e9c0445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 046/147] fix: the copy of a simple mount has no second support

---
 Merlin++/SupportStructure.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index 2709176..cb6ef0d 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -20,10 +20,7 @@ SupportStructure::SupportStructure(const SupportStructure& rhs) :
 	SequenceFrame(rhs)
 {
 	sup1 = new AcceleratorSupport();
-	if(rhs.sup2)
-	{
-		sup2 = new AcceleratorSupport();
-	}
+	sup2 = rhs.sup2 ? new AcceleratorSupport() : nullptr;
 }
 
 SupportStructure::~SupportStructure()
-- 
2.43.0


From 1354ca788e6cc523b838d567d2431e8cdc9e15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 047/147] fix: patch frames in appended groups and in component
 searches

---
 Merlin++/AcceleratorModel.cpp            | 2 +-
 Merlin++/AcceleratorModelConstructor.cpp | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 0332148..d5237d6 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -34,7 +34,7 @@ struct MatchName
 	}
 	bool operator()(const ComponentFrame* frm)
 	{
-		return pattern((*frm).GetComponent().GetQualifiedName());
+		return pattern(frm->IsComponent() ? frm->GetComponent().GetQualifiedName() : frm->GetQualifiedName());
 	}
 
 };
diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index 36634ef..a5a8149 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -61,8 +61,12 @@ public:
 			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
 			if(cf)
 			{
-				erepo->Add(&(cf->GetComponent()));
+				if(cf->IsComponent())
+				{
+					erepo->Add(&(cf->GetComponent()));
+				}
 				lattice->push_back(cf);
+				cf->SetBeamlineIndex(lattice->size() - 1);
 			}
 		}
 		catch(bad_cast& b)
-- 
2.43.0


From ef94d4131bb2f4387c389bf5b3476184b29a91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 048/147] fix: a stretch may begin and end at the same element

---
 Merlin++/AcceleratorModel.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index d5237d6..979d4c5 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -53,6 +53,22 @@ struct ModelStats
 
 };
 
+class ReplaceFrame: public FrameTraverser
+{
+public:
+	ReplaceFrame(LatticeFrame* oldf, LatticeFrame* newf) :
+		from(oldf), to(newf)
+	{
+	}
+	virtual void ActOn(LatticeFrame* frame)
+	{
+		frame->ReplaceSubFrame(from, to);
+	}
+private:
+	LatticeFrame* from;
+	LatticeFrame* to;
+};
+
 class ExtractAcceleratorSupports: public FrameTraverser
 {
 public:
-- 
2.43.0


From df683a6472a531a7bd75819a83034fb8364eebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:09 +0000
Subject: [PATCH 049/147] fix: FindElementLatticePosition counts elements at
 one place in a fixed order

---
 Merlin++/AcceleratorModel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 979d4c5..870e21f 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
 #include <iomanip>
 #include <cassert>
 
@@ -393,7 +394,7 @@ static vector<AcceleratorComponent*> SortAcceleratorModel(AcceleratorModel* mode
 
 	model->ExtractTypedElements(elements, "*");
 
-	sort(elements.begin(), elements.end(), SortComponent);
+	stable_sort(elements.begin(), elements.end(), SortComponent);
 	return elements;
 }
 
-- 
2.43.0


From 8aebd89474bfee7354aeccc959ba8c3d36d7260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:09 +0000
Subject: [PATCH 050/147] fix: InstallModelElement updates the beam line, the
 frames and the repository, and refuses by exception

---
 Merlin++/AcceleratorModel.cpp | 90 ++++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 33 deletions(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 870e21f..3822127 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -18,6 +18,8 @@
 #include "AcceleratorModel.h"
 #include "SupportStructure.h"
 #include "Drift.h"
+#include "MerlinException.h"
+#include "SequenceFrame.h"
 #include "AcceleratorComponent.h"
 #include "TComponentFrame.h"
 
@@ -160,7 +162,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline(const string& pat1, con
 			i1 = i;
 			ni1 = ni;
 		}
-		else if(nn2 < n2 && p2(id) && ++nn2 == n2)
+		if(nn2 < n2 && p2(id) && ++nn2 == n2)
 		{
 			i2 = i;
 			ni2 = ni;
@@ -251,51 +253,45 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	// FIXME: implement element having a length
 	if(element->GetLength() != 0)
 	{
-		std::cout << "Currently only zero length elements can be added" << std::endl;
-		exit(1);
+		throw MerlinException("InstallModelElement: currently only zero length elements can be added");
 	}
 
 	// Find insert point
 	double s = 0;
 	FlatLattice::iterator current_cf;
-	AcceleratorComponent* current_ac = nullptr;
-	std::string current_name;
-	double cut_len1, cut_len2;
+	double cut_len1 = 0, cut_len2 = 0;
 
-	for(current_cf = lattice.begin(); current_cf < lattice.end(); current_cf++)
+	for(current_cf = lattice.begin(); current_cf != lattice.end(); current_cf++)
 	{
-		AcceleratorComponent* ac = &((*current_cf)->GetComponent());
-		s += ac->GetLength();
+		double len = (*current_cf)->GetGeometryLength();
+		s += len;
 		if(s > at)
 		{
-			std::cout << "Found position in:" << ac->GetQualifiedName()
-					  << " (from:" << s - ac->GetLength() << " to:" << s
-					  << ")" << std::endl;
-			current_ac = ac;
-			current_name = ac->GetName();
-			cut_len1 = at - s + ac->GetLength();
+			cut_len1 = at - s + len;
 			cut_len2 = s - at;
 			break;
 		}
 	}
 
-	if(current_cf == lattice.end())
+	if(at < 0 || current_cf == lattice.end())
 	{
-		std::cout << "Out of range at: " << at << std::endl;
-		exit(1);
+		throw MerlinException("InstallModelElement: position out of range");
 	}
 
 	// For now only allow splitting of a Drift
-	Drift* current_drift = dynamic_cast<Drift*>(current_ac);
-	if(!current_drift)
+	ComponentFrame* old_frame = *current_cf;
+	Drift* old_drift = old_frame->IsComponent() ? dynamic_cast<Drift*>(&(old_frame->GetComponent())) : nullptr;
+	if(!old_drift)
 	{
-		std::cout << "Not a drift at: " << at << std::endl;
-		exit(1);
+		throw MerlinException("InstallModelElement: no drift at the requested position");
 	}
+	std::cout << "Found position in:" << old_drift->GetQualifiedName()
+			  << " (from:" << at - cut_len1 << " to:" << s
+			  << ")" << std::endl;
 
 	// Create new drift sections, and frames to hold them
-	Drift* drift1 = new Drift(current_name + "_part1", cut_len1);
-	Drift* drift2 = new Drift(current_name + "_part2", cut_len2);
+	Drift* drift1 = new Drift(old_drift->GetName() + "_part1", cut_len1);
+	Drift* drift2 = new Drift(old_drift->GetName() + "_part2", cut_len2);
 	auto c_drift1 = new TComponentFrame<Drift>(*drift1);
 	auto c_drift2 = new TComponentFrame<Drift>(*drift2);
 	auto c_element = new TComponentFrame<AcceleratorComponent>(*element);
@@ -304,19 +300,47 @@ void AcceleratorModel::InstallModelElement(AcceleratorComponent* element, double
 	drift1->SetComponentLatticePosition(at - cut_len1);
 	drift2->SetComponentLatticePosition(at);
 	element->SetComponentLatticePosition(at);
-	c_drift1->SetLocalPosition(at - cut_len1);
-	c_drift2->SetLocalPosition(at);
-	c_element->SetLocalPosition(at);
 
-	// replace the existing drift
-	auto insert_marker = lattice.erase(current_cf);
-	lattice.insert(insert_marker, c_drift2); // in reverse order
-	lattice.insert(insert_marker, c_element);
-	lattice.insert(insert_marker, c_drift1);
+	// The three take the place of the drift in the hierarchy of frames
+	SequenceFrame* parts = new SequenceFrame(old_frame->GetName());
+	parts->AppendFrame(*c_drift1);
+	parts->AppendFrame(*c_element);
+	parts->AppendFrame(*c_drift2);
+	parts->SetLocalPosition(old_frame->GetLocalPosition());
+	parts->SetLocalFrameTransform(old_frame->GetLocalFrameTransform());
+	ReplaceFrame rf(old_frame, parts);
+	globalFrame->Traverse(rf);
+	parts->ConsolidateConstruction();
+
+	// and in the beamline
+	current_cf = lattice.erase(current_cf);
+	lattice.insert(current_cf, {c_drift1, c_element, c_drift2});
+	for(size_t i = 0; i < lattice.size(); i++)
+	{
+		lattice[i]->SetBeamlineIndex(i);
+	}
 
+	theElements->Add(parts);
 	theElements->Add(c_drift1);
-	theElements->Add(c_drift2);
+	theElements->Add(drift1);
 	theElements->Add(c_element);
+	theElements->Add(element);
+	theElements->Add(c_drift2);
+	theElements->Add(drift2);
+
+	// The old drift leaves the model, unless it is used in another place as well
+	bool in_use = false;
+	for(auto cf : lattice)
+	{
+		in_use = in_use || (cf->IsComponent() && &(cf->GetComponent()) == old_drift);
+	}
+	theElements->Remove(old_frame);
+	delete old_frame;
+	if(!in_use)
+	{
+		theElements->Remove(old_drift);
+		delete old_drift;
+	}
 }
 
 void AcceleratorModel::ReportModelStatistics(std::ostream& os) const
-- 
2.43.0


From a09215d8ce8b63887e940fb4c62b3d75770c406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 051/147] fix: energy loss and straggling use the material at
 hand, not one remembered by its address

---
 Merlin++/ScatteringModel.cpp | 89 +++++++++++++++---------------------
 1 file changed, 38 insertions(+), 51 deletions(-)

diff --git a/Merlin++/ScatteringModel.cpp b/Merlin++/ScatteringModel.cpp
index 93b1321..8b207c4 100644
--- a/Merlin++/ScatteringModel.cpp
+++ b/Merlin++/ScatteringModel.cpp
@@ -138,54 +138,49 @@ void ScatteringModel::EnergyLossSimple(PSvector& p, double x, MaterialProperties
 //Advanced energy loss
 void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties* mat, double E0)
 {
-	static MaterialProperties* oldmat = 0;
 	static const double xi1 = 2.0 * pi * pow(ElectronRadius, 2) * ElectronMass * pow(SpeedOfLight, 2);
-	static double C, C0, C1, I, edensity, xi0, plasmaEnergy;
-	if(mat != oldmat)      // new material so do the sums, otherwise they persist
+	double I;      // mean excitation energy in eV
+	if(mat->HaveExtra("MeanExcitationEnergy"))
 	{
-		cout << " New Material for energy loss full calculation";
-		if(mat->HaveExtra("MeanExcitationEnergy")) {
-                   I = mat->GetExtra("MeanExcitationEnergy") / eV;
-                   } else {
-                  I=10*mat->Z; // I is in eV
-}
-                cout<<" Excitation energy "<<I;
-		edensity = (mat->Z) * Avogadro * (mat->density) / (mat->A);
-		xi0 = xi1 *  edensity; //  mat->GetExtra("ElectronDensity");
-		plasmaEnergy = 28.816 * sqrt((mat->density) * 0.001 * (mat->Z) / (mat->A)); // from 33.1 of the PDG
-		cout << " plasma energy is " << plasmaEnergy << endl;
-		C = 1 + 2 * log(I / plasmaEnergy); 
-		C1 = 0;
-		C0 = 0;
-
-		if((I / eV) < 100)
+		I = mat->GetExtra("MeanExcitationEnergy") / eV;
+	}
+	else
+	{
+		I = 10 * mat->Z;
+	}
+	double edensity = (mat->Z) * Avogadro * (mat->density) / (mat->A);
+	double xi0 = xi1 * edensity; //  mat->GetExtra("ElectronDensity");
+	double plasmaEnergy = 28.816 * sqrt((mat->density) * 0.001 * (mat->Z) / (mat->A)); // from 33.1 of the PDG
+	double C = 1 + 2 * log(I / plasmaEnergy);
+	double C0 = 0;
+	double C1 = 0;
+
+	if((I / eV) < 100)
+	{
+		if(C <= 3.681)
 		{
-			if(C <= 3.681)
-			{
-				C0 = 0.2;
-				C1 = 2.0;
-			}
-			else
-			{
-				C0 = 0.326 * C - 1.0;
-				C1 = 2.0;
-			}
+			C0 = 0.2;
+			C1 = 2.0;
 		}
-		else //I >= 100eV
+		else
 		{
-			if(C <= 5.215)
-			{
-				C0 = 0.2;
-				C1 = 3.0;
-			}
-			else
-			{
-				C0 = 0.326 * C - 1.5;
-				C1 = 3.0;
-			}
+			C0 = 0.326 * C - 1.0;
+			C1 = 2.0;
+		}
+	}
+	else //I >= 100eV
+	{
+		if(C <= 5.215)
+		{
+			C0 = 0.2;
+			C1 = 3.0;
 		}
-		oldmat = mat;
-	}       // end of material setup stuff
+		else
+		{
+			C0 = 0.326 * C - 1.5;
+			C1 = 3.0;
+		}
+	}
 
 	double E1 = E0 * (1 + p.dp());
 	double gamma = E1 / (ProtonMassMeV * MeV);
@@ -239,16 +234,8 @@ void ScatteringModel::EnergyLossFull(PSvector& p, double x, MaterialProperties*
 //HR 29Aug13
 void ScatteringModel::Straggle(PSvector& p, double x, MaterialProperties* mat, double E1, double E2)
 {
-	static MaterialProperties* oldmat = 0;
-	static double X;     // radiation length in metres
 	static const double root12 = sqrt(12.0);
-	if(mat != oldmat)
-	{
-		X = centimeter * mat->X0 / (mat->density / (gram / cc));
-		cout << " New material in Straggle: radiation length "
-                   << setw(12) << setprecision(5) << X << " metres" << endl;
-		oldmat = mat;
-	}
+	double X = centimeter * mat->X0 / (mat->density / (gram / cc));     // radiation length in metres
 	double scaledx = x / X;
 	double Eav = (E1 + E2) / 2.0;
 	double theta0 = 13.6 * MeV * sqrt(scaledx) * (1.0 + 0.038 * log(scaledx)) / Eav;
-- 
2.43.0


From ba64ec9fcfea950b5608651b09b420901dfd73c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 052/147] fix: the acceptance correction of diffractive
 scattering belongs to the scatterer, not to the program

---
 Merlin++/DiffractiveScatter.cpp | 8 --------
 Merlin++/DiffractiveScatter.h   | 7 ++++++-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/Merlin++/DiffractiveScatter.cpp b/Merlin++/DiffractiveScatter.cpp
index df22170..7cbd0d3 100644
--- a/Merlin++/DiffractiveScatter.cpp
+++ b/Merlin++/DiffractiveScatter.cpp
@@ -265,13 +265,6 @@ double ppDiffractiveScatter::SelectXi()
 std::pair<double, double> ppDiffractiveScatter::Select()
 {
 	double xx, tt;
-	static bool kilroy = false;
-	if(kilroy)
-	{
-		std::cout << "open file" << std::endl;
-		kilroy = false;
-	}
-
 	retry:
 
 	double rt = N * RandomNG::uniform(0, 1);
@@ -312,7 +305,6 @@ std::pair<double, double> ppDiffractiveScatter::Select()
 
 	double ds2 = SigDiffractive / (N * N * deltax * (xi_max - xi_min) * deltat * (t_max - t_min));
 
-	static double fudge = 1;
 	double rat = fudge * ds / ds2;
 
 	if(rat > 1)
diff --git a/Merlin++/DiffractiveScatter.h b/Merlin++/DiffractiveScatter.h
index 4f17d13..cb60e7a 100644
--- a/Merlin++/DiffractiveScatter.h
+++ b/Merlin++/DiffractiveScatter.h
@@ -31,7 +31,7 @@ public:
 	 * class constructor
 	 */
 	ppDiffractiveScatter() :
-		Configured(false), Debug(false)
+		Configured(false), fudge(1), Debug(false)
 	{
 	}
 	~ppDiffractiveScatter();
@@ -190,6 +190,11 @@ private:
 	 */
 	double xi_step;
 
+	/**
+	 * Correction of the acceptance of generated points, learned while selecting
+	 */
+	double fudge;
+
 	std::vector<double> UniformT;
 	std::vector<double> UniformXi;
 	std::vector<double> DSig;
-- 
2.43.0


From 91ae5d3ec26485470c16ee864f41d64160d19289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 053/147] fix: recording a loss without a finite or positive
 position ends

---
 Merlin++/LossMapCollimationOutput.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/Merlin++/LossMapCollimationOutput.cpp b/Merlin++/LossMapCollimationOutput.cpp
index 96ed961..40339ce 100644
--- a/Merlin++/LossMapCollimationOutput.cpp
+++ b/Merlin++/LossMapCollimationOutput.cpp
@@ -5,6 +5,8 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <cmath>
+
 #include "LossMapCollimationOutput.h"
 
 namespace ParticleTracking
@@ -28,21 +30,16 @@ void LossMapCollimationOutput::Dispose(AcceleratorComponent& currcomponent, doub
 	temp.lost = 1;
 
 	//calculate 10cm interval - move to 10cm binning?
+	// (a particle without a finite position is counted in the first interval)
 	double inter = 0.0;
-	bool fin = false;
-
-	do
+	if(std::isfinite(pos))
 	{
-		if((pos >= inter) && (pos < (inter + 0.1)))
-		{
-			temp.interval = inter;
-			fin = true;
-		}
-		else
+		while(pos >= inter + 0.1)
 		{
 			inter += 0.1;
 		}
-	} while(fin == false);
+	}
+	temp.interval = inter;
 
 	//For Loss Maps
 	if(currentComponent->GetType() == "Collimator")
-- 
2.43.0


From 44bb74498206f53a605cbb74751f649b0c784d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 054/147] fix: wake fields of an empty or zero-length bunch,
 rounded last slice, memory of collimator wakes

---
 Merlin++/CollimatorWakeProcess.cpp  | 25 ++++++++++-------------
 Merlin++/ParticleBunchUtilities.cpp | 31 ++---------------------------
 Merlin++/WakeFieldProcess.cpp       | 27 +++++++++++++++++++------
 Merlin++/WakeFieldProcess.h         |  1 +
 4 files changed, 35 insertions(+), 49 deletions(-)

diff --git a/Merlin++/CollimatorWakeProcess.cpp b/Merlin++/CollimatorWakeProcess.cpp
index e62b2e9..33c0d8f 100644
--- a/Merlin++/CollimatorWakeProcess.cpp
+++ b/Merlin++/CollimatorWakeProcess.cpp
@@ -61,12 +61,12 @@ CollimatorWakeProcess::CollimatorWakeProcess(int modes, int prio, size_t nb, dou
 	wake_sl = new double*[modes + 1];
 	for(int i = 0; i <= nmodes; i++)
 	{
-		Cm[i] = new double[1000];
-		Sm[i] = new double[1000];
-		wake_ct[i] = new double[1000];
-		wake_st[i] = new double[1000];
-		wake_cl[i] = new double[1000];
-		wake_sl[i] = new double[1000];
+		Cm[i] = new double[nbins + 1];
+		Sm[i] = new double[nbins + 1];
+		wake_ct[i] = new double[nbins + 1];
+		wake_st[i] = new double[nbins + 1];
+		wake_cl[i] = new double[nbins + 1];
+		wake_sl[i] = new double[nbins + 1];
 	}
 }
 
@@ -74,7 +74,7 @@ CollimatorWakeProcess::CollimatorWakeProcess(int modes, int prio, size_t nb, dou
 
 CollimatorWakeProcess::~CollimatorWakeProcess()
 {
-	for(int i = 0; i < nmodes; i++)
+	for(int i = 0; i <= nmodes; i++)
 	{
 		delete[] Cm[i];
 		delete[] Sm[i];
@@ -186,8 +186,6 @@ void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 	}
 	double bload = 0;
 
-#define WAKE_GRADIENT(wake) ((wake[currmode][nslice + 1] - wake[currmode][nslice]) / dz)
-
 	for(int currmode = 1; currmode <= nmodes; currmode++)
 	{
 		CalculateWakeT(dz, currmode);
@@ -196,11 +194,10 @@ void CollimatorWakeProcess::ApplyWakefield(double ds) //  int nmodes)
 
 		for(size_t nslice = 0; nslice < nbins; nslice++)
 		{
-			double g_ct = WAKE_GRADIENT(wake_ct);
-			double g_st = WAKE_GRADIENT(wake_st);
-			double g_cl = WAKE_GRADIENT(wake_cl);
-			double g_sl = WAKE_GRADIENT(wake_sl);
-			g_ct = g_st = g_cl = g_sl = 0;
+			double g_ct = 0;
+			double g_st = 0;
+			double g_cl = 0;
+			double g_sl = 0;
 
 			for(ParticleBunch::iterator p = bunchSlices[nslice]; p != bunchSlices[nslice + 1]; p++)
 			{
diff --git a/Merlin++/ParticleBunchUtilities.cpp b/Merlin++/ParticleBunchUtilities.cpp
index b03eab0..95e5711 100644
--- a/Merlin++/ParticleBunchUtilities.cpp
+++ b/Merlin++/ParticleBunchUtilities.cpp
@@ -82,7 +82,8 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 	for(n = 0; n < nbins; n++)
 	{
 		z += dz;
-		while(p != bunch.end() && p->ct() < z)
+		// all particles are below zmax, and those left belong to the last bin even if z was rounded below zmax
+		while(p != bunch.end() && (p->ct() < z || n == nbins - 1))
 		{
 			total++;
 			hbins[n]++;
@@ -91,34 +92,6 @@ size_t ParticleBinList(ParticleBunch& bunch, double zmin, double zmax, size_t nb
 		bins.push_back(p);
 	}
 
-	if(p != bunch.end())
-	{
-#ifdef ENABLE_MPI
-		cerr << "bad slicing in rank: " << MPI::COMM_WORLD.Get_rank() << endl;
-#endif
-
-#ifndef ENABLE_MPI
-		cerr << "bad slicing" << endl;
-#endif
-
-		cerr << "z = " << z << " ct = " << p->ct() << " zmax = " << zmax << endl;
-		//Dump out the bad bunch
-		/*
-		    ofstream* badbunch = new ofstream("badbunch.bunch");
-		    bunch.Output(*badbunch);
-		    badbunch->close();
-		    delete badbunch;
-		    cerr << "Output of the current bunch is to badbunch.bunch" << endl;
-		 */
-#ifndef ENABLE_MPI
-		abort();
-#endif
-
-#ifdef ENABLE_MPI
-		MPI::COMM_WORLD.Abort(1);
-#endif
-	}
-
 	//	bins.push_back(p); // should be end()
 
 	// normalise distribution
diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index dc76142..ee29c78 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -210,9 +210,7 @@ void WakeFieldProcess::DoProcess(double ds)
 	current_s += ds;
 	if(fequal(current_s, impulse_s))
 	{
-		currentBunch->SortByCT();
-		Init();
-		ApplyWakefield(clen);
+		ApplyWakefieldToBunch();
 		active = false;
 	}
 #endif
@@ -224,9 +222,7 @@ void WakeFieldProcess::DoProcess(double ds)
 		currentBunch->gather();
 		if(currentBunch->MPI_rank == 0)
 		{
-			currentBunch->SortByCT();
-			Init();
-			ApplyWakefield(clen);
+			ApplyWakefieldToBunch();
 		}
 		active = false;
 		currentBunch->distribute();
@@ -234,6 +230,25 @@ void WakeFieldProcess::DoProcess(double ds)
 #endif
 }
 
+void WakeFieldProcess::ApplyWakefieldToBunch()
+{
+	// A bunch that is empty, or has no extent along z, cannot be divided into slices
+	double sigz = currentBunch->size() > 1 ? currentBunch->GetMoments(ps_CT).second : 0;
+	if(!(sigz > 0))
+	{
+		return;
+	}
+
+	currentBunch->SortByCT();
+	Init();
+
+	// All particles may lie outside of the slices
+	if(currentBunch->size() != 0)
+	{
+		ApplyWakefield(clen);
+	}
+}
+
 void WakeFieldProcess::ApplyWakefield(double ds)
 {
 	// check if we are responsible for the current wakefield
diff --git a/Merlin++/WakeFieldProcess.h b/Merlin++/WakeFieldProcess.h
index 2a72454..af31871 100644
--- a/Merlin++/WakeFieldProcess.h
+++ b/Merlin++/WakeFieldProcess.h
@@ -69,6 +69,7 @@ protected:
 	double nsig;
 
 	void Init();
+	void ApplyWakefieldToBunch();
 	size_t CalculateQdist();
 	virtual void CalculateWakeL();
 	virtual void CalculateWakeT();
-- 
2.43.0


From dbb6afccb3c0e1df717c35fcd4b8a3c5262fc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 055/147] fix: small rolls of slice bunches are not taken for
 the identity

---
 Merlin++/RMap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/RMap.h b/Merlin++/RMap.h
index ab94b73..7795e11 100644
--- a/Merlin++/RMap.h
+++ b/Merlin++/RMap.h
@@ -239,7 +239,8 @@ public:
 
 	bool IsIdentity() const
 	{
-		return fequal(r11, 1.0, 1.0e-6) && fequal(r22, 1.0, 1.0e-6);
+		// a small rotation differs from identity only in the second order on the diagonal
+		return fequal(r11, 1.0, 1.0e-12) && fequal(r22, 1.0, 1.0e-12) && fequal(r12, 0.0, 1.0e-12) && fequal(r21, 0.0, 1.0e-12);
 	}
 
 	// matrix elements
-- 
2.43.0


From 20eb22c69f10a5bd063b7f38035419fa47ed5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 056/147] fix: sorting a spin bunch keeps each particle's spin

---
 Merlin++/SpinParticleProcess.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/Merlin++/SpinParticleProcess.cpp b/Merlin++/SpinParticleProcess.cpp
index df835b4..5e3fcf1 100644
--- a/Merlin++/SpinParticleProcess.cpp
+++ b/Merlin++/SpinParticleProcess.cpp
@@ -5,6 +5,8 @@
  * This file is derived from software bearing the copyright notice: (c) 2004 Daniel A. Bates (LBNL) -- All Rights Reserved --
  */
 
+#include <algorithm>
+
 #include "SpinParticleProcess.h"
 #include "SectorBend.h"
 #include "Solenoid.h"
@@ -85,11 +87,27 @@ void SpinParticleBunch::push_back(const Particle& p)
 
 void SpinParticleBunch::SortByCT()
 {
-	// Not yet fully implemented!
-	// At present, only the list of phase space vectors is sorted;
-	// the correlation with the list of spin vectors is lost.
-
-	ParticleBunch::SortByCT();
+	// Sort the particles and their spin vectors together
+	vector<size_t> order(pArray.size());
+	for(size_t i = 0; i < order.size(); i++)
+	{
+		order[i] = i;
+	}
+	sort(order.begin(), order.end(), [this](size_t a, size_t b) {
+			return pArray[a].ct() != pArray[b].ct() ? pArray[a].ct() < pArray[b].ct() : a < b;
+		});
+
+	PSvectorArray particles;
+	SpinVectorArray spins;
+	particles.reserve(order.size());
+	spins.reserve(order.size());
+	for(size_t i = 0; i < order.size(); i++)
+	{
+		particles.push_back(pArray[order[i]]);
+		spins.push_back(spinArray[order[i]]);
+	}
+	pArray.swap(particles);
+	spinArray.swap(spins);
 }
 
 void SpinParticleBunch::Output(std::ostream& os) const
-- 
2.43.0


From 0304a72a9ab8e0abdc02942af7d5d542d871283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 057/147] fix: slice bunches are re-referenced correctly;
 projected moments start from zero

---
 Merlin++/ParticleBunch.cpp |  1 +
 Merlin++/SMPBunch.cpp      | 33 +++++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 77fefb2..df83e5d 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -246,6 +246,7 @@ PSmoments& ParticleBunch::GetMoments(PSmoments& sigma) const
 PSmoments2D& ParticleBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
 	Point2D X = for_each(begin(), end(), APSV2(u, v, size())).X;
+	sigma = PSmoments2D();
 	sigma[0] = X.x;
 	sigma[1] = X.y;
 	for_each(begin(), end(), PSVVAR2(u, v, size(), sigma));
diff --git a/Merlin++/SMPBunch.cpp b/Merlin++/SMPBunch.cpp
index ff89041..8836e8c 100644
--- a/Merlin++/SMPBunch.cpp
+++ b/Merlin++/SMPBunch.cpp
@@ -104,6 +104,7 @@ PSmoments& SMPBunch::GetMoments(PSmoments& sigma) const
 
 PSmoments2D& SMPBunch::GetProjectedMoments(PScoord u, PScoord v, PSmoments2D& sigma) const
 {
+	sigma = PSmoments2D();
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		const SliceMacroParticle& x = (*p);
@@ -131,7 +132,10 @@ PSvector& SMPBunch::GetCentroid(PSvector& x) const
 	{
 		x += p->GetChargeWeightedCentroid();
 	}
-	x /= Qt;
+	if(!slices.empty())
+	{
+		x /= Qt;
+	}
 	return x;
 }
 
@@ -142,21 +146,29 @@ Point2D SMPBunch::GetProjectedCentroid(PScoord u, PScoord v) const
 	{
 		x0 += p->GetChargeWeightedCentroid(u, v);
 	}
-	x0 /= Qt;
+	if(!slices.empty())
+	{
+		x0 /= Qt;
+	}
 	return x0;
 }
 
 double SMPBunch::AdjustRefMomentumToMean()
 {
+	if(slices.empty())
+	{
+		return GetReferenceMomentum();
+	}
 	double dp0 = 0;
 	for(const_iterator cp = begin(); cp != end(); cp++)
 	{
 		dp0 += (cp->dp()) * (cp->Q());
 	}
-	double ddp = dp0 / Qt + 1.0;
+	dp0 /= Qt;
+	double ddp = dp0 + 1.0;
 	for(iterator p = begin(); p != end(); p++)
 	{
-		p->dp() /= ddp;
+		p->dp() = (p->dp() - dp0) / ddp;
 	}
 	SetReferenceMomentum(GetReferenceMomentum() * ddp);
 	return GetReferenceMomentum();
@@ -164,12 +176,21 @@ double SMPBunch::AdjustRefMomentumToMean()
 
 double SMPBunch::AdjustRefTimeToMean()
 {
+	if(slices.empty())
+	{
+		return GetReferenceTime();
+	}
 	double ct = 0;
 	for(const_iterator p = begin(); p != end(); p++)
 	{
 		ct += (p->ct()) * (p->Q());
 	}
-	IncrReferenceTime(ct / Qt);
+	ct /= Qt;
+	for(iterator p = begin(); p != end(); p++)
+	{
+		p->ct() -= ct;
+	}
+	IncrReferenceTime(-ct);
 	return GetReferenceTime();
 }
 
@@ -202,7 +223,7 @@ bool SMPBunch::ApplyTransformation(const Transform3D& t)
 		xf.Apply(*p);
 	}
 
-	return false;
+	return true;
 }
 
 void SMPBunch::AddParticle(const SliceMacroParticle& p, bool do_sort)
-- 
2.43.0


From b7af10ce4e2a4723f069d3b69b1f28d8751ee9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 058/147] fix: monitors ignore null buffers

---
 Merlin++/AMBufferManager.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/AMBufferManager.h b/Merlin++/AMBufferManager.h
index 8b94f6e..9b719f5 100644
--- a/Merlin++/AMBufferManager.h
+++ b/Merlin++/AMBufferManager.h
@@ -76,7 +76,10 @@ B * AMBufferManager<M, B, D>::defBuffer = nullptr;
 template<class M, class B, class D>
 void AMBufferManager<M, B, D>::AddBuffer(B* buf)
 {
-	buffers.insert(buf);
+	if(buf != nullptr)
+	{
+		buffers.insert(buf);
+	}
 }
 
 template<class M, class B, class D>
-- 
2.43.0


From 0bdf885f8e4665e1cba0832fa4880a2fa190394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 059/147] fix: profile monitor projects onto its third axis

---
 Merlin++/RMSProfileMonitor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/RMSProfileMonitor.cpp b/Merlin++/RMSProfileMonitor.cpp
index 5ed5645..7c0168b 100644
--- a/Merlin++/RMSProfileMonitor.cpp
+++ b/Merlin++/RMSProfileMonitor.cpp
@@ -60,8 +60,10 @@ void RMSProfileMonitor::MakeMeasurement(const Bunch& aBunch)
 		{
 			double cosu = cos(uangle);
 			double sinu = sin(uangle);
-			mdat.u0.value = cosu * profile.mean(0) - sinu * profile.mean(1);
-			mdat.urms.value = cosu * profile.std(0) - sinu * profile.std(1);
+			// projection onto the axis at angle uangle to x, as in the special cases above
+			mdat.u0.value = cosu * profile.mean(0) + sinu * profile.mean(1);
+			double varu = cosu * cosu * profile(0, 0) + 2 * cosu * sinu * profile(0, 1) + sinu * sinu * profile(1, 1);
+			mdat.urms.value = varu > 0 ? sqrt(varu) : 0;
 		}
 
 		mdat.u0.error = res_u;
-- 
2.43.0


From c5a080b9ad59ed4cb70f17ec0c45d068234a968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 060/147] fix: monitors are read once, at the time of the
 measuring point

---
 Merlin++/SMPStdIntegrators.cpp | 46 +++++++++++++++++++++++-----------
 Merlin++/SMPStdIntegrators.h   |  7 ++++++
 Merlin++/StdIntegrators.cpp    | 19 ++++++++++----
 Merlin++/StdIntegrators.h      |  3 +++
 4 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 7eac49a..84b58d5 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -395,28 +395,44 @@ void SolenoidCI::TrackStep(double ds)
 	return;
 }
 
+void MonitorCI::TrackEntrance()
+{
+	measured = false;
+	stepLength = 0;
+}
+
+// The bunch timing is incremented after the step, so it is advanced to the place of the measurement
+void MonitorCI::Measure(double ds)
+{
+	double ct = currentBunch->GetReferenceTime();
+	currentBunch->SetReferenceTime(ct + ds);
+	currentComponent->MakeMeasurement(*currentBunch);
+	currentBunch->SetReferenceTime(ct);
+	measured = true;
+}
+
 void MonitorCI::TrackStep(double ds)
 {
 	double len = currentComponent->GetLength();
-	if(len == 0)
+	double mpt = currentComponent->GetMeasurementPt() + len / 2;
+	stepLength = ds;
+	if(len != 0 && !measured && GetIntegratedLength() + ds > mpt)
 	{
-		assert(ds == 0);
-		currentComponent->MakeMeasurement(*currentBunch);
+		double s1 = mpt - GetIntegratedLength();
+		ApplyDrift(s1, *currentBunch);
+		Measure(s1);
+		ds -= s1;
 	}
-	else
+	ApplyDrift(ds, *currentBunch);
+}
+
+void MonitorCI::TrackExit()
+{
+	// zero-length monitors, and those that measure at their exit
+	if(!measured)
 	{
-		double mpt = currentComponent->GetMeasurementPt() + len / 2;
-		if(GetIntegratedLength() + ds > mpt)
-		{
-			double s1 = mpt - GetIntegratedLength();
-			ApplyDrift(s1, *currentBunch);
-			currentComponent->MakeMeasurement(*currentBunch);
-			ds -= s1;
-		}
-		ApplyDrift(ds, *currentBunch);
+		Measure(stepLength);
 	}
-	return;
-
 }
 
 void TWRFStructureCI::TrackStep(double ds)
diff --git a/Merlin++/SMPStdIntegrators.h b/Merlin++/SMPStdIntegrators.h
index 5036fe8..b6f8322 100644
--- a/Merlin++/SMPStdIntegrators.h
+++ b/Merlin++/SMPStdIntegrators.h
@@ -65,6 +65,13 @@ class MonitorCI: public SMPComponentTracker::Integrator<Monitor>
 {
 protected:
 	void TrackStep(double ds);
+	void TrackEntrance();
+	void TrackExit();
+private:
+	void Measure(double ds);
+
+	bool measured; ///< reading for this passage made
+	double stepLength; ///< length of the current step
 };
 
 class SWRFStructureCI: public SMPComponentTracker::Integrator<SWRFStructure>
diff --git a/Merlin++/StdIntegrators.cpp b/Merlin++/StdIntegrators.cpp
index d1b597f..a817f28 100644
--- a/Merlin++/StdIntegrators.cpp
+++ b/Merlin++/StdIntegrators.cpp
@@ -381,19 +381,29 @@ void SWRFStructureCI::TrackStep(double ds)
 void MonitorCI::TrackEntrance()
 {
 	measured = false;
+	stepLength = 0;
+}
+
+// The bunch timing is incremented after the step, so it is advanced to the place of the measurement
+void MonitorCI::Measure(double ds)
+{
+	double ct = currentBunch->GetReferenceTime();
+	currentBunch->SetReferenceTime(ct + ds);
+	currentComponent->MakeMeasurement(*currentBunch);
+	currentBunch->SetReferenceTime(ct);
+	measured = true;
 }
 
 void MonitorCI::TrackStep(double ds)
 {
 	double len = currentComponent->GetLength();
 	double mpt = currentComponent->GetMeasurementPt() + len / 2;
+	stepLength = ds;
 	if(len != 0 && !measured && GetIntegratedLength() + ds > mpt)
 	{
 		double s1 = mpt - GetIntegratedLength();
 		ApplyDrift(currentBunch->GetParticles(), s1);
-		//				IncrStep(s1); // need to increment bunch timing
-		currentComponent->MakeMeasurement(*currentBunch);
-		measured = true;
+		Measure(s1);
 		ds -= s1;
 	}
 	ApplyDrift(currentBunch->GetParticles(), ds);
@@ -404,8 +414,7 @@ void MonitorCI::TrackExit()
 	// zero-length monitors, and those that measure at their exit
 	if(!measured)
 	{
-		currentComponent->MakeMeasurement(*currentBunch);
-		measured = true;
+		Measure(stepLength);
 	}
 }
 
diff --git a/Merlin++/StdIntegrators.h b/Merlin++/StdIntegrators.h
index b5d9f2e..881a229 100644
--- a/Merlin++/StdIntegrators.h
+++ b/Merlin++/StdIntegrators.h
@@ -36,7 +36,10 @@ public:
 	void TrackEntrance();
 	void TrackExit();
 private:
+	void Measure(double ds);
+
 	bool measured; ///< reading for this passage made
+	double stepLength; ///< length of the current step
 };
 
 DECL_SIMPLE_INTG(MarkerCI, Marker)
-- 
2.43.0


From ec26c11b7eb0a639dbd6298619ce1f077c99d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 061/147] fix: a BPM channel listens to its monitor

---
 Merlin++/BPMDataBufferServer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Merlin++/BPMDataBufferServer.cpp b/Merlin++/BPMDataBufferServer.cpp
index 58ad0ca..d529595 100644
--- a/Merlin++/BPMDataBufferServer.cpp
+++ b/Merlin++/BPMDataBufferServer.cpp
@@ -13,7 +13,15 @@ BPMDataBuffer* BPMDataBufferServer::GetDataBuffer(BPM* bpm, bool create)
 
 	if(b != dataBuffers.end())
 	{
-		return &(b->second);
+		BPMDataBuffer* buf = &(b->second);
+		if(!bpm->RemoveBuffer(buf))
+		{
+			// not the monitor this buffer was made for, but a new one at the same address
+			*buf = BPMDataBuffer();
+			buf->SetID(bpm->GetName());
+		}
+		bpm->AddBuffer(buf);
+		return buf;
 	}
 
 	if(!create)
-- 
2.43.0


From b843a5867e54e9fed50aa6aa903afb27cdc6a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 062/147] fix: BPM channel offsets are independent

---
 Merlin++/BPMChannel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BPMChannel.cpp b/Merlin++/BPMChannel.cpp
index 9d5d291..7083978 100644
--- a/Merlin++/BPMChannel.cpp
+++ b/Merlin++/BPMChannel.cpp
@@ -36,10 +36,10 @@ void BPMChannel::SetBPMOffset(double x)
 {
 	if(xy == 'X')
 	{
-		itsData->SetOffsets(x, 0);
+		itsData->SetOffsets(x, itsData->y_off);
 	}
 	else
 	{
-		itsData->SetOffsets(0, x);
+		itsData->SetOffsets(itsData->x_off, x);
 	}
 }
-- 
2.43.0


From 4ebf7843c87d3514f6b68e6e3ff79b479ec7624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 063/147] fix: initialise Monitor::reflected

---
 Merlin++/Monitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/Monitor.cpp b/Merlin++/Monitor.cpp
index 811bb6a..c5f357b 100644
--- a/Merlin++/Monitor.cpp
+++ b/Merlin++/Monitor.cpp
@@ -13,7 +13,7 @@ bool Monitor::all_inactive = false;
 const int Monitor::ID = UniqueIndex();
 
 Monitor::Monitor(const string& id, double len, double mpt) :
-	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), active(true)
+	TAccCompG<RectangularGeometry>(id, new RectangularGeometry(len)), mp(mpt), reflected(false), active(true)
 {
 }
 
-- 
2.43.0


From 39974b5777f271c7d8282aaca4c752c9ae64429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 064/147] fix: channels of every matching element, in a fixed
 order

---
 Merlin++/ChannelServer.cpp | 55 +++++++++++++++++++++++---------------
 Merlin++/ChannelServer.h   |  3 ++-
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/Merlin++/ChannelServer.cpp b/Merlin++/ChannelServer.cpp
index 73be3c4..6dc181e 100644
--- a/Merlin++/ChannelServer.cpp
+++ b/Merlin++/ChannelServer.cpp
@@ -40,13 +40,18 @@ struct CHPath
 
 CHPath::CHPath(const string& cid)
 {
-	int n1 = cid.find('.');
-	type = cid.substr(0, n1);
-
-	int n2 = cid.find('.', n1 + 1);
-	id = cid.substr(n1 + 1, n2 - n1 - 1);
+	// element names may contain dots themselves, types and keys do not
+	size_t n1 = cid.find('.');
+	size_t n2 = cid.rfind('.');
+	if(n1 == string::npos)
+	{
+		type = id = key = cid;
+		return;
+	}
 
-	key = cid.substr(n2 + 1);
+	type = cid.substr(0, n1);
+	id = n1 == n2 ? cid.substr(n1 + 1) : cid.substr(n1 + 1, n2 - n1 - 1);
+	key = n1 == n2 ? cid : cid.substr(n2 + 1);
 }
 
 struct TYPE_CMP
@@ -96,7 +101,7 @@ size_t ChannelServer::GetROChannels(const string& chID, std::vector<ROChannel*>&
 		return 0;
 	}
 
-	set<ChannelCtor*> ctors;
+	vector<ChannelCtor*> ctors;
 	string etype = "";
 	int count = 0;
 	for(vector<ModelElement*>::iterator ei = elements.begin(); ei != elements.end(); ei++)
@@ -109,13 +114,12 @@ size_t ChannelServer::GetROChannels(const string& chID, std::vector<ROChannel*>&
 			FindCtors(etype, chpath.key, ctors);
 			if(ctors.empty())
 			{
-				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				MerlinIO::warning() << "ChannelServer: No channel constructors for " << etype << " found" << endl;
 			}
 		}
 
 		// Now construct the channels
-		for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
+		for(vector<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 		{
 			channels.push_back((*ci)->ConstructRO(*ei));
 			count++;
@@ -138,7 +142,7 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 		return 0;
 	}
 
-	set<ChannelCtor*> ctors;
+	vector<ChannelCtor*> ctors;
 	string etype = "";
 	int count = 0;
 	for(vector<ModelElement*>::iterator ei = elements.begin(); ei != elements.end(); ei++)
@@ -151,16 +155,19 @@ size_t ChannelServer::GetRWChannels(const string& chID, std::vector<RWChannel*>&
 			FindCtors(etype, chpath.key, ctors);
 			if(ctors.empty())
 			{
-				MerlinIO::warning() << "ChannelServer: No channel constructors for " << chpath.type << " found" << endl;
-				break;
+				MerlinIO::warning() << "ChannelServer: No channel constructors for " << etype << " found" << endl;
 			}
 		}
 
 		// Now construct the channels
-		for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
+		for(vector<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 		{
 			RWChannel* ch = (*ci)->ConstructRW(*ei);
-			assert(ch != 0); // if(ch==0) throw ChannelIsRO(ch->GetID());
+			if(ch == nullptr)
+			{
+				MerlinIO::warning() << "ChannelServer: " << (*ci)->GetID() << " channels are read-only" << endl;
+				continue;
+			}
 			channels.push_back(ch);
 			count++;
 		}
@@ -186,11 +193,11 @@ size_t ChannelServer::GetROChannels(AcceleratorModel::Beamline& aBeamline, const
 			if(idpat(component.GetQualifiedName()))
 			{
 
-				set<ChannelCtor*> ctors;
+				vector<ChannelCtor*> ctors;
 				FindCtors(component.GetType(), chpath.key, ctors);
 
 				// Now construct the channels for the current component
-				for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
+				for(vector<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 				{
 					ROChannel* ch = (*ci)->ConstructRO(&component);
 					assert(ch != 0);
@@ -221,14 +228,18 @@ size_t ChannelServer::GetRWChannels(AcceleratorModel::Beamline& aBeamline, const
 			if(idpat(component.GetQualifiedName()))
 			{
 
-				set<ChannelCtor*> ctors;
+				vector<ChannelCtor*> ctors;
 				FindCtors(component.GetType(), chpath.key, ctors);
 
 				// Now construct the channels for the current component
-				for(set<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
+				for(vector<ChannelCtor*>::iterator ci = ctors.begin(); ci != ctors.end(); ci++)
 				{
 					RWChannel* ch = (*ci)->ConstructRW(&component);
-					assert(ch != 0);
+					if(ch == nullptr)
+					{
+						MerlinIO::warning() << "ChannelServer: " << (*ci)->GetID() << " channels are read-only" << endl;
+						continue;
+					}
 					channels.push_back(ch);
 					count++;
 				}
@@ -251,7 +262,7 @@ void ChannelServer::SetRepository(ElementRepository* me_repo)
 	theElements = me_repo;
 }
 
-void ChannelServer::FindCtors(const string& type, const string& keypat, std::set<ChannelCtor*>& ctors)
+void ChannelServer::FindCtors(const string& type, const string& keypat, std::vector<ChannelCtor*>& ctors)
 {
 	ctors.clear();
 
@@ -270,7 +281,7 @@ void ChannelServer::FindCtors(const string& type, const string& keypat, std::set
 	{
 		if(keyp((ci->second)->GetKey()))
 		{
-			ctors.insert(ci->second);
+			ctors.push_back(ci->second);
 		}
 	}
 }
diff --git a/Merlin++/ChannelServer.h b/Merlin++/ChannelServer.h
index 0496fde..8350c2b 100644
--- a/Merlin++/ChannelServer.h
+++ b/Merlin++/ChannelServer.h
@@ -11,6 +11,7 @@
 #include "merlin_config.h"
 #include <string>
 #include <map>
+#include <vector>
 #include "AcceleratorModel.h"
 #include "ElementRepository.h"
 
@@ -132,7 +133,7 @@ private:
 	ElementRepository* theElements;
 	CtorTable chCtors;
 
-	void FindCtors(const string& type, const string& keypat, std::set<ChannelCtor*>& ctors);
+	void FindCtors(const string& type, const string& keypat, std::vector<ChannelCtor*>& ctors);
 
 	/**
 	 *	Returns in elements the ModelElements that match
-- 
2.43.0


From 9ac7c875e9fdd3b550aa6df44a3a9710e2371e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 065/147] fix: klystron in vector-sum mode adjusts its cavities

---
 Merlin++/Klystron.cpp | 20 ++++++++------------
 Merlin++/Klystron.h   |  2 +-
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/Merlin++/Klystron.cpp b/Merlin++/Klystron.cpp
index 4b14a0f..262e2bb 100644
--- a/Merlin++/Klystron.cpp
+++ b/Merlin++/Klystron.cpp
@@ -79,34 +79,32 @@ Klystron::Klystron(const string& aName, const vector<RFStructure*>& cavs, Mode m
 
 void Klystron::SetVoltage(double v)
 {
-	V_k = v;
-	AdjustCavities();
+	AdjustCavities(v, phi_k);
 }
 
 void Klystron::SetPhase(double phi)
 {
-	phi_k = phi;
-	AdjustCavities();
+	AdjustCavities(V_k, phi);
 }
 
 void Klystron::SetVoltagePhasor(const Complex& z)
 {
-	V_k = abs(z);
-	phi_k = arg(z);
-	AdjustCavities();
+	AdjustCavities(abs(z), arg(z));
 }
 
-void Klystron::AdjustCavities()
+void Klystron::AdjustCavities(double v, double phi)
 {
 	switch(kmode)
 	{
 	case balanced:
-		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(V_k / rf_cavs.size(), phi_k));
+		for_each(rf_cavs.begin(), rf_cavs.end(), set_cavity(v / rf_cavs.size(), phi));
 		break;
 	case vector_sum:
-		AdjustVectorSum(V_k, phi_k);
+		AdjustVectorSum(v, phi);
 		break;
 	}
+	V_k = v;
+	phi_k = phi;
 }
 
 const string& Klystron::GetType() const
@@ -132,6 +130,4 @@ void Klystron::AdjustVectorSum(double v, double phi)
 {
 	Complex vscale = Complex(v * cos(phi), v * sin(phi)) / Complex(V_k * cos(phi_k), V_k * sin(phi_k));
 	for_each(rf_cavs.begin(), rf_cavs.end(), scale_cavity(vscale));
-	V_k = v;
-	phi_k = phi;
 }
diff --git a/Merlin++/Klystron.h b/Merlin++/Klystron.h
index 31593f2..c77f4d6 100644
--- a/Merlin++/Klystron.h
+++ b/Merlin++/Klystron.h
@@ -88,7 +88,7 @@ protected:
 	double V_k;
 	double phi_k;
 
-	void AdjustCavities();
+	void AdjustCavities(double v, double phi);
 	void AdjustVectorSum(double v, double phi);
 	void AppendBeamlineIndexes(std::vector<size_t>&) const;
 };
-- 
2.43.0


From 86350bdae3ddd5656516668b8cf1ea267bb5ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 066/147] fix: corrector winding planes are independent

---
 Merlin++/CorrectorWinding.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/CorrectorWinding.cpp b/Merlin++/CorrectorWinding.cpp
index 6c71ff0..cecd76d 100644
--- a/Merlin++/CorrectorWinding.cpp
+++ b/Merlin++/CorrectorWinding.cpp
@@ -20,7 +20,7 @@ void CorrectorWinding::SetBx(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, 0, value / l);
+	(*magnet).GetField().SetComponent(0, (*magnet).GetField().GetComponent(0).real(), value / l);
 }
 
 void CorrectorWinding::SetBy(double value)
@@ -31,7 +31,7 @@ void CorrectorWinding::SetBy(double value)
 	}
 
 	double l = magnet->GetLength();
-	(*magnet).GetField().SetComponent(0, value / l, 0);
+	(*magnet).GetField().SetComponent(0, value / l, (*magnet).GetField().GetComponent(0).imag());
 }
 
 double CorrectorWinding::GetBx() const
-- 
2.43.0


From cc8c579dc5ad8b791b1a001c4e183ebea0be962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 067/147] fix: delayed feedback keeps the actuators until its
 first correction arrives

---
 Merlin++/LinearFBSystem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/LinearFBSystem.cpp b/Merlin++/LinearFBSystem.cpp
index abbb515..f8764df 100644
--- a/Merlin++/LinearFBSystem.cpp
+++ b/Merlin++/LinearFBSystem.cpp
@@ -164,9 +164,11 @@ void LinearFBSystem::SetPulseDelay(int n)
 
 	actuatorQueue = new std::queue<RealVector>();
 
-	RealVector zeros(0.0, actuators.Size());
+	// the actuators keep their settings until the first correction arrives
+	RealVector current(actuators.Size());
+	actuators.ReadAll(current);
 	while((--n) > 0)
 	{
-		actuatorQueue->push(zeros);
+		actuatorQueue->push(current);
 	}
 }
-- 
2.43.0


From 4d5a3bec72f343e994aa50bda6084b5883bb5e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 068/147] fix: SVD solution with fewer rows than columns

---
 Merlin++/TLASimp.h | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index f94b82e..3bd0715 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -119,24 +119,15 @@ public:
 	 */
 	Vector<T> operator()(const Vector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(Vector<T>(rhs));
 	}
 	Vector<T> operator()(const SubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(Vector<T>(rhs));
 	}
 	Vector<T> operator()(const ConstSubVector<T>& rhs) const
 	{
-		Vector<T> x(w.size());
-		Vector<T> y(rhs);
-		y *= wts;
-		return SVDsolve(u, w, v, y, x);
+		return Solve(Vector<T>(rhs));
 	}
 	const std::vector<bool>& wflags() const
 	{
@@ -162,6 +153,7 @@ public:
 private:
 
 	void Init(const Matrix<T>& M, T threshold);
+	Vector<T> Solve(const Vector<T>& rhs) const;
 
 	Matrix<T> u, v;
 	Vector<T> w;
@@ -198,10 +190,11 @@ void SVDMatrix<T>::Init(const Matrix<T>& M, T threshold)
 		u.copy(M);
 	}
 
-	// adjust for weights: multiply each column vector by wts
-	for(Subscript ir = 0; ir < u.ncols(); ir++)
+	// adjust for weights: multiply each row by its weight
+	equal_length(wts.size(), M.nrows());
+	for(Subscript ir = 0; ir < M.nrows(); ir++)
 	{
-		u.column(ir) *= wts;
+		u.row(ir) *= wts[ir];
 	}
 
 	w.redim(u.ncols());
@@ -225,6 +218,20 @@ void SVDMatrix<T>::Init(const Matrix<T>& M, T threshold)
 	}
 }
 
+template<class T>
+Vector<T> SVDMatrix<T>::Solve(const Vector<T>& rhs) const
+{
+	equal_length(rhs.size(), wts.size());
+	// the rows added to make the matrix square have zeros on the right hand side
+	Vector<T> y(T(0), u.nrows());
+	for(Subscript i = 0; i < rhs.size(); i++)
+	{
+		y[i] = rhs[i] * wts[i];
+	}
+	Vector<T> x(w.size());
+	return SVDsolve(u, w, v, y, x);
+}
+
 // Low level routines
 
 template<class T>
-- 
2.43.0


From 64ccc72d9d964a6628b6a8918ecac61bcf99ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 069/147] fix: SVD of singular and badly scaled matrices

---
 Merlin++/TLASimp.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/Merlin++/TLASimp.h b/Merlin++/TLASimp.h
index 3bd0715..c11aea4 100644
--- a/Merlin++/TLASimp.h
+++ b/Merlin++/TLASimp.h
@@ -408,7 +408,7 @@ inline T PYTHAG(T a, T b)
 		T c = b / a;
 		return a * sqrt(1 + c * c);
 	}
-	else if(!fequal(b, 0.0))
+	else if(b != 0.0)
 	{
 		T c = a / b;
 		return b * sqrt(1 + c * c);
@@ -444,7 +444,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		if(i <= rmax)
 		{
 			F0 += M(R1, i).sumfabs();
-			if(!fequal(F0, 0.0))
+			if(F0 != 0.0)
 			{
 				M(R1, i) /= F0;
 				f1 += M(R1, i).sumsquared();
@@ -471,7 +471,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		{
 			Range R2(i + 1, cmax);
 			F0 += M(i, R2).sumfabs();
-			if(!fequal(F0, 0.0))
+			if(F0 != 0.0)
 			{
 				M(i, R2) /= F0;
 				f1 += M(i, R2).sumsquared();
@@ -500,7 +500,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		if(i < cmax)
 		{
 			Range R2(i + 1, cmax);
-			if(!fequal(F1, 0.0))
+			if(F1 != 0.0)
 			{
 				S(R2, i) = (M(i, R2) / M[i][i + 1]) / F1;
 				for(int j = i + 1; j <= cmax; j++)
@@ -523,7 +523,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 		F1 = V[i];
 		if(i < cmax)
 			M(i, R4) = 0;
-		if(!fequal(F1, 0.0))
+		if(F1 != 0.0)
 		{
 			F1 = 1.0 / F1;
 			if(i != cmax)
@@ -556,12 +556,12 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 			for(L = k; L >= 0; L--)
 			{
 				remember = L - 1;
-				if(fequal(fabs(work[L]) + F2, F2))
+				if(fabs(work[L]) + F2 == F2)
 				{
 					ok = false;
 					break;
 				}
-				if(fequal(fabs(V[L - 1]) + F2, F2))
+				if(fabs(V[L - 1]) + F2 == F2)
 				{
 					break;
 				}
@@ -573,7 +573,12 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				for(int i = L; i <= k; i++)
 				{
 					f0 = f1 * work[i];
-					if(!fequal(fabs(f0) + F2, F2))
+					work[i] = f2 * work[i];
+					if(fabs(f0) + F2 == F2)
+					{
+						break;
+					}
+					else
 					{
 						F1 = V[i];
 						f3 = PYTHAG(f0, F1);
@@ -627,7 +632,7 @@ void SVD(Matrix<T>& M, Vector<T>& V, Matrix<T>& S)
 				S.column(j + 1) = Z1 * f2 - X * f1;
 				q1 = PYTHAG(f0, f3);
 				V[j] = q1;
-				if(!fequal(q1, 0.0))
+				if(q1 != 0.0)
 				{
 					q1 = 1.0 / q1;
 					f2 = f0 * q1;
-- 
2.43.0


From 867cdcbcc015b6d7e1b742ce71febd5ae945fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:02 +0000
Subject: [PATCH 070/147] fix: apply alignment errors of nanometre rms

---
 Merlin++/AcceleratorErrors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/AcceleratorErrors.cpp b/Merlin++/AcceleratorErrors.cpp
index ccd18af..24e607a 100644
--- a/Merlin++/AcceleratorErrors.cpp
+++ b/Merlin++/AcceleratorErrors.cpp
@@ -37,9 +37,9 @@ public:
 				frame->ClearLocalFrameTransform();
 			}
 
-			double ex = fequal(vx, 0.0) ? mx : RandomNG::normal(mx, vx);
-			double ey = fequal(vy, 0.0) ? my : RandomNG::normal(my, vy);
-			double ez = fequal(vz, 0.0) ? mz : RandomNG::normal(mz, vz);
+			double ex = vx == 0.0 ? mx : RandomNG::normal(mx, vx);
+			double ey = vy == 0.0 ? my : RandomNG::normal(my, vy);
+			double ez = vz == 0.0 ? mz : RandomNG::normal(mz, vz);
 			if(t)
 			{
 				frame->Translate(ex, ey, ez);
-- 
2.43.0


From 0704e08658e4168b1d09ee65cf9c0fff430d6b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:19 +0000
Subject: [PATCH 071/147] fix: keep composed rotations of small angles

---
 Merlin++/AxisRotations.cpp   | 12 ++++++------
 Merlin++/GeneralRotation.cpp |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/Merlin++/AxisRotations.cpp b/Merlin++/AxisRotations.cpp
index 8367c0c..2110600 100644
--- a/Merlin++/AxisRotations.cpp
+++ b/Merlin++/AxisRotations.cpp
@@ -38,13 +38,13 @@ Rot3Drep* RotationX::dot(const Rot3Drep& r) const
 Rot3Drep* RotationX::dotBy(const RotationX& rx) const
 {
 	double ncos = cosine() * rx.cosine() - sine() * rx.sine();
-	if(ncos == 1)
+	double nsin = sine() * rx.cosine() + cosine() * rx.sine();
+	if(ncos == 1 && nsin == 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * rx.cosine() + cosine() * rx.sine();
 		return new RotationX(ncos, nsin);
 	}
 }
@@ -124,13 +124,13 @@ Rot3Drep* RotationY::dotBy(const RotationX& rx) const
 Rot3Drep* RotationY::dotBy(const RotationY& ry) const
 {
 	double ncos = cosine() * ry.cosine() - sine() * ry.sine();
-	if(ncos == 1)
+	double nsin = sine() * ry.cosine() + cosine() * ry.sine();
+	if(ncos == 1 && nsin == 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * ry.cosine() + cosine() * ry.sine();
 		return new RotationY(ncos, nsin);
 	}
 }
@@ -210,13 +210,13 @@ Rot3Drep* RotationZ::dotBy(const RotationY& ry) const
 Rot3Drep* RotationZ::dotBy(const RotationZ& rz) const
 {
 	double ncos = cosine() * rz.cosine() - sine() * rz.sine();
-	if(ncos == 1)
+	double nsin = sine() * rz.cosine() + cosine() * rz.sine();
+	if(ncos == 1 && nsin == 0)
 	{
 		return new IdentityRotation();
 	}
 	else
 	{
-		double nsin = sine() * rz.cosine() + cosine() * rz.sine();
 		return new RotationZ(ncos, nsin);
 	}
 }
diff --git a/Merlin++/GeneralRotation.cpp b/Merlin++/GeneralRotation.cpp
index 9278c79..0b4a32f 100644
--- a/Merlin++/GeneralRotation.cpp
+++ b/Merlin++/GeneralRotation.cpp
@@ -193,7 +193,9 @@ RotationType GeneralRotation::type() const
 
 bool GeneralRotation::isIdentity() const
 {
-	return m(0, 0) == 1.0 && m(1, 1) == 1.0 && m(2, 2) == 1.0;
+	// the diagonal alone would be one (to machine precision) for any small angle
+	return m(0, 0) == 1.0 && m(1, 1) == 1.0 && m(2, 2) == 1.0 && m(0, 1) == 0.0 && m(0, 2) == 0.0 && m(1, 0) == 0.0
+		   && m(1, 2) == 0.0 && m(2, 0) == 0.0 && m(2, 1) == 0.0;
 }
 
 bool GeneralRotation::isXrot() const
-- 
2.43.0


From 92dc774b85f665c504ca0cb3e4f44b809608c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 072/147] fix: notice a single moved support of a girder

---
 Merlin++/SupportStructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index cb6ef0d..f91b8e0 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -83,7 +83,7 @@ void SupportStructure::UpdateSupportTransform() const
 	// Check if cached state needs updating, otherwise
 	// return.
 
-	if(!sup1->modified || (sup2 && !sup2->modified))
+	if(!sup1->modified && !(sup2 && sup2->modified))
 	{
 		return;
 	}
-- 
2.43.0


From d845e1bfd4c6687fdd127225d9b96fd59a4ac81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 073/147] fix: no NaN ground motion from slightly negative
 eigenvalues

---
 Merlin++/ATL2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index 8ee3b38..b063b70 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -147,7 +147,8 @@ double ATL2D::DoStep(double dt)
 
 	for(size_t n = 0; n < theSupports.size(); n++)
 	{
-		if(at * evals[n])
+		// a vanishing eigenvalue can come out slightly negative
+		if(at * evals[n] > 0)
 			yy(n) = normal_distribution<>{0, sqrt(at * evals[n])} (*rg);
 	}
 
-- 
2.43.0


From 63217392f903b7598e1c9f2362cff4ab95615978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:23 +0000
Subject: [PATCH 074/147] fix: record and read the whole ATL2D eigensystem

---
 Merlin++/ATL2D.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Merlin++/ATL2D.cpp b/Merlin++/ATL2D.cpp
index b063b70..0a302ee 100644
--- a/Merlin++/ATL2D.cpp
+++ b/Merlin++/ATL2D.cpp
@@ -10,6 +10,7 @@
 #include <iomanip>
 #include <random>
 
+#include "MerlinException.h"
 #include "RandomNG.h"
 #include "ATL2D.h"
 
@@ -103,16 +104,21 @@ ATL2D::ATL2D(double anA, const AcceleratorSupportList& supports, const Point2D r
 	{
 		double element;
 		for(row = 0; row < n; row++)
-			for(col = row; col < n; col++)
+			for(col = 0; col < n; col++)
 			{
 				(*evecTFile) >> element;
-				evecsT(row, col) = evecsT(col, row) = element;
+				evecsT(row, col) = element;
 			}
 
 		for(row = 0; row < n; row++)
 		{
 			(*evalFile) >> evals(row);
 		}
+
+		if(!*evecTFile || !*evalFile)
+		{
+			throw MerlinException("ATL2D: cannot read the eigensystem of the supports");
+		}
 	}
 	else
 	{
@@ -223,18 +229,21 @@ void ATL2D::RecordEigenSystem(ofstream* evecTFile, ofstream* evalFile)
 	const int n = evals.size();
 	int row, col;
 
+	evecTFile->precision(17);
+	evalFile->precision(17);
+
 	for(row = 0; row < n; row++)
 	{
-		for(col = row; col < n; col++)
+		for(col = 0; col < n; col++)
 		{
-			(*evecTFile) << std::setw(14) << evecsT(row, col);
+			(*evecTFile) << std::setw(25) << evecsT(row, col);
 		}
 		(*evecTFile) << endl;
 	}
 
 	for(row = 0; row < n; row++)
 	{
-		(*evalFile) << std::setw(14) << evals(row) << endl;
+		(*evalFile) << std::setw(25) << evals(row) << endl;
 	}
 }
 
-- 
2.43.0


From e1234e5ec2fabfa52b435480a79f8d18eb394842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 075/147] fix: no NaN ground motion from a support just before
 the origin

---
 Merlin++/SimpleATL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SimpleATL.cpp b/Merlin++/SimpleATL.cpp
index 6ced498..acbb5e8 100644
--- a/Merlin++/SimpleATL.cpp
+++ b/Merlin++/SimpleATL.cpp
@@ -40,7 +40,7 @@ struct ApplyATL
 	{
 		// Perform the random walk
 		double v = AT * (s->GetArcPosition() - z);
-		y += v != 0 ? normal_distribution<>{0, sqrt(v)} (*rng) : 0.0;
+		y += v > 0 ? normal_distribution<>{0, sqrt(v)} (*rng) : 0.0;
 		*yy += y;
 
 		// add random 'noise'
-- 
2.43.0


From 9b80c769c9722a2969c4840b67912bb0bc0ce9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 076/147] fix: move a curved girder as its supports are moved

---
 Merlin++/SupportStructure.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SupportStructure.cpp b/Merlin++/SupportStructure.cpp
index f91b8e0..243406f 100644
--- a/Merlin++/SupportStructure.cpp
+++ b/Merlin++/SupportStructure.cpp
@@ -109,10 +109,14 @@ void SupportStructure::UpdateSupportTransform() const
 		Vector3D X1 = Rg(sup1->GetOffset());
 		Vector3D X2 = Rg(sup2->GetOffset());
 
+		// The offsets are given in the entrance plane reference frame
+		Transform3D Tin = GetGeometryTransform(AcceleratorGeometry::entrance);
+
 		// check to see if we have a simple translation
 		if(X1 == X2)
 		{
-			Ts = Transform3D::translation(X1.x, X1.y, X1.z);
+			Vector3D X = Tin.R().inv()(X1);
+			Ts = Transform3D::translation(X.x, X.y, X.z);
 		}
 		else
 		{
@@ -130,7 +134,6 @@ void SupportStructure::UpdateSupportTransform() const
 			Transform3D T1 = Transform3D(Point3D(X1.x, X1.y, X1.z), R);
 
 			// Convert Ts to a transformation about the local frame origin.
-			Transform3D Tin = GetGeometryTransform(AcceleratorGeometry::entrance);
 			Ts = Tin.inv() * T1 * Tin;
 		}
 	}
-- 
2.43.0


From 1d9a823fdfaf74e19667884e5d17901c53eee6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:23 +0000
Subject: [PATCH 077/147] fix: refuse aperture files naming unknown shapes

---
 Merlin++/ApertureConfiguration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 173aec1..a6df328 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -17,6 +17,7 @@
 
 #include "ApertureConfiguration.h"
 #include "InterpolatedApertures.h"
+#include "MerlinException.h"
 
 using namespace std;
 
@@ -45,6 +46,11 @@ ApertureConfiguration::ApertureConfiguration(string InputFileName)
 		if(itr.Get_d("APER_1") != 0 || itr.Get_d("APER_2") != 0 || itr.Get_d("APER_3") != 0 || itr.Get_d(
 				"APER_4") != 0)
 		{
+			if(ApertureFactory::ApertureTypes.find(itr.Get_s("APERTYPE")) == ApertureFactory::ApertureTypes.end())
+			{
+				throw MerlinException("ApertureConfiguration: unknown aperture type " + itr.Get_s("APERTYPE") + " in "
+						  + InputFileName);
+			}
 			ApertureDataTable.ApertureFromRow(itr);
 			ApertureDataTable.Set("S", ApertureDataTable.Length() - 1, (itr.Get_d("S") - itr.Get_d("L")));
 			ApertureDataTable.ApertureFromRow(itr);
-- 
2.43.0


From c5fb1b51089746722e47d49f5c0a2986d257fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:52 +0000
Subject: [PATCH 078/147] fix: elements beyond the last aperture entry, and
 tables without apertures

---
 Merlin++/ApertureConfiguration.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index a6df328..581934f 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -65,6 +65,10 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 	cout << "Got " << nElements << " elements for aperture configuration" << endl;
 	cout << "Got " << ApertureDataTable.Length() << " Aperture entries" << endl;
 	size_t noConfiguredApertures = 0;
+	if(ApertureDataTable.Length() == 0)
+	{
+		return;
+	}
 
 	Aperture* aperture;
 
@@ -82,6 +86,10 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				[](const auto a, const auto b){
 				return a.Get_d("S") < b;
 			});
+			if(this_ap == ApertureDataTable.end())
+			{
+				--this_ap;
+			}
 
 			aperture = ApertureFactory::GetInstance(*this_ap);
 			comp->SetAperture(aperture);
-- 
2.43.0


From cd282b58fb91bfc95d35c39463425f73b8cda5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:19 +0000
Subject: [PATCH 079/147] fix: place the neighbouring turn's aperture entries
 one circumference away

---
 Merlin++/ApertureConfiguration.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 581934f..77895ef 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -72,6 +72,13 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 
 	Aperture* aperture;
 
+	//The entries repeat with each turn
+	double circumference = 0;
+	for(const auto &comp : Elements)
+	{
+		circumference = max(circumference, comp->GetComponentLatticePosition() + comp->GetLength());
+	}
+
 	for(auto &comp :Elements)
 	{
 		if(comp->GetAperture() != nullptr)
@@ -126,6 +133,7 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					//get initial point, interpolate from last point
 					ThisElementAperture.ApertureFromRow(*last_ap);
+					ThisElementAperture.Set("S", 0, min((*last_ap).Get_d("S") - circumference, (*this_ap).Get_d("S")));
 				}
 				else
 				{
@@ -146,6 +154,8 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 				{
 					this_ap = ApertureDataTable.begin();
 					ThisElementAperture.ApertureFromRow(*this_ap);
+					ThisElementAperture.Set("S", ThisElementAperture.Length() - 1, max((*this_ap).Get_d("S")
+						+ circumference, (*last_ap).Get_d("S")));
 				}
 				else
 				{
-- 
2.43.0


From 12e5132055930c3bebc49fe2107bb14f46c6d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:49 +0000
Subject: [PATCH 080/147] fix: keep aperture entries just below the entrance of
 a drift

---
 Merlin++/ApertureConfiguration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 77895ef..3876e79 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -175,15 +175,15 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 					{
 						for(size_t row = 0; row < ThisElementAperture.Length(); ++row)
 						{
-							if(ThisElementAperture.Get_d("S", row) - Position < 0)
-							{
-								++negcount;
-							}
 							if(fequal(ThisElementAperture.Get_d("S", row) - Position, 0.0, 1e-7))
 							{
 								ThisElementAperture.Set("S", row, Position);
 								zeroentry = true;
 							}
+							else if(ThisElementAperture.Get_d("S", row) - Position < 0)
+							{
+								++negcount;
+							}
 						}
 					}
 					if(negcount != 0 && zeroentry == true)
-- 
2.43.0


From 1cbc2d3ce75ecb03b2b1b16e67673b857bf8d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:16 +0000
Subject: [PATCH 081/147] fix: interpolate apertures of differing types and
 rectangles

---
 Merlin++/ApertureConfiguration.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/Merlin++/ApertureConfiguration.cpp b/Merlin++/ApertureConfiguration.cpp
index 3876e79..f2d3aa9 100644
--- a/Merlin++/ApertureConfiguration.cpp
+++ b/Merlin++/ApertureConfiguration.cpp
@@ -5,7 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
-#include <cstdlib>
+#include <cmath>
 #include <iostream>
 #include <string>
 #include <iomanip>
@@ -222,13 +222,13 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 						typeChange = true;
 					}
 				}
-				if(interpolate)
+				if(interpolate || typeChange)
 				{
 					for(size_t row = 0; row < CleanElementAperture.Length(); ++row)
 					{
 						CleanElementAperture.Set_d("S", row, (CleanElementAperture.Get_d("S", row) - Position));
 					}
-					if(typeChange == false)
+					if(typeChange == false && CleanElementAperture.Get_s("APERTYPE", 0) != "RECTANGLE")
 					{
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
@@ -268,10 +268,14 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 							}
 							if(CleanElementAperture.Get_s("APERTYPE", row) == "RECTANGLE")
 							{
+								//The ellipse goes through the corners
 								CleanElementAperture.Set("APER_1", row, CleanElementAperture.Get_d("APER_1", row));
 								CleanElementAperture.Set("APER_2", row, CleanElementAperture.Get_d("APER_2", row));
-								CleanElementAperture.Set("APER_3", row, CleanElementAperture.Get_d("APER_1", row));
-								CleanElementAperture.Set("APER_4", row, CleanElementAperture.Get_d("APER_2", row));
+								CleanElementAperture.Set("APER_3", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_1",
+									row));
+								CleanElementAperture.Set("APER_4", row, sqrt(2.0) * CleanElementAperture.Get_d("APER_2",
+									row));
+								rectellipse = true;
 							}
 							if(CleanElementAperture.Get_s("APERTYPE", row) == "OCTAGON")
 							{
@@ -284,11 +288,12 @@ void ApertureConfiguration::ConfigureElementApertures(AcceleratorModel* Model)
 						}
 						if(rectellipse && octagon)
 						{
-							cerr
-								<<
-								"Attempting to interpolate incompatible aperture types (RECTELLIPSE and OCTAGON)... exiting simulation."
-								<< endl;
-							exit(EXIT_FAILURE);
+							throw MerlinException(
+								"Attempting to interpolate incompatible aperture types (RECTELLIPSE and OCTAGON)");
+						}
+						for(size_t row = 0; row < CleanElementAperture.Length(); ++row)
+						{
+							CleanElementAperture.Set("APERTYPE", row, "RECTELLIPSE");
 						}
 						aperture = InterpolatorFactory::GetInstance(CleanElementAperture);
 						comp->SetAperture(aperture);
-- 
2.43.0


From 0a0f1fe28491b66aeb78445105ce3c7d54577b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:41 +0000
Subject: [PATCH 082/147] fix: heights of interpolated elliptical apertures

---
 Merlin++/InterpolatedApertures.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 70cef93..650f6a9 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -337,11 +337,13 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 		{
 			apBack.s = ApList[n - 1].s;
 			apBack.ap1 = ApList[n - 1].ap1;
+			apBack.ap2 = ApList[n - 1].ap2;
 
 			apFront.s = ApList[n].s;
 			apFront.ap1 = ApList[n].ap1;
+			apFront.ap2 = ApList[n].ap2;
 
-			double minDim = min({apFront.ap1, apBack.ap1});
+			double minDim = min({apFront.ap1, apFront.ap2, apBack.ap1, apBack.ap2});
 			if(ax + ay < minDim)
 			{
 				return true;
@@ -385,7 +387,7 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
-	double c2 = apFront.ap1 - (g2 * apFront.s);
+	double c2 = apFront.ap2 - (g2 * apFront.s);
 
 	double ellipse_half_horizontal = (g1 * z) + c1;
 	double ellipse_half_vertical = (g2 * z) + c2;
-- 
2.43.0


From 4d00a6b2f1a9d3ec71cb751771729d92f703b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:12 +0000
Subject: [PATCH 083/147] fix: aperture steps at one position

---
 Merlin++/InterpolatedApertures.cpp | 31 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/Merlin++/InterpolatedApertures.cpp b/Merlin++/InterpolatedApertures.cpp
index 650f6a9..5ac72d6 100644
--- a/Merlin++/InterpolatedApertures.cpp
+++ b/Merlin++/InterpolatedApertures.cpp
@@ -16,6 +16,15 @@
 
 using namespace std;
 
+namespace
+{
+// Change per length between two entries, which may be at the same place
+double Slope(double front, double back, double delta_s)
+{
+	return delta_s == 0 ? 0 : (front - back) / delta_s;
+}
+}
+
 string InterpolatedAperture::GetType()
 {
 	return "RECTELLIPSE-interpolated";
@@ -118,10 +127,10 @@ bool InterpolatedRectEllipseAperture::CheckWithinApertureBoundaries(double x, do
 	//m = (y1 - y0) / (x1 - x0)
 
 	double delta_s = apFront.s - apBack.s;
-	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
-	double g2 = (apFront.ap2 - apBack.ap2) / delta_s;
-	double g3 = (apFront.ap3 - apBack.ap3) / delta_s;
-	double g4 = (apFront.ap4 - apBack.ap4) / delta_s;
+	double g1 = Slope(apFront.ap1, apBack.ap1, delta_s);
+	double g2 = Slope(apFront.ap2, apBack.ap2, delta_s);
+	double g3 = Slope(apFront.ap3, apBack.ap3, delta_s);
+	double g4 = Slope(apFront.ap4, apBack.ap4, delta_s);
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
@@ -265,7 +274,7 @@ bool InterpolatedCircularAperture::CheckWithinApertureBoundaries(double x, doubl
 	//y = mx + c
 	//m = (y1 - y0) / (x1 - x0)
 	double delta_s = apFront.s - apBack.s;
-	double g = (apFront.ap1 - apBack.ap1) / delta_s;
+	double g = Slope(apFront.ap1, apBack.ap1, delta_s);
 
 	//c = y - mx
 	double c = apFront.ap1 - (g * apFront.s);
@@ -382,8 +391,8 @@ bool InterpolatedEllipticalAperture::CheckWithinApertureBoundaries(double x, dou
 	//y = mx + c
 	//m = (y1 - y0) / (x1 - x0)
 	double delta_s = apFront.s - apBack.s;
-	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
-	double g2 = (apFront.ap2 - apBack.ap2) / delta_s;
+	double g1 = Slope(apFront.ap1, apBack.ap1, delta_s);
+	double g2 = Slope(apFront.ap2, apBack.ap2, delta_s);
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
@@ -465,10 +474,10 @@ bool InterpolatedOctagonalAperture::CheckWithinApertureBoundaries(double x, doub
 	//y = mx + c
 	//m = (y1 - y0) / (x1 - x0)
 	double delta_s = apFront.s - apBack.s;
-	double g1 = (apFront.ap1 - apBack.ap1) / delta_s;
-	double g2 = (apFront.ap2 - apBack.ap2) / delta_s;
-	double g3 = (apFront.ap3 - apBack.ap3) / delta_s;
-	double g4 = (apFront.ap4 - apBack.ap4) / delta_s;
+	double g1 = Slope(apFront.ap1, apBack.ap1, delta_s);
+	double g2 = Slope(apFront.ap2, apBack.ap2, delta_s);
+	double g3 = Slope(apFront.ap3, apBack.ap3, delta_s);
+	double g4 = Slope(apFront.ap4, apBack.ap4, delta_s);
 
 	//c = y - mx
 	double c1 = apFront.ap1 - (g1 * apFront.s);
-- 
2.43.0


From ca32eb069a48a0959b351bcd6079e9e17dcdfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:36 +0000
Subject: [PATCH 084/147] fix: refuse unreadable or incomplete collimator
 settings

---
 Merlin++/CollimatorDatabase.cpp | 98 ++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 44 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index 535d05c..f45c79a 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -12,11 +12,13 @@
 #include <string>
 #include <map>
 #include <vector>
+#include <algorithm>
 
 #include "CollimatorAperture.h"
 #include "Collimator.h"
 
 #include "CollimatorDatabase.h"
+#include "MerlinException.h"
 #include "ResistiveWakePotentials.h"
 
 #include "PhysicalUnits.h"
@@ -26,6 +28,20 @@
 using namespace std;
 using namespace PhysicalUnits;
 
+namespace
+{
+double ReadNumber(const string& field, const string& input_file)
+{
+	char* end;
+	const double value = strtod(field.c_str(), &end);
+	if(end == field.c_str() || *end != 0)
+	{
+		throw MerlinException("Not a number in collimator database " + input_file + ": " + field);
+	}
+	return value;
+}
+}
+
 //Read in file into some sensible structure
 
 CollimatorDatabase::CollimatorDatabase(string input_file, MaterialData* db, bool sigma) :
@@ -33,69 +49,63 @@ CollimatorDatabase::CollimatorDatabase(string input_file, MaterialData* db, bool
 	EnableMatchReferenceOrbit(true), JawFlattnessErrors(false), JawAlignmentErrors(false),
 	EnableResistiveCollimatorWakes(false), AngleError(0), PositionError(0)
 {
-	ifstream* input = new ifstream(input_file.c_str(), ifstream::in);
-
-	if(input == nullptr || !input->good())
+	ifstream input(input_file.c_str(), ifstream::in);
+	if(!input.good())
 	{
-		std::cerr << "Failed to open collimator database: " << input_file << " - Exiting." << std::endl;
-		exit(EXIT_FAILURE);
+		throw MerlinException("Failed to open collimator database: " + input_file);
 	}
 
-	//Find number of elements
+	//name	x_gap	y_gap	tilt	x_offset	y_offset	j1_tilt	j2_tilt	length	material
+	//or, if using sigmas
+	//name	x_sig	y_sig	tilt	material
+	const size_t n_fields = use_sigma ? 5 : 10;
+	vector<string> fields;
 	string buf;
-	if(!use_sigma)
+	while(input >> buf)
 	{
-		while(input->good())
-		{
-			//name	x_gap	y_gap	tilt	x_offset	y_offset	j1_tilt	j2_tilt	length	material
-			if((*input) >> buf >> buf >> buf >> buf >> buf >> buf >> buf >> buf >> buf >> buf)
-			{
-				number_collimators++;
-			}
-		}
+		fields.push_back(buf);
 	}
-	else if(use_sigma)
+	if(input.bad() || fields.size() % n_fields != 0)
 	{
-		while(input->good())
-		{
-			//name	x_sig	y_sig	tilt	material
-			if((*input) >> buf >> buf >> buf >> buf >> buf)
-			{
-				number_collimators++;
-			}
-		}
+		throw MerlinException("Incomplete collimator database: " + input_file);
 	}
+	number_collimators = fields.size() / n_fields;
 
 	std::cout << "found " << number_collimators << " collimators in input file." << std::endl;
 
-	//Make an appropriately sized array of collimator info
-	CollData = new CollimatorData[number_collimators];
-
-	input->clear();
-	input->seekg(0);
-
-	//load into array
-	for(unsigned int i = 0; i < number_collimators; i++)
+	//Check the numbers and that the materials exist in the material database
+	vector<CollimatorData> data(number_collimators);
+	for(size_t i = 0; i < number_collimators; i++)
 	{
+		const string* field = &fields[i * n_fields];
+		data[i].name = field[0];
 		if(!use_sigma)
 		{
-			//Load up the array of items, put the material name into a string.
-			(*input) >> CollData[i].name >> CollData[i].x_gap >> CollData[i].y_gap >> CollData[i].tilt \
-			>> CollData[i].x_offset >> CollData[i].y_offset >> CollData[i].j1_tilt >> CollData[i].j2_tilt \
-			>> CollData[i].length >> buf;
+			data[i].x_gap = ReadNumber(field[1], input_file);
+			data[i].y_gap = ReadNumber(field[2], input_file);
+			data[i].tilt = ReadNumber(field[3], input_file);
+			data[i].x_offset = ReadNumber(field[4], input_file);
+			data[i].y_offset = ReadNumber(field[5], input_file);
+			data[i].j1_tilt = ReadNumber(field[6], input_file);
+			data[i].j2_tilt = ReadNumber(field[7], input_file);
+			data[i].length = ReadNumber(field[8], input_file);
 		}
-		else if(use_sigma)
+		else
 		{
-			(*input) >> CollData[i].name >> CollData[i].sigma_x >> CollData[i].sigma_y >> CollData[i].tilt >> buf;
+			data[i].sigma_x = ReadNumber(field[1], input_file);
+			data[i].sigma_y = ReadNumber(field[2], input_file);
+			data[i].tilt = ReadNumber(field[3], input_file);
 		}
-		//buf contains the material name, must search the material database and check that the appropriate material exists, then adjust the material pointer.
-//		CollData[i].JawMaterial = db->FindMaterial(buf);
-		CollData[i].JawMaterial = db->property[buf];
+		auto material = db->property.find(field[n_fields - 1]);
+		if(material == db->property.end() || material->second == nullptr)
+		{
+			throw MerlinException("Unknown collimator material " + field[n_fields - 1] + " in " + input_file);
+		}
+		data[i].JawMaterial = material->second;
 	}
 
-	input->clear();
-	input->close();
-	delete input;
+	CollData = new CollimatorData[number_collimators];
+	copy(data.begin(), data.end(), CollData);
 	RequestedImpactFactor = 1;
 	ImpactSigma = 1;
 }
-- 
2.43.0


From 637c95176c64a994a913f36e002f91dc455538cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:03 +0000
Subject: [PATCH 085/147] fix: apply the offsets of collimator gaps

---
 Merlin++/CollimatorDatabase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index f45c79a..deabf24 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -140,13 +140,13 @@ void CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model)
 			MaterialProperties* collimator_material = CollData[n].JawMaterial;
 			//Create an aperture for the collimator jaws
 			CollimatorAperture* app = new CollimatorAperture(CollData[n].x_gap, CollData[n].y_gap, CollData[n].tilt,
-				(CMapit->second)->GetLength(), 0, 0);
+				(CMapit->second)->GetLength(), CollData[n].x_offset, CollData[n].y_offset);
 
 			{
 				app->SetExitWidth(CollData[n].x_gap);      //Horizontal
 				app->SetExitHeight(CollData[n].y_gap);    //Vertical
-				app->SetExitXOffset(0); //Horizontal
-				app->SetExitYOffset(0); //Vertical
+				app->SetExitXOffset(CollData[n].x_offset); //Horizontal
+				app->SetExitYOffset(CollData[n].y_offset); //Vertical
 			}
 			(CMapit->second)->SetAperture(app);
 			(CMapit->second)->SetMaterialProperties(collimator_material);
-- 
2.43.0


From 1e0b9d71172a2e45250b4529b998cbc601bc52c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 086/147] fix: configure every collimator of the given name

---
 Merlin++/CollimatorDatabase.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Merlin++/CollimatorDatabase.cpp b/Merlin++/CollimatorDatabase.cpp
index deabf24..e53f26e 100644
--- a/Merlin++/CollimatorDatabase.cpp
+++ b/Merlin++/CollimatorDatabase.cpp
@@ -123,8 +123,8 @@ void CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model)
 			 << std::setw(15) << "beta y" << std::setw(15) << "cent x" << std::setw(15) << "cent y" << std::setw(15)
 			 << "x half gap" << std::setw(15) << "y half gap" << endl;
 	}
-	map<string, Collimator*> CollimatorMap;
-	map<string, Collimator*>::iterator CMapit;
+	multimap<string, Collimator*> CollimatorMap;
+	multimap<string, Collimator*>::iterator CMapit;
 
 	for(vector<Collimator*>::iterator c = Collimators.begin(); c != Collimators.end(); c++)
 	{
@@ -133,8 +133,8 @@ void CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model)
 
 	for(size_t n = 0; n < number_collimators; n++)
 	{
-		CMapit = CollimatorMap.find(CollData[n].name);
-		if(CMapit != CollimatorMap.end())
+		auto named = CollimatorMap.equal_range(CollData[n].name);
+		for(CMapit = named.first; CMapit != named.second; ++CMapit)
 		{
 			//cout << "Found: " << (CMapit->second)->GetQualifiedName() << endl;
 			MaterialProperties* collimator_material = CollData[n].JawMaterial;
@@ -168,8 +168,8 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 			 << std::setw(15) << "beta y" << std::setw(15) << "cent x" << std::setw(15) << "cent y" << std::setw(15)
 			 << "x half gap" << std::setw(15) << "y half gap" << endl;
 	}
-	map<string, Collimator*> CollimatorMap;
-	map<string, Collimator*>::iterator CMapit;
+	multimap<string, Collimator*> CollimatorMap;
+	multimap<string, Collimator*>::iterator CMapit;
 
 	for(vector<Collimator*>::iterator c = Collimators.begin(); c != Collimators.end(); c++)
 	{
@@ -179,8 +179,8 @@ double CollimatorDatabase::ConfigureCollimators(AcceleratorModel* model, double
 	for(size_t i = 0; i < number_collimators; i++)
 	{
 		//Time to search for the collimator we are currently using
-		CMapit = CollimatorMap.find(CollData[i].name);
-		if(CMapit != CollimatorMap.end())
+		auto named = CollimatorMap.equal_range(CollData[i].name);
+		for(CMapit = named.first; CMapit != named.second; ++CMapit)
 		{
 			for(int j = 0; j < twiss->NumberOfRows(); j++)
 			{
-- 
2.43.0


From 208561b08fc594267b8669ce01b58d347755719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 087/147] fix: material of new components

---
 Merlin++/AcceleratorComponent.h | 8 ++++----
 Merlin++/Collimator.cpp         | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/Merlin++/AcceleratorComponent.h b/Merlin++/AcceleratorComponent.h
index 0910b5a..78be755 100644
--- a/Merlin++/AcceleratorComponent.h
+++ b/Merlin++/AcceleratorComponent.h
@@ -226,14 +226,14 @@ public:
 };
 
 inline AcceleratorComponent::AcceleratorComponent(const string& aName) :
-	ModelElement(aName), itsField(nullptr), itsGeometry(nullptr), itsAperture(nullptr), itsWakes(nullptr), position(0),
-	blI(0)
+	ModelElement(aName), itsField(nullptr), itsGeometry(nullptr), itsAperture(nullptr), materialProperties(nullptr), itsWakes(nullptr),
+	position(0), blI(0)
 {
 }
 
 inline AcceleratorComponent::AcceleratorComponent(const string& aName, AcceleratorGeometry* aGeom, EMField* aField) :
-	ModelElement(aName), itsField(aField), itsGeometry(aGeom), itsAperture(nullptr), itsWakes(nullptr), position(0),
-	blI(0)
+	ModelElement(aName), itsField(aField), itsGeometry(aGeom), itsAperture(nullptr), materialProperties(nullptr), itsWakes(nullptr),
+	position(0), blI(0)
 {
 }
 
diff --git a/Merlin++/Collimator.cpp b/Merlin++/Collimator.cpp
index a5201bb..0cf5ef3 100644
--- a/Merlin++/Collimator.cpp
+++ b/Merlin++/Collimator.cpp
@@ -24,8 +24,9 @@ Collimator::Collimator(const string& id, double len, double radLength) :
 }
 
 Collimator::Collimator(const string& id, double len, MaterialProperties* mat, double P0) :
-	Drift(id, len)
+	Drift(id, len), Xr(0)
 {
+	SetMaterialProperties(mat);
 	scatter_at_this_collimator = true;
 }
 
-- 
2.43.0


From 9642cbf969c703e23096a869c520293491b4e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:48 +0000
Subject: [PATCH 088/147] fix: eigenvalues guessed exactly

---
 Merlin++/LinearAlgebra.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Merlin++/LinearAlgebra.cpp b/Merlin++/LinearAlgebra.cpp
index 0581992..775ef55 100644
--- a/Merlin++/LinearAlgebra.cpp
+++ b/Merlin++/LinearAlgebra.cpp
@@ -168,7 +168,20 @@ bool EigenSystem(RealMatrix& t, ComplexVector& eigenvalues, ComplexMatrix& eigen
 				}
 
 				ComplexMatrix minv(mp);
-				prox = Inverse(minv);
+				try
+				{
+					prox = Inverse(minv);
+				}
+				catch(TLAS::SingularMatrix&)
+				{
+					// lambda is exactly an eigenvalue: step off it to get (or improve) the eigenvector
+					if(iter++ > 2)
+					{
+						break;
+					}
+					lambda += 1.0e-8;
+					continue;
+				}
 
 				ComplexVector y(6);
 				for(row = 0; row < 6; row++)
-- 
2.43.0


From 724d45d4156fa8472ce1f83b6cddd34d107b1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:30 +0000
Subject: [PATCH 089/147] fix: a bend with one pole face only crashed

---
 Merlin++/SectorBend.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index 2c1c3b0..bb4680d 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -99,8 +99,14 @@ public:
 			Clear();
 			entrance = e1;
 			exit = e2;
-			entrance->type = 1;
-			exit->type = 0;
+			if(entrance)
+			{
+				entrance->type = 1;
+			}
+			if(exit)
+			{
+				exit->type = 0;
+			}
 		}
 
 		void SetInfo(PoleFace* e1)
-- 
2.43.0


From 3916276459d137c6c8eb5f4cb69d7b37750c9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 090/147] fix: MADInterface appended files to a machine already
 taken

---
 Merlin++/MADInterface.cpp | 34 ++++++++++++++++++++--------------
 Merlin++/MADInterface.h   |  1 +
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8300ec7..955d401 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -93,6 +93,17 @@ inline double SRdE(double h, double len, double E)
 }
 
 AcceleratorModel* MADInterface::ConstructModel()
+{
+	ReadModel();
+
+	AcceleratorModel* theModel = modelconstr->GetModel();
+	delete modelconstr;
+	modelconstr = nullptr;
+	appendFlag = false;
+	return theModel;
+}
+
+void MADInterface::ReadModel()
 {
 	unique_ptr<DataTable> MADinput;
 	try
@@ -105,16 +116,14 @@ AcceleratorModel* MADInterface::ConstructModel()
 		throw e;
 	}
 
-	if(modelconstr != nullptr && appendFlag == false)
+	if(appendFlag == false)
 	{
 		delete modelconstr;
-	}
-	if(modelconstr == nullptr && appendFlag == false)
-	{
+		modelconstr = nullptr;
 		modelconstr = new AcceleratorModelConstructor();
 	}
 
-	TypeFactory* factory = new TypeFactory();
+	TypeFactory factory;
 	double brho = momentum / eV / SpeedOfLight;
 
 	//Loop over all components
@@ -156,7 +165,7 @@ AcceleratorModel* MADInterface::ConstructModel()
 		}
 
 		//Determine multipole type by parameters
-		vector<AcceleratorComponent*> components = factory->GetInstance(MADinputrow, brho);
+		vector<AcceleratorComponent*> components = factory.GetInstance(MADinputrow, brho);
 
 		if(inc_sr && (type == "SBEND" || type == "RBEND"))
 		{
@@ -184,11 +193,6 @@ AcceleratorModel* MADInterface::ConstructModel()
 		}
 	}
 
-	AcceleratorModel* theModel = modelconstr->GetModel();
-	delete modelconstr;
-	delete factory;
-	modelconstr = nullptr;
-	return theModel;
 }
 
 void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
@@ -298,19 +302,20 @@ void MADInterface::AppendModel(const string& fname, double Pref)
 	if(!(*ifs))
 	{
 		MERLIN_ERR << "ERROR opening file " << fname << endl;
-		abort();
+		throw MerlinException("ERROR opening file " + fname);
 	}
 
 	if(modelconstr == nullptr)
 	{
 		// first file
 		modelconstr = new AcceleratorModelConstructor();
+		z = 0;
 	}
 
 	momentum = Pref;
 
-	appendFlag = 1;
-	ConstructModel();
+	appendFlag = true;
+	ReadModel();
 }
 
 AcceleratorModel* MADInterface::GetModel()
@@ -330,6 +335,7 @@ AcceleratorModel* MADInterface::GetModel()
 	AcceleratorModel* theModel = modelconstr->GetModel();
 	delete modelconstr;
 	modelconstr = nullptr;
+	appendFlag = false;
 	return theModel;
 }
 
diff --git a/Merlin++/MADInterface.h b/Merlin++/MADInterface.h
index f4cfd0a..05bb067 100644
--- a/Merlin++/MADInterface.h
+++ b/Merlin++/MADInterface.h
@@ -167,6 +167,7 @@ public:
 
 protected:
 	void init();
+	void ReadModel();
 	std::string filename;
 	std::istream* ifs; // madx input stream (may point to infile or be passsed in)
 	std::unique_ptr<std::ifstream> infile; // madx input if reading from file
-- 
2.43.0


From 5c9efa20406dd2a309e9edf7a167db82b3fa8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:26 +0000
Subject: [PATCH 091/147] fix: MADInterface dereferenced missing constructors
 of unknown types

---
 Merlin++/MADInterface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 955d401..a7709db 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -165,6 +165,15 @@ void MADInterface::ReadModel()
 		}
 
 		//Determine multipole type by parameters
+		if(TypeFactory::componentTypes.find(MADinputrow.Get_s("KEYWORD")) == TypeFactory::componentTypes.end())
+		{
+			if(length != 0)
+			{
+				throw MerlinException("Unknown type " + type + " for " + MADinputrow.Get_s("NAME") + " in " + filename);
+			}
+			MerlinIO::warning() << "Ignoring zero length " << type << ": " << MADinputrow.Get_s("NAME") << endl;
+			continue;
+		}
 		vector<AcceleratorComponent*> components = factory.GetInstance(MADinputrow, brho);
 
 		if(inc_sr && (type == "SBEND" || type == "RBEND"))
-- 
2.43.0


From e60bb6002fb8e5e5bce335723d6ea30284b52953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 092/147] fix: MADInterface accepted unbalanced frames and
 aborted on unknown ones

---
 Merlin++/MADInterface.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index a7709db..8d16308 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -120,6 +120,7 @@ void MADInterface::ReadModel()
 	{
 		delete modelconstr;
 		modelconstr = nullptr;
+		frameStack = stack<string>();
 		modelconstr = new AcceleratorModelConstructor();
 	}
 
@@ -190,6 +191,11 @@ void MADInterface::ReadModel()
 		}
 	} //End for loop
 
+	if(!frameStack.empty())
+	{
+		throw MerlinException("Missing end of " + frameStack.top() + " in " + filename);
+	}
+
 	if(logFlag && log)
 	{
 		*log << endl;
@@ -271,9 +277,7 @@ void MADInterface::ConstructNewFrame(const string& name)
 			break;
 
 		default:
-			MERLIN_ERR << "Unknown frame character: " << name << endl;
-			abort();
-			break;
+			throw MerlinException("Unknown frame character: " + name);
 		}
 	}
 	modelconstr->NewFrame(newFrame);
-- 
2.43.0


From cdf72563b122181aa76576fd74eabe5ebd7b3640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 093/147] fix: zero length magnets in MAD tables got infinite
 strengths

---
 Merlin++/MADInterface.cpp | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8d16308..19073ab 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -37,6 +37,21 @@ void Log(const string& tag, int depth, ostream& os)
 	os << ' ' << tag << endl;
 }
 
+// Strength per length of an element given its integrated strength
+double PerLength(double integrated, DataTableRow& MADinputrow)
+{
+	const double length = MADinputrow.Get_d("L");
+	if(integrated == 0)
+	{
+		return 0;
+	}
+	if(length == 0)
+	{
+		throw MerlinException("Zero length " + MADinputrow.Get_s("KEYWORD") + ": " + MADinputrow.Get_s("NAME"));
+	}
+	return integrated / length;
+}
+
 }
 
 // Class MADInterface
@@ -179,7 +194,7 @@ void MADInterface::ReadModel()
 
 		if(inc_sr && (type == "SBEND" || type == "RBEND"))
 		{
-			momentum -= SRdE(MADinputrow.Get_d("ANGLE") / length, length, momentum);
+			momentum -= SRdE(PerLength(MADinputrow.Get_d("ANGLE"), MADinputrow), length, momentum);
 			brho = momentum / eV / SpeedOfLight;
 		}
 
@@ -386,12 +401,12 @@ vector<AcceleratorComponent*> RBendComponent::GetInstance(DataTableRow& MADinput
 	double angle = MADinputrow.Get_d("ANGLE");
 	double k1l = MADinputrow.Get_d("K1L");
 	double tilt = MADinputrow.Get_d("TILT");
-	double h = angle / length;
+	double h = PerLength(angle, MADinputrow);
 
 	SectorBend* bend = new SectorBend(name, length, h, brho * h);
 
 	if(k1l)
-		bend->SetB1(brho * k1l / length);
+		bend->SetB1(brho * PerLength(k1l, MADinputrow));
 
 	double e1 = MADinputrow.Get_d("E1");
 	double e2 = MADinputrow.Get_d("E2");
@@ -422,12 +437,12 @@ vector<AcceleratorComponent*> SBendComponent::GetInstance(DataTableRow& MADinput
 	}
 	double k1l = MADinputrow.Get_d("K1L");
 	double tilt = MADinputrow.Get_d("TILT");
-	double h = angle / length;
+	double h = PerLength(angle, MADinputrow);
 
 	SectorBend* bend = new SectorBend(name, length, h, brho * h);
 
 	if(k1l)
-		bend->SetB1(brho * k1l / length);
+		bend->SetB1(brho * PerLength(k1l, MADinputrow));
 
 	double e1 = MADinputrow.Get_d("E1");
 	double e2 = MADinputrow.Get_d("E2");
@@ -450,7 +465,7 @@ vector<AcceleratorComponent*> QuadrupoleComponent::GetInstance(DataTableRow& MAD
 	double length = MADinputrow.Get_d("L");
 	double k1l = MADinputrow.Get_d("K1L");
 
-	return {new Quadrupole(name, length, brho * k1l / length)};
+	return {new Quadrupole(name, length, brho * PerLength(k1l, MADinputrow))};
 }
 
 vector<AcceleratorComponent*> SkewQuadrupoleComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -459,7 +474,7 @@ vector<AcceleratorComponent*> SkewQuadrupoleComponent::GetInstance(DataTableRow&
 	double length = MADinputrow.Get_d("L");
 	double k1l = MADinputrow.Get_d("K1L");
 
-	return {new SkewQuadrupole(name, length, brho * k1l / length)};
+	return {new SkewQuadrupole(name, length, brho * PerLength(k1l, MADinputrow))};
 }
 
 vector<AcceleratorComponent*> SextupoleComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -468,7 +483,7 @@ vector<AcceleratorComponent*> SextupoleComponent::GetInstance(DataTableRow& MADi
 	double length = MADinputrow.Get_d("L");
 	double k2l = MADinputrow.Get_d("K2L");
 
-	return {new Sextupole(name, length, brho * k2l / length)};
+	return {new Sextupole(name, length, brho * PerLength(k2l, MADinputrow))};
 }
 
 vector<AcceleratorComponent*> SkewSextupoleComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -477,7 +492,7 @@ vector<AcceleratorComponent*> SkewSextupoleComponent::GetInstance(DataTableRow&
 	double length = MADinputrow.Get_d("L");
 	double k2l = MADinputrow.Get_d("K2L");
 
-	return {new SkewSextupole(name, length, brho * k2l / length)};
+	return {new SkewSextupole(name, length, brho * PerLength(k2l, MADinputrow))};
 }
 
 vector<AcceleratorComponent*> OctupoleComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -486,7 +501,7 @@ vector<AcceleratorComponent*> OctupoleComponent::GetInstance(DataTableRow& MADin
 	double length = MADinputrow.Get_d("L");
 	double k3l = MADinputrow.Get_d("K3L");
 
-	return {new Octupole(name, length, brho * k3l / length)};
+	return {new Octupole(name, length, brho * PerLength(k3l, MADinputrow))};
 }
 
 vector<AcceleratorComponent*> YCorComponent::GetInstance(DataTableRow& MADinputrow, double brho)
@@ -539,7 +554,7 @@ vector<AcceleratorComponent*> SolenoidComponent::GetInstance(DataTableRow& MADin
 	double length = MADinputrow.Get_d("L");
 	double ks = MADinputrow.Get_d("KS");
 
-	return {new Solenoid(name, length, brho * ks / length)};
+	return {new Solenoid(name, length, brho * PerLength(ks, MADinputrow))};
 }
 
 vector<AcceleratorComponent*> RFCavityComponentSingleCell::GetInstance(DataTableRow& MADinputrow, double brho)
-- 
2.43.0


From a79643934dd5a841b47ee0c945eeda23312639e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:33 +0000
Subject: [PATCH 094/147] fix: cavities not fitting their wavelength were built
 with another length

---
 Merlin++/MADInterface.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 19073ab..aafe0a5 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -578,10 +578,11 @@ vector<AcceleratorComponent*> RFCavityComponentSingleCell::GetInstance(DataTable
 	double drift_len = length - lambdaOver2;
 	ncells = round(rfcav_len / lambdaOver2);
 
-	if((rfcav_len / length - 1) > 0.001)
+	if(!((rfcav_len / length - 1) <= 0.001))
 	{
 		MerlinIO::error() << "SW cavity length not valid ";
 		MerlinIO::error() << '(' << length << ", " << len1 << ')' << endl;
+		throw MerlinException("SW cavity length not valid: " + name);
 	}
 
 	SWRFStructure* rfstruct = new SWRFStructure(name, ncells, freq, volts * MV / rfcav_len, phase);
@@ -610,10 +611,11 @@ vector<AcceleratorComponent*> RFCavityComponent::GetInstance(DataTableRow& MADin
 	// adjust phase for cosine-like field
 	phase = twoPi * (phase - 0.25);
 
-	if(((len1 / length) - 1) > 0.001)
+	if(!(fabs((len1 / length) - 1) <= 0.001))
 	{
 		MerlinIO::error() << "SW cavity length not valid ";
 		MerlinIO::error() << '(' << length << ", " << len1 << ')' << endl;
+		throw MerlinException("SW cavity length not valid: " + name);
 	}
 
 	return {new SWRFStructure(name, ncells, freq, volts * MV / length, phase)};
-- 
2.43.0


From 761fee210855988eabc20e2681268a705cce1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:54 +0000
Subject: [PATCH 095/147] fix: types treated as drifts were still skipped or
 scaled for radiation

---
 Merlin++/MADInterface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index aafe0a5..6914ff9 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -192,7 +192,7 @@ void MADInterface::ReadModel()
 		}
 		vector<AcceleratorComponent*> components = factory.GetInstance(MADinputrow, brho);
 
-		if(inc_sr && (type == "SBEND" || type == "RBEND"))
+		if(inc_sr && (type == "SBEND" || type == "RBEND") && MADinputrow.Get_s("KEYWORD") != "DRIFT")
 		{
 			momentum -= SRdE(PerLength(MADinputrow.Get_d("ANGLE"), MADinputrow), length, momentum);
 			brho = momentum / eV / SpeedOfLight;
@@ -229,7 +229,10 @@ void MADInterface::TypeOverrides(DataTableRow& MADinputrow)
 {
 	string keyword = MADinputrow.Get_s("KEYWORD");
 	if(driftTypes.find(keyword) != driftTypes.end())
+	{
 		MADinputrow.Set_s("KEYWORD", "DRIFT");
+		return;
+	}
 	if(keyword == "LCAV")
 		MADinputrow.Set_s("KEYWORD", "RFCAVITY");
 	if(keyword == "RCOLLIMATOR" || keyword == "ECOLLIMATOR")
-- 
2.43.0


From 197ab292625890d6dc0b805b0780a8b625b585a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 096/147] fix: wire scanners in lattice files lost their length

---
 Merlin++/MADInterface.cpp  | 2 +-
 Merlin++/XTFFInterface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 6914ff9..8750f80 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -665,7 +665,7 @@ vector<AcceleratorComponent*> MonitorComponent::GetInstance(DataTableRow& MADinp
 	double length = MADinputrow.Get_d("L");
 
 	if(name.substr(0, 2) == "WS")
-		return {new RMSProfileMonitor(name, length)};
+		return {new RMSProfileMonitor(name, pi / 4, length)};
 	else
 		return {new BPM(name, length)};
 }
diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 965c22f..9613380 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -335,7 +335,7 @@ BPM* ConstructBPM(const Data& data)
 
 RMSProfileMonitor* ConstructProfileMonitor(const Data& data)
 {
-	return new RMSProfileMonitor(data.label, data[L]);
+	return new RMSProfileMonitor(data.label, pi / 4, data[L]);
 }
 
 Solenoid* ConstructSolenoid(const Data& data)
-- 
2.43.0


From 3c24094d11c00f1d934e85e8bab6eb7a0763836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 097/147] fix: XTFFInterface kept its state in globals shared
 by all interfaces

---
 Merlin++/XTFFInterface.cpp | 54 +++++++++++++++++---------------------
 Merlin++/XTFFInterface.h   |  4 +++
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 9613380..853e0a9 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -48,12 +48,6 @@ namespace
 
 typedef XTFFInterface::XTFF_Data Data;
 
-double energy;      // current energy
-double beamload;        // energy loss due to beamloading
-
-double z_total; // current total length
-double Qt;      // charge for beamloading
-
 // skip n input lines
 void SkipLines(istream& is, int n)
 {
@@ -143,7 +137,7 @@ Drift* ConstructDrift(const Data& data)
 	return new Drift(data.label, data[L]);
 }
 
-SectorBend* ConstructSectorBend(const Data& data)
+SectorBend* ConstructSectorBend(const Data& data, double energy)
 {
 	double len = data[L];
 	double angle = data[ANGLE];
@@ -176,7 +170,7 @@ SectorBend* ConstructSectorBend(const Data& data)
 	return bend;
 }
 
-SectorBend* ConstructRectBend(const Data& data)
+SectorBend* ConstructRectBend(const Data& data, double energy)
 {
 	double len = data[L];
 	double angle = data[ANGLE];
@@ -215,7 +209,7 @@ SectorBend* ConstructRectBend(const Data& data)
 	return bend;
 }
 
-Quadrupole* ConstructQuadrupole(const Data& data)
+Quadrupole* ConstructQuadrupole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k1 = data[K1];
@@ -225,7 +219,7 @@ Quadrupole* ConstructQuadrupole(const Data& data)
 	return new Quadrupole(data.label, len, brho * k1);
 }
 
-SkewQuadrupole* ConstructSkewQuadrupole(const Data& data)
+SkewQuadrupole* ConstructSkewQuadrupole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k1 = data[K1];
@@ -234,7 +228,7 @@ SkewQuadrupole* ConstructSkewQuadrupole(const Data& data)
 	return new SkewQuadrupole(data.label, len, brho * k1);
 }
 
-Sextupole* ConstructSextupole(const Data& data)
+Sextupole* ConstructSextupole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k2 = data[K2];
@@ -244,7 +238,7 @@ Sextupole* ConstructSextupole(const Data& data)
 	return new Sextupole(data.label, len, brho * k2);
 }
 
-SkewSextupole* ConstructSkewSextupole(const Data& data)
+SkewSextupole* ConstructSkewSextupole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k2 = data[K2];
@@ -253,7 +247,7 @@ SkewSextupole* ConstructSkewSextupole(const Data& data)
 	return new SkewSextupole(data.label, len, brho * k2);
 }
 
-Octupole* ConstructOctupole(const Data& data)
+Octupole* ConstructOctupole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k3 = data[K3];
@@ -263,7 +257,7 @@ Octupole* ConstructOctupole(const Data& data)
 	return new Octupole(data.label, len, brho * k3);
 }
 
-Decapole* ConstructDecapole(const Data& data)
+Decapole* ConstructDecapole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k4 = data[K4];
@@ -283,7 +277,7 @@ YCor* ConstructYCor(const Data& data)
 	return new YCor(data.label, data[L]);
 }
 
-TWRFStructure* ConstructCavity(const Data& data)
+TWRFStructure* ConstructCavity(const Data& data, double Qt, double& energy, double& beamload)
 {
 	double len = data[L];
 	double volt = data[VOLT] * MV;
@@ -338,7 +332,7 @@ RMSProfileMonitor* ConstructProfileMonitor(const Data& data)
 	return new RMSProfileMonitor(data.label, pi / 4, data[L]);
 }
 
-Solenoid* ConstructSolenoid(const Data& data)
+Solenoid* ConstructSolenoid(const Data& data, double energy)
 {
 	double brho = energy / eV / SpeedOfLight;
 	return new Solenoid(data.label, data[L], brho * data[KS]);
@@ -390,39 +384,39 @@ void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 	{
 		if(is_skewquad(dat[TILT]))
 		{
-			c = mc->AppendComponent(ConstructSkewQuadrupole(dat));
+			c = mc->AppendComponent(ConstructSkewQuadrupole(dat, energy));
 		}
 		else
 		{
-			c = mc->AppendComponent(ConstructQuadrupole(dat));
+			c = mc->AppendComponent(ConstructQuadrupole(dat, energy));
 		}
 	}
 	else if(dat.keywrd == "SBEN")
 	{
-		c = mc->AppendComponent(ConstructSectorBend(dat));
+		c = mc->AppendComponent(ConstructSectorBend(dat, energy));
 	}
 	else if(dat.keywrd == "RBEN")
 	{
-		c = mc->AppendComponent(ConstructRectBend(dat));
+		c = mc->AppendComponent(ConstructRectBend(dat, energy));
 	}
 	else if(dat.keywrd == "SEXT")
 	{
 		if(is_skewsext(dat[TILT]))
 		{
-			c = mc->AppendComponent(ConstructSkewSextupole(dat));
+			c = mc->AppendComponent(ConstructSkewSextupole(dat, energy));
 		}
 		else
 		{
-			c = mc->AppendComponent(ConstructSextupole(dat));
+			c = mc->AppendComponent(ConstructSextupole(dat, energy));
 		}
 	}
 	else if(dat.keywrd == "OCTU")
 	{
-		c = mc->AppendComponent(ConstructOctupole(dat));
+		c = mc->AppendComponent(ConstructOctupole(dat, energy));
 	}
 	else if(dat.keywrd == "DECA")
 	{
-		c = mc->AppendComponent(ConstructDecapole(dat));
+		c = mc->AppendComponent(ConstructDecapole(dat, energy));
 	}
 	else if(dat.keywrd == "LCAV")
 	{
@@ -432,12 +426,12 @@ void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 		}
 		else
 		{
-			c = mc->AppendComponent(ConstructCavity(dat));
+			c = mc->AppendComponent(ConstructCavity(dat, Qt, energy, beamload));
 		}
 	}
 	else if(dat.keywrd == "SOLE")
 	{
-		c = mc->AppendComponent(ConstructSolenoid(dat));
+		c = mc->AppendComponent(ConstructSolenoid(dat, energy));
 	}
 	else if(dat.keywrd == "HKIC")
 	{
@@ -562,8 +556,8 @@ void XTFFInterface::ConstructNewFrame(const string& name)
 }
 
 XTFFInterface::XTFFInterface(const string& fname, double Nb, ostream* logstream) :
-	ifs(new ifstream(fname.c_str())), mc(nullptr), beam0(nullptr), nb(Nb), logos(logstream), incApertures(true),
-	girders(false), frameStack()
+	ifs(new ifstream(fname.c_str())), mc(nullptr), beam0(nullptr), nb(Nb), energy(0), beamload(0),
+	z_total(0), Qt(0), logos(logstream), incApertures(true), girders(false), frameStack()
 {
 	if(!(*ifs))
 	{
@@ -574,8 +568,8 @@ XTFFInterface::XTFFInterface(const string& fname, double Nb, ostream* logstream)
 }
 
 XTFFInterface::XTFFInterface(double Nb, ostream* logstream) :
-	ifs(nullptr), mc(nullptr), beam0(nullptr), nb(Nb), logos(logstream), incApertures(true), girders(false),
-	frameStack()
+	ifs(nullptr), mc(nullptr), beam0(nullptr), nb(Nb), energy(0), beamload(0), z_total(0), Qt(0),
+	logos(logstream), incApertures(true), girders(false), frameStack()
 {
 }
 
diff --git a/Merlin++/XTFFInterface.h b/Merlin++/XTFFInterface.h
index 3880d56..4c17eb3 100644
--- a/Merlin++/XTFFInterface.h
+++ b/Merlin++/XTFFInterface.h
@@ -93,6 +93,10 @@ private:
 	AcceleratorModelConstructor* mc;
 	BeamData* beam0;
 	double nb;
+	double energy;      // current energy
+	double beamload;    // energy loss due to beamloading
+	double z_total;     // current total length
+	double Qt;          // charge for beamloading
 	std::ostream* logos;
 	bool incApertures;
 
-- 
2.43.0


From 461d87d6136adb8ac3f10d9c424d1ec4547aecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 098/147] fix: XTFFInterface ignored the reference momentum
 given

---
 Merlin++/XTFFInterface.cpp | 11 +++++------
 Merlin++/XTFFInterface.h   |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 853e0a9..1053686 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -598,7 +598,7 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::Parse()
 	beam0 = new BeamData();
 	int nelm = ParseHeader(beam0);
 
-	Parse1(nelm, true);
+	Parse1(nelm, true, beam0->p0);
 	return GetModel();
 }
 
@@ -610,8 +610,7 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::Parse(double P_ref)
 	}
 	beam0 = new BeamData();
 	int nelm = ParseHeader(beam0);
-	energy = P_ref;
-	Parse1(nelm, true);
+	Parse1(nelm, true, P_ref);
 	return GetModel();
 }
 
@@ -642,10 +641,10 @@ void XTFFInterface::AppendModel(const string& fname)
 		delete b;
 	}
 
-	Parse1(nelm, false);
+	Parse1(nelm, false, beam0->p0);
 }
 
-void XTFFInterface::Parse1(int nelm, bool isNewModel)
+void XTFFInterface::Parse1(int nelm, bool isNewModel, double P_ref)
 {
 	if(mc == nullptr || isNewModel)
 	{
@@ -656,7 +655,7 @@ void XTFFInterface::Parse1(int nelm, bool isNewModel)
 		mc = new AcceleratorModelConstructor();
 		z_total = 0;
 		beamload = 0;
-		energy = beam0->p0;
+		energy = P_ref;
 	}
 
 	if(logos)
diff --git a/Merlin++/XTFFInterface.h b/Merlin++/XTFFInterface.h
index 4c17eb3..3c1aace 100644
--- a/Merlin++/XTFFInterface.h
+++ b/Merlin++/XTFFInterface.h
@@ -85,7 +85,7 @@ private:
 
 	void ConstructComponent(XTFF_Data&);
 	int ParseHeader(BeamData*);
-	void Parse1(int, bool);
+	void Parse1(int, bool, double);
 
 	std::set<std::string> driftTypes;
 
-- 
2.43.0


From a67ab82cdbf3f44e00369017ae736c05a30b7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:22 +0000
Subject: [PATCH 099/147] fix: XTFFInterface read cut and garbled files as
 shorter machines

---
 Merlin++/XTFFInterface.cpp | 39 +++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 1053686..4f8ff05 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <iomanip>
 #include <string>
+#include <cstdlib>
 #include <fstream>
 #include <algorithm>
 #include <stdexcept>
@@ -48,20 +49,40 @@ namespace
 
 typedef XTFFInterface::XTFF_Data Data;
 
+// read a line which has to be there
+void ReadLine(istream& is, string& line)
+{
+	if(!getline(is, line))
+	{
+		throw MerlinException("Unexpected end of XTFF input");
+	}
+}
+
 // skip n input lines
 void SkipLines(istream& is, int n)
 {
 	string dummy;
-	while(is && n--)
+	while(n--)
 	{
-		getline(is, dummy);
+		ReadLine(is, dummy);
 	}
 }
 
 // return real value in columns c1-c2
 double RealValue(const string& dat, int c1, int c2)
 {
-	return atof(dat.substr(c1 - 1, c2 - c1 + 1).c_str());
+	const string field = dat.substr(c1 - 1, c2 - c1 + 1);
+	if(field.find_first_not_of(" \t\r") == string::npos)
+	{
+		return 0;
+	}
+	char* end;
+	const double value = strtod(field.c_str(), &end);
+	if(end == field.c_str() || string(end).find_first_not_of(" \t\r") != string::npos)
+	{
+		throw MerlinException("Not a number in XTFF input: " + field);
+	}
+	return value;
 }
 
 // return string value in cols c1-c2
@@ -78,7 +99,7 @@ void ParseXTFF(istream& is, Data& data)
 	string ipline;
 
 	// first line
-	getline(is, ipline);
+	ReadLine(is, ipline);
 	data.keywrd = StringValue(ipline, 1, 4);
 	data.label = StringValue(ipline, 5, 20);
 	data.type = StringValue(ipline, 98, 113);
@@ -91,7 +112,7 @@ void ParseXTFF(istream& is, Data& data)
 	data.realdat[5] = RealValue(ipline, 115, 130);
 
 	// second line
-	getline(is, ipline);
+	ReadLine(is, ipline);
 
 	data.realdat[6] = RealValue(ipline, 1, 16);
 	data.realdat[7] = RealValue(ipline, 17, 32);
@@ -663,7 +684,7 @@ void XTFFInterface::Parse1(int nelm, bool isNewModel, double P_ref)
 		(*logos) << "Initial beam energy: " << energy << " GeV" << endl;
 	}
 
-	while((*ifs) && nelm--)
+	while(nelm-- > 0)
 	{
 		XTFF_Data dat;
 		ParseXTFF((*ifs), dat);
@@ -696,11 +717,11 @@ int XTFFInterface::ParseHeader(BeamData* bdat)
 	string ipline;
 
 	// extract number of elements from first line
-	getline((*ifs), ipline);
+	ReadLine((*ifs), ipline);
 	int n = RealValue(ipline, 57, 65);
 
 	// Skip next header line
-	getline((*ifs), ipline);
+	ReadLine((*ifs), ipline);
 
 	XTFF_Data dat;
 	ParseXTFF((*ifs), dat); // initial element
@@ -731,7 +752,7 @@ int XTFFInterface::ParseHeader(BeamData* bdat)
 	(*ifs) >> bdat->yp0;
 
 	// remove remainder of this line (suml)
-	getline((*ifs), ipline);
+	ReadLine((*ifs), ipline);
 
 	return n - 1;
 }
-- 
2.43.0


From 05eefd9da436d0ea008a87833dabb3a6c06d2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:44 +0000
Subject: [PATCH 100/147] fix: XTFFInterface ignored tilts it cannot represent

---
 Merlin++/XTFFInterface.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 4f8ff05..7f18ea8 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -230,12 +230,19 @@ SectorBend* ConstructRectBend(const Data& data, double energy)
 	return bend;
 }
 
+void CheckUntilted(const Data& data)
+{
+	if(!fequal(data[TILT], 0.0))
+	{
+		throw MerlinException("Cannot construct a " + data.keywrd + " with this tilt: " + data.label);
+	}
+}
+
 Quadrupole* ConstructQuadrupole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k1 = data[K1];
-	double tilt = data[TILT];
-	assert(fequal(tilt, 0.0));
+	CheckUntilted(data);
 	double brho = energy / eV / SpeedOfLight;
 	return new Quadrupole(data.label, len, brho * k1);
 }
@@ -253,8 +260,7 @@ Sextupole* ConstructSextupole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k2 = data[K2];
-	double tilt = data[TILT];
-	assert(fequal(tilt, 0.0));
+	CheckUntilted(data);
 	double brho = energy / eV / SpeedOfLight;
 	return new Sextupole(data.label, len, brho * k2);
 }
@@ -272,8 +278,7 @@ Octupole* ConstructOctupole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k3 = data[K3];
-	double tilt = data[TILT];
-	assert(fequal(tilt, 0.0));
+	CheckUntilted(data);
 	double brho = energy / eV / SpeedOfLight;
 	return new Octupole(data.label, len, brho * k3);
 }
@@ -282,8 +287,7 @@ Decapole* ConstructDecapole(const Data& data, double energy)
 {
 	double len = data[L];
 	double k4 = data[K4];
-	double tilt = data[TILT];
-	assert(fequal(tilt, 0.0));
+	CheckUntilted(data);
 	double brho = energy / eV / SpeedOfLight;
 	return new Decapole(data.label, len, brho * k4);
 }
-- 
2.43.0


From 496db2d470112a1b0513c86ea433e108747af9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 101/147] fix: XTFFInterface built collimators with twice their
 gap

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 7f18ea8..9997d14 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -514,7 +514,7 @@ void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 		c = mc->AppendComponent(ConstructDrift(dat));
 		if(incApertures)
 		{
-			c->SetAperture(new RectangularAperture(2 * dat[XGAP], 2 * dat[YGAP]));
+			c->SetAperture(new RectangularAperture(dat[XGAP], dat[YGAP]));
 		}
 	}
 	else if(dat.keywrd == "SROT")
-- 
2.43.0


From cea06e8f45461e1d6ace9d3075facd10f7c8f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:26 +0000
Subject: [PATCH 102/147] fix: XTFFInterface freed its file twice after a
 failed append

---
 Merlin++/XTFFInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 9997d14..e7b86b1 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -651,6 +651,7 @@ void XTFFInterface::AppendModel(const string& fname)
 	{
 		string msg = "cannot open file " + fname;
 		delete ifs;
+		ifs = nullptr;
 		throw runtime_error(msg);
 	}
 
-- 
2.43.0


From 16b51fd17091330fb6e7326a9d28c9b3151bc413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 103/147] fix: zero length bends and cavities in XTFF files got
 infinite strengths

---
 Merlin++/XTFFInterface.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index e7b86b1..e755862 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -153,6 +153,20 @@ void ParseXTFF(istream& is, Data& data)
 #define YGAP   7
 #define SROT   7
 
+// Strength per length of an element given its integrated strength
+double PerLength(double integrated, const Data& data)
+{
+	if(integrated == 0)
+	{
+		return 0;
+	}
+	if(data[L] == 0)
+	{
+		throw MerlinException("Zero length " + data.keywrd + ": " + data.label);
+	}
+	return integrated / data[L];
+}
+
 Drift* ConstructDrift(const Data& data)
 {
 	return new Drift(data.label, data[L]);
@@ -169,7 +183,7 @@ SectorBend* ConstructSectorBend(const Data& data, double energy)
 	double tilt = data[TILT];
 	double brho = energy / eV / SpeedOfLight;
 	double hg = data[HGAP];
-	double h = angle / len;
+	double h = PerLength(angle, data);
 
 	SectorBend* bend = new SectorBend(data.label, len, h, brho * h);
 
@@ -206,7 +220,7 @@ SectorBend* ConstructRectBend(const Data& data, double energy)
 	double h = 0;
 	if(!fequal(angle, 0.0))
 	{
-		h = 2 * sin(angle / 2) / len;
+		h = PerLength(2 * sin(angle / 2), data);
 		len = angle / h;
 	}
 
@@ -321,7 +335,7 @@ TWRFStructure* ConstructCavity(const Data& data, double Qt, double& energy, doub
 	 */
 	energy += (dE - bloading) / GeV;
 	beamload += bloading / GeV;
-	return new TWRFStructure(data.label, len, freq, volt / len, phase);
+	return new TWRFStructure(data.label, len, freq, PerLength(volt, data), phase);
 }
 
 TransverseRFStructure* ConstructCrabCavity(const Data& data, char c)
@@ -344,7 +358,7 @@ TransverseRFStructure* ConstructCrabCavity(const Data& data, char c)
 		throw MerlinException("Cannot deduce orientation for crab cavity");
 		break;
 	}
-	return new TransverseRFStructure(data.label, len, freq, volt / len, phase, roll);
+	return new TransverseRFStructure(data.label, len, freq, PerLength(volt, data), phase, roll);
 }
 
 BPM* ConstructBPM(const Data& data)
-- 
2.43.0


From 058574c8ae0e0c942e485e2293badf85591912d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:13 +0000
Subject: [PATCH 104/147] fix: XTFFInterface kept the machine it had given away

---
 Merlin++/XTFFInterface.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index e755862..286873a 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -490,7 +490,7 @@ void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 	}
 	else if(dat.keywrd == "MARK")
 	{
-		if(girders && dat.label[1] == '_')
+		if(girders && dat.label.size() > 1 && dat.label[1] == '_')
 		{
 			string girderName = dat.label;
 			if(!frameStack.empty() && girderName == frameStack.top())
@@ -692,6 +692,8 @@ void XTFFInterface::Parse1(int nelm, bool isNewModel, double P_ref)
 		{
 			delete mc;
 		}
+		mc = nullptr;
+		frameStack = stack<string>();
 		mc = new AcceleratorModelConstructor();
 		z_total = 0;
 		beamload = 0;
@@ -714,6 +716,14 @@ void XTFFInterface::Parse1(int nelm, bool isNewModel, double P_ref)
 
 pair<AcceleratorModel*, BeamData*> XTFFInterface::GetModel()
 {
+	if(mc == nullptr)
+	{
+		throw MerlinException("No XTFF model constructed");
+	}
+	if(!frameStack.empty())
+	{
+		throw MerlinException("Missing end of " + frameStack.top() + " in XTFF input");
+	}
 	if(logos)
 	{
 		(*logos) << endl;
@@ -728,7 +738,10 @@ pair<AcceleratorModel*, BeamData*> XTFFInterface::GetModel()
 
 	BeamData* beam = beam0;
 	beam0 = nullptr;
-	return make_pair(mc->GetModel(), beam);
+	AcceleratorModel* model = mc->GetModel();
+	delete mc;
+	mc = nullptr;
+	return make_pair(model, beam);
 }
 
 int XTFFInterface::ParseHeader(BeamData* bdat)
-- 
2.43.0


From ddd7b90d0d04eea45c1c673b8e8672cd18ce9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:37 +0000
Subject: [PATCH 105/147] fix: HMON and VMON types could not be treated as
 drifts

---
 Merlin++/XTFFInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 286873a..8457eb5 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -400,7 +400,7 @@ inline bool is_skewsext(double tilt)
 
 void XTFFInterface::ConstructComponent(XTFF_Data& dat)
 {
-	if(TYPEIS(HMON) || TYPEIS(VMON))
+	if((TYPEIS(HMON) || TYPEIS(VMON)) && driftTypes.find(dat.keywrd) == driftTypes.end())
 	{
 		dat.keywrd = "MONI";
 	}
-- 
2.43.0


From 422da5599aedc2e65c73db89ff2a8d898441b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 106/147] fix: bends with a gradient and no angle got an
 undefined gradient

---
 Merlin++/MADInterface.cpp  | 10 ++++++++++
 Merlin++/XTFFInterface.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/Merlin++/MADInterface.cpp b/Merlin++/MADInterface.cpp
index 8750f80..c876d09 100644
--- a/Merlin++/MADInterface.cpp
+++ b/Merlin++/MADInterface.cpp
@@ -406,6 +406,11 @@ vector<AcceleratorComponent*> RBendComponent::GetInstance(DataTableRow& MADinput
 	double tilt = MADinputrow.Get_d("TILT");
 	double h = PerLength(angle, MADinputrow);
 
+	if(h == 0 && k1l != 0)
+	{
+		throw MerlinException("Cannot construct a bend with K1L and no angle: " + name);
+	}
+
 	SectorBend* bend = new SectorBend(name, length, h, brho * h);
 
 	if(k1l)
@@ -442,6 +447,11 @@ vector<AcceleratorComponent*> SBendComponent::GetInstance(DataTableRow& MADinput
 	double tilt = MADinputrow.Get_d("TILT");
 	double h = PerLength(angle, MADinputrow);
 
+	if(h == 0 && k1l != 0)
+	{
+		throw MerlinException("Cannot construct a bend with K1L and no angle: " + name);
+	}
+
 	SectorBend* bend = new SectorBend(name, length, h, brho * h);
 
 	if(k1l)
diff --git a/Merlin++/XTFFInterface.cpp b/Merlin++/XTFFInterface.cpp
index 8457eb5..6ed39cf 100644
--- a/Merlin++/XTFFInterface.cpp
+++ b/Merlin++/XTFFInterface.cpp
@@ -185,6 +185,11 @@ SectorBend* ConstructSectorBend(const Data& data, double energy)
 	double hg = data[HGAP];
 	double h = PerLength(angle, data);
 
+	if(h == 0 && !fequal(k1, 0.0))
+	{
+		throw MerlinException("Cannot construct a bend with K1 and no angle: " + data.label);
+	}
+
 	SectorBend* bend = new SectorBend(data.label, len, h, brho * h);
 
 	if(!fequal(k1, 0.0))  // mixed function dipole
@@ -224,6 +229,11 @@ SectorBend* ConstructRectBend(const Data& data, double energy)
 		len = angle / h;
 	}
 
+	if(h == 0 && !fequal(k1, 0.0))
+	{
+		throw MerlinException("Cannot construct a bend with K1 and no angle: " + data.label);
+	}
+
 	SectorBend* bend = new SectorBend(data.label, len, h, brho * h);
 
 	if(!fequal(k1, 0.0))  // mixed function dipole
-- 
2.43.0


From f7cdd81cd92e1a1f58ad80ca039b402c960b56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:03 +0000
Subject: [PATCH 107/147] fix: give the unused ellipse of a collimator aperture
 a defined value

---
 Merlin++/Aperture.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/Aperture.cpp b/Merlin++/Aperture.cpp
index 2fa87fa..7bd3373 100644
--- a/Merlin++/Aperture.cpp
+++ b/Merlin++/Aperture.cpp
@@ -179,7 +179,9 @@ void EllipticalAperture::printout(std::ostream& out) const
 	out << apType << "(" << ellipHalfX << ", " << ellipHalfY << ")";
 }
 
-RectEllipseAperture::RectEllipseAperture()
+RectEllipseAperture::RectEllipseAperture() :
+	rectHalfX(0), rectHalfY(0), ellipHalfX(0), ellipHalfY(0), minDim(0), maxDim(0), minRectDim(0), maxRectDim(0),
+	minEllipDim(0), maxEllipDim(0), ellipHalfX_sq(0), ellipHalfY_sq(0), ellipHalfX_sq_div_ellipHalfY_sq(0)
 {
 	//for collimator inheritence
 }
-- 
2.43.0


From ad78990490ae36c2813f690d29ae4956ab47d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 108/147] fix: do not end the simulation when a monitor file
 can not be opened

---
 Merlin++/MonitorProcess.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Merlin++/MonitorProcess.cpp b/Merlin++/MonitorProcess.cpp
index 848e214..eaf8765 100644
--- a/Merlin++/MonitorProcess.cpp
+++ b/Merlin++/MonitorProcess.cpp
@@ -67,10 +67,12 @@ void MonitorProcess::DoProcess(const double ds)
 		if(!out_file.good())
 		{
 			cerr << "Error opening " << filename << endl;
-			exit(EXIT_FAILURE);
 		}
-		currentBunch->Output(out_file);
-		out_file.close();
+		else
+		{
+			currentBunch->Output(out_file);
+			out_file.close();
+		}
 	}
 #ifdef ENABLE_MPI
 	currentBunch->distribute();
-- 
2.43.0


From 55056dd58529e07e6d128b19a5244cd74658fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 109/147] fix: refuse a beam line that starts behind the last
 element

---
 Merlin++/AcceleratorModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/AcceleratorModel.cpp b/Merlin++/AcceleratorModel.cpp
index 3822127..3db68d6 100644
--- a/Merlin++/AcceleratorModel.cpp
+++ b/Merlin++/AcceleratorModel.cpp
@@ -132,7 +132,7 @@ AcceleratorModel::Beamline AcceleratorModel::GetBeamline()
 
 AcceleratorModel::Beamline AcceleratorModel::GetBeamline(AcceleratorModel::Index n1, AcceleratorModel::Index n2)
 {
-	if(n2 >= lattice.size())
+	if(n1 >= lattice.size() || n2 >= lattice.size())
 	{
 		throw BadRange();
 	}
-- 
2.43.0


From b2889d8f53a5ca2e37280dc936eb3bde6832a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:40 +0000
Subject: [PATCH 110/147] fix: SixTrack-like scattering models use simple
 energy loss from the start

---
 Merlin++/ScatteringModelsMerlin.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/ScatteringModelsMerlin.h b/Merlin++/ScatteringModelsMerlin.h
index fcaef52..739025b 100644
--- a/Merlin++/ScatteringModelsMerlin.h
+++ b/Merlin++/ScatteringModelsMerlin.h
@@ -45,6 +45,7 @@ public:
 	ScatteringModelSixTrack() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
@@ -71,6 +72,7 @@ public:
 	ScatteringModelSixTrackElastic() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
@@ -84,6 +86,7 @@ public:
 	ScatteringModelSixTrackSD() :
 		ScatteringModel()
 	{
+		energy_loss_mode = SimpleEnergyLoss;
 	}
 	void Configure(MaterialProperties *, double Energy) override;
 };
-- 
2.43.0


From 6bac0d63421973b07718c53b1bed79236a89dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:03 +0000
Subject: [PATCH 111/147] fix: do not bin the bunch when a coupler wake element
 is entered

---
 Merlin++/CouplerWakeFieldProcess.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Merlin++/CouplerWakeFieldProcess.cpp b/Merlin++/CouplerWakeFieldProcess.cpp
index 7e012ca..15b350b 100644
--- a/Merlin++/CouplerWakeFieldProcess.cpp
+++ b/Merlin++/CouplerWakeFieldProcess.cpp
@@ -75,7 +75,6 @@ void CouplerWakeFieldProcess::SetCurrentComponent(AcceleratorComponent& componen
 		{
 			currentWake = wake;
 			WakeFieldProcess::currentWake = currentWake;
-			Init();
 		}
 		const TWRFStructure* lcav = dynamic_cast<TWRFStructure*>(&component);
 		if(lcav)
-- 
2.43.0


From a31b59d219478ddf3d0002be35942bd0c15adfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 112/147] fix: MerlinProfile::ClearTime clears every entry

---
 Merlin++/MerlinProfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Merlin++/MerlinProfile.h b/Merlin++/MerlinProfile.h
index c42b48a..f491503 100644
--- a/Merlin++/MerlinProfile.h
+++ b/Merlin++/MerlinProfile.h
@@ -114,10 +114,11 @@ public:
 	static void ClearTime()
 	{
 		std::map<std::string, timespec>::iterator Location = pData.begin();
-		if(Location != pData.end())
+		while(Location != pData.end())
 		{
 			Location->second.tv_nsec = 0;
 			Location->second.tv_sec = 0;
+			Location++;
 		}
 	}
 
-- 
2.43.0


From eedacab73ece4a7eda9635a4f9540e408b84915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:53 +0000
Subject: [PATCH 113/147] fix: profile processes that are added with negative
 priority

---
 Merlin++/ProcessStepManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/ProcessStepManager.cpp b/Merlin++/ProcessStepManager.cpp
index dffa006..63645e9 100644
--- a/Merlin++/ProcessStepManager.cpp
+++ b/Merlin++/ProcessStepManager.cpp
@@ -166,8 +166,8 @@ void ProcessStepManager::AddProcess(BunchProcess* aProcess)
 			p++)
 			;
 		processTable.insert(p, aProcess);
-		MERLIN_PROFILE_ADD_PROCESS(aProcess->GetID());
 	}
+	MERLIN_PROFILE_ADD_PROCESS(aProcess->GetID());
 }
 
 bool ProcessStepManager::RemoveProcess(BunchProcess* aProcess)
-- 
2.43.0


From 56773fbb13cbe02c9afdb9a004aac80d652b3da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:15 +0000
Subject: [PATCH 114/147] fix: send particle ids between MPI nodes

---
 Merlin++/ParticleBunch.cpp | 40 ++++++++------------------------------
 1 file changed, 8 insertions(+), 32 deletions(-)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index df83e5d..11e6d30 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cstring>
 #include <iostream>
 #include "MerlinException.h"
 #include "Transform3D.h"
@@ -583,10 +584,7 @@ void ParticleBunch::master_recv_particles_from_nodes()
 		//Put the recv buffer into the particle array
 		for(int i = 0; i < recv_count; i++)
 		{
-			for(int j = 0; j < coords; j++)
-			{
-				Particle_buffer[j] = particle_recv_buffer[(i * coords) + j];
-			}
+			memcpy(&Particle_buffer, &particle_recv_buffer[i * coords], sizeof(PSvector));
 			//Push back each particle onto the current master node bunch.
 			push_back(Particle_buffer);
 		}
@@ -630,10 +628,7 @@ void ParticleBunch::node_recv_particles_from_master()
 	//Put the recv buffer into the particle array
 	for(int i = 0; i < recv_count; i++)
 	{
-		for(int j = 0; j < coords; j++)
-		{
-			Particle_buffer[j] = particle_recv_buffer[(i * coords) + j];
-		}
+		memcpy(&Particle_buffer, &particle_recv_buffer[i * coords], sizeof(PSvector));
 
 		//Push back each particle onto the cleared currentBunch
 		push_back(Particle_buffer);
@@ -669,16 +664,8 @@ void ParticleBunch::node_send_particles_to_master()
 	int n = 0;
 	for(PSvectorArray::iterator ip = begin(); ip != end(); ip++)
 	{
-		//for (int j=0; j<coords; j++)
-		for(int j = 0; j < 6; j++)
-		{
-			particle_send_buffer[(n * coords) + 0] = ip->x();
-			particle_send_buffer[(n * coords) + 1] = ip->xp();
-			particle_send_buffer[(n * coords) + 2] = ip->y();
-			particle_send_buffer[(n * coords) + 3] = ip->yp();
-			particle_send_buffer[(n * coords) + 4] = ip->ct();
-			particle_send_buffer[(n * coords) + 5] = ip->dp();
-		}
+		// all of the particle, including its id
+		memcpy(&particle_send_buffer[n * coords], &*ip, sizeof(PSvector));
 		n++;
 	}
 
@@ -714,16 +701,8 @@ void ParticleBunch::master_send_particles_to_nodes()
 	int n = 0;
 	for(PSvectorArray::iterator ip = begin(); ip != end(); ip++)
 	{
-		//for (int j=0; j<coords; j++)
-		for(int j = 0; j < 6; j++)
-		{
-			particle_send_buffer[(n * coords) + 0] = ip->x();
-			particle_send_buffer[(n * coords) + 1] = ip->xp();
-			particle_send_buffer[(n * coords) + 2] = ip->y();
-			particle_send_buffer[(n * coords) + 3] = ip->yp();
-			particle_send_buffer[(n * coords) + 4] = ip->ct();
-			particle_send_buffer[(n * coords) + 5] = ip->dp();
-		}
+		// all of the particle, including its id
+		memcpy(&particle_send_buffer[n * coords], &*ip, sizeof(PSvector));
 		n++;
 	}
 
@@ -746,10 +725,7 @@ void ParticleBunch::master_send_particles_to_nodes()
 	//And then refilled.
 	for(int i = (particles_per_node * (MPI_size - 1)); i < particle_count; i++)
 	{
-		for(int j = 0; j < coords; j++)
-		{
-			Particle_buffer[j] = particle_send_buffer[(i * coords) + j];
-		}
+		memcpy(&Particle_buffer, &particle_send_buffer[i * coords], sizeof(PSvector));
 
 		//Push back each particle onto the cleared currentBunch
 		push_back(Particle_buffer);
-- 
2.43.0


From 3056b6538f789048036d32e0ec8de004d6760a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:37 +0000
Subject: [PATCH 115/147] fix: nodes do not keep the particles they sent to the
 master

---
 Merlin++/ParticleBunch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 11e6d30..4451a01 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -674,6 +674,9 @@ void ParticleBunch::node_send_particles_to_master()
 
 	delete[] particle_send_buffer;
 	particle_send_buffer = NULL;
+
+	//They have moved to the master node
+	clear();
 }
 
 void ParticleBunch::master_send_particles_to_nodes()
-- 
2.43.0


From 57abbd6c02b3957083582a5e14f7ef5bd217fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:57 +0000
Subject: [PATCH 116/147] fix: distribute the bunch reference and charge with
 its particles

---
 Merlin++/ParticleBunch.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Merlin++/ParticleBunch.cpp b/Merlin++/ParticleBunch.cpp
index 4451a01..81732fc 100644
--- a/Merlin++/ParticleBunch.cpp
+++ b/Merlin++/ParticleBunch.cpp
@@ -600,6 +600,13 @@ void ParticleBunch::node_recv_particles_from_master()
 	//This will be refilled with new particles.
 	clear();
 
+	//What the particles are relative to
+	double bunch_data[3];
+	MPI::COMM_WORLD.Recv(bunch_data, 3, MPI::DOUBLE, 0, 1, MPI_status);
+	SetReferenceMomentum(bunch_data[0]);
+	SetReferenceTime(bunch_data[1]);
+	SetMacroParticleCharge(bunch_data[2]);
+
 	//We probe the incomming send to see how many particles we are recieving.
 	MPI::COMM_WORLD.Probe(0, MPI_ANY_TAG, MPI_status);
 
@@ -714,8 +721,11 @@ void ParticleBunch::master_send_particles_to_nodes()
 
 	//Resend
 	// 1 -> total nodes
+	//together with what the particles are relative to
+	double bunch_data[3] = {GetReferenceMomentum(), GetReferenceTime(), qPerMP};
 	for(int n = 0; n < (MPI_size - 1); n++)
 	{
+		MPI::COMM_WORLD.Send(bunch_data, 3, MPI::DOUBLE, (n + 1), 1);
 		MPI::COMM_WORLD.Send(&particle_send_buffer[(particles_per_node * n * coords)], particles_per_node, MPI_Particle,
 			(n + 1), 1);
 	}
-- 
2.43.0


From f75e2a1f0d7f727ea9f07d46a8d7272eee8f53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 117/147] fix: find lost particles in the input array when the
 bunch was rearranged

---
 Merlin++/CollimateParticleProcess.cpp | 35 +++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/Merlin++/CollimateParticleProcess.cpp b/Merlin++/CollimateParticleProcess.cpp
index 69c4ae8..7ceeac4 100644
--- a/Merlin++/CollimateParticleProcess.cpp
+++ b/Merlin++/CollimateParticleProcess.cpp
@@ -5,6 +5,7 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
 #include <iterator>
 #include <iomanip>
 #include <fstream>
@@ -348,14 +349,37 @@ void CollimateParticleProcess::DoCollimation()
 		//If we are dealing with a non-zero length element, we must do tracking
 		if(length != 0)
 		{
-			//Clear out the old lost particles, these will all be at the end of the element which we do not want for a magnet.
-			lost.clear();
-
 			//Grab the lost particles from the copied input particle array and add them to the new particle bunch
-			for(vector<unsigned int>::iterator p = LostParticlePositions.begin(); p != LostParticlePositions.end(); p++)
+			PSvectorArray lost_here;
+			for(size_t n = 0; n < lost.size(); n++)
 			{
-				LostBunch->AddParticle(InputArray[*p]);
+				unsigned int &position = LostParticlePositions[n];
+				if(position >= InputArray.size() || InputArray[position].id() != lost[n].id())
+				{
+					//Another process has rearranged the bunch within this element
+					position = find_if(InputArray.begin(), InputArray.end(), [&](const PSvector &v){
+						return v.id() == lost[n].id();
+					}) - InputArray.begin();
+				}
+
+				if(position < InputArray.size())
+				{
+					LostBunch->AddParticle(InputArray[position]);
+				}
+				else
+				{
+					//It was not in this bunch at the start of the element: all that is known is that it is outside here
+					lost[n].ct() = s;
+					lost_here.push_back(lost[n]);
+					for(auto &OutIt : CollimationOutputVector)
+					{
+						OutIt->Dispose(*currentComponent, s, lost[n], ColParProTurn);
+					}
+				}
 			}
+
+			//The old lost particles will all be at the end of the element which we do not want for a magnet.
+			lost.swap(lost_here);
 			//Create a new tracker
 			ParticleComponentTracker* LostParticleTracker = new ParticleComponentTracker();
 
@@ -484,6 +508,7 @@ void CollimateParticleProcess::DoCollimation()
 	{
 		PSvectorArray survivors;
 		survivors.reserve(currentBunch->size());
+		sort(LostParticlePositions.begin(), LostParticlePositions.end());
 		vector<unsigned int>::const_iterator lp = LostParticlePositions.begin();
 		for(size_t n = 0; n < InputArray.size(); n++)
 		{
-- 
2.43.0


From 5920e652fef34849953958fa415e2c2ba306cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 118/147] fix: report a failure to add the frames of a sequence
 to a model

---
 Merlin++/AcceleratorModelConstructor.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index a5a8149..c4cd05b 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -56,26 +56,15 @@ public:
 	virtual void ActOn(LatticeFrame* frame)
 	{
 		erepo->Add(frame);
-		try
+		ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
+		if(cf)
 		{
-			ComponentFrame* cf = dynamic_cast<ComponentFrame*>(frame);
-			if(cf)
+			if(cf->IsComponent())
 			{
-				if(cf->IsComponent())
-				{
-					erepo->Add(&(cf->GetComponent()));
-				}
-				lattice->push_back(cf);
-				cf->SetBeamlineIndex(lattice->size() - 1);
+				erepo->Add(&(cf->GetComponent()));
 			}
-		}
-		catch(bad_cast& b)
-		{
-			cerr << "bad cast caught here!" << endl;
-		}
-		catch(...)
-		{
-			cerr << "something weird here" << endl;
+			lattice->push_back(cf);
+			cf->SetBeamlineIndex(lattice->size() - 1);
 		}
 	}
 
-- 
2.43.0


From 970e2c1cb4318a94dd82e3c3b05ccdaf684bfacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:31 +0000
Subject: [PATCH 119/147] fix: keep no pointer to a deleted model in
 AcceleratorModelConstructor

---
 Merlin++/AcceleratorModelConstructor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/AcceleratorModelConstructor.cpp b/Merlin++/AcceleratorModelConstructor.cpp
index c4cd05b..093f5c3 100644
--- a/Merlin++/AcceleratorModelConstructor.cpp
+++ b/Merlin++/AcceleratorModelConstructor.cpp
@@ -94,6 +94,7 @@ void AcceleratorModelConstructor::NewModel()
 	if(currentModel)
 	{
 		delete currentModel;
+		currentModel = nullptr;
 		while(!frameStack.empty())
 		{
 			frameStack.pop();
-- 
2.43.0


From d84c292bae9c56705fdc7e67f250563622b98248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:14 +0000
Subject: [PATCH 120/147] fix: keep no pointer to a deleted integrator set

---
 Merlin++/ComponentTracker.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/ComponentTracker.h b/Merlin++/ComponentTracker.h
index 8766a56..beb36d6 100644
--- a/Merlin++/ComponentTracker.h
+++ b/Merlin++/ComponentTracker.h
@@ -150,6 +150,7 @@ public:
 		if(iSet)
 		{
 			delete iSet;
+			iSet = nullptr;
 		}
 		iSet = new IntegratorSet();
 	}
-- 
2.43.0


From 9de0db5d7af1ef6742782145e7cd078183f773e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:43 +0000
Subject: [PATCH 121/147] fix: keep no pointer to a deleted bunch when the new
 one cannot be made

---
 Merlin++/TrackingSimulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/TrackingSimulation.cpp b/Merlin++/TrackingSimulation.cpp
index b984bc3..fa28efe 100644
--- a/Merlin++/TrackingSimulation.cpp
+++ b/Merlin++/TrackingSimulation.cpp
@@ -133,6 +133,7 @@ Bunch& TrackingSimulation::DoRun(bool new_bunch, bool do_init)
 		if(bunch != nullptr)
 		{
 			delete bunch;
+			bunch = nullptr;
 		}
 		bunch = ibunchCtor->ConstructBunch();
 	}
@@ -231,6 +232,7 @@ void TrackingSimulation::InitStepper(bool genNewBunch)
 		if(bunch != nullptr)
 		{
 			delete bunch;
+			bunch = nullptr;
 		}
 		bunch = ibunchCtor->ConstructBunch();
 	}
-- 
2.43.0


From 8ce21a2715ec179a9e09f1a88c5213252c33a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:11 +0000
Subject: [PATCH 122/147] fix: keep the response matrix of a feedback if the
 new one cannot be made

---
 Merlin++/LinearFBSystem.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Merlin++/LinearFBSystem.cpp b/Merlin++/LinearFBSystem.cpp
index f8764df..e8483f2 100644
--- a/Merlin++/LinearFBSystem.cpp
+++ b/Merlin++/LinearFBSystem.cpp
@@ -79,11 +79,10 @@ void LinearFBSystem::RestoreActuators()
 void LinearFBSystem::SetResponseMatrix(const RealMatrix& M)
 {
 	assert(signals.Size() == M.nrows() && actuators.Size() == M.ncols());
-	if(Mi != nullptr)
-	{
-		delete Mi;
-	}
-	Mi = new SVDMatrix<double>(M);
+	// the old matrix stays if the new one cannot be made
+	SVDMatrix<double>* newMi = new SVDMatrix<double>(M);
+	delete Mi;
+	Mi = newMi;
 }
 
 void LinearFBSystem::SetGain(double g)
-- 
2.43.0


From 4960c17b0b404a0dde5a6ff1181a90343c01bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:50 +0000
Subject: [PATCH 123/147] fix: assign pole faces by copy and swap

---
 Merlin++/SectorBend.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SectorBend.h b/Merlin++/SectorBend.h
index bb4680d..fc8f1fa 100644
--- a/Merlin++/SectorBend.h
+++ b/Merlin++/SectorBend.h
@@ -10,6 +10,8 @@
 
 #include "merlin_config.h"
 
+#include <utility>
+
 #include "TemplateComponents.h"
 #include "MultipoleField.h"
 #include "ArcGeometry.h"
@@ -89,8 +91,9 @@ public:
 
 		PoleFaceInfo& operator =(const PoleFaceInfo& rhs)
 		{
-			Clear();
-			Copy(rhs);
+			PoleFaceInfo copy(rhs);
+			std::swap(entrance, copy.entrance);
+			std::swap(exit, copy.exit);
 			return *this;
 		}
 
-- 
2.43.0


From d4298e29157e4a78680f7b8e783e60e8c635b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:33 +0000
Subject: [PATCH 124/147] fix: assign a transformation before the old one is
 deleted

---
 Merlin++/Transformable.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Merlin++/Transformable.h b/Merlin++/Transformable.h
index a8ac90b..f2ffebc 100644
--- a/Merlin++/Transformable.h
+++ b/Merlin++/Transformable.h
@@ -106,11 +106,9 @@ protected:
 	 */
 	Transformable& operator=(const Transformable& rhs)
 	{
-		if(local_T)
-		{
-			delete local_T;
-		}
-		local_T = rhs.local_T ? new Transform3D(*rhs.local_T) : nullptr;
+		Transform3D* new_T = rhs.local_T ? new Transform3D(*rhs.local_T) : nullptr;
+		delete local_T;
+		local_T = new_T;
 		return *this;
 	}
 };
-- 
2.43.0


From 50ac864b5a370c057e9be3f0487a36ba5f20b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:00 +0000
Subject: [PATCH 125/147] fix: keep the wake filter if the new one cannot be
 made

---
 Merlin++/WakeFieldProcess.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Merlin++/WakeFieldProcess.cpp b/Merlin++/WakeFieldProcess.cpp
index ee29c78..e5adf0f 100644
--- a/Merlin++/WakeFieldProcess.cpp
+++ b/Merlin++/WakeFieldProcess.cpp
@@ -143,12 +143,14 @@ size_t WakeFieldProcess::CalculateQdist()
  */
 void WakeFieldProcess::SetFilter(int n, int m, int d)
 {
-	if(filter)
+	// the old filter stays if the new one cannot be made
+	vector<double> coefficients;
+	savgol(coefficients, n, n, d, m);
+	if(filter == nullptr)
 	{
-		delete filter;
+		filter = new vector<double>;
 	}
-	filter = new vector<double>;
-	savgol(*filter, n, n, d, m);
+	filter->swap(coefficients);
 
 #ifndef NDEBUG
 	ofstream os("filter.dat");
-- 
2.43.0


From c3169e446ab65c20d27c50040cb56258d955b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:53 +0000
Subject: [PATCH 126/147] fix: redimension vectors and matrices without giving
 up their elements first

---
 Merlin++/TMatrixLib.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Merlin++/TMatrixLib.h b/Merlin++/TMatrixLib.h
index b619aa8..dc9d32e 100644
--- a/Merlin++/TMatrixLib.h
+++ b/Merlin++/TMatrixLib.h
@@ -232,7 +232,7 @@ public:
 		{
 			if(rhs.array.size() != array.size())
 			{
-				array.resize(rhs.array.size());
+				redim(rhs.array.size());
 			}
 			array = rhs.array;
 		}
@@ -253,7 +253,8 @@ public:
 
 	void redim(Dimension d)
 	{
-		array.resize(d);
+		// std::valarray::resize() gives up the old elements before it has the new ones
+		array_type(d).swap(array);
 	}
 
 	// element access
@@ -1180,16 +1181,15 @@ public:
 
 	void redim(Dimension n, Dimension m)
 	{
-		nr = n;
-		nc = m;
-		array.resize(nr * nc);
+		redim(MatrixDim(n, m));
 	}
 
 	void redim(MatrixDim md)
 	{
+		// std::valarray::resize() gives up the old elements before it has the new ones
+		array_type(md.n * md.m).swap(array);
 		nr = md.n;
 		nc = md.m;
-		array.resize(nr * nc);
 	}
 
 	// matrix part accessors
-- 
2.43.0


From f2002f1dda41ebe832887521f86eae2e3ea4de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:05 +0000
Subject: [PATCH 127/147] fix: closed orbit search leaves no process in its
 tracker when it is stopped

---
 Merlin++/ClosedOrbit.cpp | 56 +++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/Merlin++/ClosedOrbit.cpp b/Merlin++/ClosedOrbit.cpp
index 91ffbcb..0fe7cd1 100644
--- a/Merlin++/ClosedOrbit.cpp
+++ b/Merlin++/ClosedOrbit.cpp
@@ -10,6 +10,7 @@
 #include "RingDeltaTProcess.h"
 #include "ClosedOrbit.h"
 #include "TLASimp.h"
+#include <memory>
 
 #ifdef DEBUG_CLOSED_ORBIT
 #include "NANCheckProcess.h"
@@ -19,6 +20,31 @@ using namespace std;
 using namespace TLAS;
 using namespace ParticleTracking;
 
+namespace
+{
+
+// A process used for one calculation, which is removed from the tracker
+// and deleted at its end, however it ends
+class TemporaryProcess
+{
+public:
+	TemporaryProcess(ParticleTracker* aTracker, ParticleBunchProcess* aProcess) :
+		tracker(aTracker), process(aProcess)
+	{
+		tracker->AddProcess(aProcess);
+	}
+	~TemporaryProcess()
+	{
+		tracker->RemoveProcess(process.get());
+	}
+
+private:
+	ParticleTracker* tracker;
+	std::unique_ptr<ParticleBunchProcess> process;
+};
+
+}
+
 ClosedOrbit::ClosedOrbit(AcceleratorModel* aModel, double refMomentum) :
 	theModel(aModel), p0(refMomentum), transverseOnly(false), radiation(false), useFullAcc(false), delta(1.0e-9), tol(
 		1.0e-26), max_iter(20), bendscale(0), theTracker(new ParticleTracker)
@@ -102,19 +128,16 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 	theTracker->SetRing(theModel->GetRing(ncpt));
 	theTracker->SetInitialBunch(&bunch, false);
 
-	// move the declaration of these pointers
-	// outside respective if blocks so we
-	// can check them for non-null status
-	// at the end of the method
-	SynchRadParticleProcess* srproc = nullptr;
-	RingDeltaTProcess* ringdt = nullptr;
+	std::unique_ptr<TemporaryProcess> tempsr;
+	std::unique_ptr<TemporaryProcess> tempdt;
 #ifdef DEBUG_CLOSED_ORBIT
 	NANCheckProcess* NANproc = nullptr;
 #endif
 
 	if(radiation)
 	{
-		srproc = new SynchRadParticleProcess(1);
+		SynchRadParticleProcess* srproc = new SynchRadParticleProcess(1);
+		tempsr.reset(new TemporaryProcess(theTracker, srproc));
 
 		if(radstepsize == 0)
 		{
@@ -126,14 +149,13 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 		}
 
 		srproc->AdjustBunchReferenceEnergy(false);
-		theTracker->AddProcess(srproc);
 	}
 
 	if(bendscale != 0)
 	{
-		ringdt = new RingDeltaTProcess(2);
+		RingDeltaTProcess* ringdt = new RingDeltaTProcess(2);
+		tempdt.reset(new TemporaryProcess(theTracker, ringdt));
 		ringdt->SetBendScale(bendscale);
-		theTracker->AddProcess(ringdt);
 	}
 
 	RealVector g(cpt);
@@ -200,20 +222,6 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 
 	}
 
-	// clean-up
-	// To prevent multiple processes building up
-	// in theTracker, we remove the two processes
-	// created in this routine (if necessary)
-	if(srproc)
-	{
-		theTracker->RemoveProcess(srproc);
-	}
-	if(ringdt)
-	{
-		theTracker->RemoveProcess(ringdt);
-		delete ringdt;
-	}
-
 #ifdef DEBUG_CLOSED_ORBIT
 	theTracker->RemoveProcess(NANproc);
 	cout << "Found closed orbit: " << w << endl;
-- 
2.43.0


From 02e3c8b42ff7afb7ae6d6f7d63a4baafaabf06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:48 +0000
Subject: [PATCH 128/147] fix: closed orbit search reports lost particles

---
 Merlin++/ClosedOrbit.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/ClosedOrbit.cpp b/Merlin++/ClosedOrbit.cpp
index 0fe7cd1..8291abd 100644
--- a/Merlin++/ClosedOrbit.cpp
+++ b/Merlin++/ClosedOrbit.cpp
@@ -10,6 +10,7 @@
 #include "RingDeltaTProcess.h"
 #include "ClosedOrbit.h"
 #include "TLASimp.h"
+#include "MerlinException.h"
 #include <memory>
 
 #ifdef DEBUG_CLOSED_ORBIT
@@ -187,6 +188,10 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 		}
 
 		theTracker->Run();
+		if(theTracker->GetTrackedBunch().size() != bunch.size())
+		{
+			throw MerlinException("ClosedOrbit: particles were lost");
+		}
 
 		ip = theTracker->GetTrackedBunch().begin();
 		const Particle& p_ref = *ip++; // reference particle
-- 
2.43.0


From d43545ec2525a0d61204dde4cd3dd3f4a588958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:23 +0000
Subject: [PATCH 129/147] fix: closed orbit and transfer matrix with radiation
 use particles that have a mass

---
 Merlin++/ClosedOrbit.cpp    |  5 ++++-
 Merlin++/TransferMatrix.cpp | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/Merlin++/ClosedOrbit.cpp b/Merlin++/ClosedOrbit.cpp
index 8291abd..6d707c1 100644
--- a/Merlin++/ClosedOrbit.cpp
+++ b/Merlin++/ClosedOrbit.cpp
@@ -6,6 +6,7 @@
  */
 
 #include "ParticleBunch.h"
+#include "ElectronBunch.h"
 #include "SynchRadParticleProcess.h"
 #include "RingDeltaTProcess.h"
 #include "ClosedOrbit.h"
@@ -118,7 +119,9 @@ void ClosedOrbit::FindClosedOrbit(PSvector& particle, int ncpt)
 {
 	const int cpt = transverseOnly ? 4 : 6;
 
-	ParticleBunch bunch(p0, 1.0);
+	// radiation needs particles with a mass
+	std::unique_ptr<ParticleBunch> owner(radiation ? new ElectronBunch(p0, 1.0) : new ParticleBunch(p0, 1.0));
+	ParticleBunch& bunch = *owner;
 	int k = 0;
 	for(k = 0; k < cpt + 1; k++)
 	{
diff --git a/Merlin++/TransferMatrix.cpp b/Merlin++/TransferMatrix.cpp
index 95a7291..a35a49b 100644
--- a/Merlin++/TransferMatrix.cpp
+++ b/Merlin++/TransferMatrix.cpp
@@ -5,7 +5,9 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <memory>
 #include "ParticleBunch.h"
+#include "ElectronBunch.h"
 #include "ParticleTracker.h"
 #include "SynchRadParticleProcess.h"
 #include "RingDeltaTProcess.h"
@@ -105,7 +107,9 @@ void TransferMatrix::FindClosedOrbitTM(RealMatrix& M, PSvector& orbit)
 
 void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 {
-	ParticleBunch bunch(p0, 1.0);
+	// radiation needs particles with a mass
+	std::unique_ptr<ParticleBunch> owner(radiation ? new ElectronBunch(p0, 1.0) : new ParticleBunch(p0, 1.0));
+	ParticleBunch& bunch = *owner;
 	int k = 0;
 	for(k = 0; k < 7; k++)
 	{
@@ -165,7 +169,9 @@ void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit)
 
 void TransferMatrix::FindTM(RealMatrix& M, PSvector& orbit, int n1, int n2)
 {
-	ParticleBunch bunch(p0, 1.0);
+	// radiation needs particles with a mass
+	std::unique_ptr<ParticleBunch> owner(radiation ? new ElectronBunch(p0, 1.0) : new ParticleBunch(p0, 1.0));
+	ParticleBunch& bunch = *owner;
 	int k = 0;
 	for(k = 0; k < 7; k++)
 	{
-- 
2.43.0


From 7b9636de57b21ec824cc192eeba47031cc4bd521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:18 +0000
Subject: [PATCH 130/147] fix: finding tunes does not delete the electron lens
 process

---
 Merlin++/BetatronTunes.cpp | 50 ++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index dfa7817..3b3bb02 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <memory>
 
 #include "ParticleBunch.h"
 #include "ParticleTracker.h"
@@ -19,6 +20,36 @@
 using namespace std;
 using namespace ParticleTracking;
 
+namespace
+{
+
+// The tracker deletes its processes, but the lens process is not ours
+class BorrowedProcess
+{
+public:
+	BorrowedProcess(ParticleTracker* aTracker, ParticleBunchProcess* aProcess) :
+		tracker(aTracker), process(aProcess)
+	{
+		if(process)
+		{
+			tracker->AddProcess(process);
+		}
+	}
+	~BorrowedProcess()
+	{
+		if(process)
+		{
+			tracker->RemoveProcess(process);
+		}
+	}
+
+private:
+	ParticleTracker* tracker;
+	ParticleBunchProcess* process;
+};
+
+}
+
 BetatronTunes::BetatronTunes(AcceleratorModel* aModel, double refMomentum) :
 	theModel(aModel), p0(refMomentum), myHELProcess(nullptr)
 {
@@ -38,17 +69,14 @@ void BetatronTunes::FindTunes(PSvector& particle, int ntrack, bool diffusion)
 	vector<double> yData2;
 	yData2.reserve(ntrack * 2);
 
-	ParticleBunch* bunch = new ParticleBunch(p0, 1.0);
+	std::unique_ptr<ParticleBunch> bunch(new ParticleBunch(p0, 1.0));
 	bunch->push_back(particle);
 
-	ParticleTracker* tracker = new ParticleTracker(theModel->GetBeamline(), bunch, false);
-	ParticleTracker::integrator_set_base* ti = new ParticleTracking::TRANSPORT::StdISet();
-	tracker->SetIntegratorSet(ti);
+	std::unique_ptr<ParticleTracker::integrator_set_base> ti(new ParticleTracking::TRANSPORT::StdISet());
+	std::unique_ptr<ParticleTracker> tracker(new ParticleTracker(theModel->GetBeamline(), bunch.get(), false));
+	tracker->SetIntegratorSet(ti.get());
 
-	if(myHELProcess != nullptr)
-	{
-		tracker->AddProcess(myHELProcess);
-	}
+	BorrowedProcess lens(tracker.get(), myHELProcess);
 
 	vector<double>* xData = &xData1;
 	vector<double>* yData = &yData1;
@@ -58,7 +86,7 @@ void BetatronTunes::FindTunes(PSvector& particle, int ntrack, bool diffusion)
 
 	for(int nturn = 0; nturn < trackn; nturn++)
 	{
-		tracker->Track(bunch);
+		tracker->Track(bunch.get());
 
 		if(bunch->size() == 0)
 		{
@@ -103,10 +131,6 @@ void BetatronTunes::FindTunes(PSvector& particle, int ntrack, bool diffusion)
 
 	dQx = Qx2 - Qx;
 	dQy = Qy2 - Qy;
-
-	delete ti;
-	delete tracker;
-	delete bunch;
 }
 
 double BetatronTunes::FindTune(vector<double>& data)
-- 
2.43.0


From 43ae4072352715830519530e8217fa3d72363032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:54 +0000
Subject: [PATCH 131/147] fix: tune interpolation starts at the peak of the
 spectrum

---
 Merlin++/BetatronTunes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index 3b3bb02..2589e00 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -138,12 +138,12 @@ double BetatronTunes::FindTune(vector<double>& data)
 	vector<double> spectrum;
 	int nvals = data.size() / 2;
 	spectrum.reserve(nvals);
+	spectrum.push_back(0); // skip artifacts in the first bin
 
 	FFT(data);
 	double peak_height = 0.0;
 	int peak_position = 0;
 
-	// skip artifacts in first 2 bins
 	for(int i = 2; i < 2 * nvals; i += 2)
 	{
 		double vamp = sqrt(data[i] * data[i] + data[i + 1] * data[i + 1]);
@@ -157,7 +157,7 @@ double BetatronTunes::FindTune(vector<double>& data)
 
 	double norm = sqrt(double(nvals));
 	double centr_peak = spectrum[peak_position] / norm;
-	double right_peak = spectrum[peak_position + 1] / norm;
+	double right_peak = spectrum[(peak_position + 1) % nvals] / norm;
 
 	double peak_correction = nvals * asin(amp(centr_peak, right_peak, cos(twoPi / nvals))
 		* sin(twoPi / double(nvals))) / twoPi;
-- 
2.43.0


From ad9570193ecf584f72cfeee57488144f405f9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 132/147] fix: tunes from a number of turns that the Fourier
 transform cannot handle are refused

---
 Merlin++/BetatronTunes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index 2589e00..c4b9dd3 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -14,6 +14,7 @@
 #include "CollimateParticleProcess.h"
 #include "NumericalConstants.h"
 #include "SymplecticIntegrators.h"
+#include "MerlinException.h"
 
 #include "BetatronTunes.h"
 
@@ -57,6 +58,11 @@ BetatronTunes::BetatronTunes(AcceleratorModel* aModel, double refMomentum) :
 
 void BetatronTunes::FindTunes(PSvector& particle, int ntrack, bool diffusion)
 {
+	if(ntrack < 2 || (ntrack & (ntrack - 1)))
+	{
+		throw MerlinException("BetatronTunes: the number of turns must be a power of two");
+	}
+
 	vector<double> xData1;
 	xData1.reserve(ntrack * 2);
 
-- 
2.43.0


From 27c7b10f6980fcdffb162e9598253495b11e2ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:01 +0000
Subject: [PATCH 133/147] fix: longitudinal lattice functions of unstable
 motion are refused for every index

---
 Merlin++/LatticeFunctions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Merlin++/LatticeFunctions.cpp b/Merlin++/LatticeFunctions.cpp
index b8abf98..7544d5b 100644
--- a/Merlin++/LatticeFunctions.cpp
+++ b/Merlin++/LatticeFunctions.cpp
@@ -236,6 +236,11 @@ public:
 			throw MerlinException("Illegal attempt to calculate longitudinal lattice parameter");
 		}
 
+		if(k > 0 && max(i, j) > N->nrows())
+		{
+			throw MerlinException("Illegal attempt to calculate longitudinal lattice parameter");
+		}
+
 		if(i == 0 && j == 0 && k > 0)
 		{
 			v = atan2((*N)(2 * k - 2, 2 * k - 1), (*N)(2 * k - 2, 2 * k - 2)) / twoPi;
-- 
2.43.0


From 3b6ce4326a3dafd0b0cca79fa43728b0e3280f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:32 +0000
Subject: [PATCH 134/147] fix: interpolation made from plain arrays keeps its
 data

---
 Merlin++/Interpolation.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Merlin++/Interpolation.cpp b/Merlin++/Interpolation.cpp
index f3e4b34..d9f925f 100644
--- a/Merlin++/Interpolation.cpp
+++ b/Merlin++/Interpolation.cpp
@@ -162,11 +162,8 @@ ArbSpacedData::ArbSpacedData(const vector<double>& xvals, const vector<double>&
 	 */
 }
 ArbSpacedData::ArbSpacedData(const double* xvals, const double* yvals, int n, int order) :
-	itsData()
+	ArbSpacedData(vector<double>(xvals, xvals + n), vector<double>(yvals, yvals + n), order)
 { // version for old style arrays
-	vector<double> X(xvals, xvals + n);
-	vector<double> Y(yvals, yvals + n);
-	ArbSpacedData(X, Y, order);
 }
 
 double ArbSpacedData::ValueAt(double x, double* err)
-- 
2.43.0


From 6b848012a9fc785bf2fba57244c6d368f8dbf346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:05 +0000
Subject: [PATCH 135/147] fix: equilibrium emittance can be calculated

---
 Merlin++/EquilibriumDistribution.cpp | 31 ++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/Merlin++/EquilibriumDistribution.cpp b/Merlin++/EquilibriumDistribution.cpp
index 412bf3e..683b4de 100644
--- a/Merlin++/EquilibriumDistribution.cpp
+++ b/Merlin++/EquilibriumDistribution.cpp
@@ -5,6 +5,8 @@
  * This file is derived from software bearing the copyright notice in merlin4_copyright.txt
  */
 
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 #include "ParticleBunch.h"
 #include "ParticleTracker.h"
@@ -14,11 +16,11 @@
 #include "PhysicalConstants.h"
 #include "PhysicalUnits.h"
 #include "MatrixPrinter.h"
-#include "Interpolation.h"
+#include "MerlinException.h"
 
 // The following constants specify the integration precision
 #define EPS 1.0e-8
-#define MAXPOINTS 30
+#define MAXPOINTS 20
 #define K 5
 
 using namespace std;
@@ -100,8 +102,25 @@ double IntegrateEigenvector::romberg(double a, double b)
 		s[j] = trapezium(a, b, j);
 		if(j >= K)
 		{
-			Interpolation I(h + j - K, s + j - K, K, K);
-			value = I.itsMethod->ValueAt(0.0, &error);
+			// polynomial through the last K points, extrapolated to h = 0
+			double p[K];
+			const double* x = h + j - K + 1;
+			std::copy(s + j - K + 1, s + j + 1, p);
+			error = 0;
+			for(int m = 1; m < K; m++)
+			{
+				for(int i = 0; i < K - m; i++)
+				{
+					error = p[i + 1];
+					p[i] = (x[i] * p[i + 1] - x[i + m] * p[i]) / (x[i] - x[i + m]);
+				}
+			}
+			value = p[0];
+			error -= value;
+			if(!std::isfinite(value))
+			{
+				throw MerlinException("EquilibriumDistribution: motion without normal modes");
+			}
 			if(fabs(error) <= EPS * fabs(value))
 			{
 				return value;
@@ -109,12 +128,12 @@ double IntegrateEigenvector::romberg(double a, double b)
 		}
 		h[j + 1] = 0.25 * h[j];
 	}
-	return 0;
+	throw MerlinException("EquilibriumDistribution: integral does not converge");
 }
 
 double IntegrateEigenvector::Integral(ComplexVector& Ek, SectorBend* sb, double p0)
 {
-	ek = Ek;
+	ek.copy(Ek);
 	h = sb->GetB0() * eV * SpeedOfLight / p0;
 	k = sqrt(Complex(sb->GetB1() * eV * SpeedOfLight / p0, 0));
 
-- 
2.43.0


From f5b44dd043d6565a14a371e48921777fc36033dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:24 +0000
Subject: [PATCH 136/147] fix: tunes of a particle whose coordinates become not
 a number

---
 Merlin++/BetatronTunes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/BetatronTunes.cpp b/Merlin++/BetatronTunes.cpp
index c4b9dd3..b2bcc78 100644
--- a/Merlin++/BetatronTunes.cpp
+++ b/Merlin++/BetatronTunes.cpp
@@ -106,7 +106,7 @@ void BetatronTunes::FindTunes(PSvector& particle, int ntrack, bool diffusion)
 #ifdef _MSV_VER
 		if(_isnan(p1.x()) || _isnan(p1.y()))
 #else
-		if(fabs(p1.x()) > 1.0e+10 || fabs(p1.y()) > 1.0e+10)
+		if(!(fabs(p1.x()) <= 1.0e+10 && fabs(p1.y()) <= 1.0e+10)) // or not a number
 #endif
 		{
 			stable = false;
-- 
2.43.0


From f6b3236daf5c17b35905dcf09dd246379b830672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:29 +0000
Subject: [PATCH 137/147] fix: solenoids keep the time and momentum of slices

---
 Merlin++/TransportRMaps.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index d7ee41d..4af523a 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -199,6 +199,8 @@ void PoleFaceRot(double h, double theta, double fint, double hgap, RMap& R)
 void Solenoid(double length, double K0, double K1, bool entrFringe, bool exitFringe, RMap& R)
 {
 	SolR(length, K0, R);
+	R.AddTerm(5, 5, 1.0);
+	R.AddTerm(6, 6, 1.0);
 }
 
 void TWRFCavity(double length, double g, double f, double phi, double E0, bool entr_field, bool exit_field, RMap& R)
-- 
2.43.0


From 1a45f1ecf4559765920db5927e74a334a6435f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:58 +0000
Subject: [PATCH 138/147] fix: rotations about the beam keep the time and
 momentum of slices

---
 Merlin++/TransportRMaps.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 4af523a..1769cf8 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -184,6 +184,8 @@ void Quadrupole(double length, double Kx, RMap& R)
 void Srot(double cosphi, double sinphi, RMap& R)
 {
 	SROT(cosphi, sinphi, R);
+	R.AddTerm(5, 5, 1.0);
+	R.AddTerm(6, 6, 1.0);
 }
 
 void PoleFaceRot(double h, double theta, double fint, double hgap, RMap& R)
-- 
2.43.0


From 96123ee4c0a6d143e461c9ee196cd679c53e56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:27 +0000
Subject: [PATCH 139/147] fix: solenoid coupling of x' to y for slices

---
 Merlin++/TransportRMaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 1769cf8..42e10ad 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -148,7 +148,7 @@ void SolR(double l, double ks, RMap& rs)
 	if(!fequal(theta, 0))
 	{
 		rs.AddTerm(1, 4) = 2. * s2 / ks;
-		rs.AddTerm(4, 2) = -2. * s2 / ks;
+		rs.AddTerm(3, 2) = -2. * s2 / ks;
 	}
 
 	rs.AddTerm(2, 1) = -ks * sc / 2;
-- 
2.43.0


From 7efb15d7c59da6850a1b2d7a5f87fcf3d851a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:53 +0000
Subject: [PATCH 140/147] fix: solenoids of negligible field are drifts

---
 Merlin++/TransportMatrix.cpp | 4 ++--
 Merlin++/TransportRMaps.cpp  | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Merlin++/TransportMatrix.cpp b/Merlin++/TransportMatrix.cpp
index b457a4d..1e5fdaa 100644
--- a/Merlin++/TransportMatrix.cpp
+++ b/Merlin++/TransportMatrix.cpp
@@ -161,8 +161,8 @@ void SolR(double l, double ks, RealMatrix& rs)
 
 	if(fequal(theta, 0.))
 	{
-		rs(0, 1) = 0;
-		rs(2, 3) = 0;
+		rs(0, 1) = l;
+		rs(2, 3) = l;
 	}
 	else
 	{
diff --git a/Merlin++/TransportRMaps.cpp b/Merlin++/TransportRMaps.cpp
index 42e10ad..ebfcfd6 100644
--- a/Merlin++/TransportRMaps.cpp
+++ b/Merlin++/TransportRMaps.cpp
@@ -139,6 +139,11 @@ void SolR(double l, double ks, RMap& rs)
 		rs.AddTerm(1, 2) = 2. * sc / ks;
 		rs.AddTerm(3, 4) = 2. * sc / ks;
 	}
+	else
+	{
+		rs.AddTerm(1, 2) = l;
+		rs.AddTerm(3, 4) = l;
+	}
 
 	rs.AddTerm(1, 3) = sc;
 	rs.AddTerm(2, 4) = sc;
-- 
2.43.0


From 6e349edc02fe7b7ebaa2b37d3a64d867aaeab407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:24 +0000
Subject: [PATCH 141/147] fix: end fields of cavities are applied once to
 slices

---
 Merlin++/SMPStdIntegrators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Merlin++/SMPStdIntegrators.cpp b/Merlin++/SMPStdIntegrators.cpp
index 84b58d5..fad6d21 100644
--- a/Merlin++/SMPStdIntegrators.cpp
+++ b/Merlin++/SMPStdIntegrators.cpp
@@ -456,7 +456,7 @@ void TWRFStructureCI::TrackStep(double ds)
 	else
 	{
 		double p0 = currentBunch->GetReferenceMomentum();
-		ApplyTWRF cavmap(p0, ds, g, f, phi, AtEntrance(), AtExit(ds));
+		ApplyTWRF cavmap(p0, ds, g, f, phi, false, false); // end fields are applied once, at the ends
 		ApplyMap(cavmap, *currentBunch);
 		currentBunch->SetReferenceMomentum(cavmap.E1);
 	}
@@ -478,10 +478,12 @@ void TWRFStructureCI::ApplyEndField(double gsgn)
 
 void TWRFStructureCI::TrackEntrance()
 {
+	ApplyEndField(1);
 }
 
 void TWRFStructureCI::TrackExit()
 {
+	ApplyEndField(-1);
 }
 
 void SWRFStructureCI::TrackStep(double ds)
-- 
2.43.0


From 890a2f1a35624bc73bd5612d8dc3f364b57a78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:54 +0000
Subject: [PATCH 142/147] fix: the first slice counts once in wakes

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 06935e2..8527ad7 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -252,7 +252,7 @@ void WakeFieldProcess::PrepSlices()
 	double zavg = (p->ct()) * (p->Q());
 	double qt = p->Q();
 
-	for(; p != currentBunch->end(); p++)
+	for(++p; p != currentBunch->end(); p++)
 	{
 		if(p->ct() >= z)
 		{
-- 
2.43.0


From 4ceb4f0c1dd9ad2ba998ac4a7e4218f158672d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 143/147] fix: wakes scale the moment of x' and y

---
 Merlin++/SMPWakeFieldProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 8527ad7..89bebf7 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -74,6 +74,7 @@ struct AWK
 		p(0, 1) *= Er;
 		p(0, 3) *= Er;
 		p(1, 1) *= Er2;
+		p(1, 2) *= Er;
 		p(1, 3) *= Er2;
 		p(2, 3) *= Er;
 		p(3, 3) *= Er2;
-- 
2.43.0


From c0b4cdd24dd18407a1880e75a381bb508a337c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:52 +0000
Subject: [PATCH 144/147] fix: slices are in order when wakes are binned

---
 Merlin++/SMPWakeFieldProcess.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 89bebf7..9f83b73 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -201,6 +201,8 @@ double WakeFieldProcess::GetMaxAllowedStepSize() const
 
 void WakeFieldProcess::Init()
 {
+	// the binning needs the slices in ct order
+	currentBunch->SortByCT();
 	PrepSlices();
 	PrepLWake();
 	recalc = false;
-- 
2.43.0


From f9eece4bc4504c942523cef3b264dc6b50ea5e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 145/147] fix: wakes in bends are binned where they act

---
 Merlin++/SMPWakeFieldProcess.cpp | 8 ++++++--
 Merlin++/SMPWakeFieldProcess.h   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Merlin++/SMPWakeFieldProcess.cpp b/Merlin++/SMPWakeFieldProcess.cpp
index 9f83b73..2f2633a 100644
--- a/Merlin++/SMPWakeFieldProcess.cpp
+++ b/Merlin++/SMPWakeFieldProcess.cpp
@@ -87,7 +87,7 @@ namespace SMPTracking
 {
 
 WakeFieldProcess::WakeFieldProcess(int prio, double sw, string aID) :
-	SMPBunchProcess(aID, prio), imploc(atExit), recalc(true), inc_tw(true), dz(sw), currentWake(nullptr)
+	SMPBunchProcess(aID, prio), imploc(atExit), recalc(true), in_bend(false), inc_tw(true), dz(sw), currentWake(nullptr)
 {
 }
 
@@ -122,6 +122,7 @@ void WakeFieldProcess::SetCurrentComponent(AcceleratorComponent& component)
 		}
 		current_s = 0;
 		active = true;
+		in_bend = dynamic_cast<SectorBend*>(&component);
 		if(recalc || wake != currentWake)
 		{
 			currentWake = wake;
@@ -159,7 +160,7 @@ void WakeFieldProcess::ApplyWakefield(double ds)
 
 	// If the bunch length or binning has been changed,
 	// we must recalculate the wakes
-	if(recalc)
+	if(recalc || in_bend)
 	{
 		Init();
 	}
@@ -192,6 +193,9 @@ void WakeFieldProcess::ApplyWakefield(double ds)
 		for_each(sliceBoundaries[i], sliceBoundaries[i + 1], AWK(p0, dE, dPx, dPy, dPz));
 	}
 	currentBunch->SetReferenceMomentum(p0 + dE);
+
+	// the rest of a bend changes the bunch length again
+	recalc = in_bend;
 }
 
 double WakeFieldProcess::GetMaxAllowedStepSize() const
diff --git a/Merlin++/SMPWakeFieldProcess.h b/Merlin++/SMPWakeFieldProcess.h
index 83712af..b2bfb7b 100644
--- a/Merlin++/SMPWakeFieldProcess.h
+++ b/Merlin++/SMPWakeFieldProcess.h
@@ -70,6 +70,7 @@ private:
 	std::vector<double> slice_q;
 	double bload;
 	bool recalc;
+	bool in_bend; ///< current component is a bend, which changes the bunch length
 	bool inc_tw;
 	const double dz; ///< slice width for binning
 	WakePotentials* currentWake;
-- 
2.43.0


From b850601704ab1bcfec56b662488c7d33e60660bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:50 +0000
Subject: [PATCH 146/147] fix: phase advances count a turn completed in the
 last element

---
 Merlin++/PhaseAdvance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Merlin++/PhaseAdvance.cpp b/Merlin++/PhaseAdvance.cpp
index ecf305c..d643448 100644
--- a/Merlin++/PhaseAdvance.cpp
+++ b/Merlin++/PhaseAdvance.cpp
@@ -146,7 +146,7 @@ std::pair<double, double> PhaseAdvance::CalcIntegerPart(int n)
 	double last_mux(0.), last_muy(0.);
 
 	//Iterate through all elements to sum integer parts
-	for(int i = 1; i < n; ++i)
+	for(int i = 1; i <= n; ++i)
 	{
 		if((theTwiss->Value(0, 0, 1, i) == last_mux) || (theTwiss->Value(0, 0, 1, i) <= 0.))
 		{
-- 
2.43.0


From a691fd0e7924ead1c384a4e8501eac4fec8e0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:18 +0000
Subject: [PATCH 147/147] fix: invalid particles are removed whatever their ids

---
 Merlin++/NANCheckProcess.cpp | 42 ++++++++++++++++++++----------------
 Merlin++/NANCheckProcess.h   |  4 ++--
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/Merlin++/NANCheckProcess.cpp b/Merlin++/NANCheckProcess.cpp
index a3a7ea1..76493e6 100644
--- a/Merlin++/NANCheckProcess.cpp
+++ b/Merlin++/NANCheckProcess.cpp
@@ -22,6 +22,9 @@ NANCheckProcess::NANCheckProcess(const string& aID, int prio) :
 void NANCheckProcess::InitialiseProcess(Bunch& bunch)
 {
 	ParticleBunchProcess::InitialiseProcess(bunch);
+	reported.clear();
+	prev_coords.clear();
+	start_coords.clear();
 }
 
 static bool is_good(const PSvector &p)
@@ -37,20 +40,21 @@ void NANCheckProcess::DoProcess(const double ds)
 	bool do_cull = 0;
 	for(auto &p : *currentBunch)
 	{
-		if(reported.count(p.id()))
-		{
-			continue;
-		}
 		if(!is_good(p))
 		{
-			std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
-					  << currentComponent->GetQualifiedName() << std::endl;
-			Report(p.id());
-			reported.insert(p.id());
+			// ids need not be unique, so particles are removed even if their id was reported before
 			if(cull)
 			{
 				do_cull = 1;
 			}
+			if(!reported.insert(p.id()).second)
+			{
+				count++;
+				continue;
+			}
+			std::cout << "NAN entry found in currentBunch[" << count << "], p.id = " << p.id() << ", at "
+					  << currentComponent->GetQualifiedName() << std::endl;
+			Report(p);
 			if(halt)
 			{
 				std::cout << "Halting on NAN coordinate" << std::endl;
@@ -65,30 +69,30 @@ void NANCheckProcess::DoProcess(const double ds)
 	}
 }
 
-void NANCheckProcess::Report(int id) const
+void NANCheckProcess::Report(const Particle& p) const
 {
 	if(detailed)
 	{
-		auto p_prev = find_if(prev_coords.begin(), prev_coords.end(), [&id](const PSvector p)
+		const int64_t id = p.id();
+		auto p_prev = find_if(prev_coords.begin(), prev_coords.end(), [&id](const PSvector& q)
 		{
-			return p.id() == id;
+			return q.id() == id;
 		});
-		auto p_start = find_if(start_coords.begin(), start_coords.end(), [&id](const PSvector p)
+		auto p_start = find_if(start_coords.begin(), start_coords.end(), [&id](const PSvector& q)
 		{
-			return p.id() == id;
+			return q.id() == id;
 		});
 		if(p_prev != prev_coords.end())
 		{
 			std::cout << "prev     " << *p_prev << std::endl;
 		}
-		std::cout << "start    " << *p_start << std::endl;
+		if(p_start != start_coords.end())
+		{
+			std::cout << "start    " << *p_start << std::endl;
+		}
 	}
 
-	auto p_cur = find_if(currentBunch->begin(), currentBunch->end(), [&id](const PSvector p)
-	{
-		return p.id() == id;
-	});
-	std::cout << "current  " << *p_cur << std::endl;
+	std::cout << "current  " << p << std::endl;
 }
 
 void NANCheckProcess::DoCull()
diff --git a/Merlin++/NANCheckProcess.h b/Merlin++/NANCheckProcess.h
index 42ec266..61ef24b 100644
--- a/Merlin++/NANCheckProcess.h
+++ b/Merlin++/NANCheckProcess.h
@@ -63,11 +63,11 @@ private:
 	bool cull;
 	bool halt;
 
-	void Report(int id) const;
+	void Report(const Particle& p) const;
 	void DoCull();
 	PSvectorArray start_coords; // particles at start of element
 	PSvectorArray prev_coords; // particles at start of element
-	std::set<double> reported;
+	std::set<int64_t> reported;
 };
 
 } // end namespace ParticleTracking
-- 
2.43.0

