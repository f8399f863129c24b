From 5eee18a09344aeab2ec4d91869e6c77dad316bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:23 +0000
Subject: [PATCH 01/39] fix: nonlinear curve files: read the ordinate from the
 second column

---
 source/MoorDyn2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 1f6c4ae..db2b951 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -740,7 +740,7 @@ class MoorDyn final : public io::IO
 				return MOORDYN_INVALID_INPUT;
 			}
 			x.push_back(atof(entries[0].c_str()));
-			y.push_back(atof(entries[0].c_str()));
+			y.push_back(atof(entries[1].c_str()));
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
 
-- 
2.43.0


From 64eebd62c6de3cc962bf5eaa2e4bcb4f2c1f98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:23 +0000
Subject: [PATCH 02/39] fix: nonlinear curve files: accept blank lines (e.g. a
 trailing newline)

---
 source/MoorDyn2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index db2b951..fba8542 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -719,6 +719,8 @@ class MoorDyn final : public io::IO
 			getline(f, fline);
 			if (i>2) { // skip first three lines as headers 
 				moordyn::str::rtrim(fline);
+				if (fline.empty())
+					continue; // e.g. the newline at the end of the file
 				flines.push_back(fline);
 			}
 			i++;
-- 
2.43.0


From 627372b12ef63da3b499b069ef13f2274144f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:23 +0000
Subject: [PATCH 03/39] fix: nonlinear damping curves: sign in compression,
 zero rate, area

---
 source/Line.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 75b9f3a..cfa456c 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -98,6 +98,8 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 		return c;
 
 	real Xi = ld_stretched / l_unstretched; // stretching/compressing rate
+	if (Xi == 0.0)
+		return 0.0; // no damping force, and Yi / Xi is not defined
 	real Yi = 0.0;
 
 	// find stress based on strain rate
@@ -107,13 +109,10 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 	} else {
 		// if no compressing data given, we'll flip-mirror so stretching and
 		// compressing are same
-		real Xsign = 1.0;
-		if (Xi < 0) {
-			Xsign = -1.0;
+		// (the ratio Yi / Xi is then the same on both sides)
+		if (Xi < 0)
 			Xi = -Xi;
-		}
 		Yi = interp(dampXs, dampYs, Xi);
-		Yi *= Xsign;
 	}
 
 	// calculate equivalent damping coefficient (since that's what MoorDyn works
@@ -181,7 +180,7 @@ Line::setup(int number_in,
 	nCpoints = props->nCpoints;
 	for (unsigned int I = 0; I < nCpoints; I++) {
 		dampXs.push_back(props->dampXs[I]);
-		dampYs.push_back(props->dampYs[I]);
+		dampYs.push_back(props->dampYs[I] / A);
 	}
 
 	// Initialize API provided info
-- 
2.43.0


From 3bfcc8134153f0290f031e67af8d7f0f0d3e5475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:04 +0000
Subject: [PATCH 04/39] fix: line submergence when a node lies exactly on the
 free surface

---
 source/Line.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index cfa456c..050c6de 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -624,8 +624,9 @@ Line::calcSubSeg(unsigned int firstNodeIdx,
 		return 0.5; // Segment halfway submerged
 	} else {
 		// Segment partially submerged - figure out which node is above water
-		vec lowerEnd = firstNodeZ < 0.0 ? r[firstNodeIdx] : r[secondNodeIdx];
-		vec upperEnd = firstNodeZ < 0.0 ? r[secondNodeIdx] : r[firstNodeIdx];
+		const bool firstIsLower = firstNodeZ < secondNodeZ;
+		vec lowerEnd = firstIsLower ? r[firstNodeIdx] : r[secondNodeIdx];
+		vec upperEnd = firstIsLower ? r[secondNodeIdx] : r[firstNodeIdx];
 		lowerEnd.z() -= surface_height;
 		upperEnd.z() -= surface_height;
 
-- 
2.43.0


From 0f00eea5cd21908dab5c39a568170a53639ee39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:09 +0000
Subject: [PATCH 05/39] fix: pass the bending moment of cantilevered line ends
 to the attached rod

---
 source/Line.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index 050c6de..a0e0183 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -927,6 +927,8 @@ Line::getStateDeriv()
 		Bs[i] = vec::Zero();
 		Pb[i] = vec::Zero();
 	}
+	endMomentA = vec::Zero();
+	endMomentB = vec::Zero();
 
 	// and now compute them (if possible)
 	if (isEI) {
@@ -961,6 +963,10 @@ Line::getStateDeriv()
 					// apply these forces to the node forces
 					Bs[i] += Mforce_i;
 					Bs[i + 1] += Mforce_ip1;
+
+					// bending moment passed to the attached rod, balancing the
+					// forces above
+					endMomentA = Kurvi * EI * pvec[i];
 				}
 			}
 			// end node A case (only if attached to a Rod, i.e. a cantilever
@@ -991,6 +997,10 @@ Line::getStateDeriv()
 					// apply these forces to the node forces
 					Bs[i - 1] += Mforce_im1;
 					Bs[i] += Mforce_i;
+
+					// bending moment passed to the attached rod, balancing the
+					// forces above
+					endMomentB = -Kurvi * EI * pvec[i];
 				}
 			}
 			// internal node
-- 
2.43.0


From 00fd26b0512ebbbd4b91232c71179832013d04a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:13 +0000
Subject: [PATCH 06/39] fix: mass matrix getters: copy the six rows of the
 matrix

---
 source/Misc.hpp | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index c106fb5..f2258aa 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -422,24 +422,9 @@ template<typename T>
 inline void
 mat62array(const mat6& v, T a[6][6])
 {
-	a[0][0] = (T)v(0, 0);
-	a[0][1] = (T)v(0, 1);
-	a[0][2] = (T)v(0, 2);
-	a[0][3] = (T)v(0, 3);
-	a[0][4] = (T)v(0, 4);
-	a[0][5] = (T)v(0, 5);
-	a[1][0] = (T)v(1, 0);
-	a[1][1] = (T)v(1, 1);
-	a[1][2] = (T)v(1, 2);
-	a[1][3] = (T)v(1, 3);
-	a[1][4] = (T)v(1, 4);
-	a[1][5] = (T)v(1, 5);
-	a[2][0] = (T)v(2, 0);
-	a[2][1] = (T)v(2, 1);
-	a[2][2] = (T)v(2, 2);
-	a[2][3] = (T)v(2, 3);
-	a[2][4] = (T)v(2, 4);
-	a[2][5] = (T)v(2, 5);
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			a[i][j] = (T)v(i, j);
 }
 
 /** @brief Convert a C-ish array to a matrix
@@ -450,24 +435,9 @@ template<typename T>
 inline void
 array2mat6(const T a[6][6], mat6& v)
 {
-	v(0, 0) = (moordyn::real)a[0][0];
-	v(0, 1) = (moordyn::real)a[0][1];
-	v(0, 2) = (moordyn::real)a[0][2];
-	v(0, 3) = (moordyn::real)a[0][3];
-	v(0, 4) = (moordyn::real)a[0][4];
-	v(0, 5) = (moordyn::real)a[0][5];
-	v(1, 0) = (moordyn::real)a[1][0];
-	v(1, 1) = (moordyn::real)a[1][1];
-	v(1, 2) = (moordyn::real)a[1][2];
-	v(1, 3) = (moordyn::real)a[1][3];
-	v(1, 4) = (moordyn::real)a[1][4];
-	v(1, 5) = (moordyn::real)a[1][5];
-	v(2, 0) = (moordyn::real)a[2][0];
-	v(2, 1) = (moordyn::real)a[2][1];
-	v(2, 2) = (moordyn::real)a[2][2];
-	v(2, 3) = (moordyn::real)a[2][3];
-	v(2, 4) = (moordyn::real)a[2][4];
-	v(2, 5) = (moordyn::real)a[2][5];
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			v(i, j) = (moordyn::real)a[i][j];
 }
 
 /** Slice a C++ vector
-- 
2.43.0


From 1d7945c1377e58c8cd70589e423c489777c71281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 07/39] fix: initial orientation of free and pinned rods

---
 source/Rod.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index d111f62..9c4ee06 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -150,13 +150,14 @@ Rod::setup(int number_in,
 	if (type == FREE) {
 		// For an independent rod, set the position right off the bat
 		r7.pos = endCoords.head<3>();
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>());
+		// the orientation is measured with respect to q0
+		r7.quat = quaternion::Identity();
 		v6 = vec6::Zero();
 	} else if ((type == PINNED) || (type == CPLDPIN)) {
 		// for a pinned rod, just set the orientation (position will be set
 		// later by parent object) 
 		r7.pos = vec3::Zero(); 
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>()); // TODO: Check this is right
+		r7.quat = quaternion::Identity();
 		v6(Eigen::seqN(3, 3)) = vec::Zero();
 	}
 	// otherwise (for a fixed rod) the positions will be set by the parent body
-- 
2.43.0


From fccf202c8d7a246df7b899d7be4dab3bb7185554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 08/39] fix: submergence of upside down rods, and of rods
 ending at the free surface

---
 source/Rod.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 9c4ee06..17b5a96 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -921,7 +921,7 @@ Rod::doRHS()
 	real zeta_i = zeta[N];
 
 	// get approximate location of waterline crossing along Rod axis (note: negative h0 indicates end A is above end B, and measures -distance from end A to waterline crossing)
-	if ((r[0][2] < zeta_i) && (r[N][2] < zeta_i))        // fully submerged case  
+	if ((r[0][2] <= zeta_i) && (r[N][2] <= zeta_i))      // fully submerged case  
 		h0 = UnstrLen;                                       
 	else if ((r[0][2] < zeta_i) && (r[N][2] > zeta_i))    // check if it's crossing the water plane (should also add some limits to avoid near-horizontals at some point)
 		h0 = (zeta_i - r[0][2])/q[2];                       // distance along rod centerline from end A to the waterplane
@@ -960,10 +960,10 @@ Rod::doRHS()
 		// get scalar for submerged portion
 
 		if (h0 < 0.0) { // Upside down case
-			if (Lsum + dL >= h0) // if fully submerged
+			if (Lsum >= -h0) // if fully submerged
 				VOF0 = 1.0;
-			else if (Lsum > h0) // if partially below waterline
-				VOF0 = (h0 - Lsum) / dL;
+			else if (Lsum + dL > -h0) // if partially below waterline
+				VOF0 = (Lsum + dL + h0) / dL;
 			else // must be out of water
 				VOF0 = 0.0;
 		}
-- 
2.43.0


From e59cfdf1e2ff541b5e41ddac3232bf661d352dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:24 +0000
Subject: [PATCH 09/39] fix: coupled pinned rods keep the prescribed
 acceleration, so the reported force has the inertial term

---
 source/Rod.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 17b5a96..d224984 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -675,7 +675,6 @@ Rod::getStateDeriv()
 		// of the matrix. See
 		// https://eigen.tuxfamily.org/dox/group__TutorialLinearAlgebra.html
 		const mat M_out3 = M_out6(Eigen::seqN(3, 3), Eigen::seqN(3, 3));
-		acc6(Eigen::seqN(0, 3)) = vec::Zero();
 		acc6(Eigen::seqN(3, 3)) = M_out3.inverse() * Fnet_out3;
 
 		// dxdt = V   (velocities)
-- 
2.43.0


From 5eb28f4386b123b99f5ed0cb3e39d43bff2e0323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 10/39] fix: body drag coefficients: read the first of 3 or 6
 values

---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7e6a452..3fbc7b5 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1864,12 +1864,12 @@ moordyn::MoorDyn::readBody(string inputText)
 			CdA[i + 3] = CdA[3];
 		}
 	} else if (entries_CdA.size() == 3) {
-		for (unsigned int i = 1; i < 3; i++) {
+		for (unsigned int i = 0; i < 3; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 			CdA[i + 3] = CdA[i];
 		}
 	} else if (entries_CdA.size() == 6) {
-		for (unsigned int i = 1; i < 6; i++) {
+		for (unsigned int i = 0; i < 6; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 		}
 	} else {
-- 
2.43.0


From c04140d8c87dd2de33e1b69c0643ca7ff109a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 11/39] fix: fixed bodies: initialise the centre of gravity

---
 source/Body.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 0a68ced..1b07962 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -83,6 +83,7 @@ Body::setup(int number_in,
 	} else if (type == FIXED){ // fixed bodies have no need for these variables other than position...
 		bodyM = 0.0;
 		bodyV = 0.0;
+		body_rCG = vec::Zero();
 		bodyI = vec::Zero();
 		bodyCdA = vec6::Zero();
 		bodyCa = vec6::Zero();
-- 
2.43.0


From fcaae89e44e2e085c25fc5bc9892d28108ce2db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:02 +0000
Subject: [PATCH 12/39] fix: coupled pinned bodies take 6 entries of the
 coupling vectors, as NCoupledDOF reports

---
 source/MoorDyn2.cpp |  8 ++++----
 source/MoorDyn2.hpp | 10 +++-------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 3fbc7b5..089984c 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -439,13 +439,13 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 			moordyn::array2vec6(xd + ix, rd);
 			ix += 6;
 		} else {
-			// for pinned body 3 entries will be taken
+			// for pinned body 6 entries are provided, 3 are used
 			vec3 r3, rd3, rdd3;
 			moordyn::array2vec(x + ix, r3);
 			r(Eigen::seqN(0, 3)) = r3;
 			moordyn::array2vec(xd + ix, rd3);
 			rd(Eigen::seqN(0, 3)) = rd3;
-			ix += 3;
+			ix += 6;
 		}
 		BodyList[l]->initializeUnfreeBody(r, rd, vec6::Zero());
 	}
@@ -647,7 +647,7 @@ moordyn::MoorDyn::Step(const double* x,
 			rdd = (rd - rd_b) / dt;
 			ix += 6;
 		} else {
-			// for pinned body 3 entries will be taken
+			// for pinned body 6 entries are provided, 3 are used
 			vec3 r3, rd3, rdd3;
 			moordyn::array2vec(x + ix, r3);
 			r(Eigen::seqN(0, 3)) = r3;
@@ -655,7 +655,7 @@ moordyn::MoorDyn::Step(const double* x,
 			rd(Eigen::seqN(0, 3)) = rd3;
 			// determine acceleration 
 		    rdd(Eigen::seqN(0, 3)) = (rd3 - rd_b.head<3>()) / dt;
-			ix += 3;
+			ix += 6;
 		}
 		// acceleration required for inertial terms
 		BodyList[l]->initiateStep(r, rd, rdd);
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index fba8542..2c0ba7d 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -504,13 +504,9 @@ class MoorDyn final : public io::IO
 		for (auto l : CpldBodyIs) {
 			// BUG: These conversions will not be needed in the future
 			const vec6 f_i = BodyList[l]->getFnet();
-			if (BodyList[l]->type == Body::COUPLED) {
-				moordyn::vec62array(f_i, f + ix);
-				ix += 6; // for coupled bodies 6 entries will be taken
-			} else {
-				moordyn::vec2array(f_i(Eigen::seqN(0, 3)), f + ix);
-				ix += 3; // for pinned bodies 3 entries will be taken
-			}
+			// 6 entries per body (pinned bodies report null moments)
+			moordyn::vec62array(f_i, f + ix);
+			ix += 6;
 		}
 		for (auto l : CpldRodIs) {
 			const vec6 f_i = RodList[l]->getFnet();
-- 
2.43.0


From 2cdd075187d9d25c539fef653b9e09d354ab82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:33 +0000
Subject: [PATCH 13/39] fix: subtract the states of rods and bodies instead of
 adding them

---
 source/State.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ea42afb..8d4f209 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -115,8 +115,8 @@ StateVar<XYZQuat, vec6>
 StateVar<XYZQuat, vec6>::operator-(const StateVar<XYZQuat, vec6>& rhs)
 {
 	StateVar<XYZQuat, vec6> out;
-	out.pos = pos + rhs.pos;
-	out.vel = vel + rhs.vel;
+	out.pos = pos - rhs.pos;
+	out.vel = vel - rhs.vel;
 	return out;
 }
 
-- 
2.43.0


From 4a76e23e33d00f57163c66826cc25723f36edf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:33 +0000
Subject: [PATCH 14/39] fix: Wilson scheme advanced the time and the positions
 too much

---
 source/State.cpp | 8 ++++----
 source/Time.cpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 8d4f209..5750e3c 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -507,7 +507,7 @@ StateVarDeriv<vec>::Wilson(
 	StateVarDeriv<vec> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -520,7 +520,7 @@ StateVarDeriv<vec6>::Wilson(
 	StateVarDeriv<vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -535,7 +535,7 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * dt * (
+	ret.vel = vel + XYZQuat::fromVec6(0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
 	return ret;
 }
@@ -555,7 +555,7 @@ StateVarDeriv<std::vector<vec>>::Wilson(
 	const real f3 = 1.0 / 3.0 * f;
 	for (unsigned int i = 0; i < vel.size(); i++) {
 		ret.acc.push_back((1 - f2) * acc[i] + f2 * visitor.acc[i]);
-		ret.vel.push_back(vel[i] + 0.5 * dt * (
+		ret.vel.push_back(vel[i] + 0.5 * tau * (
 			(1 - f3) * acc[i] + f3 * visitor.acc[i]));
 	}
 	return ret;
diff --git a/source/Time.cpp b/source/Time.cpp
index bf0ef08..30a179b 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -794,7 +794,7 @@ ImplicitWilsonScheme::Step(real& dt)
 	}
 
 	// Apply
-	t -= (1.f - _theta) * dt;
+	t += (1.f - _theta) * dt;
 	r[1] = r[0] + rd[0].Wilson(rd[1], dt, tdt) * dt;
 	r[0] = r[1];
 	rd[0] = rd[1];
-- 
2.43.0


From 9148f56a3e09673e12199f8b3f6bc39074c3f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:39 +0000
Subject: [PATCH 15/39] fix: start the time schemes with a null rate of change
 of the quaternions

---
 source/Time.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Time.hpp b/source/Time.hpp
index 58c5f0c..9700fe3 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -443,7 +443,8 @@ class TimeSchemeBase : public TimeScheme
 			r[i].rods.push_back(state);
 		}
 		DRodStateDt dstate;
-		dstate.vel = XYZQuat::Zero();
+		// The rate of change of a resting quaternion is null, not the identity
+		dstate.vel = XYZQuat::Zero() * 0.0;
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].rods.push_back(dstate);
@@ -493,7 +494,8 @@ class TimeSchemeBase : public TimeScheme
 			r[i].bodies.push_back(state);
 		}
 		DBodyStateDt dstate;
-		dstate.vel = XYZQuat::Zero();
+		// The rate of change of a resting quaternion is null, not the identity
+		dstate.vel = XYZQuat::Zero() * 0.0;
 		dstate.acc = vec6::Zero();
 		for (unsigned int i = 0; i < rd.size(); i++) {
 			rd[i].bodies.push_back(dstate);
-- 
2.43.0


From 07b684fac2fb5456de4f7675234360b503b2b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:39 +0000
Subject: [PATCH 16/39] fix: Newmark and Wilson schemes turned the resting rods
 and bodies

---
 source/State.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 5750e3c..176db29 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -476,7 +476,11 @@ StateVarDeriv<XYZQuat, vec6>::Newmark(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const vec6 acc_gamma = (1 - gamma) * acc + gamma * visitor.acc;
 	const vec6 acc_beta = (0.5 - beta) * acc + beta * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(dt * acc_beta);
+	ret.vel.pos = vel.pos + dt * acc_beta.head<3>();
+	// The angular accelerations cannot be added to the quaternion rates, so the
+	// rates at both ends of the time step are used instead
+	const real f = beta / gamma;
+	ret.vel.quat = vel.quat.coeffs() * (1 - f) + visitor.vel.quat.coeffs() * f;
 	ret.acc = acc_gamma;
 	return ret;
 }
@@ -535,8 +539,13 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * tau * (
-		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
+	ret.vel.pos = vel.pos + 0.5 * tau * (
+		(1 - 1.0 / 3.0 * f) * acc.head<3>() +
+		1.0 / 3.0 * f * visitor.acc.head<3>());
+	// The angular accelerations cannot be added to the quaternion rates, so the
+	// rates at both ends of the time step are used instead
+	ret.vel.quat = vel.quat.coeffs() * (1 - 0.5 * f) +
+	               visitor.vel.quat.coeffs() * (0.5 * f);
 	return ret;
 }
 
-- 
2.43.0


From f89ca0ae37374da1f6c2db1df8fbb85ec1bffa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:59 +0000
Subject: [PATCH 17/39] fix: the stationary solver turned the resting rods and
 bodies

---
 source/State.cpp | 27 +++++++++++++++++----------
 source/State.hpp |  6 ++++--
 source/Time.cpp  |  4 ++--
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 176db29..0163f97 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -401,7 +401,8 @@ StateVarDeriv<std::vector<vec>>::operator-(
 }
 
 template<>
-real StateVarDeriv<vec>::MakeStationary(const real &dt)
+real StateVarDeriv<vec>::MakeStationary(const real &dt,
+	const StateVar<vec>&)
 {
 	real ret = acc.norm();
 	vel = 0.5 * dt * acc;
@@ -410,7 +411,8 @@ real StateVarDeriv<vec>::MakeStationary(const real &dt)
 }
 
 template<>
-real StateVarDeriv<vec6>::MakeStationary(const real &dt)
+real StateVarDeriv<vec6>::MakeStationary(const real &dt,
+	const StateVar<vec6>&)
 {
 	real ret = acc.head<3>().norm();
 	vel = 0.5 * dt * acc;
@@ -419,16 +421,21 @@ real StateVarDeriv<vec6>::MakeStationary(const real &dt)
 }
 
 template<>
-real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt)
+real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt,
+	const StateVar<XYZQuat, vec6>& state)
 {
 	real ret = acc.head<3>().norm();
-	vel = XYZQuat::fromVec6(0.5 * dt * acc);
+	const vec6 v = 0.5 * dt * acc;
+	vel.pos = v.head<3>();
+	vel.quat = 0.5 * (quaternion(0.0, v[3], v[4], v[5]) *
+		state.pos.quat).coeffs();
 	acc = vec6::Zero();
 	return ret;
 }
 
 template<>
-real StateVarDeriv<std::vector<vec>>::MakeStationary(const real &dt)
+real StateVarDeriv<std::vector<vec>>::MakeStationary(const real &dt,
+	const StateVar<std::vector<vec>>&)
 {
 	real ret = 0.0;
 	for (unsigned int i = 0; i < vel.size(); i++) {
@@ -849,17 +856,17 @@ DMoorDynStateDt::operator-(const DMoorDynStateDt& rhs)
 }
 
 real
-DMoorDynStateDt::MakeStationary(const real &dt)
+DMoorDynStateDt::MakeStationary(const real &dt, const MoorDynState& state)
 {
 	real ret = 0.0;
 	for (unsigned int i = 0; i < lines.size(); i++)
-		ret += lines[i].MakeStationary(dt);
+		ret += lines[i].MakeStationary(dt, state.lines[i]);
 	for (unsigned int i = 0; i < points.size(); i++)
-		ret += points[i].MakeStationary(dt);
+		ret += points[i].MakeStationary(dt, state.points[i]);
 	for (unsigned int i = 0; i < rods.size(); i++)
-		ret += rods[i].MakeStationary(dt);
+		ret += rods[i].MakeStationary(dt, state.rods[i]);
 	for (unsigned int i = 0; i < bodies.size(); i++)
-		ret += bodies[i].MakeStationary(dt);
+		ret += bodies[i].MakeStationary(dt, state.bodies[i]);
 	return ret;
 }
 
diff --git a/source/State.hpp b/source/State.hpp
index 0bbdf95..d05ce59 100644
--- a/source/State.hpp
+++ b/source/State.hpp
@@ -165,10 +165,11 @@ class StateVarDeriv
 	 *
 	 * This can be use therefore to look for stationary solutions
 	 * @param dt Time step.
+	 * @param state The state at which the derivative was computed
 	 * @return The module of the linear acceleration, or their sum in case
 	 * of lists of accelerations
 	 */
-	real MakeStationary(const real &dt);
+	real MakeStationary(const real &dt, const StateVar<T, V>& state);
 
 	/** @brief Carry out a Newmark step
 	 *
@@ -374,9 +375,10 @@ class DMoorDynStateDt
 	 *
 	 * This can be use therefore to look for stationary solutions
 	 * @param dt Time step.
+	 * @param state The state at which the derivative was computed
 	 * @return The sum of the linear acceleration norms
 	 */
-	real MakeStationary(const real &dt);
+	real MakeStationary(const real &dt, const MoorDynState& state);
 
 	/** @brief Carry out a Newmark step
 	 *
diff --git a/source/Time.cpp b/source/Time.cpp
index 30a179b..82c5f85 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -179,7 +179,7 @@ StationaryScheme::Step(real& dt)
 	Update(0.0, 0);
 	CalcStateDeriv(0);
 	const real error_prev = _error;
-	_error = rd[0].MakeStationary(dt);
+	_error = rd[0].MakeStationary(dt, r[0]);
 	if (error_prev != 0.0) {
 		if (error_prev >= _error) {
 			// Let's try to boost the convergence
@@ -192,7 +192,7 @@ StationaryScheme::Step(real& dt)
 			r[0].Mix(r[1], STATIONARY_RELAX);
 			Update(0.0, 0);
 			CalcStateDeriv(0);
-			_error = rd[0].MakeStationary(dt);
+			_error = rd[0].MakeStationary(dt, r[0]);
 		}
 	}
 	if (_booster > STATIONARY_MAX_BOOSTING)
-- 
2.43.0


From 14e54d830ee47de24c62e6414185ff220fc89bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 18/39] fix: the first point of the 4D currents file was
 skipped

---
 source/Waves/WaveGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 933a11b..86fde0f 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -827,7 +827,7 @@ construct4DCurrentGrid(const std::string& folder,
 	}
 
 	// Read values into 4D array
-	for (int i = 6; i < (int)lines.size(); i++) {
+	for (int i = 5; i < (int)lines.size(); i++) {
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-- 
2.43.0


From ed2d6c895a39d4ae1062b47b946c8ddbde5cb33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 19/39] fix: find the points of the 4D currents file by value,
 not by spelling

---
 source/Waves/WaveGrid.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 86fde0f..57ea875 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -779,33 +779,33 @@ construct4DCurrentGrid(const std::string& folder,
 	// Need to keep track of
 
 	// And a map to keep track of coord->idx mapping...
-	map<string, unsigned int> XMap;
-	map<string, unsigned int> YMap;
-	map<string, unsigned int> ZMap;
-	map<string, unsigned int> TMap;
+	map<real, unsigned int> XMap;
+	map<real, unsigned int> YMap;
+	map<real, unsigned int> ZMap;
+	map<real, unsigned int> TMap;
 
 	auto entry = moordyn::str::split(lines[1]);
 	for (unsigned int i = 0; i < nxCurGrid; i++) {
 		UProfileX.push_back(stod(entry[i]));
-		XMap[entry[i]] = i;
+		XMap[UProfileX.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[2]);
 	for (unsigned int i = 0; i < nyCurGrid; i++) {
 		UProfileY.push_back(stod(entry[i]));
-		YMap[entry[i]] = i;
+		YMap[UProfileY.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[3]);
 	for (unsigned int i = 0; i < nzCurGrid; i++) {
 		UProfileZ.push_back(stod(entry[i]));
-		ZMap[entry[i]] = i;
+		ZMap[UProfileZ.back()] = i;
 	}
 
 	entry = moordyn::str::split(lines[4]);
 	for (unsigned int i = 0; i < ntCurGrid; i++) {
 		UProfileT.push_back(stod(entry[i]));
-		TMap[entry[i]] = i;
+		TMap[UProfileT.back()] = i;
 	}
 
 	// Need 3 4D grids - one for each component of current velocity:
@@ -831,10 +831,21 @@ construct4DCurrentGrid(const std::string& folder,
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-		auto ix = XMap[entry[0]];
-		auto iy = YMap[entry[1]];
-		auto iz = ZMap[entry[2]];
-		auto it = TMap[entry[3]];
+		const auto x = XMap.find(stod(entry[0]));
+		const auto y = YMap.find(stod(entry[1]));
+		const auto z = ZMap.find(stod(entry[2]));
+		const auto t = TMap.find(stod(entry[3]));
+		if (x == XMap.end() || y == YMap.end() || z == ZMap.end() ||
+		    t == TMap.end()) {
+			LOGERR << "The line " << i + 1 << " of the file '"
+			       << CurrentsFilename << "' is not a point of the grid"
+			       << endl;
+			throw moordyn::input_file_error("Invalid file format");
+		}
+		auto ix = x->second;
+		auto iy = y->second;
+		auto iz = z->second;
+		auto it = t->second;
 
 		// Need to set velocity components in three separate vectors
 		// at the coordinate above
-- 
2.43.0


From 36290b1333f7cf2bb6709f35d0dd350e5f488a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 20/39] fix: currents given at a single time read out of bounds

---
 source/Waves/WaveGrid.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 57ea875..9d136b1 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -717,10 +717,11 @@ constructDynamicCurrentGrid(const std::string& folder,
 		unsigned iti = 1;
 		for (unsigned int it = 0; it < currentGrid->nt; it++) {
 			iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+			const unsigned it0 = iti > 0 ? iti - 1 : 0;
 
-			auto x = lerp(UProfileUx[iz][iti - 1], UProfileUx[iz][iti], ft);
-			auto y = lerp(UProfileUy[iz][iti - 1], UProfileUy[iz][iti], ft);
-			auto z = lerp(UProfileUz[iz][iti - 1], UProfileUz[iz][iti], ft);
+			auto x = lerp(UProfileUx[iz][it0], UProfileUx[iz][iti], ft);
+			auto y = lerp(UProfileUy[iz][it0], UProfileUy[iz][iti], ft);
+			auto z = lerp(UProfileUz[iz][it0], UProfileUz[iz][iti], ft);
 			currentGrid->CurrentVel()[0][0][iz][it] = vec3(x, y, z);
 			// TODO: approximate fluid accelerations using finite
 			//       differences
@@ -876,14 +877,15 @@ construct4DCurrentGrid(const std::string& folder,
 				unsigned iti = 1;
 				for (unsigned int it = 0; it < currentGrid->nt; it++) {
 					iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+					const unsigned it0 = iti > 0 ? iti - 1 : 0;
 
-					auto x = lerp(currentGridUx[ix][iy][iz][iti - 1],
+					auto x = lerp(currentGridUx[ix][iy][iz][it0],
 					              currentGridUx[ix][iy][iz][iti],
 					              ft);
-					auto y = lerp(currentGridUy[ix][iy][iz][iti - 1],
+					auto y = lerp(currentGridUy[ix][iy][iz][it0],
 					              currentGridUy[ix][iy][iz][iti],
 					              ft);
-					auto z = lerp(currentGridUz[ix][iy][iz][iti - 1],
+					auto z = lerp(currentGridUz[ix][iy][iz][it0],
 					              currentGridUz[ix][iy][iz][iti],
 					              ft);
 					currentGrid->CurrentVel()[ix][iy][iz][it] = vec3(x, y, z);
-- 
2.43.0


From 69e4f1e8a474a38dc8dd699f1188a3ee02850ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:21 +0000
Subject: [PATCH 21/39] fix: after the last time of the currents the nearest
 value is used, not the first ones again

---
 source/Waves.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index 1d7781f..fb8d47b 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -219,8 +219,11 @@ CurrentGrid::getCurrentKin(const vec3& pos,
 		it = floor(quot);
 		ft = quot - it;
 		it++; // We use the upper bound
-		while (it > nt - 1)
-			it -= nt;
+		if (it > nt - 1) {
+			// The nearest value is used outside the time series
+			it = nt - 1;
+			ft = 1.0;
+		}
 	}
 
 	// real stretched_z = 0.0;
-- 
2.43.0


From 3aecbf8936bdbf40fe512362afc77f211df29508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 22/39] fix: changing the time scheme resets the clock and
 leaves the waves with a dangling one

---
 source/MoorDyn2.hpp | 3 +++
 source/Waves.hpp    | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 2c0ba7d..2442d40 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -369,8 +369,11 @@ class MoorDyn final : public io::IO
 	 * @return The time integrator
 	 */
 	inline void SetTimeScheme(TimeScheme* tscheme) {
+		const real t = _t_integrator ? _t_integrator->GetTime() : 0.0;
 		if (_t_integrator) delete _t_integrator;
 		_t_integrator = tscheme;
+		_t_integrator->SetTime(t);
+		waves->setTimeScheme(_t_integrator);
 		_t_integrator->SetGround(GroundBody);
 		for (auto obj : BodyList)
 			_t_integrator->AddBody(obj);
diff --git a/source/Waves.hpp b/source/Waves.hpp
index 118a9ab..f3ae75c 100644
--- a/source/Waves.hpp
+++ b/source/Waves.hpp
@@ -426,6 +426,13 @@ class Waves : public LogUser
 	 */
 	void updateWaves();
 
+	/**
+	 * @brief Sets the time integrator the waves take the time from
+	 *
+	 * @param t The time integrator
+	 */
+	inline void setTimeScheme(moordyn::TimeScheme* t) { _t_integrator = t; }
+
 	/**
 	 * @brief Adds a line to the list of structures we calculate water
 	 * kinematics for
-- 
2.43.0


From dbe3a256d46213667be88ff540451b7c773cbf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 23/39] fix: MoorDyn_IsLineConstantEA() answered the opposite

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index 608a693..eaca43d 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -414,7 +414,7 @@ class Line final : public io::IO, public NatFreqCFL
 	 * @return true if the stiffness of the line is constant, false if a
 	 * non-linear stiffness has been set
 	 */
-	inline bool isConstantEA() const { return nEApoints > 0; }
+	inline bool isConstantEA() const { return nEApoints == 0; }
 
 	/** @brief Get the constant stiffness of the line
 	 *
-- 
2.43.0


From a5f3a80f14250b318761f444d142d9b37ce6cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 24/39] fix: the reported seabed force of line nodes included
 the bending stiffness force

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index eaca43d..9b9dfd1 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -614,7 +614,7 @@ class Line final : public io::IO, public NatFreqCFL
 			       << ", which only has " << N + 1 << " nodes" << std::endl;
 			throw moordyn::invalid_value_error("Invalid node index");
 		}
-		return B[i] + Bs[i];
+		return B[i];
 	};
 
 	/** @brief Get the line curvature at a node position
-- 
2.43.0


From 41eb9362e6a7951bcc35d007d020fc701e47c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 25/39] fix: MoorDyn_GetLineMaxTen() ignored the last node of
 the line

---
 source/Line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index a0e0183..f31b550 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1846,7 +1846,7 @@ MoorDyn_GetLineMaxTen(MoorDynLine l, double* t)
 {
 	CHECK_LINE(l);
 	double t_max = 0.0;
-	for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
+	for (unsigned int i = 0; i <= ((moordyn::Line*)l)->getN(); i++) {
 		const double t_candidate = ((moordyn::Line*)l)->getNodeTen(i).norm();
 		if (t_candidate > t_max)
 			t_max = t_candidate;
-- 
2.43.0


From d73c26f94796fc2f1aa5079ea4e562c65532686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:07 +0000
Subject: [PATCH 26/39] fix: the unstretched length of the lines and its rate
 were lost when saving and loading

---
 source/Line.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index f31b550..e67696b 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1384,6 +1384,9 @@ Line::Serialize(void)
 	std::vector<uint64_t> data, subdata;
 
 	data.push_back(io::IO::Serialize(t));
+	data.push_back(io::IO::Serialize(UnstrLen));
+	data.push_back(io::IO::Serialize(UnstrLen0));
+	data.push_back(io::IO::Serialize(UnstrLend));
 	subdata = io::IO::Serialize(r);
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd);
@@ -1435,6 +1438,9 @@ Line::Deserialize(const uint64_t* data)
 {
 	uint64_t* ptr = (uint64_t*)data;
 	ptr = io::IO::Deserialize(ptr, t);
+	ptr = io::IO::Deserialize(ptr, UnstrLen);
+	ptr = io::IO::Deserialize(ptr, UnstrLen0);
+	ptr = io::IO::Deserialize(ptr, UnstrLend);
 	ptr = io::IO::Deserialize(ptr, r);
 	ptr = io::IO::Deserialize(ptr, rd);
 	ptr = io::IO::Deserialize(ptr, q);
-- 
2.43.0


From 5c5be580106d8972fd7ddd1a9644cb0e775dd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:04 +0000
Subject: [PATCH 27/39] fix: accelerations of bodies, rods and points were lost
 when saving and loading, so the forces reported changed

---
 source/Body.cpp  | 6 ++++++
 source/Point.cpp | 3 +++
 source/Rod.cpp   | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 1b07962..633dfab 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -664,10 +664,14 @@ Body::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(v6);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(a6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(r_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(rdd_ves);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(F6net);
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(M);
@@ -684,8 +688,10 @@ Body::Deserialize(const uint64_t* data)
 	uint64_t* ptr = (uint64_t*)data;
 	ptr = io::IO::Deserialize(ptr, r7);
 	ptr = io::IO::Deserialize(ptr, v6);
+	ptr = io::IO::Deserialize(ptr, a6);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
+	ptr = io::IO::Deserialize(ptr, rdd_ves);
 	ptr = io::IO::Deserialize(ptr, F6net);
 	ptr = io::IO::Deserialize(ptr, M);
 	ptr = io::IO::Deserialize(ptr, OrMat);
diff --git a/source/Point.cpp b/source/Point.cpp
index 1016252..f6be367 100644
--- a/source/Point.cpp
+++ b/source/Point.cpp
@@ -391,6 +391,8 @@ Point::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(acc);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(r_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd_ves);
@@ -409,6 +411,7 @@ Point::Deserialize(const uint64_t* data)
 	uint64_t* ptr = (uint64_t*)data;
 	ptr = io::IO::Deserialize(ptr, r);
 	ptr = io::IO::Deserialize(ptr, rd);
+	ptr = io::IO::Deserialize(ptr, acc);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
 	ptr = io::IO::Deserialize(ptr, Fnet);
diff --git a/source/Rod.cpp b/source/Rod.cpp
index d224984..446a04b 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -1420,6 +1420,8 @@ Rod::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(v6);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(acc6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(r);
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd);
@@ -1467,6 +1469,8 @@ Rod::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(rdd_ves);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1478,6 +1482,7 @@ Rod::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, t);
 	ptr = io::IO::Deserialize(ptr, r7);
 	ptr = io::IO::Deserialize(ptr, v6);
+	ptr = io::IO::Deserialize(ptr, acc6);
 	ptr = io::IO::Deserialize(ptr, r);
 	ptr = io::IO::Deserialize(ptr, rd);
 	ptr = io::IO::Deserialize(ptr, q);
@@ -1502,6 +1507,7 @@ Rod::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, h0);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
+	ptr = io::IO::Deserialize(ptr, rdd_ves);
 
 	return ptr;
 }
-- 
2.43.0


From bd55917035e7aac30be70042d1cdb54030a77f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:28 +0000
Subject: [PATCH 28/39] fix: subnormal numbers were saved as huge ones

---
 source/IO.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/IO.cpp b/source/IO.cpp
index 895b5c1..0492536 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -89,6 +89,9 @@ pack754(long double f, unsigned bits, unsigned expbits)
 		fnorm *= 2.0;
 		shift--;
 	}
+	// the format has no room for the numbers smaller than the smallest normal
+	if (shift < 2 - (1 << (expbits - 1)))
+		return 0;
 	fnorm = fnorm - 1.0;
 
 	// calculate the binary form (non-float) of the significant data
-- 
2.43.0


From d97a02f24b8e2065e6e673554417cd80103d7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:35 +0000
Subject: [PATCH 29/39] fix: Init() and Step() went on with missing coupled
 motion arrays instead of returning MOORDYN_INVALID_VALUE

---
 source/MoorDyn2.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 089984c..c5c690e 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -405,10 +405,11 @@ moordyn::MoorDyn::icStationary()
 moordyn::error_id
 moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 {
-	if (NCoupledDOF() && !x) {
+	if (NCoupledDOF() && (!x || !xd)) {
 		LOGERR << "ERROR: "
-		       << "MoorDyn::Init received a Null position vector, "
-		       << "but " << NCoupledDOF() << "components are required" << endl;
+		       << "MoorDyn::Init received a Null position or velocity vector, "
+		       << "but " << NCoupledDOF() << " components are required" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	// <<<<<<<<< need to add bodys
@@ -629,6 +630,7 @@ moordyn::MoorDyn::Step(const double* x,
 	if (NCoupledDOF() && (!x || !xd || !f)) {
 		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
 		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	unsigned int ix = 0;
-- 
2.43.0


From 8be19aba2303a68583a1da4f5360eda7b8ad8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:48 +0000
Subject: [PATCH 30/39] fix: when both dtM and CFL are given, the smaller time
 step is used, as documented

---
 source/MoorDyn2.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index c5c690e..00a62f8 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -87,7 +87,7 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
   , ICthresh(0.001)
   , WaveKinTemp(waves::WAVES_NONE)
   , dtM0((std::numeric_limits<real>::max)())
-  , cfl(0.5)
+  , cfl((std::numeric_limits<real>::max)())
   , dtOut(0.0)
   , _t_integrator(NULL)
   , ICgenDynamic(false)
@@ -500,8 +500,11 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 		ix += 3;
 	}
 
-	if (dtM0 < (0.9 * (std::numeric_limits<real>::max)()))
-		cfl = (std::numeric_limits<real>::max)(); // Is 90% of max sufficient tolerance for this check?
+	// Neither the time step nor the CFL factor were set by the user, so use the
+	// default CFL factor. If both were, the smaller time step is considered
+	const real not_set = 0.9 * (std::numeric_limits<real>::max)();
+	if ((dtM0 >= not_set) && (cfl >= not_set))
+		cfl = 0.5;
 
 	// Compute the timestep
 	for (auto obj : LineList)
-- 
2.43.0


From a0d3ce5f754a61bb7b51ea007aed11186ee68e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 31/39] fix: the dynamic relaxation divided dtIC twice,
 checking convergence over a tenth of dtIC

---
 source/MoorDyn2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 00a62f8..8d416b7 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -222,7 +222,6 @@ moordyn::MoorDyn::icLegacy()
 	real best_score_t = 0.0;
 	unsigned int best_score_line = 0;
 
-	ICdt = ICdt / (convergence_iters+1);
 	while ((ICTmax - t) > (std::numeric_limits<real>::min)()) {
 		// Integrate one ICD timestep (ICdt)
 		real t_target = ICdt;
-- 
2.43.0


From c361f6b4f8d449a9e932879079b1659577aaf0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 32/39] fix: reading past the last line of an input file
 without a closing header

---
 source/MoorDyn2.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 8d416b7..b4676ce 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -863,7 +863,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -886,7 +886,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -930,7 +930,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading line types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			LineProps* obj = readLineProps(in_txt[i]);
 			if (obj)
 				LinePropList.push_back(obj);
@@ -947,7 +947,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			RodProps* obj = readRodProps(in_txt[i]);
 
 			if (obj)
@@ -965,7 +965,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading body list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Body* obj = readBody(in_txt[i]);
 
 			if (obj) {
@@ -987,7 +987,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading point list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 9) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1108,7 +1108,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
 			RodList.push_back(obj);
 
@@ -1126,7 +1126,7 @@ moordyn::MoorDyn::ReadInFile()
 		}
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 7) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1253,7 +1253,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "FAILURE" })) != -1) {
 		LOGDBG << "   Reading failure conditions:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 4) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1353,7 +1353,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OUTPUT" })) != -1) {
 		LOGDBG << "   Reading output options:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 
 			for (unsigned int j = 0; j < entries.size();
-- 
2.43.0


From 67bf2af68e61cb11cd9f6779cc702edee0b5d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 33/39] fix: an invalid rod in the input file was kept as a
 null pointer

---
 source/MoorDyn2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index b4676ce..6ce748e 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1110,6 +1110,8 @@ moordyn::MoorDyn::ReadInFile()
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
+			if (!obj)
+				return MOORDYN_INVALID_INPUT;
 			RodList.push_back(obj);
 
 			i++;
-- 
2.43.0


From 0d42ef3aa7d44016722329faa911ac5b1b74eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:13 +0000
Subject: [PATCH 34/39] fix: output channels of objects that do not exist were
 read out of bounds

---
 source/MoorDyn2.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 6ce748e..c99a2da 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1370,6 +1370,25 @@ moordyn::MoorDyn::ReadInFile()
 				OutChanProps dummy;
 				dummy.Name = entries[j];
 
+				// the object the channel refers to has to exist
+				const int nObjs =
+				    str::isOneOf(let1, { "FAIRTEN", "ANCHTEN", "L", "LINE" })
+				        ? (int)LineList.size()
+				    : str::isOneOf(let1, { "P", "POINT" })
+				        ? (int)PointList.size()
+				    : str::isOneOf(let1, { "R", "ROD" })
+				        ? (int)RodList.size()
+				        : (int)BodyList.size();
+				const int objID = atoi(num1.c_str());
+				if ((objID < 1) || (objID > nObjs)) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is no such object" << endl;
+					continue;
+				}
+
 				// figure out what type of output it is and process
 				// accordingly
 				// TODO: add checks of first char of num1,2, let1,2,3 not
-- 
2.43.0


From 8b8b61d07ea101ab2f7e200c3ce6dd53197aa029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:28 +0000
Subject: [PATCH 35/39] fix: a failure line of four fields was read past its
 end

---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index c99a2da..c1994db 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1257,11 +1257,11 @@ moordyn::MoorDyn::ReadInFile()
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
-			if (entries.size() < 4) {
+			if (entries.size() < 5) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
 				       << endl
 				       << "'" << in_txt[i] << "'" << endl
-				       << "4 fields are required, but just " << entries.size()
+				       << "5 fields are required, but just " << entries.size()
 				       << " are provided" << endl;
 				return MOORDYN_INVALID_INPUT;
 			}
-- 
2.43.0


From 88efbf9ae6b60d88037f6ab30cbae331afde5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:28 +0000
Subject: [PATCH 36/39] fix: standard exceptions (e.g. of unreadable numbers)
 went through the C API

---
 source/Misc.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index f2258aa..635bac6 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -607,6 +607,11 @@ MAKE_EXCEPTION(unhandled_error)
 		msg = e.what();                                                        \
 	}                                                                          \
 	catch (moordyn::unhandled_error const& e)                                  \
+	{                                                                          \
+		err = MOORDYN_UNHANDLED_ERROR;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::exception const& e)                                            \
 	{                                                                          \
 		err = MOORDYN_UNHANDLED_ERROR;                                         \
 		msg = e.what();                                                        \
-- 
2.43.0


From 85ce225da7617e47209e4f65b65dc9a9b4019e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:28 +0000
Subject: [PATCH 37/39] fix: forces, masses and accelerations of points, rods
 and bodies were reported from uninitialised memory until first computed

---
 source/Body.cpp  | 3 +++
 source/Point.cpp | 1 +
 source/Rod.cpp   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 633dfab..3fb98db 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -126,6 +126,9 @@ Body::setup(int number_in,
 	r7.quat = Euler2Quat(body_r6.tail<3>());
 
 	v6 = vec6::Zero();
+	a6 = vec6::Zero();
+	F6net = vec6::Zero();
+	M = mat6::Zero();
 
 	// calculate orientation matrix based on latest angles
 	OrMat = r7.quat.normalized().toRotationMatrix();
diff --git a/source/Point.cpp b/source/Point.cpp
index f6be367..4affdae 100644
--- a/source/Point.cpp
+++ b/source/Point.cpp
@@ -91,6 +91,7 @@ Point::setup(int number_in,
 
 	// Start also the variables that will be serialized, just to avoid floating
 	// point exceptions
+	acc = vec::Zero();
 	Fnet = vec::Zero();
 	M = pointM * mat::Identity();
 
diff --git a/source/Rod.cpp b/source/Rod.cpp
index 446a04b..71ede87 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -173,6 +173,8 @@ Rod::setup(int number_in,
 		r[i] = org + f * (dst - org);
 		rd[i] = vec::Zero();
 	}
+	F6net = vec6::Zero();
+	M6net = mat6::Zero();
 
 	// record output file pointer and channel key-letter list
 	outfile = outfile_pointer.get(); // make outfile point to the right place
-- 
2.43.0


From 43b0d81e484cc7e137d9fa8445280c0110721e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:48 +0000
Subject: [PATCH 38/39] fix: an input file given without a directory looked for
 its waves and currents files in the root directory

---
 source/MoorDyn2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index c1994db..309ab7e 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -107,6 +107,8 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 		const std::size_t lastDot = _filepath.find_last_of('.');
 		_basename = _filepath.substr(lastSlash + 1, lastDot - lastSlash - 1);
 		_basepath = _filepath.substr(0, lastSlash + 1);
+		if (_basepath.empty())
+			_basepath = "./";
 	}
 
 	LOGMSG << "\n Running MoorDyn (v"
-- 
2.43.0


From f99a627aea5a12db47fb00e6527021f6684d797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:49 +0000
Subject: [PATCH 39/39] fix: upside down rods piercing the surface lacked the
 waterplane moment

---
 source/Rod.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 71ede87..2c13773 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -1188,7 +1188,8 @@ Rod::doRHS()
 	} // i - done looping through nodes
 
 	// ----- add waterplane moment of inertia moment if applicable -----
-	if ((r[0][2] < zeta_i) && (r[N][2] > zeta_i)) {
+	if (((r[0][2] < zeta_i) && (r[N][2] > zeta_i)) ||
+	    ((r[N][2] < zeta_i) && (r[0][2] > zeta_i))) {
 		// the water plane is crossing the rod
 		real Mtemp = 1.0 / 16.0 * pi * d * d * d * d * env->rho_w * env->g *
 		             sinPhi * cosPhi; // Matches fortran
-- 
2.43.0

