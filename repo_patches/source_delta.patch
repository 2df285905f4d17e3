From 9fa14cf9e360a4032e1cdae8ee71e27ded5118f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 01/23] fix: use the Gregorian leap year rule in the standard
 calendar

---
 src/base/TimeObj.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 064720d..430880d 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -125,6 +125,16 @@ bool Time::operator>(const Time & time) const {
 
 ///////////////////////////////////////////////////////////////////////////////
 
+///	<summary>
+///		Determine if the given year is a leap year of the Gregorian calendar.
+///	</summary>
+static bool IsLeapYear(int iYear) {
+	return ((iYear % 4) == 0)
+		&& (((iYear % 100) != 0) || ((iYear % 400) == 0));
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void Time::VerifyTime() {
 
 	// Calendar with no leap years
@@ -135,7 +145,7 @@ void Time::VerifyTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -174,7 +184,7 @@ void Time::NormalizeTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -225,7 +235,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
@@ -245,7 +255,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
-- 
2.43.0


From 510dd33cb1f142fc10936c1bc44416ce4553c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 02/23] fix: normalise negative microseconds, seconds and
 months of a Time exactly

---
 src/base/TimeObj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 430880d..c2d9065 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -195,7 +195,7 @@ void Time::NormalizeTime() {
 			nAddedSeconds = m_iMicroSecond / 1000000;
 
 		} else if (m_iMicroSecond < 0) {
-			nAddedSeconds = - (1000000 - m_iSecond) / 1000000;
+			nAddedSeconds = - (999999 - m_iMicroSecond) / 1000000;
 		}
 		m_iMicroSecond -= nAddedSeconds * 1000000;
 		m_iSecond += nAddedSeconds;
@@ -206,7 +206,7 @@ void Time::NormalizeTime() {
 			nAddedDays = m_iSecond / 86400;
 
 		} else if (m_iSecond < 0) {
-			nAddedDays = - (86400 - m_iSecond) / 86400;
+			nAddedDays = - (86399 - m_iSecond) / 86400;
 		}
 
 		m_iSecond -= nAddedDays * 86400;
@@ -217,7 +217,7 @@ void Time::NormalizeTime() {
 		if (m_iMonth >= 12) {
 			nAddedYears = m_iMonth / 12;
 		} else if (m_iMonth < 0) {
-			nAddedYears = - (12 - m_iMonth) / 12;
+			nAddedYears = - (11 - m_iMonth) / 12;
 		}
 		m_iMonth -= nAddedYears * 12;
 		m_iYear += nAddedYears;
-- 
2.43.0


From 9b37532d601b02a340e46390ec05466906bafc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 03/23] fix: determine the length of February after the year
 has been normalised

---
 src/base/TimeObj.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index c2d9065..28c6328 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -226,6 +226,11 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// Adjust number of days per month to the normalized year
+		if (m_eCalendarType == CalendarStandard) {
+			nDaysPerMonth[1] = IsLeapYear(m_iYear) ? 29 : 28;
+		}
+
 		// Subtract months
 		while (m_iDay < 0) {
 			m_iMonth--;
-- 
2.43.0


From 4d540428a5d0a3811f39dca563b254bf25d2c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 04/23] fix: do not convert the days of a time difference into
 months of a fixed length

---
 src/base/TimeObj.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 28c6328..5d64f26 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -231,6 +231,11 @@ void Time::NormalizeTime() {
 			nDaysPerMonth[1] = IsLeapYear(m_iYear) ? 29 : 28;
 		}
 
+		// Days of a time difference have no month to be carried into
+		if (m_eTimeType == TypeDelta) {
+			return;
+		}
+
 		// Subtract months
 		while (m_iDay < 0) {
 			m_iMonth--;
-- 
2.43.0


From 3e5f36f8cf2e1a7a1d3bca6f77fcdeb900fd6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 05/23] fix: set the Rayleigh friction strength on the top
 interface of Cartesian patches

---
 src/atm/GridPatchCartesianGLL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 3ad09cb..cc8ae0b 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -554,7 +554,7 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 						m_dataLon[i][j],
 						m_dataLat[i][j]);
 			}
-			for (int k = 0; k < m_grid.GetRElements(); k++) {
+			for (int k = 0; k <= m_grid.GetRElements(); k++) {
 				m_dataRayleighStrengthREdge[i][j][k] =
 					test.EvaluateRayleighStrength(
 						m_dataZInterfaces[i][j][k],
-- 
2.43.0


From 204e10b34c678eb8520eb8d38c9b8c2952e5b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 06/23] fix: advect tracers in the V2 horizontal nonhydrostatic
 dynamics

---
 src/atm/HorizontalDynamicsFEMV2.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index 479001c..0ce0bee 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -936,6 +936,17 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 				m_dBetaPressureFlux(i,j,k) =
 					  dBetaBaseFlux
 					* dataInitialNode(PIx,iA,iB,k);
+
+				// Tracer fluxes
+				for (int c = 0; c < nTracerCount; c++) {
+					m_dAlphaTracerFlux(c,i,j,k) =
+						  dAlphaBaseFlux
+						* dataInitialTracer(c,iA,iB,k);
+
+					m_dBetaTracerFlux(c,i,j,k) =
+						  dBetaBaseFlux
+						* dataInitialTracer(c,iA,iB,k);
+				}
 			}
 			}
 			}
@@ -1049,7 +1060,7 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 					dDeltaT * dInvJacobian * (
 						  dDaPressureFluxA
 						+ dDbPressureFluxB);
-/*
+
 				// Update tracers
 				for (int c = 0; c < nTracerCount; c++) {
 					double dDaTracerFluxA = 0.0;
@@ -1074,7 +1085,6 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 							  dDaTracerFluxA
 							+ dDbTracerFluxB);
 				}
-*/
 			}
 			}
 			}
-- 
2.43.0


From da61fbed5ed1d561b00e0d62c70914d31c75c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:37 +0000
Subject: [PATCH 07/23] fix: copy tracers as well as state between stages
 (ars222, gark2, ars443, ssp3_332, ark232)

---
 src/atm/TimestepSchemeARK232.cpp  | 4 ++--
 src/atm/TimestepSchemeARS222.cpp  | 2 +-
 src/atm/TimestepSchemeARS443.cpp  | 6 +++---
 src/atm/TimestepSchemeGARK2.cpp   | 2 +-
 src/atm/TimestepSchemeSSP3332.cpp | 6 +++---
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 758f505..ce50c33 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -116,7 +116,7 @@ void TimestepSchemeARK232::Step(
 */
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
-	pGrid->CopyData(2, 3, DataType_State);
+	pGrid->CopyData(2, 3, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		3, 3, time, m_dImpCf[0][1] * dDeltaT);
 	pGrid->PostProcessSubstage(3, DataType_State);
@@ -137,7 +137,7 @@ void TimestepSchemeARK232::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(4, 5, DataType_State);
-	pGrid->CopyData(4, 5, DataType_State);
+	pGrid->CopyData(4, 5, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		5, 5, time, m_dImpCf[1][2] * dDeltaT);
 	pGrid->PostProcessSubstage(5, DataType_State);
diff --git a/src/atm/TimestepSchemeARS222.cpp b/src/atm/TimestepSchemeARS222.cpp
index 3b2ae8b..39e4310 100644
--- a/src/atm/TimestepSchemeARS222.cpp
+++ b/src/atm/TimestepSchemeARS222.cpp
@@ -85,7 +85,7 @@ void TimestepSchemeARS222::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeARS443.cpp b/src/atm/TimestepSchemeARS443.cpp
index d6ba3f0..38cf802 100644
--- a/src/atm/TimestepSchemeARS443.cpp
+++ b/src/atm/TimestepSchemeARS443.cpp
@@ -117,7 +117,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -138,7 +138,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -159,7 +159,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
diff --git a/src/atm/TimestepSchemeGARK2.cpp b/src/atm/TimestepSchemeGARK2.cpp
index fc9bad2..9422135 100644
--- a/src/atm/TimestepSchemeGARK2.cpp
+++ b/src/atm/TimestepSchemeGARK2.cpp
@@ -103,7 +103,7 @@ void TimestepSchemeGARK2::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeSSP3332.cpp b/src/atm/TimestepSchemeSSP3332.cpp
index 3dd7faa..cd28930 100644
--- a/src/atm/TimestepSchemeSSP3332.cpp
+++ b/src/atm/TimestepSchemeSSP3332.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeSSP3332::Step(
 	// STAGE 1
 	// Compute u1 into index 2
 	pGrid->CopyData(0, 2, DataType_State);
-	pGrid->CopyData(0, 2, DataType_State);
+	pGrid->CopyData(0, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -130,7 +130,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -151,7 +151,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From 454b353b4294a04bb78a9300ce6ca7f1ad63216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 08/23] fix: ark232 keeps the start-of-step data and evaluates
 the implicit terms of stage 1 there

---
 src/atm/TimestepSchemeARK232.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index ce50c33..ae993a9 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -91,7 +91,7 @@ void TimestepSchemeARK232::Step(
 
 	// STAGE 1
 	// Compute uf1 into index 1
-	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 2, 0, 1, 
+	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 1, 0, 1, 
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(0, 1, DataType_State);
@@ -104,8 +104,12 @@ void TimestepSchemeARK232::Step(
 	pGrid->PostProcessSubstage(1, DataType_Tracers);
 */
 	// Compute ug1 into index 2 (NO IMPLICIT SOLVE NEEDED HERE)
-	SubcycleStageImplicitExplicitly(time, m_dImpCf[0][0], dDeltaT, 1, 1, 2, 
-		pHorizontalDynamics, pVerticalDynamics, pGrid);
+	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
+	pVerticalDynamics->StepImplicitTermsExplicitly(
+		0, 2, time, m_dImpCf[0][0] * dDeltaT);
+	pGrid->PostProcessSubstage(2, DataType_State);
+	pGrid->PostProcessSubstage(2, DataType_Tracers);
 /*
 	pGrid->CopyData(1, 2, DataType_State);
 	pGrid->CopyData(1, 2, DataType_State);
-- 
2.43.0


From dc3d353c064290cc70238a46fbac0407ba6532ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 09/23] fix: use the Gauss-Legendre points in the rule of
 degree 9

---
 src/base/GaussQuadrature.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/GaussQuadrature.cpp b/src/base/GaussQuadrature.cpp
index ab51d6e..522e329 100644
--- a/src/base/GaussQuadrature.cpp
+++ b/src/base/GaussQuadrature.cpp
@@ -139,15 +139,15 @@ void GaussQuadrature::GetPoints(
 
 	// Degree 9
 	} else if (nCount == 9) {
-		dG[0] = -1.0;
-		dG[1] = -0.899757995411460;
-		dG[2] = -0.677186279510738;
-		dG[3] = -0.363117463826178;
+		dG[0] = -0.9681602395076261;
+		dG[1] = -0.8360311073266358;
+		dG[2] = -0.6133714327005904;
+		dG[3] = -0.3242534234038089;
 		dG[4] =  0.0;
-		dG[5] = +0.363117463826178;
-		dG[6] = +0.677186279510738;
-		dG[7] = +0.899757995411460;
-		dG[8] = +1.0;
+		dG[5] = +0.3242534234038089;
+		dG[6] = +0.6133714327005904;
+		dG[7] = +0.8360311073266358;
+		dG[8] = +0.9681602395076261;
 
 		dW[0] = 0.0812743883615744;
 		dW[1] = 0.1806481606948574;
-- 
2.43.0


From 996a57420c4a103d32b8b4f2b0da6acc49f37367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 10/23] fix: derivative at the edge shared by column elements
 of different thickness

---
 src/atm/LinearColumnOperatorFEM.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 8454826..20cc077 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -596,6 +596,16 @@ void LinearColumnDiffFEM::InitializeFluxCorrectionMethod(
 
 		dDerivL[0] *= -1.0;
 
+		// On a shared edge the correction acts over the mean of the
+		// thicknesses of the two adjacent elements
+		if (fOnREdge) {
+			double dDeltaREtaNext =
+				  dREtaREdge[(a+2) * nVerticalOrder]
+				- dREtaREdge[(a+1) * nVerticalOrder];
+
+			dDerivR[0] *= dDeltaREta / (0.5 * (dDeltaREta + dDeltaREtaNext));
+		}
+
 		// Interpolation coefficients to element interfaces
 		PolynomialInterp::LagrangianPolynomialCoeffs(
 			nVerticalOrder,
-- 
2.43.0


From 0a814712047b5b0cf8d35f5d7634f109b11579e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 11/23] fix: second derivative operators of columns with
 elements of different thickness

---
 src/atm/LinearColumnOperatorFEM.cpp | 45 +++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 20cc077..4a7b6b0 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -1143,7 +1143,22 @@ void LinearColumnDiffDiffFEM::Initialize(
 				dStandardNode,
 				dDiffCorrectionFn);
 
-			dDiffCorrectionFn[0] /= dElementDeltaXi;
+			// Flux correction at each edge, which acts over the mean of the
+			// thicknesses of the two adjacent elements so that both of them
+			// see the same flux
+			double dDiffCorrectionL = dDiffCorrectionFn[0] / dElementDeltaXi;
+			if (a > 0) {
+				dDiffCorrectionL = dDiffCorrectionFn[0]
+					/ (0.5 * (dREtaREdge[(a+1) * nVerticalOrder]
+						- dREtaREdge[(a-1) * nVerticalOrder]));
+			}
+
+			double dDiffCorrectionR = dDiffCorrectionFn[0] / dElementDeltaXi;
+			if ((a+1) < nFiniteElements) {
+				dDiffCorrectionR = dDiffCorrectionFn[0]
+					/ (0.5 * (dREtaREdge[(a+2) * nVerticalOrder]
+						- dREtaREdge[a * nVerticalOrder]));
+			}
 
 			// Build local first derivative operator
 			DataArray2D<double> dDiffNodeToNode(
@@ -1259,9 +1274,9 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionR;
 						m_dCoeff[ax+j][ax+nVerticalOrder+i] +=
-							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionR;
 					}
 				}
 
@@ -1282,9 +1297,9 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax-nVerticalOrder+i] +=
-							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionL;
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionL;
 					}
 				}
 			}
@@ -1346,10 +1361,16 @@ void LinearColumnDiffDiffFEM::Initialize(
 				double dWlocal = dW[j];
 
 				if ((j == 0) && (a != 0)) {
-					dWlocal *= 2.0;
+					dWlocal *= (dREtaREdge[(a+1) * nVerticalOrder]
+							- dREtaREdge[(a-1) * nVerticalOrder])
+						/ (dREtaREdge[(a+1) * nVerticalOrder]
+							- dREtaREdge[a * nVerticalOrder]);
 				}
 				if ((j == nVerticalOrder) && (a != nFiniteElements-1)) {
-					dWlocal *= 2.0;
+					dWlocal *= (dREtaREdge[(a+2) * nVerticalOrder]
+							- dREtaREdge[a * nVerticalOrder])
+						/ (dREtaREdge[(a+1) * nVerticalOrder]
+							- dREtaREdge[a * nVerticalOrder]);
 				}
 
 				for (int i = 0; i <= nVerticalOrder; i++) {
@@ -1447,10 +1468,16 @@ void LinearColumnDiffDiffFEM::InitializeGLLNodes(
 			double dWlocal = dW[j];
 
 			if ((j == 0) && (a != 0)) {
-				dWlocal *= 2.0;
+				dWlocal *= (dREtaNode[(a+1) * (nVerticalOrder-1)]
+						- dREtaNode[(a-1) * (nVerticalOrder-1)])
+					/ (dREtaNode[(a+1) * (nVerticalOrder-1)]
+						- dREtaNode[a * (nVerticalOrder-1)]);
 			}
 			if ((j == nVerticalOrder-1) && (a != nFiniteElements-1)) {
-				dWlocal *= 2.0;
+				dWlocal *= (dREtaNode[(a+2) * (nVerticalOrder-1)]
+						- dREtaNode[a * (nVerticalOrder-1)])
+					/ (dREtaNode[(a+1) * (nVerticalOrder-1)]
+						- dREtaNode[a * (nVerticalOrder-1)]);
 			}
 
 			for (int i = 0; i < nVerticalOrder; i++) {
-- 
2.43.0


From d0de3665bd3836248d94adff5e539a12f3034067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 12/23] fix: direction of the wind at the south pole node of
 the cubed sphere

---
 src/atm/CubedSphereTrans.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 90fa095..42d5dc3 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -399,10 +399,11 @@ void CubedSphereTrans::VecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -563,10 +564,11 @@ void CubedSphereTrans::CoVecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -655,10 +657,11 @@ void CubedSphereTrans::CoVecTransRLLFromABP(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUlon = dUalpha;
+			dUlat = dUbeta;
 		} else {
 			dUlon = - dUalpha;
+			dUlat = - dUbeta;
 		}
-		dUlat = dUbeta;
 		return;
 	}
 
-- 
2.43.0


From 50ace623fb7c0e61f18b7b52d29cdae060541519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 13/23] fix: resetting a timer group that was never used is not
 an error (every restarted run stopped here)

---
 src/base/FunctionTimer.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/base/FunctionTimer.cpp b/src/base/FunctionTimer.cpp
index f8e3884..1fd8f06 100644
--- a/src/base/FunctionTimer.cpp
+++ b/src/base/FunctionTimer.cpp
@@ -160,10 +160,6 @@ void FunctionTimer::ResetGroupTimeRecord(const char *szName) {
 	// Retrieve existing group record
 	if (iter != m_mapGroupData.end()) {
 		m_mapGroupData.erase(iter);
-
-	// Group record does not exist
-	} else {
-		_EXCEPTION1("Group time record %s does not exist.", szName);
 	}
 }
 
-- 
2.43.0


From 067d240f1524ec328293dfe6c3aafbf277669dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 14/23] fix: keep the physical constants and the XZ flag of a
 Cartesian grid over a restart

---
 src/atm/GridGLL.cpp |  1 +
 src/atm/GridGLL.h   |  2 +-
 src/atm/Model.cpp   | 13 +++++--------
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 720bdf1..0290ace 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -43,6 +43,7 @@ void GridGLL::DefineParameters() {
 	// Initialize the GridParameters relevant to GridGLL
 	m_dcGridParameters.PushDataChunk(&m_nHorizontalOrder);
 	m_dcGridParameters.PushDataChunk(&m_nVerticalOrder);
+	m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	Grid::DefineParameters();
diff --git a/src/atm/GridGLL.h b/src/atm/GridGLL.h
index 8527b36..40b2ee4 100644
--- a/src/atm/GridGLL.h
+++ b/src/atm/GridGLL.h
@@ -237,7 +237,7 @@ public:
 	///	<summary>
 	///		2D Cartesian flag
 	///	</summary>
-	bool m_fCartesianXZ = false;
+	DataStruct<bool> m_fCartesianXZ;
 
 	///	<summary>
 	///		Get the 2D Cartesian flag
diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index dcc02fd..d3d3375 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -236,22 +236,19 @@ void Model::SetTestCase(
 	// Attach the test case
 	m_pTestCase = pTestCase;
 
-	// Evaluate physical constants and data from TestCase
-	if (!m_fGridFromRestartFile) {
+	// Evaluate physical constants
+	m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
+	// Evaluate data from TestCase
+	if (!m_fGridFromRestartFile) {
 
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase(*pTestCase, m_timeStart);
 	}
 	
-	// Evaluate physical constants and data from TestCase if pertubation is needed on restart
+	// Evaluate data from TestCase if pertubation is needed on restart
 	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
-
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
-- 
2.43.0


From 02b5f2ca283641ffe6cece099ce95b62fe5fcdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 15/23] fix: use the requested vertical stretching in restarted
 runs

---
 src/atm/TempestInitialize.h | 59 +++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 256769e..9415b5a 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -473,6 +473,28 @@ void _TempestSetupOutputManagers(
 
 ///////////////////////////////////////////////////////////////////////////////
 
+void _TempestSetVerticalStretch(
+	Grid & grid,
+	_TempestCommandLineVariables & vars
+) {
+	STLStringHelper::ToLower(vars.strVerticalStretch);
+	if (vars.strVerticalStretch == "uniform") {
+
+	} else if (vars.strVerticalStretch == "cubic") {
+		grid.SetVerticalStretchFunction(
+			new VerticalStretchCubic);
+
+	} else if (vars.strVerticalStretch == "pwlinear") {
+		grid.SetVerticalStretchFunction(
+			new VerticalStretchPiecewiseLinear);
+
+	} else {
+		_EXCEPTIONT("Invalid value for --vstretch");
+	}
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void _TempestSetupCubedSphereModel(
 	Model & model,
 	_TempestCommandLineVariables & vars
@@ -547,20 +569,7 @@ void _TempestSetupCubedSphereModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strVerticalStretch);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-		}
+		_TempestSetVerticalStretch(*pGrid, vars);
 
 		// Vertical type
 		STLStringHelper::ToLower(vars.strVerticalDiscretization);
@@ -576,6 +585,9 @@ void _TempestSetupCubedSphereModel(
 
 		pGrid->DefineParameters();
 
+		// Set the vertical stretching function
+		_TempestSetVerticalStretch(*pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
@@ -666,21 +678,7 @@ void _TempestSetupCartesianModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strHorizontalDynamics);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-
-		}
+		_TempestSetVerticalStretch(*pGrid, vars);
 
 		// Set the Model Grid
 		model.SetGrid(pGrid);
@@ -693,6 +691,9 @@ void _TempestSetupCartesianModel(
 
 		pGrid->DefineParameters();
 
+		// Set the vertical stretching function
+		_TempestSetVerticalStretch(*pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
-- 
2.43.0


From 6d66a2f6025417dd8ec7ac12ad95135ca8dcb9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 16/23] fix: refuse restart files that end before all data is
 read

---
 src/atm/OutputManagerComposite.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index e6b472c..6302638 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -450,7 +450,7 @@ Time OutputManagerComposite::Input(
 	// Read check bits
 	int iCheckInput;
 	ifsActiveInput.read((char *)(&iCheckInput), sizeof(int));
-	if (iCheckInput != m_iCheck) {
+	if (!ifsActiveInput || (iCheckInput != m_iCheck)) {
 		_EXCEPTION1("Invalid or incompatible input file \"%s\"",
 			strFileName.c_str());
 	}
@@ -466,6 +466,10 @@ Time OutputManagerComposite::Input(
 		(char *)(dcGridParameters.GetPointer());
 
 	ifsActiveInput.read(pGridParameters, nGridParametersByteSize);
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Incomplete input file \"%s\"",
+			strFileName.c_str());
+	}
 
 	// Initialize the Grid from specified parameters
 	m_grid.InitializeDataLocal();
@@ -478,6 +482,10 @@ Time OutputManagerComposite::Input(
 		(char *)(dcGridPatchData.GetPointer());
 
 	ifsActiveInput.read(pGridPatchData, nGridPatchDataByteSize);
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Incomplete input file \"%s\"",
+			strFileName.c_str());
+	}
 
 	// Distribute GridPatches to processors
 	m_grid.DistributePatches();
@@ -566,6 +574,11 @@ Time OutputManagerComposite::Input(
 			posRefFile + m_vecGridPatchByteLoc[iPatchIx][1]);
 		ifsActiveInput.read(
 			pActiveStateData, m_vecGridPatchByteSize[iPatchIx][1]);
+
+		if (!ifsActiveInput) {
+			_EXCEPTION1("Incomplete input file \"%s\"",
+				strFileName.c_str());
+		}
 	}
 
 	// Close the file
-- 
2.43.0


From c774b0017a0ea4a2186719dd622620ae32f6d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 17/23] fix: index order of columns and areas in
 VerticalDynamicsFEMV2 and in inversion-failure messages

---
 src/atm/VerticalDynamicsFEM.cpp   |  4 ++--
 src/atm/VerticalDynamicsFEMV2.cpp | 36 +++++++++++++++----------------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 361319f..4eee9c4 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -1390,7 +1390,7 @@ void VerticalDynamicsFEM::StepImplicit(
 				}
 				for (int p = 0; p < m_dExnerRefREdge.GetRows(); p++) {
 					printf("%1.15e %1.15e\n",
-						m_dExnerRefREdge[p], dataRefREdge[RIx][p][iA][iB]);
+						m_dExnerRefREdge[p], dataRefREdge[RIx][iA][iB][p]);
 				}
 				_EXCEPTIONT("Inversion failure");
 	    	}
@@ -1475,7 +1475,7 @@ void VerticalDynamicsFEM::StepImplicit(
 				}
 				for (int p = 0; p < m_dExnerRefREdge.GetRows(); p++) {
 					printf("%1.15e %1.15e\n",
-						m_dExnerRefREdge[p], dataRefREdge[RIx][p][iA][iB]);
+						m_dExnerRefREdge[p], dataRefREdge[RIx][iA][iB][p]);
 				}
 				_EXCEPTIONT("Inversion failure");
 			}
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index fb360a6..dd96d16 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -901,14 +901,14 @@ void VerticalDynamicsFEMV2::StepExplicit(
 
 					dDeltaU -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUa;
 
 					dDeltaV -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUb;
@@ -1101,9 +1101,7 @@ void VerticalDynamicsFEMV2::StepExplicit(
 				const LinearColumnDiscPenaltyFEM & opPenalty =
 					pGrid->GetOpPenaltyNodeToNode();
 
-				int nUpwindStride =
-					dataInitialNode.GetSize(2)
-					* dataInitialNode.GetSize(3);
+				int nUpwindStride = 1;
 
 				// Apply upwinding to U and V
 				if (m_fUpwindVar[UIx]) {
@@ -1502,7 +1500,7 @@ void VerticalDynamicsFEMV2::StepImplicit(
 				}
 				for (int p = 0; p < m_dExnerRefREdge.GetRows(); p++) {
 					printf("%1.15e %1.15e\n",
-						m_dExnerRefREdge[p], dataRefREdge[RIx][p][iA][iB]);
+						m_dExnerRefREdge[p], dataRefREdge[RIx][iA][iB][p]);
 				}
 				_EXCEPTIONT("Inversion failure");
 	    	}
@@ -1587,7 +1585,7 @@ void VerticalDynamicsFEMV2::StepImplicit(
 				}
 				for (int p = 0; p < m_dExnerRefREdge.GetRows(); p++) {
 					printf("%1.15e %1.15e\n",
-						m_dExnerRefREdge[p], dataRefREdge[RIx][p][iA][iB]);
+						m_dExnerRefREdge[p], dataRefREdge[RIx][iA][iB][p]);
 				}
 				_EXCEPTIONT("Inversion failure");
 			}
@@ -1730,34 +1728,34 @@ void VerticalDynamicsFEMV2::StepImplicit(
 			int iB = box.GetBInteriorBegin() + b * m_nHorizontalOrder - 1;
 
 			for (int k = 0; k < nRElements; k++) {
-				//dataUpdateNode[UIx][k][i][iB]
+				//dataUpdateNode[UIx][i][iB][k]
 				//	= dataUpdateNode[UIx][i][iB+1][k];
-				//dataUpdateNode[VIx][k][i][iB]
+				//dataUpdateNode[VIx][i][iB][k]
 				//	= dataUpdateNode[VIx][i][iB+1][k];
-				dataUpdateNode[PIx][k][i][iB]
+				dataUpdateNode[PIx][i][iB][k]
 					= dataUpdateNode[PIx][i][iB+1][k];
-				dataUpdateNode[WIx][k][i][iB]
+				dataUpdateNode[WIx][i][iB][k]
 					= dataUpdateNode[WIx][i][iB+1][k];
-				dataUpdateNode[RIx][k][i][iB]
+				dataUpdateNode[RIx][i][iB][k]
 					= dataUpdateNode[RIx][i][iB+1][k];
 
 				for (int c = 0; c < nTracerCount; c++) {
-					dataUpdateTracer[c][k][i][iB]
+					dataUpdateTracer[c][i][iB][k]
 						= dataUpdateTracer[c][i][iB+1][k];
 				}
 
 			}
 
 			for (int k = 0; k <= nRElements; k++) {
-				//dataUpdateREdge[UIx][k][i][iB]
+				//dataUpdateREdge[UIx][i][iB][k]
 				//	= dataUpdateREdge[UIx][i][iB+1][k];
-				//dataUpdateREdge[VIx][k][i][iB]
+				//dataUpdateREdge[VIx][i][iB][k]
 				//	= dataUpdateREdge[VIx][i][iB+1][k];
-				dataUpdateREdge[PIx][k][i][iB]
+				dataUpdateREdge[PIx][i][iB][k]
 					= dataUpdateREdge[PIx][i][iB+1][k];
-				dataUpdateREdge[WIx][k][i][iB]
+				dataUpdateREdge[WIx][i][iB][k]
 					= dataUpdateREdge[WIx][i][iB+1][k];
-				dataUpdateREdge[RIx][k][i][iB]
+				dataUpdateREdge[RIx][i][iB][k]
 					= dataUpdateREdge[RIx][i][iB+1][k];
 			}
 		}
@@ -4175,7 +4173,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 
 					dTracersLUDF[TracerMatFIx(n, k)] +=
 						dDiffREdgeToNode[k][m]
-						* dJacobianREdge[m][m_iA][m_iB]
+						* dJacobianREdge[m_iA][m_iB][m]
 						/ dJacobianNode[m_iA][m_iB][k]
 						* dInterpNodeToREdge[m][n]
 						* m_dXiDotREdge[m];
-- 
2.43.0


From f1c05aab69fd8a67d843710057cd2b8c8d6c2f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 18/23] fix: storage checks and leading dimension of banded
 LAPACK calls

---
 src/base/LinearAlgebra.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index d015a04..72f1bf0 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -161,8 +161,8 @@ int LAPACK::DGBSV(
 	int nKU
 ) {
 	// Check dimensions
-	if (dA.GetRows() < 2 * nKL + nKU + 1) {
-		_EXCEPTIONT("Matrix A has insufficient rows for DGBSV");
+	if (dA.GetColumns() < 2 * nKL + nKU + 1) {
+		_EXCEPTIONT("Matrix A has insufficient columns for DGBSV");
 	}
 	if (dBX.GetRows() < dA.GetRows()) {
 		_EXCEPTIONT("Matrix A / B dimension mismatch in DGBSV");
@@ -306,9 +306,9 @@ int LAPACK::DGBTRF(
 	int iKU
 ) {
 	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = dA.GetRows();
 
-	int lda = m;
+	int lda = dA.GetColumns();
 
 	int nInfo;
 
@@ -365,10 +365,9 @@ int LAPACK::DGBTRS(
 	int iKL,
 	int iKU
 ) {
-	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = dA.GetRows();
 
-	int lda = m;
+	int lda = dA.GetColumns();
 	int ldb = dB.GetRows();
 	int nRHS = 1;
 
-- 
2.43.0


From 582b97dbc91eb9635595ea6d1883b9f8e274a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 19/23] fix: band storage of the tracer column matrix in
 vertical dynamics

---
 src/atm/VerticalDynamicsFEM.cpp   | 6 ++++++
 src/atm/VerticalDynamicsFEM.h     | 4 ++--
 src/atm/VerticalDynamicsFEMV2.cpp | 6 ++++++
 src/atm/VerticalDynamicsFEMV2.h   | 4 ++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 4eee9c4..b6767b4 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -387,7 +387,13 @@ void VerticalDynamicsFEM::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	// Banded storage (including room for fill-in from pivoting)
+	m_matTracersLUDF.Allocate(
+		nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsFEM.h b/src/atm/VerticalDynamicsFEM.h
index f4e1017..321e3af 100644
--- a/src/atm/VerticalDynamicsFEM.h
+++ b/src/atm/VerticalDynamicsFEM.h
@@ -129,8 +129,8 @@ protected:
 #if defined(USE_JACOBIAN_DEBUG) || defined(USE_JACOBIAN_GENERAL)
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
-		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		int nOffDiagonals = 2 * m_nVerticalOrder - 1;
+		return (2 * nOffDiagonals + k1 - k0) + (3 * nOffDiagonals + 1) * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index dd96d16..a9b1287 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -395,7 +395,13 @@ void VerticalDynamicsFEMV2::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	// Banded storage (including room for fill-in from pivoting)
+	m_matTracersLUDF.Allocate(
+		nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsFEMV2.h b/src/atm/VerticalDynamicsFEMV2.h
index 57e9fc9..636fa08 100644
--- a/src/atm/VerticalDynamicsFEMV2.h
+++ b/src/atm/VerticalDynamicsFEMV2.h
@@ -129,8 +129,8 @@ protected:
 #if defined(USE_JACOBIAN_DEBUG) || defined(USE_JACOBIAN_GENERAL)
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
-		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		int nOffDiagonals = 2 * m_nVerticalOrder - 1;
+		return (2 * nOffDiagonals + k1 - k0) + (3 * nOffDiagonals + 1) * k0;
 #else
 		_EXCEPTION();
 #endif
-- 
2.43.0


From 784c94987cc25eba4b00899e6473c683ca1c5eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 20/23] fix: convert vertical velocity at output points with
 the node's own metric, and only for state data

---
 src/atm/GridPatchCSGLL.cpp        | 8 +++++---
 src/atm/GridPatchCartesianGLL.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index cdf2075..fc0f6bb 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1647,7 +1647,9 @@ void GridPatchCSGLL::InterpolateData(
 
 				// Rescale vertical velocity
 				const int WIx = 3;
-				if ((c == WIx) && (fConvertToPrimitive)) {
+				if ((eDataType == DataType_State) &&
+					(c == WIx) && (fConvertToPrimitive)
+				) {
 					if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
 						for (int m = 0; m < m_nHorizontalOrder; m++) {
 						for (int n = 0; n < m_nHorizontalOrder; n++) {
@@ -1662,7 +1664,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1674,7 +1676,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index cc8ae0b..5d0b425 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1778,7 +1778,9 @@ void GridPatchCartesianGLL::InterpolateData(
 
 				// Rescale vertical velocity
 				const int WIx = 3;
-				if ((c == WIx) && (fConvertToPrimitive)) {
+				if ((eDataType == DataType_State) &&
+					(c == WIx) && (fConvertToPrimitive)
+				) {
 					if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
 						for (int m = 0; m < m_nHorizontalOrder; m++) {
 						for (int n = 0; n < m_nHorizontalOrder; n++) {
@@ -1793,7 +1795,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1805,7 +1807,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
-- 
2.43.0


From 61ae117ae0f0d009cb8c59a95854406ffe27094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 21/23] fix: vertical interpolation between levels at the last
 element and at single output levels

---
 src/atm/LinearColumnOperatorFEM.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 4a7b6b0..e8cc845 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,9 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (l == 0)) {
+			if ((nVerticalOrder == 1) && (l == 0) &&
+			    (!fOnREdge) && (a + 1 < nFiniteElementsIn)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
@@ -129,7 +131,9 @@ void LinearColumnInterpFEM::Initialize(
 				m_iBegin[l] =  a    * nVerticalOrder;
 				m_iEnd[l]   = (a+2) * nVerticalOrder;
 
-			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1)) {
+			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1) &&
+			    (!fOnREdge) && (a > 0)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[(a-1) * nVerticalOrder]),
-- 
2.43.0


From ee30cf9290737ba8cb49549f3f80864b84a2a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:54 +0000
Subject: [PATCH 22/23] fix: reference output counts days from the start time,
 not from midnight of its date

---
 src/atm/OutputManagerReference.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/OutputManagerReference.cpp b/src/atm/OutputManagerReference.cpp
index 43fa105..96c8ca4 100644
--- a/src/atm/OutputManagerReference.cpp
+++ b/src/atm/OutputManagerReference.cpp
@@ -349,7 +349,7 @@ bool OutputManagerReference::OpenFile(
 		}
 
 		std::string strUnits =
-			"days since " + model.GetStartTime().ToDateString();
+			"days since " + model.GetStartTime().ToString();
 
 		std::string strCalendarName = model.GetStartTime().GetCalendarName();
 
-- 
2.43.0


From f7763cc960ca0a3b3f0288684ece57d579a1c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:10 +0000
Subject: [PATCH 23/23] fix: kinetic energy of the shallow water model from
 covariant velocities

---
 src/atm/GridPatch.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index faa64b6..d0c32ae 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -965,20 +965,18 @@ double GridPatch::ComputeTotalEnergy(
 		for (int i = m_box.GetAInteriorBegin(); i < m_box.GetAInteriorEnd(); i++) {
 		for (int j = m_box.GetBInteriorBegin(); j < m_box.GetBInteriorEnd(); j++) {
 		for (int k = 0; k < nRElements; k++) {
-			double dUdotU =
-				+ m_dataContraMetric2DB(i,j,1)
+			// Velocities are covariant
+			const double dUdotU =
+				+ m_dataContraMetric2DA(i,j,0)
 					* dataNode(UIx,i,j,k)
 					* dataNode(UIx,i,j,k)
-				- 2.0 * m_dataContraMetric2DA(i,j,1)
+				+ 2.0 * m_dataContraMetric2DA(i,j,1)
 					* dataNode(UIx,i,j,k)
 					* dataNode(VIx,i,j,k)
-				+ m_dataContraMetric2DA(i,j,0)
+				+ m_dataContraMetric2DB(i,j,1)
 					* dataNode(VIx,i,j,k)
 					* dataNode(VIx,i,j,k);
 
-			dUdotU *= m_dataJacobian2D(i,j)
-				* m_dataJacobian2D(i,j);
-
 			const double dKineticEnergy =
 				0.5 * dUdotU * (dataNode(HIx,i,j,k)
 						- m_dataTopography(i,j));
-- 
2.43.0

