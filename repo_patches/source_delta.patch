From 0a775e01f1e2a2156eda475a90b133921dd7f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 01/73] fix: keep null space basis consistent when
 refactorising the unprojected Hessian

computeProjectedCholesky() factorised the Hessian itself if the working set is
empty, but kept the (generally nontrivial) null space basis of previous
iterations. Whenever enableCholeskyRefactorisation is used, step directions
were wrong and non-optimal points were returned as solutions.
---
 src/QProblem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8ea39e1..58c7f56 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2041,9 +2041,13 @@ returnValue QProblem::computeProjectedCholesky( )
 
 	SymSparseMat* Id;
 
-	/* Revert to unprotected Cholesky decomposition */
+	/* Revert to unprotected Cholesky decomposition; as that factorises the
+	 * Hessian itself, the null space basis needs to be made trivial, too. */
 	if ( getNFX() + getNAC() == 0 )
+	{
+		setupTQfactorisation( );
 		return QProblemB::computeCholesky( );
+	}
 
 	/* 1) Initialises R with all zeros. */
 	for( i=0; i<nV*nV; ++i )
-- 
2.43.0


From 816c2b97ec2d6e2f5560925f84440c4d64f4d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 02/73] fix: do not try to regularise identity Hessians on
 initialisation

With enableRegularisation (e.g. MPC options), init() failed for every QP with
identity Hessian and non-empty initial working set.
---
 src/QProblem.cpp  | 4 ++--
 src/QProblemB.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 58c7f56..31aafd2 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2141,8 +2141,8 @@ returnValue QProblem::setupInitialCholesky( )
 	returnValue returnvalueCholesky;
 
 	/* If regularisation shall be used, always regularise at beginning
-	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	 * if initial working set is not empty (identity Hessians do not need it). */
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 52620e0..a11a8e1 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1449,8 +1449,8 @@ returnValue QProblemB::setupInitialCholesky( )
 	returnValue returnvalueCholesky;
 
 	/* If regularisation shall be used, always regularise at beginning
-	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	 * if initial working set is not empty (identity Hessians do not need it). */
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
-- 
2.43.0


From 19591ab18d3eed0d3c9f063977a1c635d663ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 03/73] fix: use nonzero regularisation parameter for zero
 Hessian and zero gradient

The regularisation parameter was scaled by the gradient's norm, i.e. vanished
for feasibility problems, whose initialisation thus always failed.
---
 src/QProblemB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index a11a8e1..489d661 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2015,6 +2015,10 @@ returnValue QProblemB::regulariseHessian( )
 		if ( hessianType == HST_ZERO )
 		{
 			regVal = getNorm( g,getNV() ) * options.epsRegularisation;
+
+			/* regularisation parameter must not vanish for a zero gradient */
+			if ( regVal <= ZERO )
+				regVal = options.epsRegularisation;
 		}
 		else
 		{
-- 
2.43.0


From ba126b939a38accc755c937977b83829b44ac78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 04/73] fix: do not impose spurious CPU time limit in
 QProblemB::hotstart

Without user-given CPU time limit, the time needed for the first solution was
imposed as limit on all subsequent ones if far bounds had to be moved: solving
stopped (nondeterministically) claiming that the iteration limit was reached.
---
 src/QProblemB.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 489d661..3880dff 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -458,7 +458,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	int_t nWSR_max = nWSR;
 	int_t nWSR_performed = 0;
 
-	real_t cputime_remaining = INFTY;
+	real_t cputime_remaining = INFTY, *pcputime_rem;
 	real_t cputime_needed = 0.0;
 
 	real_t farbound = options.initialFarBounds;
@@ -501,11 +501,16 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		{
 			nWSR = nWSR_max;
 			if ( cputime != 0 )
+			{
 				cputime_remaining = *cputime - cputime_needed;
+				pcputime_rem = &cputime_remaining;
+			}
+			else
+				pcputime_rem = 0;
 
 			/* Automatically call standard solveQP if regularisation is not active. */
 			returnvalue = solveRegularisedQP(	g_new,lb_new_far,ub_new_far,
-												nWSR,&cputime_remaining,nWSR_performed,
+												nWSR,pcputime_rem,nWSR_performed,
 												isFirstCall
 												);
 
-- 
2.43.0


From b6ccf2553dff6118f0ea369fa9c73b566826ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 05/73] fix: avoid NaN ramping values for QPs with a single
 variable

Ramping divided zero by zero for nV == 1 (without constraints): bounds became
NaN and were silently ignored, i.e. infeasible points and NaN multipliers were
returned as solution.
---
 src/QProblemB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3880dff..9f83f37 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2185,7 +2185,7 @@ returnValue QProblemB::performRamping( )
 			default: break;
 		}
 
-		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(nV-1);
+		t = ( nV > 1 ) ? static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(nV-1) : 0.0;
 		rampVal = (1.0-t) * ramp0 + t * ramp1;
 		bstat = bounds.getStatus(i);
 		if (bstat != ST_LOWER) { lb[i] = x[i] - rampVal; }
@@ -2221,7 +2221,7 @@ returnValue QProblemB::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nV; ++i )
 		{
-			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = ( nRamp > 1 ) ? static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1) : 0.0;
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lb_new == 0 )
-- 
2.43.0


From a8f0acf472fd3c67f1aa6bf86076cb0d52a4064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 06/73] fix: do not modify the user's Hessian when regularising
 it

---
 src/QProblemB.cpp | 21 +++++++++++++++++++++
 src/SQProblem.cpp | 19 ++++++++++++++++---
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9f83f37..9f9e7cd 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2029,6 +2029,27 @@ returnValue QProblemB::regulariseHessian( )
 		{
 			regVal = H->getNorm() * options.epsRegularisation;
 
+			/* Hessian data passed by the user must not be changed:
+			 * regularise an own copy. */
+			if ( ( freeHessian == BT_FALSE ) || ( H->needToFreeMemory( ) == BT_FALSE ) )
+			{
+				SymmetricMatrix* H_copy = H->duplicateSym( );
+
+				if ( H_copy->needToFreeMemory( ) == BT_FALSE )
+				{
+					/* duplicate of dense matrix is only a shallow copy */
+					delete H_copy;
+					H_copy = new SymDenseMat( getNV( ),getNV( ),getNV( ),H->full( ) );
+					H_copy->doFreeMemory( );
+				}
+
+				if ( freeHessian == BT_TRUE )
+					delete H;
+
+				H = H_copy;
+				freeHessian = BT_TRUE;
+			}
+
 			if ( H->addToDiag( regVal ) == RET_NO_DIAGONAL_AVAILABLE )
 				return THROWERROR( RET_CANNOT_REGULARISE_SPARSE );
 		}
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 95dde53..fb65807 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -543,9 +543,22 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 
 	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
-	if ( H_new != 0 )
-		freeHessian = BT_TRUE;
-	freeConstraintMatrix = BT_TRUE;
+	/* hand over ownership of matrix objects actually in use */
+	if ( sH != 0 )
+	{
+		if ( H == sH )
+			freeHessian = BT_TRUE;
+		else
+			delete sH;
+	}
+
+	if ( dA != 0 )
+	{
+		if ( A == dA )
+			freeConstraintMatrix = BT_TRUE;
+		else
+			delete dA;
+	}
 
 	return returnvalue;
 }
-- 
2.43.0


From 2a2c96896f3f81cf53a6cd3a9401ad273e7bff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 07/73] fix: hotstart with contradictory limits must not return
 success

---
 src/QProblem.cpp  | 6 +++++-
 src/QProblemB.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 31aafd2..8330bdb 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -486,7 +486,11 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds and constraints. */
 	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+	{
+		if ( status == QPS_SOLVED )
+			status = QPS_HOMOTOPYQPSOLVED;
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
+	}
 
 	++count;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9f9e7cd..301504d 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -450,7 +450,11 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds */
 	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+	{
+		if ( status == QPS_SOLVED )
+			status = QPS_HOMOTOPYQPSOLVED;
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
+	}
 
 	++count;
 
-- 
2.43.0


From b0e68d9eaea2f8483b54dfd1654048e1d3c75525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 08/73] fix: initialise flag that is read even if no blocking
 limit exists

---
 src/QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8330bdb..e6124d3 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1531,7 +1531,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 
 	int_t BC_idx;
 	SubjectToStatus BC_status;
-	BooleanType BC_isBound;
+	BooleanType BC_isBound = BT_FALSE;
 
 	real_t homotopyLength;
 
-- 
2.43.0


From cba249f8ca99d96959827ec5e12984edbb27fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 09/73] fix: keep types and status of bounds and constraints
 consistent when hotstarting

Limits that become finite, former equalities and implicit equalities were not
(or not correctly) taken over into the working set used for the next homotopy.
---
 include/qpOASES/QProblemB.hpp |   8 +++
 include/qpOASES/QProblemB.ipp |  15 +++++
 src/QProblem.cpp              | 103 +++++++++++++++++++++++++++++++---
 src/QProblemB.cpp             |  28 +++++++++
 4 files changed, 147 insertions(+), 7 deletions(-)

diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 41eeb9f..1520026 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -628,6 +628,14 @@ class QProblemB
 					RET_HESSIAN_ALREADY_REGULARISED */
 		returnValue regulariseHessian( );
 
+		/** Checks if the limit of the current auxiliary QP is (numerically) infinite:
+		 *  without far bounds, also the result of a partial step towards infinity
+		 *  is too large to be shifted to a finite value without loss of accuracy.
+		 *  \return BT_TRUE  iff limit is that far away. */
+		inline BooleanType isFarAway(	real_t limit,	/**< Current lower or upper limit. */
+										real_t value	/**< Current value of limited expression. */
+										) const;
+
 
 		/** Sets Hessian matrix of the QP.
 		 *	\return SUCCESSFUL_RETURN */
diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index 6831374..69fab8f 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -164,6 +164,21 @@ inline returnValue QProblemB::setHessianType( HessianType _hessianType )
 }
 
 
+/*
+ *	i s F a r A w a y
+ */
+inline BooleanType QProblemB::isFarAway( real_t limit, real_t value ) const
+{
+	if ( ( limit <= -INFTY ) || ( limit >= INFTY ) )
+		return BT_TRUE;
+
+	if ( ( options.enableFarBounds == BT_FALSE ) && ( getAbs( limit-value ) > options.boundRelaxation ) )
+		return BT_TRUE;
+
+	return BT_FALSE;
+}
+
+
 /*
  *	u s i n g R e g u l a r i s a t i o n
  */
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index e6124d3..bef78f7 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -492,6 +492,15 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
 	}
 
+	/* Limits on constraints might have become finite. */
+	for ( i=0; i<nC; i++ )
+	{
+		if ( ( lbA_new != 0 ) && ( lbA_new[i] > -INFTY ) )
+			constraints.setNoLower( BT_FALSE );
+		if ( ( ubA_new != 0 ) && ( ubA_new[i] < INFTY ) )
+			constraints.setNoUpper( BT_FALSE );
+	}
+
 	++count;
 
 	int_t nWSR_max = nWSR;
@@ -1868,7 +1877,9 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 {
 	int_t i;
 	int_t nV = getNV( );
+	int_t nC = getNC( );
 
+	real_t lbNew, ubNew;
 	returnValue returnvalue;
 
 	if ( QProblemB::setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
@@ -1876,7 +1887,10 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 
 	for ( i=0; i<nV; i++ )
 	{
-		if ( lb_new[i] <= -INFTY && bounds.getStatus(i) == ST_LOWER )
+		lbNew = ( lb_new != 0 ) ? lb_new[i] : -INFTY;
+		ubNew = ( ub_new != 0 ) ? ub_new[i] :  INFTY;
+
+		if ( lbNew <= -INFTY && bounds.getStatus(i) == ST_LOWER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1884,7 +1898,7 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( ub_new[i] >= INFTY && bounds.getStatus(i) == ST_UPPER )
+		if ( ubNew >= INFTY && bounds.getStatus(i) == ST_UPPER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1892,18 +1906,31 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( lb_new[i] > -INFTY && lb[i] <= -INFTY )
+		if ( lbNew > -INFTY && isFarAway( lb[i],x[i] ) == BT_TRUE )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ub_new[i] < INFTY && ub[i] >= INFTY )
+		if ( ubNew < INFTY && isFarAway( ub[i],x[i] ) == BT_TRUE )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			ub[i] = x[i] + options.boundRelaxation;
 		}
 	}
 
+	/* A formerly fixed variable might have become a normal one:
+	 * make sure that its status matches the sign of its multiplier. */
+	for ( i=0; i<nV; i++ )
+	{
+		if ( bounds.getType(i) == ST_BOUNDED && lb[i] > ub[i] - options.boundTolerance )
+		{
+			if ( bounds.getStatus(i) == ST_LOWER && y[i] < 0.0 )
+				bounds.setStatus( i,ST_UPPER );
+			else if ( bounds.getStatus(i) == ST_UPPER && y[i] > 0.0 )
+				bounds.setStatus( i,ST_LOWER );
+		}
+	}
+
 	for ( i=0; i<nV; i++ )
 	{
 	  if ( bounds.getType(i) == ST_EQUALITY ) // ?? && lb[i] != ub[i]
@@ -1920,14 +1947,76 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 					if ( returnvalue != SUCCESSFUL_RETURN )
 						return returnvalue;
 				}
-				/* AW: Check: This allows to have variables that are
-				   equalities to be in the set of free variables. */
+				else
+				{
+					/* An implicitly fixed variable that is not part of the working set
+					 * would never become active again. */
+					bounds.setType( i,ST_BOUNDED );
+				}
 			}
 		}
 	}
 
+	/* Update types of constraints: limits might have become finite or
+	 * equality constraints might have become normal ones. (Inactive constraints
+	 * are never turned into equalities as they would never become active again.) */
+	for ( i=0; i<nC; i++ )
+	{
+		if ( constraints.getType(i) == ST_DISABLED )
+			continue;
+
+		lbNew = ( lbA_new != 0 ) ? lbA_new[i] : -INFTY;
+		ubNew = ( ubA_new != 0 ) ? ubA_new[i] :  INFTY;
 
-	// AW TODO: We could also implement something here for the constraints
+		if ( constraints.getType(i) == ST_UNBOUNDED
+			&& ( ( lbNew > -INFTY && constraints.hasNoLower( ) == BT_FALSE )
+			  || ( ubNew <  INFTY && constraints.hasNoUpper( ) == BT_FALSE ) ) )
+		{
+			/* constraint product is not kept up-to-date for unbounded constraints */
+			if ( constraintProduct != 0 )
+			{
+				if ( (*constraintProduct)( i,x,&(Ax[i]) ) != 0 )
+					return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
+			}
+			else
+			{
+				real_t* A_i = new real_t[nV];
+				A->getRow( i,0,1.0,A_i );
+				Ax[i] = 0.0;
+				for( int_t j=0; j<nV; ++j )
+					Ax[i] += A_i[j] * x[j];
+				delete[] A_i;
+			}
+
+			Ax_l[i] = Ax[i] - lbA[i];
+			Ax_u[i] = ubA[i] - Ax[i];
+			constraints.setType( i,ST_BOUNDED );
+		}
+
+		if ( constraints.getType(i) == ST_EQUALITY && lbNew <= ubNew - options.boundTolerance )
+			constraints.setType( i,ST_BOUNDED );
+
+		if ( constraints.getType(i) == ST_BOUNDED && lbA[i] > ubA[i] - options.boundTolerance )
+		{
+			if ( constraints.getStatus(i) == ST_LOWER && y[nV+i] < 0.0 )
+				constraints.setStatus( i,ST_UPPER );
+			else if ( constraints.getStatus(i) == ST_UPPER && y[nV+i] > 0.0 )
+				constraints.setStatus( i,ST_LOWER );
+		}
+
+		if ( lbNew > -INFTY && isFarAway( lbA[i],Ax[i] ) == BT_TRUE )
+		{
+			/* Now a lower limit has become finite.  To avoid numerical issues, adjust lbA */
+			lbA[i] = Ax[i] - options.boundRelaxation;
+			Ax_l[i] = Ax[i] - lbA[i];
+		}
+		if ( ubNew < INFTY && isFarAway( ubA[i],Ax[i] ) == BT_TRUE )
+		{
+			/* Now an upper limit has become finite.  To avoid numerical issues, adjust ubA */
+			ubA[i] = Ax[i] + options.boundRelaxation;
+			Ax_u[i] = ubA[i] - Ax[i];
+		}
+	}
 
 	return SUCCESSFUL_RETURN;
 }
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 301504d..7f517f9 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2487,7 +2487,35 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	/* 2) Update type of bounds, e.g. a formerly implicitly fixed
 	 *    variable might have become a normal one etc. */
 	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
+	{
+		delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
+		delete[] delta_ub; delete[] delta_lb; delete[] delta_g;
 		return THROWERROR( RET_HOTSTART_FAILED );
+	}
+
+	for( int_t i=0; i<nV; ++i )
+	{
+		/* A bound has become finite: to avoid numerical issues, adjust old one. */
+		if ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) && ( isFarAway( lb[i],x[i] ) == BT_TRUE ) )
+			lb[i] = x[i] - options.boundRelaxation;
+		if ( ( ub_new != 0 ) && ( ub_new[i] < INFTY ) && ( isFarAway( ub[i],x[i] ) == BT_TRUE ) )
+			ub[i] = x[i] + options.boundRelaxation;
+
+		/* An implicitly fixed variable that is not part of the working set
+		 * would never become active again. */
+		if ( ( bounds.getType(i) == ST_EQUALITY ) && ( bounds.getStatus(i) == ST_INACTIVE ) )
+			bounds.setType( i,ST_BOUNDED );
+
+		/* A formerly fixed variable might have become a normal one:
+		 * make sure that its status matches the sign of its multiplier. */
+		if ( ( bounds.getType(i) == ST_BOUNDED ) && ( lb[i] > ub[i] - options.boundTolerance ) )
+		{
+			if ( ( bounds.getStatus(i) == ST_LOWER ) && ( y[i] < 0.0 ) )
+				bounds.setStatus( i,ST_UPPER );
+			else if ( ( bounds.getStatus(i) == ST_UPPER ) && ( y[i] > 0.0 ) )
+				bounds.setStatus( i,ST_LOWER );
+		}
+	}
 
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
-- 
2.43.0


From 40628d46ba15f4b756321dd4896f09d9f54532fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:32 +0000
Subject: [PATCH 10/73] fix: keep solver resumable if a limit is hit before the
 first hotstart iteration

With an iteration (or CPU time) limit that did not permit a single iteration,
QProblem::hotstart left its status at 'performing homotopy' (every later hotstart
failed) while QProblemB::hotstart kept claiming 'solved'.
---
 src/QProblem.cpp  | 4 ++++
 src/QProblemB.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index bef78f7..da00e10 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1563,6 +1563,10 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
 
+	/* Current iterate solves the current auxiliary QP (which is also what is
+	 * left behind if a limit is hit before the first iteration is performed). */
+	status = QPS_HOMOTOPYQPSOLVED;
+
 
 	/* II) MAIN HOMOTOPY LOOP */
 	for( iter=nWSRperformed; iter<nWSR; ++iter )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 7f517f9..0232587 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2521,6 +2521,10 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
 
+	/* Current iterate solves the current auxiliary QP (which is also what is
+	 * left behind if a limit is hit before the first iteration is performed). */
+	status = QPS_HOMOTOPYQPSOLVED;
+
 
 	/* II) MAIN HOMOTOPY LOOP */
 	for( iter=nWSRperformed; iter<nWSR; ++iter )
-- 
2.43.0


From 543f3e88b10b23341dfd4b7aa2b9147546301b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 11/73] fix: no out-of-bounds read when looking up numbers
 missing from an index list

For numbers smaller than all members (or an empty list) the position -1 of the
sorted index was read by getIndex, isMember, removeNumber and swapNumbers.
---
 src/Indexlist.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Indexlist.cpp b/src/Indexlist.cpp
index d6fb383..bf9b24d 100644
--- a/src/Indexlist.cpp
+++ b/src/Indexlist.cpp
@@ -157,6 +157,11 @@ returnValue Indexlist::getISortArray( int_t** const iSortArray ) const
 int_t Indexlist::getIndex( int_t givennumber ) const
 {
 	int_t index = findInsert(givennumber);
+
+	/* given number is smaller than all numbers contained in index set */
+	if ( index < 0 )
+		return -1;
+
 	return number[iSort[index]] == givennumber ? iSort[index] : -1;
 }
 
@@ -188,9 +193,12 @@ returnValue Indexlist::removeNumber( int_t removenumber )
 {
 	int_t i;
 	int_t idx = findInsert( removenumber );
-	int_t iSidx = iSort[idx];
 
 	/* nothing to be done if number is not contained in index set */
+	if ( idx < 0 )
+		return SUCCESSFUL_RETURN;
+
+	int_t iSidx = iSort[idx];
 	if ( number[iSidx] != removenumber )
 		return SUCCESSFUL_RETURN;
 
@@ -220,6 +228,9 @@ returnValue Indexlist::swapNumbers( int_t number1, int_t number2 )
 	int_t index2 = findInsert( number2 );
 
 	/* consistency check */
+	if ( ( index1 < 0 ) || ( index2 < 0 ) )
+		return THROWERROR( RET_INDEXLIST_CORRUPTED );
+
 	if ( ( number[iSort[index1]] != number1 ) || ( number[iSort[index2]] != number2 ) )
 		return THROWERROR( RET_INDEXLIST_CORRUPTED );
 
-- 
2.43.0


From d71dd11e9a2c1315b8dfbcc35cd04f5e6c84fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 12/73] fix: respect the leading dimension in all operations of
 dense matrices

---
 src/Matrices.cpp | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index d41881f..f7cd4d3 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -117,14 +117,13 @@ Matrix *DenseMatrix::duplicate( ) const
 
 	if ( needToFreeMemory( ) == BT_TRUE )
 	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+		real_t* val_new = full( );
 		dupl = new DenseMatrix(nRows, nCols, nCols, val_new);
 		dupl->doFreeMemory( );
 	}
 	else
 	{
-		dupl = new DenseMatrix(nRows, nCols, nCols, val);
+		dupl = new DenseMatrix(nRows, nCols, leaDim, val);
 	}
 
 	return dupl;
@@ -155,7 +154,19 @@ BooleanType DenseMatrix::isDiag( ) const
 real_t DenseMatrix::getNorm(	int_t type
 								) const
 {
-	return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+	int_t i;
+	real_t rowNorm, norm = 0.0;
+
+	if ( leaDim == nCols )
+		return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+
+	for (i = 0; i < nRows; ++i)
+	{
+		rowNorm = getRowNorm( i,type );
+		norm += ( type == 2 ) ? rowNorm*rowNorm : rowNorm;
+	}
+
+	return ( type == 2 ) ? getSqrt( norm ) : norm;
 }
 
 
@@ -306,7 +317,7 @@ returnValue DenseMatrix::times(	int_t xN, real_t alpha, const real_t* x, int_t x
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -320,7 +331,7 @@ returnValue DenseMatrix::transTimes( int_t xN, real_t alpha, const real_t* x, in
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -587,15 +598,21 @@ returnValue DenseMatrix::writeToFile( FILE* output_file, const char* prefix ) co
 
 real_t* DenseMatrix::full() const
 {
+	int_t i;
 	real_t* v = new real_t[nRows*nCols];
-	memcpy( v,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+	for (i = 0; i < nRows; ++i)
+		memcpy( &(v[i*nCols]),&(val[i*leaDim]), ((uint_t)nCols)*sizeof(real_t) );
 	return v;
 }
 
 
 returnValue DenseMatrix::print( const char* name ) const
 {
-	return REFER_NAMESPACE_QPOASES print( val,nRows,nCols,name );
+	real_t* tmp = this->full();
+	returnValue retVal = REFER_NAMESPACE_QPOASES print( tmp,nRows,nCols,name );
+	delete[] tmp;
+
+	return retVal;
 }
 
 
@@ -613,14 +630,13 @@ SymmetricMatrix *SymDenseMat::duplicateSym( ) const
 
 	if ( needToFreeMemory( ) == BT_TRUE )
 	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+		real_t* val_new = full( );
 		dupl = new SymDenseMat(nRows, nCols, nCols, val_new);
 		dupl->doFreeMemory( );
 	}
 	else
 	{
-		dupl = new SymDenseMat(nRows, nCols, nCols, val);
+		dupl = new SymDenseMat(nRows, nCols, leaDim, val);
 	}
 
 	return dupl;
-- 
2.43.0


From afa2a298259d31077ad6b65372a9399f271994ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 13/73] fix: update the right entries of y in uncompressed and
 multi-vector submatrix products

---
 src/Matrices.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index f7cd4d3..6e82509 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -442,7 +442,7 @@ returnValue DenseMatrix::times(	const Indexlist* const irows, const Indexlist* c
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
@@ -1257,8 +1257,8 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 					for (i = jc[col]; i < jc[col+1]; i++)
 						for (k=0; k<xN; k++)
 							ytmp[k*yfullLength+ir[i]] += val[i] * xcols[k];
-				delete [] xcols;
 			}
+			delete [] xcols;
 		}
 	}
 
@@ -1290,15 +1290,15 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 		else if (isEqual( beta, 1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+y[irows->number[j]+k*yLD];
 		else if (isEqual( beta, -1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[irows->number[j]+k*yLD];
 		else if (isEqual( beta, 1.0 ) == BT_FALSE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[irows->number[j]+k*yLD];
 	}
 
 	delete [] ytmp;
@@ -1895,7 +1895,7 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
@@ -1930,10 +1930,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			if ( isEqual(alpha,1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1946,10 +1946,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else if ( isEqual(alpha,-1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1962,10 +1962,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
-- 
2.43.0


From 394c633a26033e51d5ff09ca9bb0a9c4c273eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 14/73] fix: correct row norms, row/column access without index
 list and a leak of sparse matrices

---
 src/Matrices.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 6e82509..373608f 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -866,9 +866,7 @@ returnValue SparseMatrix::getRowNorm( real_t* norm, int_t type ) const
 			break;
 		case 1:
 			for ( j=0; j < nCols; ++j ) {
-				// FIXME please add guarding or fix indent for "for loop" to
-				//       remove compile warnings
-				for (i = jc[j]; i < jc[j+1]; i++);
+				for (i = jc[j]; i < jc[j+1]; i++)
 				  norm[ir[i]] += getAbs( val[i] );
 			}
 			break;
@@ -916,13 +914,13 @@ returnValue SparseMatrix::getRow( int_t rNum, const Indexlist* const icols, real
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? alpha*val[i] : 0.0;
@@ -992,7 +990,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -1028,7 +1029,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -1676,19 +1680,19 @@ returnValue SparseMatrixRow::getCol( int_t cNum, const Indexlist* const irows, r
 	else
 	{
 		if ( isEqual(alpha,1.0) == BT_TRUE )
-			for (j = 0; j < nCols; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? alpha*val[i] : 0.0;
-- 
2.43.0


From ae26b4edbab9f2401e69b4f0151a169f4c74bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 15/73] fix: copy all entries when duplicating a row-wise
 sparse matrix

---
 src/Matrices.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 373608f..d9bd236 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1508,14 +1508,14 @@ Matrix *SparseMatrixRow::duplicate( ) const
 	dupl->ic = new sparse_int_t[length];
 	dupl->val = new real_t[length];
 
-	for (i = 0; i < length; i++) dupl->jr[i] = jr[i];
-	for (i = 0; i <= nCols; i++) dupl->ic[i] = ic[i];
+	for (i = 0; i <= nRows; i++) dupl->jr[i] = jr[i];
+	for (i = 0; i < length; i++) dupl->ic[i] = ic[i];
 	for (i = 0; i < length; i++) dupl->val[i] = val[i];
 
 	if ( jd != 0 )
 	{
 		dupl->jd = new sparse_int_t[nRows];
-		for (i = 0; i < nCols; i++) dupl->jd[i] = jd[i];
+		for (i = 0; i < nRows; i++) dupl->jd[i] = jd[i];
 	}
 	else
 		dupl->jd = 0;
-- 
2.43.0


From c3a6325132fcbc0e81c846e4f63c1c1e859b68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 16/73] fix: shift the diagonal of a sparse matrix only if it
 is stored completely

---
 src/Matrices.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index d9bd236..abdf70b 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1368,13 +1368,13 @@ returnValue SparseMatrix::addToDiag( real_t alpha )
 
 	if ( isZero( alpha ) == BT_FALSE )
 	{
+		/* do not change anything unless all diagonal elements are available */
 		for (i = 0; i < nRows && i < nCols; i++)
-		{
-			if (ir[jd[i]] == i)
-				val[jd[i]] += alpha;
-			else
+			if ( (jd[i] >= jc[i+1]) || (ir[jd[i]] != i) )
 				return RET_NO_DIAGONAL_AVAILABLE;
-		}
+
+		for (i = 0; i < nRows && i < nCols; i++)
+			val[jd[i]] += alpha;
 	}
 
 	return SUCCESSFUL_RETURN;
@@ -2068,13 +2068,13 @@ returnValue SparseMatrixRow::addToDiag( real_t alpha )
 
 	if ( isZero(alpha) == BT_FALSE )
 	{
+		/* do not change anything unless all diagonal elements are available */
 		for (i = 0; i < nRows && i < nCols; i++)
-		{
-			if (ic[jd[i]] == i)
-				val[jd[i]] += alpha;
-			else
+			if ( (jd[i] >= jr[i+1]) || (ic[jd[i]] != i) )
 				return RET_NO_DIAGONAL_AVAILABLE;
-		}
+
+		for (i = 0; i < nRows && i < nCols; i++)
+			val[jd[i]] += alpha;
 	}
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From 417831f9e07bff3bd7fc89579df013c45c825787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 17/73] fix: reject hotstarts of uninitialised objects before
 touching any data

---
 src/QProblem.cpp  | 3 +++
 src/QProblemB.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index da00e10..48de7c1 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -459,6 +459,9 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	if ( getStatus( ) == QPS_NOTINITIALISED )
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 0232587..9710684 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -425,6 +425,9 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	if ( getStatus( ) == QPS_NOTINITIALISED )
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
-- 
2.43.0


From 2c7a8c600e73f285d9a0a3b99cd12317af3fd5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 18/73] fix: copy the dimensions together with the factors
 saved for flipping bounds

---
 src/Flipper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flipper.cpp b/src/Flipper.cpp
index fc77d4e..8770668 100644
--- a/src/Flipper.cpp
+++ b/src/Flipper.cpp
@@ -238,6 +238,9 @@ returnValue Flipper::clear( )
 returnValue Flipper::copy(	const Flipper& rhs
 							)
 {
+	nV = rhs.nV;
+	nC = rhs.nC;
+
 	return set( &(rhs.bounds),rhs.R, &(rhs.constraints),rhs.Q,rhs.T );
 }
 
-- 
2.43.0


From 8aaaf7ca416fd9844879bcc7d6171d1646594c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 19/73] fix: drop multipliers of an initial guess that do not
 fit to the working set

---
 src/QProblem.cpp  | 36 +++++++++++++++++++++++++++++++-----
 src/QProblemB.cpp | 20 +++++++++++++++++---
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 48de7c1..d99d49b 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1383,6 +1383,23 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,&auxiliaryConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_INIT_FAILED );
 
+	/* ... and drop all multipliers that do not fit to this working set. */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) || ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) ) ) )
+			y[i] = 0.0;
+	}
+
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( constraints.getStatus( i ) == ST_LOWER ) && ( y[nV+i] < 0.0 ) ) || ( ( constraints.getStatus( i ) == ST_UPPER ) && ( y[nV+i] > 0.0 ) ) ) ) )
+			y[nV+i] = 0.0;
+	}
+
 	/* d) Copy external Cholesky factor if provided */
 	haveCholesky = BT_FALSE;
 
@@ -5816,14 +5833,23 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds and inactive constraints. */
-	for ( i=0; i<nV; ++i )
-		if ( bounds.getStatus( i ) == ST_INACTIVE )
+	/* 1) Ensure that dual variable is zero for free bounds and inactive constraints
+	 *    as well as for those being active at the wrong side. */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) || ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) ) ) )
 			y[i] = 0.0;
+	}
 
-	for ( i=0; i<nC; ++i )
-		if ( constraints.getStatus( i ) == ST_INACTIVE )
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( constraints.getStatus( i ) == ST_LOWER ) && ( y[nV+i] < 0.0 ) ) || ( ( constraints.getStatus( i ) == ST_UPPER ) && ( y[nV+i] > 0.0 ) ) ) ) )
 			y[nV+i] = 0.0;
+	}
 
 	/* 2) Setup gradient and (constraints') bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9710684..9c927d8 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2342,6 +2342,15 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 	if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,BT_TRUE ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_INIT_FAILED );
 
+	/* ... and drop all multipliers that do not fit to this working set. */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) || ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) ) ) )
+			y[i] = 0.0;
+	}
+
 	/* b) Regularise Hessian if necessary. */
 	if ( ( hessianType == HST_ZERO ) || ( hessianType == HST_SEMIDEF ) )
 	{
@@ -3089,10 +3098,15 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds. */
-	for ( i=0; i<nV; ++i )
-		if ( bounds.getStatus( i ) == ST_INACTIVE )
+	/* 1) Ensure that dual variable is zero for free bounds
+	 *    as well as for those being active at the wrong side. */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) || ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) ) ) )
 			y[i] = 0.0;
+	}
 
 	/* 2) Setup gradient and bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-- 
2.43.0


From 01505ccde04ba348eb7a01c957622ceadd40d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 20/73] fix: use a given Cholesky factor only if the initial
 working set is empty

---
 src/QProblem.cpp  | 3 ++-
 src/QProblemB.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d99d49b..31e3358 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1405,7 +1405,8 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		/* factor of full Hessian can only be used if the working set is empty */
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) > 0 ) || ( getNAC( ) > 0 ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9c927d8..ce9d6c7 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2363,7 +2363,8 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		/* factor of full Hessian can only be used if the working set is empty */
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) > 0 ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
-- 
2.43.0


From dc80d030562984dcf6b8717196ff5b7d4da7641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 21/73] fix: update the Cholesky factor when a hotstart changes
 the working set of a simply bounded QP

---
 src/QProblemB.cpp | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index ce9d6c7..bc2cfdf 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3585,17 +3585,6 @@ returnValue QProblemB::addBound(	int_t number, SubjectToStatus B_status,
 		return THROWERROR( RET_UNKNOWN_BUG );
 	}
 
-	/* Perform cholesky updates only if QProblemB has been initialised! */
-	if ( getStatus( ) == QPS_PREPARINGAUXILIARYQP )
-	{
-		/* UPDATE INDICES */
-		if ( bounds.moveFreeToFixed( number,B_status ) != SUCCESSFUL_RETURN )
-			return THROWERROR( RET_ADDBOUND_FAILED );
-
-		return SUCCESSFUL_RETURN;
-	}
-
-
 	/* I) PERFORM CHOLESKY UPDATE: */
 	if ( ( updateCholesky == BT_TRUE ) &&
 		 ( hessianType != HST_ZERO )   && ( hessianType != HST_IDENTITY ) )
@@ -3664,10 +3653,6 @@ returnValue QProblemB::removeBound(	int_t number,
 	if ( bounds.moveFixedToFree( number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_REMOVEBOUND_FAILED );
 
-	/* Perform cholesky updates only if QProblemB has been initialised! */
-	if ( getStatus( ) == QPS_PREPARINGAUXILIARYQP )
-		return SUCCESSFUL_RETURN;
-
 
 	/* II) PERFORM CHOLESKY UPDATE */
 	if ( ( updateCholesky == BT_TRUE ) &&
-- 
2.43.0


From 1730a3cc8b4c74293750b6b5494cdba39f26b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 22/73] fix: take the shortcut for working sets of bounds only
 if the working set is set up afresh

---
 src/QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 31e3358..860c866 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2520,7 +2520,7 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 			break;
 		}
 
-	if (WSisTrivial == BT_TRUE)
+	if ( ( WSisTrivial == BT_TRUE ) && ( setupAfresh == BT_TRUE ) )
 	{
 		for (i = 0; i < nV; i++)
 			if (bounds.getStatus(i) == ST_INACTIVE)
-- 
2.43.0


From 21f296947481efd32522607644a246c3623bae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 23/73] fix: do not try to regularise a new identity Hessian
 after a regularised one

---
 src/SQProblem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index fb65807..0cec455 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -401,12 +401,13 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 		/* b) Regularise new Hessian if necessary. */
+		BooleanType wasRegularised = usingRegularisation( );
+		regVal = 0.0; /* reset previous regularisation */
+
 		if ( ( hessianType == HST_ZERO ) ||
 			 ( hessianType == HST_SEMIDEF ) ||
-			 ( usingRegularisation( ) == BT_TRUE ) )
+			 ( ( wasRegularised == BT_TRUE ) && ( hessianType != HST_IDENTITY ) ) )
 		{
-			regVal = 0.0; /* reset previous regularisation */
-
 			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 		}
-- 
2.43.0


From 43ba0f727e924297dfc25f1910d63d04dd9c5907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 24/73] fix: drop multipliers not fitting to the working set
 when QP matrices change

---
 src/SQProblem.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 0cec455..426c82b 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -420,10 +420,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
 	}
 
-	/* 3) Setup QP gradient. */
-	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
 
 	/* II) SETUP WORKING SETS AND MATRIX FACTORISATIONS: */
 	/* 1) Make a copy of current bounds/constraints ... */
@@ -510,6 +506,27 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
         setupAuxiliaryQPbounds( &bounds, &constraints, BT_FALSE );
 	}
 
+	/* 4) Setup QP gradient after dropping all multipliers that do not fit to
+	 *    the working set (e.g. as it changed due to linear dependence). */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) ) || ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) ) ) ) )
+			y[i] = 0.0;
+	}
+
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getType( i ) != ST_EQUALITY ) &&
+			   ( ( ( constraints.getStatus( i ) == ST_LOWER ) && ( y[nV+i] < 0.0 ) ) || ( ( constraints.getStatus( i ) == ST_UPPER ) && ( y[nV+i] > 0.0 ) ) ) ) )
+			y[nV+i] = 0.0;
+	}
+
+	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
 	status = QPS_AUXILIARYQPSOLVED;
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From 6848500bef6731b9c7d2249050e50b1cd3980313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 25/73] fix: report an error if a data file ends before all
 values are read

---
 src/Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index f8e142d..728c893 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -294,9 +294,9 @@ returnValue readFromFile(	real_t* data, int_t nrow, int_t ncol,
 		for( j=0; j<ncol; ++j )
 		{
 			#ifdef __USE_SINGLE_PRECISION__
-			if ( fscanf( datafile, "%f ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%f ", &float_data ) != 1 )
 			#else
-			if ( fscanf( datafile, "%lf ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%lf ", &float_data ) != 1 )
 			#endif /* __USE_SINGLE_PRECISION__ */
 			{
 				fclose( datafile );
@@ -357,9 +357,9 @@ returnValue readFromFile(	int_t* data, int_t n,
 	for( i=0; i<n; ++i )
 	{
 		#ifdef __USE_LONG_INTEGERS__
-		if ( fscanf( datafile, "%ld\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%ld\n", &(data[i]) ) != 1 )
 		#else
-		if ( fscanf( datafile, "%d\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%d\n", &(data[i]) ) != 1 )
 		#endif
 		{
 			fclose( datafile );
-- 
2.43.0


From 5b47f3aafe083350b21d0a4ba450b531a6be7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 26/73] fix: report an error if writing a data file fails

---
 src/Utils.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 728c893..1c8eca6 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -426,7 +426,13 @@ returnValue writeIntoFile(	const real_t* const data, int_t nrow, int_t ncol,
 	}
 
 	/* 3) Close file. */
-	fclose( datafile );
+	int hasFailed = ferror( datafile );
+	if ( ( fclose( datafile ) != 0 ) || ( hasFailed != 0 ) )
+	{
+		char errstr[MAX_STRING_LENGTH];
+		snprintf( errstr,MAX_STRING_LENGTH,"(%s)",datafilename );
+		return getGlobalMessageHandler( )->throwError( RET_UNABLE_TO_WRITE_FILE,errstr,__FUNC__,__FILE__,__LINE__,VS_VISIBLE );
+	}
 
 	return SUCCESSFUL_RETURN;
 
@@ -489,7 +495,13 @@ returnValue writeIntoFile(	const int_t* const integer, int_t n,
 		fprintf( datafile, "%d\n",(int)(integer[i]) );
 
 	/* 3) Close file. */
-	fclose( datafile );
+	int hasFailed = ferror( datafile );
+	if ( ( fclose( datafile ) != 0 ) || ( hasFailed != 0 ) )
+	{
+		char errstr[MAX_STRING_LENGTH];
+		snprintf( errstr,MAX_STRING_LENGTH,"(%s)",datafilename );
+		return getGlobalMessageHandler( )->throwError( RET_UNABLE_TO_WRITE_FILE,errstr,__FUNC__,__FILE__,__LINE__,VS_VISIBLE );
+	}
 
 	return SUCCESSFUL_RETURN;
 
-- 
2.43.0


From 9e7c595abe4293febab00a5348f2329d46ab5588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 27/73] fix: write long integers into files without truncating
 them

---
 src/Utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 1c8eca6..5ac0fab 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -492,7 +492,13 @@ returnValue writeIntoFile(	const int_t* const integer, int_t n,
 
 	/* 2) Write data into file. */
 	for( i=0; i<n; ++i )
-		fprintf( datafile, "%d\n",(int)(integer[i]) );
+	{
+		#ifdef __USE_LONG_INTEGERS__
+		fprintf( datafile, "%ld\n",integer[i] );
+		#else
+		fprintf( datafile, "%d\n",integer[i] );
+		#endif
+	}
 
 	/* 3) Close file. */
 	int hasFailed = ferror( datafile );
-- 
2.43.0


From 8156cb72cfb962b296b28dda122bca420863419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 28/73] fix: use 32-bit header fields in MAT-files as required
 by the file format

---
 include/qpOASES/Types.hpp | 696 +++++++++++++++++++-------------------
 src/Utils.cpp             |   6 +-
 2 files changed, 351 insertions(+), 351 deletions(-)

diff --git a/include/qpOASES/Types.hpp b/include/qpOASES/Types.hpp
index d47e4d5..f7c8632 100644
--- a/include/qpOASES/Types.hpp
+++ b/include/qpOASES/Types.hpp
@@ -1,348 +1,348 @@
-/*
- *	This file is part of qpOASES.
- *
- *	qpOASES -- An Implementation of the Online Active Set Strategy.
- *	Copyright (C) 2007-2017 by Hans Joachim Ferreau, Andreas Potschka,
- *	Christian Kirches et al. All rights reserved.
- *
- *	qpOASES is free software; you can redistribute it and/or
- *	modify it under the terms of the GNU Lesser General Public
- *	License as published by the Free Software Foundation; either
- *	version 2.1 of the License, or (at your option) any later version.
- *
- *	qpOASES is distributed in the hope that it will be useful,
- *	but WITHOUT ANY WARRANTY; without even the implied warranty of
- *	MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.
- *	See the GNU Lesser General Public License for more details.
- *
- *	You should have received a copy of the GNU Lesser General Public
- *	License along with qpOASES; if not, write to the Free Software
- *	Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301  USA
- *
- */
-
-
-/**
- *	\file include/qpOASES/Types.hpp
- *	\author Hans Joachim Ferreau, Andreas Potschka, Christian Kirches
- *	\version 3.2
- *	\date 2007-2017
- *
- *	Declaration of all non-built-in types (except for classes).
- */
-
-
-#ifndef QPOASES_TYPES_HPP
-#define QPOASES_TYPES_HPP
-
-
-/* If your compiler does not support the snprintf() function,
- * uncomment the following line and try to compile again. */
-/* #define __NO_SNPRINTF__ */
-
-
-/* Uncomment the following line for setting the __DSPACE__ flag. */
-/* #define __DSPACE__ */
-
-/* Uncomment the following line for setting the __XPCTARGET__ flag. */
-/* #define __XPCTARGET__ */
-
-
-/* Uncomment the following line for setting the __NO_FMATH__ flag. */
-/* #define __NO_FMATH__ */
-
-/* Uncomment the following line to enable debug information. */
-/* #define __DEBUG__ */
-
-/* Uncomment the following line to enable suppress any kind of console output. */
-/* #define __SUPPRESSANYOUTPUT__ */
-
-
-/** Forces to always include all implicitly fixed bounds and all equality constraints
- *  into the initial working set when setting up an auxiliary QP. */
-#define __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
-
-
-/* Uncomment the following line to activate the use of an alternative Givens
- * plane rotation requiring only three multiplications. */
-/* #define __USE_THREE_MULTS_GIVENS__ */
-
-/* Uncomment the following line to activate the use of single precision arithmetic. */
-/* #define __USE_SINGLE_PRECISION__ */
-
-
-
-/* Work-around for Borland BCC 5.5 compiler. */
-#ifdef __BORLANDC__
-#if __BORLANDC__ < 0x0561
-  #define __STDC__ 1
-#endif
-#endif
-
-
-/* Work-around for Microsoft compilers. */
-#ifdef _MSC_VER
-  #define __NO_SNPRINTF__
-  #pragma warning( disable : 4061 4100 4250 4514 4996 )
-#endif
-
-
-#ifdef __DSPACE__
-
-	/** Macro for switching on/off the beginning of the qpOASES namespace definition. */
-	#define BEGIN_NAMESPACE_QPOASES
-
-	/** Macro for switching on/off the end of the qpOASES namespace definition. */
-	#define END_NAMESPACE_QPOASES
-
-	/** Macro for switching on/off the use of the qpOASES namespace. */
-	#define USING_NAMESPACE_QPOASES
-
-	/** Macro for switching on/off references to the qpOASES namespace. */
-	#define REFER_NAMESPACE_QPOASES ::
-
-#else
-
-	/** Macro for switching on/off the beginning of the qpOASES namespace definition. */
-	#define BEGIN_NAMESPACE_QPOASES  namespace qpOASES {
-
-	/** Macro for switching on/off the end of the qpOASES namespace definition. */
-	#define END_NAMESPACE_QPOASES    }
-
-	/** Macro for switching on/off the use of the qpOASES namespace. */
-	#define USING_NAMESPACE_QPOASES  using namespace qpOASES;
-
-	/** Macro for switching on/off references to the qpOASES namespace. */
-	#define REFER_NAMESPACE_QPOASES  qpOASES::
-
-#endif
-
-
-/* Avoid any printing on embedded platforms. */
-#if defined(__DSPACE__) || defined(__XPCTARGET__)
-  #define __SUPPRESSANYOUTPUT__
-  #define __NO_SNPRINTF__
-#endif
-
-
-#ifdef __NO_SNPRINTF__
-  #if (!defined(_MSC_VER)) || defined(__DSPACE__) || defined(__XPCTARGET__)
-    /* If snprintf is not available, provide an empty implementation... */
-    int snprintf( char* s, size_t n, const char* format, ... );
-  #else
-	/* ... or substitute snprintf by _snprintf for Microsoft compilers. */
-    #define snprintf _snprintf
-  #endif
-#endif /* __NO_SNPRINTF__ */
-
-
-
-/** Macro for accessing the Cholesky factor R. */
-#define RR( I,J )  R[(I)+nV*(J)]
-
-/** Macro for accessing the orthonormal matrix Q of the QT factorisation. */
-#define QQ( I,J )  Q[(I)+nV*(J)]
-
-/** Macro for accessing the triangular matrix T of the QT factorisation. */
-#define TT( I,J )  T[(I)*sizeT+(J)]
-
-
-/* If neither MA57 nor MA27 are selected, activate the dummy solver */
-#if !defined(SOLVER_MA27) && !defined(SOLVER_MA57) && !defined(SOLVER_NONE)
-#define SOLVER_NONE
-#endif
-
-
-/**
- * Defined integer type for calling BLAS/LAPACK. Should usually be
- * "(unsigned) int", currently set to "(unsigned) long" for backwards
- * compatibility. This will change in a future release.
- */
-typedef long la_int_t;
-typedef unsigned long la_uint_t;
-
-
-BEGIN_NAMESPACE_QPOASES
-
-/** Defines real_t for facilitating switching between double and float. */
-#ifdef __USE_SINGLE_PRECISION__
-typedef float real_t;
-#else
-typedef double real_t;
-#endif /* __USE_SINGLE_PRECISION__ */
-
-
-/** Defines int_t for facilitating switching between int and long int. */
-#ifdef __USE_LONG_INTEGERS__
-typedef long int_t;
-typedef unsigned long uint_t;
-#else
-typedef int int_t;
-typedef unsigned int uint_t;
-#endif /* __USE_LONG_INTEGERS__ */
-
-
-/** Defines FORTRAN integer type. Might be platform dependent! */
-#ifdef __USE_LONG_FINTS__
-typedef long fint_t;
-#else
-typedef int fint_t;
-#endif /* __USE_LONG_FINTS__ */
-
-
-/**
- * Integer type for sparse matrix row/column entries. Make this "int"
- * for 32 bit entries, and "long" for 64-bit entries on x86_64 platform.
- *
- * Most sparse codes still assume 32-bit entries here (HSL, BQPD, ...)
- */
-typedef int_t sparse_int_t;
-
-
-/** Summarises all possible logical values. */
-enum BooleanType
-{
-	BT_FALSE,					/**< Logical value for "false". */
-	BT_TRUE						/**< Logical value for "true". */
-};
-
-
-/** Summarises all possible print levels. Print levels are used to describe
- *	the desired amount of output during runtime of qpOASES. */
-enum PrintLevel
-{
-	PL_DEBUG_ITER = -2,			/**< Full tabular debugging output. */
-	PL_TABULAR,					/**< Normal tabular output. */
-	PL_NONE,					/**< No output. */
-	PL_LOW,						/**< Print error messages only. */
-	PL_MEDIUM,					/**< Print error and warning messages as well as concise info messages. */
-	PL_HIGH						/**< Print all messages with full details. */
-};
-
-
-/** Defines visibility status of a message. */
-enum VisibilityStatus
-{
-	VS_HIDDEN,					/**< Message not visible. */
-	VS_VISIBLE					/**< Message visible. */
-};
-
-
-/** Summarises all possible states of the (S)QProblem(B) object during the
-solution process of a QP sequence. */
-enum QProblemStatus
-{
-	QPS_NOTINITIALISED,			/**< QProblem object is freshly instantiated or reset. */
-	QPS_PREPARINGAUXILIARYQP,	/**< An auxiliary problem is currently setup, either at the very beginning
-								 *   via an initial homotopy or after changing the QP matrices. */
-	QPS_AUXILIARYQPSOLVED,		/**< An auxilary problem was solved, either at the very beginning
-								 *   via an initial homotopy or after changing the QP matrices. */
-	QPS_PERFORMINGHOMOTOPY,		/**< A homotopy according to the main idea of the online active
-								 *   set strategy is performed. */
-	QPS_HOMOTOPYQPSOLVED,		/**< An intermediate QP along the homotopy path was solved. */
-	QPS_SOLVED					/**< The solution of the actual QP was found. */
-};
-
-
-/** Summarises all possible types of the QP's Hessian matrix. */
-enum HessianType
-{
-	HST_ZERO,				/**< Hessian is zero matrix (i.e. LP formulation). */
-	HST_IDENTITY,			/**< Hessian is identity matrix. */
-	HST_POSDEF,				/**< Hessian is (strictly) positive definite. */
-	HST_POSDEF_NULLSPACE,	/**< Hessian is positive definite on null space of active bounds/constraints. */
-	HST_SEMIDEF,			/**< Hessian is positive semi-definite. */
-	HST_INDEF,				/**< Hessian is indefinite. */
-	HST_UNKNOWN				/**< Hessian type is unknown. */
-};
-
-
-/** Summarises all possible types of bounds and constraints. */
-enum SubjectToType
-{
-	ST_UNBOUNDED,		/**< Bound/constraint is unbounded. */
-	ST_BOUNDED,			/**< Bound/constraint is bounded but not fixed. */
-	ST_EQUALITY,		/**< Bound/constraint is fixed (implicit equality bound/constraint). */
-	ST_DISABLED,		/**< Bound/constraint is disabled (i.e. ignored when solving QP). */
-	ST_UNKNOWN			/**< Type of bound/constraint unknown. */
-};
-
-
-/** Summarises all possible states of bounds and constraints. */
-enum SubjectToStatus
-{
-	ST_LOWER = -1,			/**< Bound/constraint is at its lower bound. */
-	ST_INACTIVE,			/**< Bound/constraint is inactive. */
-	ST_UPPER,				/**< Bound/constraint is at its upper bound. */
-	ST_INFEASIBLE_LOWER,	/**< (to be documented) */
-	ST_INFEASIBLE_UPPER,	/**< (to be documented) */
-	ST_UNDEFINED			/**< Status of bound/constraint undefined. */
-};
-
-/** Flag indicating which type of update generated column in Schur complement. */
-enum SchurUpdateType
-{
-	SUT_VarFixed,			/**< Free variable gets fixed. */
-	SUT_VarFreed,			/**< Fixed variable gets freed. */
-	SUT_ConAdded,			/**< Constraint becomes active. */
-	SUT_ConRemoved,			/**< Constraint becomes inactive. */
-	SUT_UNDEFINED			/**< Type of Schur update is undefined. */
-};
-
-/**
- *	\brief Stores internal information for tabular (debugging) output.
- *
- *	Struct storing internal information for tabular (debugging) output
- *	when using the (S)QProblem(B) objects.
- *
- *	\author Hans Joachim Ferreau
- *	\version 3.2
- *	\date 2013-2017
- */
-struct TabularOutput {
-	int_t idxAddB;		/**< Index of bound that has been added to working set. */
-	int_t idxRemB;		/**< Index of bound that has been removed from working set. */
-	int_t idxAddC;		/**< Index of constraint that has been added to working set. */
-	int_t idxRemC;		/**< Index of constraint that has been removed from working set. */
-	int_t excAddB;		/**< Flag indicating whether a bound has been added to working set to keep a regular projected Hessian. */
-	int_t excRemB;		/**< Flag indicating whether a bound has been removed from working set to keep a regular projected Hessian. */
-	int_t excAddC;		/**< Flag indicating whether a constraint has been added to working set to keep a regular projected Hessian. */
-	int_t excRemC;		/**< Flag indicating whether a constraint has been removed from working set to keep a regular projected Hessian. */
-};
-
-
-
-/**
- *	\brief Struct containing the variable header for mat file.
- *
- *	Struct storing the header of a variable to be stored in
- *	Matlab's binary format (using the outdated Level 4 variant
- *  for simplictiy).
- *
- *  Note, this code snippet has been inspired from the document
- *  "Matlab(R) MAT-file Format, R2013b" by MathWorks
- *
- *	\author Hans Joachim Ferreau
- *	\version 3.2
- *	\date 2013-2017
- */
-typedef struct {
-	long numericFormat;		/**< Flag indicating numerical format. */
-	long nRows;				/**< Number of rows. */
-	long nCols;				/**< Number of rows. */
-	long imaginaryPart;		/**< (to be documented) */
-	long nCharName;			/**< Number of character in name. */
-} MatMatrixHeader;
-
-
-
-
-END_NAMESPACE_QPOASES
-
-
-#endif	/* QPOASES_TYPES_HPP */
-
-
-/*
- *	end of file
- */
+/*
+ *	This file is part of qpOASES.
+ *
+ *	qpOASES -- An Implementation of the Online Active Set Strategy.
+ *	Copyright (C) 2007-2017 by Hans Joachim Ferreau, Andreas Potschka,
+ *	Christian Kirches et al. All rights reserved.
+ *
+ *	qpOASES is free software; you can redistribute it and/or
+ *	modify it under the terms of the GNU Lesser General Public
+ *	License as published by the Free Software Foundation; either
+ *	version 2.1 of the License, or (at your option) any later version.
+ *
+ *	qpOASES is distributed in the hope that it will be useful,
+ *	but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *	MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.
+ *	See the GNU Lesser General Public License for more details.
+ *
+ *	You should have received a copy of the GNU Lesser General Public
+ *	License along with qpOASES; if not, write to the Free Software
+ *	Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301  USA
+ *
+ */
+
+
+/**
+ *	\file include/qpOASES/Types.hpp
+ *	\author Hans Joachim Ferreau, Andreas Potschka, Christian Kirches
+ *	\version 3.2
+ *	\date 2007-2017
+ *
+ *	Declaration of all non-built-in types (except for classes).
+ */
+
+
+#ifndef QPOASES_TYPES_HPP
+#define QPOASES_TYPES_HPP
+
+
+/* If your compiler does not support the snprintf() function,
+ * uncomment the following line and try to compile again. */
+/* #define __NO_SNPRINTF__ */
+
+
+/* Uncomment the following line for setting the __DSPACE__ flag. */
+/* #define __DSPACE__ */
+
+/* Uncomment the following line for setting the __XPCTARGET__ flag. */
+/* #define __XPCTARGET__ */
+
+
+/* Uncomment the following line for setting the __NO_FMATH__ flag. */
+/* #define __NO_FMATH__ */
+
+/* Uncomment the following line to enable debug information. */
+/* #define __DEBUG__ */
+
+/* Uncomment the following line to enable suppress any kind of console output. */
+/* #define __SUPPRESSANYOUTPUT__ */
+
+
+/** Forces to always include all implicitly fixed bounds and all equality constraints
+ *  into the initial working set when setting up an auxiliary QP. */
+#define __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
+
+
+/* Uncomment the following line to activate the use of an alternative Givens
+ * plane rotation requiring only three multiplications. */
+/* #define __USE_THREE_MULTS_GIVENS__ */
+
+/* Uncomment the following line to activate the use of single precision arithmetic. */
+/* #define __USE_SINGLE_PRECISION__ */
+
+
+
+/* Work-around for Borland BCC 5.5 compiler. */
+#ifdef __BORLANDC__
+#if __BORLANDC__ < 0x0561
+  #define __STDC__ 1
+#endif
+#endif
+
+
+/* Work-around for Microsoft compilers. */
+#ifdef _MSC_VER
+  #define __NO_SNPRINTF__
+  #pragma warning( disable : 4061 4100 4250 4514 4996 )
+#endif
+
+
+#ifdef __DSPACE__
+
+	/** Macro for switching on/off the beginning of the qpOASES namespace definition. */
+	#define BEGIN_NAMESPACE_QPOASES
+
+	/** Macro for switching on/off the end of the qpOASES namespace definition. */
+	#define END_NAMESPACE_QPOASES
+
+	/** Macro for switching on/off the use of the qpOASES namespace. */
+	#define USING_NAMESPACE_QPOASES
+
+	/** Macro for switching on/off references to the qpOASES namespace. */
+	#define REFER_NAMESPACE_QPOASES ::
+
+#else
+
+	/** Macro for switching on/off the beginning of the qpOASES namespace definition. */
+	#define BEGIN_NAMESPACE_QPOASES  namespace qpOASES {
+
+	/** Macro for switching on/off the end of the qpOASES namespace definition. */
+	#define END_NAMESPACE_QPOASES    }
+
+	/** Macro for switching on/off the use of the qpOASES namespace. */
+	#define USING_NAMESPACE_QPOASES  using namespace qpOASES;
+
+	/** Macro for switching on/off references to the qpOASES namespace. */
+	#define REFER_NAMESPACE_QPOASES  qpOASES::
+
+#endif
+
+
+/* Avoid any printing on embedded platforms. */
+#if defined(__DSPACE__) || defined(__XPCTARGET__)
+  #define __SUPPRESSANYOUTPUT__
+  #define __NO_SNPRINTF__
+#endif
+
+
+#ifdef __NO_SNPRINTF__
+  #if (!defined(_MSC_VER)) || defined(__DSPACE__) || defined(__XPCTARGET__)
+    /* If snprintf is not available, provide an empty implementation... */
+    int snprintf( char* s, size_t n, const char* format, ... );
+  #else
+	/* ... or substitute snprintf by _snprintf for Microsoft compilers. */
+    #define snprintf _snprintf
+  #endif
+#endif /* __NO_SNPRINTF__ */
+
+
+
+/** Macro for accessing the Cholesky factor R. */
+#define RR( I,J )  R[(I)+nV*(J)]
+
+/** Macro for accessing the orthonormal matrix Q of the QT factorisation. */
+#define QQ( I,J )  Q[(I)+nV*(J)]
+
+/** Macro for accessing the triangular matrix T of the QT factorisation. */
+#define TT( I,J )  T[(I)*sizeT+(J)]
+
+
+/* If neither MA57 nor MA27 are selected, activate the dummy solver */
+#if !defined(SOLVER_MA27) && !defined(SOLVER_MA57) && !defined(SOLVER_NONE)
+#define SOLVER_NONE
+#endif
+
+
+/**
+ * Defined integer type for calling BLAS/LAPACK. Should usually be
+ * "(unsigned) int", currently set to "(unsigned) long" for backwards
+ * compatibility. This will change in a future release.
+ */
+typedef long la_int_t;
+typedef unsigned long la_uint_t;
+
+
+BEGIN_NAMESPACE_QPOASES
+
+/** Defines real_t for facilitating switching between double and float. */
+#ifdef __USE_SINGLE_PRECISION__
+typedef float real_t;
+#else
+typedef double real_t;
+#endif /* __USE_SINGLE_PRECISION__ */
+
+
+/** Defines int_t for facilitating switching between int and long int. */
+#ifdef __USE_LONG_INTEGERS__
+typedef long int_t;
+typedef unsigned long uint_t;
+#else
+typedef int int_t;
+typedef unsigned int uint_t;
+#endif /* __USE_LONG_INTEGERS__ */
+
+
+/** Defines FORTRAN integer type. Might be platform dependent! */
+#ifdef __USE_LONG_FINTS__
+typedef long fint_t;
+#else
+typedef int fint_t;
+#endif /* __USE_LONG_FINTS__ */
+
+
+/**
+ * Integer type for sparse matrix row/column entries. Make this "int"
+ * for 32 bit entries, and "long" for 64-bit entries on x86_64 platform.
+ *
+ * Most sparse codes still assume 32-bit entries here (HSL, BQPD, ...)
+ */
+typedef int_t sparse_int_t;
+
+
+/** Summarises all possible logical values. */
+enum BooleanType
+{
+	BT_FALSE,					/**< Logical value for "false". */
+	BT_TRUE						/**< Logical value for "true". */
+};
+
+
+/** Summarises all possible print levels. Print levels are used to describe
+ *	the desired amount of output during runtime of qpOASES. */
+enum PrintLevel
+{
+	PL_DEBUG_ITER = -2,			/**< Full tabular debugging output. */
+	PL_TABULAR,					/**< Normal tabular output. */
+	PL_NONE,					/**< No output. */
+	PL_LOW,						/**< Print error messages only. */
+	PL_MEDIUM,					/**< Print error and warning messages as well as concise info messages. */
+	PL_HIGH						/**< Print all messages with full details. */
+};
+
+
+/** Defines visibility status of a message. */
+enum VisibilityStatus
+{
+	VS_HIDDEN,					/**< Message not visible. */
+	VS_VISIBLE					/**< Message visible. */
+};
+
+
+/** Summarises all possible states of the (S)QProblem(B) object during the
+solution process of a QP sequence. */
+enum QProblemStatus
+{
+	QPS_NOTINITIALISED,			/**< QProblem object is freshly instantiated or reset. */
+	QPS_PREPARINGAUXILIARYQP,	/**< An auxiliary problem is currently setup, either at the very beginning
+								 *   via an initial homotopy or after changing the QP matrices. */
+	QPS_AUXILIARYQPSOLVED,		/**< An auxilary problem was solved, either at the very beginning
+								 *   via an initial homotopy or after changing the QP matrices. */
+	QPS_PERFORMINGHOMOTOPY,		/**< A homotopy according to the main idea of the online active
+								 *   set strategy is performed. */
+	QPS_HOMOTOPYQPSOLVED,		/**< An intermediate QP along the homotopy path was solved. */
+	QPS_SOLVED					/**< The solution of the actual QP was found. */
+};
+
+
+/** Summarises all possible types of the QP's Hessian matrix. */
+enum HessianType
+{
+	HST_ZERO,				/**< Hessian is zero matrix (i.e. LP formulation). */
+	HST_IDENTITY,			/**< Hessian is identity matrix. */
+	HST_POSDEF,				/**< Hessian is (strictly) positive definite. */
+	HST_POSDEF_NULLSPACE,	/**< Hessian is positive definite on null space of active bounds/constraints. */
+	HST_SEMIDEF,			/**< Hessian is positive semi-definite. */
+	HST_INDEF,				/**< Hessian is indefinite. */
+	HST_UNKNOWN				/**< Hessian type is unknown. */
+};
+
+
+/** Summarises all possible types of bounds and constraints. */
+enum SubjectToType
+{
+	ST_UNBOUNDED,		/**< Bound/constraint is unbounded. */
+	ST_BOUNDED,			/**< Bound/constraint is bounded but not fixed. */
+	ST_EQUALITY,		/**< Bound/constraint is fixed (implicit equality bound/constraint). */
+	ST_DISABLED,		/**< Bound/constraint is disabled (i.e. ignored when solving QP). */
+	ST_UNKNOWN			/**< Type of bound/constraint unknown. */
+};
+
+
+/** Summarises all possible states of bounds and constraints. */
+enum SubjectToStatus
+{
+	ST_LOWER = -1,			/**< Bound/constraint is at its lower bound. */
+	ST_INACTIVE,			/**< Bound/constraint is inactive. */
+	ST_UPPER,				/**< Bound/constraint is at its upper bound. */
+	ST_INFEASIBLE_LOWER,	/**< (to be documented) */
+	ST_INFEASIBLE_UPPER,	/**< (to be documented) */
+	ST_UNDEFINED			/**< Status of bound/constraint undefined. */
+};
+
+/** Flag indicating which type of update generated column in Schur complement. */
+enum SchurUpdateType
+{
+	SUT_VarFixed,			/**< Free variable gets fixed. */
+	SUT_VarFreed,			/**< Fixed variable gets freed. */
+	SUT_ConAdded,			/**< Constraint becomes active. */
+	SUT_ConRemoved,			/**< Constraint becomes inactive. */
+	SUT_UNDEFINED			/**< Type of Schur update is undefined. */
+};
+
+/**
+ *	\brief Stores internal information for tabular (debugging) output.
+ *
+ *	Struct storing internal information for tabular (debugging) output
+ *	when using the (S)QProblem(B) objects.
+ *
+ *	\author Hans Joachim Ferreau
+ *	\version 3.2
+ *	\date 2013-2017
+ */
+struct TabularOutput {
+	int_t idxAddB;		/**< Index of bound that has been added to working set. */
+	int_t idxRemB;		/**< Index of bound that has been removed from working set. */
+	int_t idxAddC;		/**< Index of constraint that has been added to working set. */
+	int_t idxRemC;		/**< Index of constraint that has been removed from working set. */
+	int_t excAddB;		/**< Flag indicating whether a bound has been added to working set to keep a regular projected Hessian. */
+	int_t excRemB;		/**< Flag indicating whether a bound has been removed from working set to keep a regular projected Hessian. */
+	int_t excAddC;		/**< Flag indicating whether a constraint has been added to working set to keep a regular projected Hessian. */
+	int_t excRemC;		/**< Flag indicating whether a constraint has been removed from working set to keep a regular projected Hessian. */
+};
+
+
+
+/**
+ *	\brief Struct containing the variable header for mat file.
+ *
+ *	Struct storing the header of a variable to be stored in
+ *	Matlab's binary format (using the outdated Level 4 variant
+ *  for simplictiy). All members are 32-bit integers in this format.
+ *
+ *  Note, this code snippet has been inspired from the document
+ *  "Matlab(R) MAT-file Format, R2013b" by MathWorks
+ *
+ *	\author Hans Joachim Ferreau
+ *	\version 3.2
+ *	\date 2013-2017
+ */
+typedef struct {
+	int numericFormat;		/**< Flag indicating numerical format. */
+	int nRows;				/**< Number of rows. */
+	int nCols;				/**< Number of rows. */
+	int imaginaryPart;		/**< (to be documented) */
+	int nCharName;			/**< Number of character in name. */
+} MatMatrixHeader;
+
+
+
+
+END_NAMESPACE_QPOASES
+
+
+#endif	/* QPOASES_TYPES_HPP */
+
+
+/*
+ *	end of file
+ */
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 5ac0fab..768de07 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -538,10 +538,10 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 
 	// setup variable header
 	var.numericFormat = 0000;  /* IEEE Little Endian - reserved - double precision (64 bits) - numeric full matrix */
-	var.nRows         = nRows; /* number of rows */
-	var.nCols         = nCols; /* number of columns */
+	var.nRows         = (int)nRows; /* number of rows */
+	var.nCols         = (int)nCols; /* number of columns */
 	var.imaginaryPart = 0;     /* no imaginary part */
-	var.nCharName     = (long)(strlen(name))+1; /* matrix name length */
+	var.nCharName     = (int)(strlen(name))+1; /* matrix name length */
 
 	/* write variable header to mat file */
 	if ( fwrite( &var, sizeof(MatMatrixHeader),1,  matFile ) < 1 )
-- 
2.43.0


From bb3efedd6a6dcf854a27d1b48de4fb48047c681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 29/73] fix: write trivial matrices into MAT-files and report
 write errors

---
 src/QProblem.cpp | 82 ++++++++++++++++++++++++++++++++++--------------
 src/Utils.cpp    |  5 ++-
 2 files changed, 63 insertions(+), 24 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 860c866..75f9b39 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6504,24 +6504,49 @@ returnValue QProblem::writeQpDataIntoMatFile(	const char* const filename
 	int_t nV = getNV();
 	int_t nC = getNC();
 
-	real_t* Hfull = H->full();
-	writeIntoMatFile( matFile, Hfull, nV,nV, "H"   );
+	int_t i;
+	BooleanType hasFailed = BT_FALSE;
+
+	/* no Hessian matrix is stored for trivial Hessians */
+	real_t* Hfull;
+	if ( H != 0 )
+	{
+		Hfull = H->full();
+	}
+	else
+	{
+		Hfull = new real_t[nV*nV];
+		for( i=0; i<nV*nV; ++i )
+			Hfull[i] = 0.0;
+		if ( hessianType == HST_IDENTITY )
+			for( i=0; i<nV; ++i )
+				Hfull[i*nV+i] = 1.0;
+	}
+	if ( writeIntoMatFile( matFile, Hfull, nV,nV, "H"   ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
 	delete[] Hfull;
 
-	writeIntoMatFile( matFile, g,     nV,1,  "g"   );
+	if ( writeIntoMatFile( matFile, g,     nV,1,  "g"   ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+
+	if ( A != 0 )
+	{
+		real_t* Afull = A->full();
+		if ( writeIntoMatFile( matFile, Afull, nC,nV, "A"   ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+		delete[] Afull;
+	}
 
-	real_t* Afull = A->full();
-	writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
-	delete[] Afull;
+	if ( writeIntoMatFile( matFile, lb,    nV,1,  "lb"  ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+	if ( writeIntoMatFile( matFile, ub,    nV,1,  "ub"  ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
 
-	writeIntoMatFile( matFile, lb,    nV,1,  "lb"  );
-	writeIntoMatFile( matFile, ub,    nV,1,  "ub"  );
-	writeIntoMatFile( matFile, lbA,   nC,1,  "lbA" );
-	writeIntoMatFile( matFile, ubA,   nC,1,  "ubA" );
+	if ( nC > 0 )
+	{
+		if ( writeIntoMatFile( matFile, lbA,   nC,1,  "lbA" ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+		if ( writeIntoMatFile( matFile, ubA,   nC,1,  "ubA" ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+	}
 
-	fclose( matFile );
+	if ( fclose( matFile ) != 0 )
+		hasFailed = BT_TRUE;
 
-	return SUCCESSFUL_RETURN;
+	return ( hasFailed == BT_TRUE ) ? RET_UNABLE_TO_WRITE_FILE : SUCCESSFUL_RETURN;
 
 	#else /* __SUPPRESSANYOUTPUT__ */
 
@@ -6553,12 +6578,19 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 	int_t nIAC = getNIAC();
 
 
-	writeIntoMatFile( matFile, T, sizeT,sizeT, "T" );
-	writeIntoMatFile( matFile, Q, nV,nV, "Q" );
+	BooleanType hasFailed = BT_FALSE;
 
-	writeIntoMatFile( matFile, Ax, nC,1, "Ax" );
-	writeIntoMatFile( matFile, Ax_l, nC,1, "Ax_l" );
-	writeIntoMatFile( matFile, Ax_u, nC,1, "Ax_u" );
+	if ( T != 0 )
+		if ( writeIntoMatFile( matFile, T, sizeT,sizeT, "T" ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+	if ( Q != 0 )
+		if ( writeIntoMatFile( matFile, Q, nV,nV, "Q" ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+
+	if ( nC > 0 )
+	{
+		if ( writeIntoMatFile( matFile, Ax, nC,1, "Ax" ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+		if ( writeIntoMatFile( matFile, Ax_l, nC,1, "Ax_l" ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+		if ( writeIntoMatFile( matFile, Ax_u, nC,1, "Ax_u" ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+	}
 
 
 	int_t *FR_idx, *FX_idx, *AC_idx, *IAC_idx;
@@ -6567,14 +6599,18 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 	constraints.getActive( )->getNumberArray( &AC_idx );
 	constraints.getInactive( )->getNumberArray( &IAC_idx );
 
-	writeIntoMatFile( matFile, FR_idx,  nFR, 1, "FR_idx"  );
-	writeIntoMatFile( matFile, FX_idx,  nFX, 1, "FX_idx"  );
-	writeIntoMatFile( matFile, AC_idx,  nAC, 1, "AC_idx"  );
-	writeIntoMatFile( matFile, IAC_idx, nIAC,1, "IAC_idx" );
+	if ( writeIntoMatFile( matFile, FR_idx,  nFR, 1, "FR_idx"  ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+	if ( writeIntoMatFile( matFile, FX_idx,  nFX, 1, "FX_idx"  ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+	if ( nC > 0 )
+	{
+		if ( writeIntoMatFile( matFile, AC_idx,  nAC, 1, "AC_idx"  ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+		if ( writeIntoMatFile( matFile, IAC_idx, nIAC,1, "IAC_idx" ) != SUCCESSFUL_RETURN ) hasFailed = BT_TRUE;
+	}
 
-	fclose( matFile );
+	if ( fclose( matFile ) != 0 )
+		hasFailed = BT_TRUE;
 
-	return SUCCESSFUL_RETURN;
+	return ( hasFailed == BT_TRUE ) ? RET_UNABLE_TO_WRITE_FILE : SUCCESSFUL_RETURN;
 
 	#else /* __SUPPRESSANYOUTPUT__ */
 
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 768de07..9e4b6fb 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -547,7 +547,7 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 	if ( fwrite( &var, sizeof(MatMatrixHeader),1,  matFile ) < 1 )
 		return RET_UNABLE_TO_WRITE_FILE;
 
-	if ( fwrite( name, sizeof(char),(unsigned long)(var.nCharName), matFile ) < 1 )
+	if ( fwrite( name, sizeof(char),(unsigned long)(var.nCharName), matFile ) < (unsigned long)(var.nCharName) )
 		return RET_UNABLE_TO_WRITE_FILE;
 
 	int_t ii, jj;
@@ -578,6 +578,9 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 								const int_t* const data, int_t nRows, int_t nCols, const char* name
 								)
 {
+	if ( ( matFile == 0 ) || ( data == 0 ) || ( nRows < 0 ) || ( nCols < 0 ) || ( name == 0 ) )
+		return RET_INVALID_ARGUMENTS;
+
 	real_t* realData = new real_t[nRows*nCols];
 
 	int_t ii, jj;
-- 
2.43.0


From cf743bbfc0013be3c9adec7ad54a3f6c0629e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 30/73] fix: keep matrices read from files alive as long as
 they are in use

---
 src/SQProblem.cpp | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 426c82b..6aa8d5b 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -222,7 +222,7 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 
 	/* 1) Load new QP matrices from files. */
 	real_t* H_new  = new real_t[nV*nV];
-	real_t* A_new  = new real_t[nC*nV];
+	real_t* A_new  = ( nC > 0 ) ? new real_t[nC*nV] : 0;
 
 	if ( readFromFile( H_new, nV,nV, H_file ) != SUCCESSFUL_RETURN )
 	{
@@ -231,11 +231,14 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	if ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN )
+	if ( nC > 0 )
 	{
-		delete[] A_new;
-		delete[] H_new;
-		return THROWERROR( RET_UNABLE_TO_READ_FILE );
+		if ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN )
+		{
+			delete[] A_new;
+			delete[] H_new;
+			return THROWERROR( RET_UNABLE_TO_READ_FILE );
+		}
 	}
 
 	/* 2) Load new QP vectors from files. */
@@ -266,11 +269,35 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	}
 
 	/* 3) Actually perform hotstart. */
-	returnvalue = hotstart(	H_new,g_new,A_new,lb_new,ub_new,lbA_new,ubA_new,
+	SymDenseMat* sH = new SymDenseMat( nV,nV,nV,H_new );
+	sH->doFreeMemory( );
+
+	DenseMatrix* dA = 0;
+	if ( nC > 0 )
+	{
+		dA = new DenseMatrix( nC,nV,nV,A_new );
+		dA->doFreeMemory( );
+	}
+
+	returnvalue = hotstart(	sH,g_new,dA,lb_new,ub_new,lbA_new,ubA_new,
 							nWSR,cputime,
 							guessedBounds,guessedConstraints
 							);
 
+	/* hand over ownership of matrix objects actually in use */
+	if ( H == sH )
+		freeHessian = BT_TRUE;
+	else
+		delete sH;
+
+	if ( dA != 0 )
+	{
+		if ( A == dA )
+			freeConstraintMatrix = BT_TRUE;
+		else
+			delete dA;
+	}
+
 	if ( ubA_file != 0 )
 		delete[] ubA_new;
 	if ( lbA_file != 0 )
@@ -280,8 +307,6 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	if ( lb_file != 0 )
 		delete[] lb_new;
 	delete[] g_new;
-	delete[] A_new;
-	delete[] H_new;
 
 	return returnvalue;
 }
-- 
2.43.0


From 2f14f081d5ce09f5b8021e4afd71428428b174cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 31/73] fix: multipliers of missing bounds violate the KKT
 conditions

---
 src/Utils.cpp | 52 ++++++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 9e4b6fb..ef8ecc5 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -712,15 +712,13 @@ returnValue getKktViolation(	int_t nV, int_t nC,
 		{
 			prod = 0.0;
 
-			/* lower bound */
-			if ( lb != 0 )
-				if (y[i] > dualActiveTolerance)
-					prod = (x[i] - lb[i]) * y[i];
+			/* lower bound (a missing one equals minus infinity) */
+			if (y[i] > dualActiveTolerance)
+				prod = (x[i] - ( ( lb != 0 ) ? lb[i] : -INFTY )) * y[i];
 
-			/* upper bound */
-			if ( ub != 0 )
-				if (y[i] < -dualActiveTolerance)
-					prod = (x[i] - ub[i]) * y[i];
+			/* upper bound (a missing one equals infinity) */
+			if (y[i] < -dualActiveTolerance)
+				prod = (x[i] - ( ( ub != 0 ) ? ub[i] : INFTY )) * y[i];
 
 			if (getAbs(prod) > cmpl) cmpl = getAbs(prod);
 		}
@@ -771,33 +769,27 @@ returnValue getKktViolation(	int_t nV, int_t nC,
 		prod = 0.0;
 
 		/* lower bound */
-		if ( lbA != 0 )
+		if ( workingSetC == 0 )
 		{
-			if ( workingSetC == 0 )
-			{
-				if (y[nV+i] > dualActiveTolerance)
-					prod = (sum - lbA[i]) * y[nV+i];
-			}
-			else
-			{
-				if ( isEqual(workingSetC[i],-1.0) == BT_TRUE )
-					prod = (sum - lbA[i]) * y[nV+i];
-			}
+			if (y[nV+i] > dualActiveTolerance)
+				prod = (sum - ( ( lbA != 0 ) ? lbA[i] : -INFTY )) * y[nV+i];
+		}
+		else
+		{
+			if ( ( lbA != 0 ) && ( isEqual(workingSetC[i],-1.0) == BT_TRUE ) )
+				prod = (sum - lbA[i]) * y[nV+i];
 		}
 
 		/* upper bound */
-		if ( ubA != 0 )
+		if ( workingSetC == 0 )
 		{
-			if ( workingSetC == 0 )
-			{
-				if (y[nV+i] < -dualActiveTolerance)
-					prod = (sum - ubA[i]) * y[nV+i];
-			}
-			else
-			{
-				if ( isEqual(workingSetC[i],1.0) == BT_TRUE )
-					prod = (sum - ubA[i]) * y[nV+i];
-			}
+			if (y[nV+i] < -dualActiveTolerance)
+				prod = (sum - ( ( ubA != 0 ) ? ubA[i] : INFTY )) * y[nV+i];
+		}
+		else
+		{
+			if ( ( ubA != 0 ) && ( isEqual(workingSetC[i],1.0) == BT_TRUE ) )
+				prod = (sum - ubA[i]) * y[nV+i];
 		}
 
 		if (getAbs(prod) > cmpl) cmpl = getAbs(prod);
-- 
2.43.0


From ab143a7d53ecb12e731f1ee01234168a13749a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 32/73] fix: KKT analysis of missing objects and of QPs without
 constraint matrix

---
 src/SolutionAnalysis.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 66d0fd1..01ddaa6 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -95,11 +95,12 @@ real_t SolutionAnalysis::getKktViolation(	QProblemB* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -168,12 +169,13 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
-	int_t nC = qp->getNC();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+	int_t nC = qp->getNC();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -195,7 +197,7 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 	}
 
 	/* setup constraint matrix array */
-	real_t* A_ptr = qp->A->full();
+	real_t* A_ptr = ( qp->A != 0 ) ? qp->A->full() : 0;
 
 	real_t* workingSetB = new real_t[nV];
 	qp->getWorkingSetBounds( workingSetB );
-- 
2.43.0


From 23e0faae873a6c57e300a33cdc1e57b1af8a8221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 33/73] fix: keep infinite constraint limits infinite when
 normalising constraints

---
 src/Utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index ef8ecc5..839a4d1 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -995,8 +995,9 @@ returnValue normaliseConstraints(	int_t nV, int_t nC,
 			for( jj=0; jj<nV; ++jj )
 				A[ii*nV + jj] /= curNorm;
 
-			if ( lbA != 0 ) lbA[ii] /= curNorm;
-			if ( ubA != 0 ) ubA[ii] /= curNorm;
+			/* infinite limits stay infinite */
+			if ( ( lbA != 0 ) && ( lbA[ii] > -INFTY ) ) lbA[ii] /= curNorm;
+			if ( ( ubA != 0 ) && ( ubA[ii] <  INFTY ) ) ubA[ii] /= curNorm;
 		}
 		else
 		{
-- 
2.43.0


From 1483634ddd825a7f53d5090e5bcc7ec4a9ae3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 34/73] fix: free the data read so far if reading an OQP
 benchmark fails

---
 src/OQPinterface.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index f63168a..b5538d4 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -170,9 +170,9 @@ returnValue readOqpData(	const char* path,
 	}
 	else
 	{
-		*A = 0;
-		*lbA = 0;
-		*ubA = 0;
+		if ( A != 0 )   *A = 0;
+		if ( lbA != 0 ) *lbA = 0;
+		if ( ubA != 0 ) *ubA = 0;
 	}
 
 	if ( xOpt != 0 )
@@ -182,7 +182,7 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sx_opt.oqp",path );
 		if ( readFromFile( *xOpt,nQP,nV,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] xOpt;
+			delete[] *xOpt;
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -196,8 +196,8 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sy_opt.oqp",path );
 		if ( readFromFile( *yOpt,nQP,nV+nC,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] yOpt;
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *yOpt;
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -211,9 +211,9 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sobj_opt.oqp",path );
 		if ( readFromFile( *objOpt,nQP,1,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] objOpt;
-			if ( yOpt != 0 ) { delete[] yOpt; };
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *objOpt;
+			if ( yOpt != 0 ) { delete[] *yOpt; };
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
-- 
2.43.0


From 87b9c6b4fa3db3a84229293fd847cae6c3a6a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 35/73] fix: reject sensitivity analysis of uninitialised
 QProblem objects

---
 src/SolutionAnalysis.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 01ddaa6..c92627f 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -279,6 +279,12 @@ returnValue SolutionAnalysis::getVarianceCovariance(	QProblem* qp,
 														const real_t* const g_b_bA_VAR, real_t* const Primal_Dual_VAR
 														) const
 {
+	/* consistency checks: working set and factorisations have to be set up */
+	if ( ( qp == 0 ) || ( g_b_bA_VAR == 0 ) || ( Primal_Dual_VAR == 0 ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( qp->isInitialised( ) == BT_FALSE )
+		return THROWERROR( RET_QP_NOT_SOLVED );
 
   /* DEFINITION OF THE DIMENSIONS nV AND nC:
    * --------------------------------------- */
-- 
2.43.0


From b9acc0562aaf5ad793073d7d88696fa5f09cc74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 36/73] fix: reject missing gradient in hotstart

---
 src/QProblem.cpp  | 2 ++
 src/QProblemB.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 75f9b39..d7e3977 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -462,6 +462,8 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( getStatus( ) == QPS_NOTINITIALISED )
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index bc2cfdf..a6c5b81 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -428,6 +428,8 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	if ( getStatus( ) == QPS_NOTINITIALISED )
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
-- 
2.43.0


From 78a94df82aa8082e4d57d4f14ef27d0b4fd25d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 37/73] fix: reject missing output arrays when querying
 solutions

---
 src/QProblem.cpp  | 3 +++
 src/QProblemB.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d7e3977..ab5ad6d 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -878,6 +878,9 @@ returnValue QProblem::getDualSolution( real_t* const yOpt ) const
 {
 	int_t i;
 
+	if ( yOpt == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	for( i=0; i<getNV( )+getNC( ); ++i )
 		yOpt[i] = y[i];
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index a6c5b81..5e97330 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -789,6 +789,9 @@ returnValue QProblemB::getPrimalSolution( real_t* const xOpt ) const
 {
 	int_t i;
 
+	if ( xOpt == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	/* return optimal primal solution vector
 	 * only if current QP has been solved */
 	if ( ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
@@ -814,6 +817,9 @@ returnValue QProblemB::getDualSolution( real_t* const yOpt ) const
 {
 	int_t i;
 
+	if ( yOpt == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	for( i=0; i<getNV( ); ++i )
 		yOpt[i] = y[i];
 
-- 
2.43.0


From c18a3960dfa6551d3f735b4edf45ba83511a9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 38/73] fix: refuse hotstart with missing matrices before
 changing the QP object

---
 src/SQProblem.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 6aa8d5b..f825ad4 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -110,6 +110,8 @@ returnValue SQProblem::hotstart(	SymmetricMatrix *H_new, const real_t* const g_n
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 	real_t starttime = 0.0;
 	real_t auxTime = 0.0;
@@ -164,6 +166,9 @@ returnValue SQProblem::hotstart(	const real_t* const H_new, const real_t* const
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	/* start runtime measurement */
 	real_t starttime = 0.0;
 	if ( cputime != 0 ) {
@@ -378,6 +383,13 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
 	}
 
+	/* consistency checks: nothing must be changed if matrices are missing */
+	if ( ( nC > 0 ) && ( A_new == 0 ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( ( H_new == 0 ) && ( H != 0 ) )
+		return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
+
 	status = QPS_PREPARINGAUXILIARYQP;
 
 
@@ -387,9 +399,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 	/*    Firstly, shift by -A'*x_opt and ... */
 	if ( nC > 0 )
 	{
-		if ( A_new == 0 )
-			return THROWERROR( RET_INVALID_ARGUMENTS );
-
 		for ( i=0; i<nC; ++i )
 		{
 			lbA[i] = -Ax_l[i];
@@ -437,13 +446,7 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 		}
 	}
-	else
-	{
-		/* if no Hessian is specified, keep previous trivial Hessian (HST_ZERO or HST_IDENTITY),
-		   otherwise abort */
-		if ( H != 0 )
-			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
-	}
+	/* (if no Hessian is specified, the previous trivial Hessian (HST_ZERO or HST_IDENTITY) is kept) */
 
 
 	/* II) SETUP WORKING SETS AND MATRIX FACTORISATIONS: */
-- 
2.43.0


From 0c7c7a1af96d00613aa7fa8ba506950965bf900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 39/73] fix: reject incomplete working set guesses in hotstart

---
 src/QProblem.cpp  | 18 ++++++++++++++++++
 src/QProblemB.cpp |  9 +++++++++
 src/SQProblem.cpp | 36 ++++++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index ab5ad6d..f955597 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -465,6 +465,24 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( g_new == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	if ( guessedBounds != 0 )
+	{
+		for( i=0; i<nV; ++i )
+		{
+			if ( guessedBounds->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+		}
+	}
+
+	if ( guessedConstraints != 0 )
+	{
+		for( i=0; i<nC; ++i )
+		{
+			if ( guessedConstraints->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+		}
+	}
+
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
 	{
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 5e97330..354a124 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -431,6 +431,15 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	if ( g_new == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	if ( guessedBounds != 0 )
+	{
+		for( i=0; i<nV; ++i )
+		{
+			if ( guessedBounds->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+		}
+	}
+
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
 	{
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index f825ad4..748dcef 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -113,6 +113,24 @@ returnValue SQProblem::hotstart(	SymmetricMatrix *H_new, const real_t* const g_n
 	if ( g_new == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	if ( guessedBounds != 0 )
+	{
+		for( int_t i=0; i<getNV( ); ++i )
+		{
+			if ( guessedBounds->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+		}
+	}
+
+	if ( guessedConstraints != 0 )
+	{
+		for( int_t i=0; i<getNC( ); ++i )
+		{
+			if ( guessedConstraints->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+		}
+	}
+
 	real_t starttime = 0.0;
 	real_t auxTime = 0.0;
 
@@ -169,6 +187,24 @@ returnValue SQProblem::hotstart(	const real_t* const H_new, const real_t* const
 	if ( g_new == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	if ( guessedBounds != 0 )
+	{
+		for( int_t i=0; i<getNV( ); ++i )
+		{
+			if ( guessedBounds->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+		}
+	}
+
+	if ( guessedConstraints != 0 )
+	{
+		for( int_t i=0; i<getNC( ); ++i )
+		{
+			if ( guessedConstraints->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+		}
+	}
+
 	/* start runtime measurement */
 	real_t starttime = 0.0;
 	if ( cputime != 0 ) {
-- 
2.43.0


From ef07c5d00f67b9c4c8aa5781dafb50f45639768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 40/73] fix: reliable options of the C interface fell through
 to the MPC settings

---
 interfaces/c/qpOASES_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index 4b5e5b4..f532dd6 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -146,8 +146,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 			#else
 			options->numRefinementSteps            =  2;
 			#endif
+			break;
+
 
-			
 		case 2:
 			/* MPC */
 			options->enableRamping                 =  BT_FALSE;
-- 
2.43.0


From 225fefe8fd66647772a16c526eb6e446df930f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 41/73] fix: initialise and copy all option members in the C
 interface

---
 interfaces/c/qpOASES_wrapper.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index f532dd6..3ec9b5b 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -128,6 +128,10 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
     options->dropEqConPriority             =  1;
     options->dropIneqConPriority           =  1;
 
+	options->enableInertiaCorrection       =  BT_TRUE;
+	options->rcondSMin                     =  1.0e-14;
+	options->printResiduals                =  BT_FALSE;
+
 
 	switch ( mode )
 	{
@@ -227,6 +231,9 @@ int_t qpOASES_Options_copy(	const qpOASES_Options* const from,
     to->dropEqConPriority             =  from->dropEqConPriority;
     to->dropIneqConPriority           =  from->dropIneqConPriority;
 
+	to->enableInertiaCorrection       =  (BooleanType)(from->enableInertiaCorrection);
+	to->rcondSMin                     =  from->rcondSMin;
+
 	return 0;
 }
 
-- 
2.43.0


From 5d4758e2a4dab6cc72332bc732cd605c1bd6e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 42/73] fix: debug output of QProblemB dereferenced a missing
 Hessian and printed an uninitialised string

---
 src/QProblemB.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 354a124..3a63606 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3805,7 +3805,24 @@ returnValue QProblemB::printIteration( 	int_t iter,
 
 			/* stationarity */
 			for (i = 0; i < nV; i++) grad[i] = g[i] - y[i];
-			H->times(1, 1.0, x, nV, 1.0, grad, nV);
+
+			switch ( hessianType )
+			{
+				case HST_ZERO:
+					for( i=0; i<nV; ++i )
+						grad[i] += regVal * x[i];
+					break;
+
+				case HST_IDENTITY:
+					for( i=0; i<nV; ++i )
+						grad[i] += 1.0 * x[i];
+					break;
+
+				default:
+					H->times(1, 1.0, x, nV, 1.0, grad, nV);
+					break;
+			}
+
 			for (i = 0; i < nV; i++) if (getAbs(grad[i]) > stat) stat = getAbs(grad[i]);
 
 			/* feasibility */
@@ -3820,8 +3837,8 @@ returnValue QProblemB::printIteration( 	int_t iter,
 			{
 				snprintf( myPrintfString,MAX_STRING_LENGTH, "\n%5s %4s %4s %9s %9s %9s %9s %9s\n",
 						"iter", "addB", "remB", "hom len", "tau", "stat", "bfeas", "bcmpl");
+				myPrintf( myPrintfString );
 			}
-			myPrintf( myPrintfString );
 
 			snprintf( myPrintfString,MAX_STRING_LENGTH, "%5d ",(int)iter );
 			myPrintf( myPrintfString );
-- 
2.43.0


From 1f848b809fc9a3a13af9171ee78e8b32a82a02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 43/73] fix: printing without an output file recursed endlessly

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 839a4d1..941ecd6 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -238,7 +238,7 @@ returnValue myPrintf( const char* s )
 			#else
 				FILE* outputfile = getGlobalMessageHandler( )->getOutputFile( );
 				if ( outputfile == 0 )
-					return THROWERROR( RET_NO_GLOBAL_MESSAGE_OUTPUTFILE );
+					return RET_NO_GLOBAL_MESSAGE_OUTPUTFILE; /* throwing an error would print again */
 				fprintf( outputfile, "%s", s );
 			#endif /* __SCILAB__ */
 		#endif /* __MATLAB__ */
-- 
2.43.0


From e03d5f1c1542a2dbe9869afaf2f0f7d3a61ba73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 44/73] fix: adjusted initial far bounds were not larger than
 the bound relaxation

---
 src/Options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 2b3a362..8c87934 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -310,7 +310,7 @@ returnValue Options::ensureConsistency( )
 
 	if ( initialFarBounds <= boundRelaxation )
 	{
-		initialFarBounds = boundRelaxation+EPS;
+		initialFarBounds = boundRelaxation*(1.0+EPS)+EPS;
 		needToAdjust = BT_TRUE;
 	}
 
-- 
2.43.0


From 621f6976fbbe1ae302dbf3d1dfd5dad012842209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 45/73] fix: iteration log claimed a working set change in the
 iteration that found the solution

---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f955597..3f1b5e4 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1705,7 +1705,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 
 			THROWINFO( RET_OPTIMAL_SOLUTION_FOUND );
 
-			if ( printIteration( iter,BC_idx,BC_status,BC_isBound,homotopyLength,isFirstCall ) != SUCCESSFUL_RETURN )
+			if ( printIteration( iter,BC_idx,ST_UNDEFINED,BC_isBound,homotopyLength,isFirstCall ) != SUCCESSFUL_RETURN )
 				THROWERROR( RET_PRINT_ITERATION_FAILED ); /* do not pass this as return value! */
 
 			nWSR = iter;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3a63606..6517451 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2649,7 +2649,7 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 
 			THROWINFO( RET_OPTIMAL_SOLUTION_FOUND );
 
-			if ( printIteration( iter,BC_idx,BC_status,homotopyLength,isFirstCall ) != SUCCESSFUL_RETURN )
+			if ( printIteration( iter,BC_idx,ST_UNDEFINED,homotopyLength,isFirstCall ) != SUCCESSFUL_RETURN )
 				THROWERROR( RET_PRINT_ITERATION_FAILED ); /* do not pass this as return value! */
 
 			nWSR = iter;
-- 
2.43.0


From 7258cbe18187f665e699fc5769a5aeef88032be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 46/73] fix: tabular log of QProblemB showed flipped bounds as
 removed

---
 src/QProblemB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 6517451..69087ef 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3729,6 +3729,8 @@ returnValue QProblemB::removeBound(	int_t number,
 
 				flipper.get( &bounds,R );
 				bounds.flipFixed(number);
+				tabularOutput.idxAddB = number;
+				tabularOutput.excAddB = 2;
 
 				switch (bounds.getStatus(number))
 				{
@@ -3759,6 +3761,8 @@ returnValue QProblemB::removeBound(	int_t number,
 	{
 		flipper.get( &bounds,R );
 		bounds.flipFixed(number);
+		tabularOutput.idxAddB = number;
+		tabularOutput.excAddB = 2;
 
 		switch (bounds.getStatus(number))
 		{
-- 
2.43.0


From 760fef85364996b91717e17b7a8efcacfe67b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 47/73] fix: regularisation found necessary for one QP changed
 the user's option epsRegularisation for all later ones

---
 include/qpOASES/QProblemB.hpp |  2 ++
 src/QProblem.cpp              |  3 ++-
 src/QProblemB.cpp             | 13 +++++++++----
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 1520026..b484f23 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -1001,6 +1001,8 @@ class QProblemB
 		HessianType hessianType;	/**< Type of Hessian matrix. */
 		real_t regVal;				/**< Holds the offset used to regularise Hessian matrix (zero by default). */
 
+		real_t regShift;			/**< Increase of options.epsRegularisation found necessary for the current QP (zero by default). */
+
 		uint_t count;				/**< Counts the number of hotstart function calls. */
 
 		real_t *delta_xFR_TMP;		/**< Temporary for determineStepDirection */
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 3f1b5e4..4232275 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2259,7 +2259,8 @@ returnValue QProblem::computeProjectedCholesky( )
 		{
 			/* Cholesky decomposition has tunneled a negative
 			 * diagonal element. */
-			options.epsRegularisation = getMin( -R[0]+options.epsRegularisation,getSqrt(getAbs(options.epsRegularisation)) );
+			real_t epsReg = options.epsRegularisation + regShift;
+			regShift = getMin( -R[0]+epsReg,getSqrt(getAbs(epsReg)) ) - options.epsRegularisation;
 		}
 
 		hessianType = HST_SEMIDEF;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 69087ef..7090acf 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -74,6 +74,7 @@ QProblemB::QProblemB( )
 
 	hessianType = HST_UNKNOWN;
 	regVal = 0.0;
+	regShift = 0.0;
 
 	infeasible  = BT_FALSE;
 	unbounded   = BT_FALSE;
@@ -145,6 +146,7 @@ QProblemB::QProblemB( int_t _nV, HessianType _hessianType, BooleanType allocDens
 
 	hessianType = _hessianType;
 	regVal = 0.0;
+	regShift = 0.0;
 
 	infeasible  = BT_FALSE;
 	unbounded   = BT_FALSE;
@@ -230,6 +232,7 @@ returnValue QProblemB::reset( )
 
 	hessianType = HST_UNKNOWN;
 	regVal = 0.0;
+	regShift = 0.0;
 
 	infeasible  = BT_FALSE;
 	unbounded   = BT_FALSE;
@@ -1175,6 +1178,7 @@ returnValue QProblemB::copy(	const QProblemB& rhs
 
 	hessianType = rhs.hessianType;
 	regVal = rhs.regVal;
+	regShift = rhs.regShift;
 
 	infeasible = rhs.infeasible;
 	unbounded = rhs.unbounded;
@@ -1452,7 +1456,8 @@ returnValue QProblemB::computeCholesky( )
 					{
 						/* Cholesky decomposition has tunneled a negative
 						 * diagonal element. */
-						options.epsRegularisation = getMin( -R[0]+options.epsRegularisation,getSqrt(getAbs(options.epsRegularisation)) );
+						real_t epsReg = options.epsRegularisation + regShift;
+						regShift = getMin( -R[0]+epsReg,getSqrt(getAbs(epsReg)) ) - options.epsRegularisation;
 					}
 
 					hessianType = HST_SEMIDEF;
@@ -2043,15 +2048,15 @@ returnValue QProblemB::regulariseHessian( )
 		/* Regularisation of zero Hessian is done implicitly. */
 		if ( hessianType == HST_ZERO )
 		{
-			regVal = getNorm( g,getNV() ) * options.epsRegularisation;
+			regVal = getNorm( g,getNV() ) * ( options.epsRegularisation + regShift );
 
 			/* regularisation parameter must not vanish for a zero gradient */
 			if ( regVal <= ZERO )
-				regVal = options.epsRegularisation;
+				regVal = options.epsRegularisation + regShift;
 		}
 		else
 		{
-			regVal = H->getNorm() * options.epsRegularisation;
+			regVal = H->getNorm() * ( options.epsRegularisation + regShift );
 
 			/* Hessian data passed by the user must not be changed:
 			 * regularise an own copy. */
-- 
2.43.0


From 661ec62b581a889bd18de3f8da002e4f069976d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 48/73] fix: rejected Hessian matrix left its type behind, so
 repeating the failed initialisation behaved differently

---
 src/QProblemB.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 7090acf..969b387 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1271,11 +1271,15 @@ returnValue QProblemB::determineHessianType( )
 	{
         curDiag = H->diag(i);
         if ( curDiag >= INFTY )
+		{
+			hessianType = HST_UNKNOWN;
             return RET_DIAGONAL_NOT_INITIALISED;
+		}
 
 		if ( curDiag < -ZERO )
 		{
-			hessianType = HST_INDEF;
+			/* do not memorise the type of a rejected Hessian */
+			hessianType = ( options.enableFlippingBounds == BT_FALSE ) ? HST_UNKNOWN : HST_INDEF;
 			if ( options.enableFlippingBounds == BT_FALSE )
 				return THROWERROR( RET_HESSIAN_INDEFINITE );
 			else
-- 
2.43.0


From bdc9712f4c419d5bc5d43efe832f7d8777b9b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 49/73] fix: solveCurrentEQP read missing limits and
 uninitialised factorisations and hid failures

---
 src/QProblem.cpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 4232275..ccffa89 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -761,9 +761,14 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 										real_t* y_out
 										)
 {
-	if ( ( x_out == 0 ) || ( y_out == 0 ) )
+	if ( ( n_rhs < 0 ) || ( g_in == 0 ) || ( x_out == 0 ) || ( y_out == 0 ) )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	/* there is no working set (factorisation) before the QP has been initialised */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) )
+		return THROWERROR( RET_QP_NOT_SOLVED );
+
 	returnValue returnvalue = SUCCESSFUL_RETURN;
 	int_t ii, jj;
 	int_t nV  = getNV( );
@@ -772,11 +777,6 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 	int_t nFX = getNFX( );
 	int_t nAC = getNAC( );
 
-	real_t *delta_xFX = new real_t[nFX];
-	real_t *delta_xFR = new real_t[nFR];
-	real_t *delta_yAC = new real_t[nAC];
-	real_t *delta_yFX = new real_t[nFX];
-
 	/* 1) Determine index arrays. */
 	int_t* FR_idx;
 	int_t* FX_idx;
@@ -786,6 +786,19 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 	bounds.getFixed( )->getNumberArray( &FX_idx );
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
+	/* limits can only be left out if none of them is active */
+	for ( ii = 0 ; ii < nFX; ++ii )
+		if ( ( ( bounds.getStatus( FX_idx[ii] ) == ST_LOWER ) ? lb_in : ub_in ) == 0 )
+			return THROWERROR( RET_INVALID_ARGUMENTS );
+	for ( ii = 0 ; ii < nAC; ++ii )
+		if ( ( ( constraints.getStatus( AC_idx[ii] ) == ST_LOWER ) ? lbA_in : ubA_in ) == 0 )
+			return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	real_t *delta_xFX = new real_t[nFX];
+	real_t *delta_xFR = new real_t[nFR];
+	real_t *delta_yAC = new real_t[nAC];
+	real_t *delta_yFX = new real_t[nFX];
+
 	for ( ii = 0 ; ii < (nV+nC)*n_rhs; ++ii )
 		y_out[ii] = 0.0;
 
@@ -795,6 +808,9 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			g_in, lbA_in, ubA_in, lb_in, ub_in, BT_FALSE, BT_FALSE,
 			delta_xFX, delta_xFR, delta_yAC, delta_yFX );
 
+		if ( returnvalue != SUCCESSFUL_RETURN )
+			break;
+
 		for ( jj = 0; jj < nFX; ++jj )
 			x_out[FX_idx[jj]] = delta_xFX[jj];
 		for ( jj = 0; jj < nFR; ++jj )
@@ -805,10 +821,10 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			y_out[nV+AC_idx[jj]] = delta_yAC[jj];
 
 		g_in += nV;
-		lb_in += nV;
-		ub_in += nV;
-		lbA_in += nC;
-		ubA_in += nC;
+		if ( lb_in  != 0 ) lb_in  += nV;
+		if ( ub_in  != 0 ) ub_in  += nV;
+		if ( lbA_in != 0 ) lbA_in += nC;
+		if ( ubA_in != 0 ) ubA_in += nC;
 		x_out += nV;
 		y_out += nV+nC;
 	}
-- 
2.43.0


From 16105eb55a597641c9d36ca5957d7130839dd95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 50/73] fix: row-wise sparse matrices gave no submatrices, so
 the Schur complement class silently ignored the constraints

---
 src/Matrices.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index abdf70b..5ded79b 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1707,9 +1707,41 @@ returnValue SparseMatrixRow::getSparseSubmatrix (
 				int_t rowoffset, int_t coloffset, int_t& numNonzeros,	int_t* irn,
 				int_t* jcn, real_t* avals, BooleanType only_lower_triangular /*= BT_FALSE */) const
 {
-	fprintf(stderr, "SparseMatrixRow::getSparseSubmatrix not implemented!\n");
+	int_t i, j, k, l;
+
+	if ( ( irn == 0 ) && ( ( jcn != 0 ) || ( avals != 0 ) ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	/* Compute the "inverse" of the icols->number array. */
+	int_t* colNumberInv = new int_t[nCols];
+	for (i=0; i<nCols; i++)
+		colNumberInv[i] = -1;
+	for (i=0; i<icolsLength; i++)
+		colNumberInv[icolsNumber[i]] = i;
+
+	numNonzeros = 0;
+	for (k = 0; k < irowsLength; k++)
+	{
+		j = irowsNumber[k];
+		for (i = jr[j]; i < jr[j+1]; i++)
+		{
+			l = colNumberInv[ic[i]];
+			if ( ( l < 0 ) || ( ( only_lower_triangular == BT_TRUE ) && ( k < l ) ) )
+				continue;
 
-	return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+			if (irn != 0)
+			{
+				irn[numNonzeros] = k+rowoffset;
+				jcn[numNonzeros] = l+coloffset;
+				avals[numNonzeros] = val[i];
+			}
+			numNonzeros++;
+		}
+	}
+
+	delete [] colNumberInv;
+
+	return SUCCESSFUL_RETURN;
 }
 
 returnValue SparseMatrixRow::times( int_t xN, real_t alpha, const real_t* x, int_t xLD,
-- 
2.43.0


From dee029c52644193b410ad3bcf0485fc8c2d9a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 51/73] fix: copying a sparse solver holding an empty matrix
 copied from null pointers

---
 src/SparseSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index 39b30c0..8a435cc 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -1056,7 +1056,7 @@ returnValue Ma57SparseSolver::copy( 	const Ma57SparseSolver& rhs
 	else
 		ifact_ma57 = 0;
 
-	if ( have_factorization )
+	if ( rhs.pivots != 0 )
 	{
 		pivots = new fint_t[dim];
 		memcpy( pivots, rhs.pivots, dim*sizeof(fint_t) );
-- 
2.43.0


From eec063d9ac1431bd9a8129912a15cc2289626561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 52/73] fix: a failed factorisation by MA57 was only noticed
 after reading the pivots it did not return

---
 src/SparseSolver.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index 8a435cc..172604b 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -826,6 +826,13 @@ returnValue Ma57SparseSolver::factorize( )
 	neig = info_ma57[23];   /* Number of negative eigenvalues */
 	rank = info_ma57[24];   /* Rank of matrix */
 
+	if (iflag != 0 && iflag != 4)
+	{
+		MyPrintf("MA57BD returns iflag = %d with ierror = %d\n", iflag, ierror);
+		clear( );
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
+	}
+
 	/* Read pivot sequence (see MA57UD source code) */
 	pivots = new fint_t[dim];
 	fint_t nrows, ncols;
@@ -852,12 +859,6 @@ returnValue Ma57SparseSolver::factorize( )
 
 		return RET_KKT_MATRIX_SINGULAR;
 	}
-	else if (iflag != 0)
-	{
-		MyPrintf("MA57BD returns iflag = %d with ierror = %d\n", iflag, ierror);
-		clear( );
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
-	}
 
 	have_factorization = true;
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From 25ee6fbff0cee67437bc1365e24076b8c4578606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 53/73] fix: a hotstart failing to set up the new matrices kept
 the infeasibility verdict of the previous QP

---
 src/SQProblem.cpp      | 4 ++++
 src/SQProblemSchur.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 748dcef..654d607 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -428,6 +428,10 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 
 	status = QPS_PREPARINGAUXILIARYQP;
 
+	/* verdicts on the previous QP do not hold for the new one */
+	infeasible = BT_FALSE;
+	unbounded = BT_FALSE;
+
 
 	/* I) SETUP NEW QP MATRICES AND VECTORS: */
 	/* 1) Shift constraints' bounds vectors by (A_new - A)'*x_opt to ensure
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 5ffca3d..f858a48 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -332,6 +332,10 @@ returnValue SQProblemSchur::setupAuxiliaryQP(	SymmetricMatrix *H_new,
 
 	status = QPS_PREPARINGAUXILIARYQP;
 
+	/* verdicts on the previous QP do not hold for the new one */
+	infeasible = BT_FALSE;
+	unbounded = BT_FALSE;
+
 
 	/* I) SETUP NEW QP MATRICES AND VECTORS: */
 	/* 1) Shift constraints' bounds vectors by (A_new - A)'*x_opt to ensure
-- 
2.43.0


From 2e57a948fb7cb92f9666da3319ec71a074770e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 54/73] fix: limits beyond infinity (such as 1e30) could make
 solves without far bounds fail

---
 include/qpOASES/QProblem.ipp  |  8 ++++++--
 include/qpOASES/QProblemB.ipp |  8 ++++++--
 src/QProblem.cpp              | 12 ++++++------
 src/QProblemB.cpp             | 12 ++++++------
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/qpOASES/QProblem.ipp b/include/qpOASES/QProblem.ipp
index 611fa31..92d8f52 100644
--- a/include/qpOASES/QProblem.ipp
+++ b/include/qpOASES/QProblem.ipp
@@ -194,7 +194,9 @@ inline returnValue QProblem::setLBA( const real_t* const lbA_new )
 
 	if ( lbA_new != 0 )
 	{	
-		memcpy( lbA,lbA_new,nC*sizeof(real_t) );
+		/* any limit beyond -infinity means that there is no limit */
+		for( i=0; i<nC; ++i )
+			lbA[i] = getMax( lbA_new[i],-INFTY );
 	}
 	else
 	{
@@ -242,7 +244,9 @@ inline returnValue QProblem::setUBA( const real_t* const ubA_new )
 
 	if ( ubA_new != 0 )
 	{
-		memcpy( ubA,ubA_new,nC*sizeof(real_t) );
+		/* any limit beyond infinity means that there is no limit */
+		for( i=0; i<nC; ++i )
+			ubA[i] = getMin( ubA_new[i],INFTY );
 	}
 	else
 	{
diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index 69fab8f..dfaf20e 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -334,7 +334,9 @@ inline returnValue QProblemB::setLB( const real_t* const lb_new )
 
 	if ( lb_new != 0 )
 	{
-		memcpy( lb,lb_new,nV*sizeof(real_t) );
+		/* any limit beyond -infinity means that there is no limit */
+		for( i=0; i<nV; ++i )
+			lb[i] = getMax( lb_new[i],-INFTY );
 	}
 	else
 	{
@@ -382,7 +384,9 @@ inline returnValue QProblemB::setUB( const real_t* const ub_new )
 
 	if ( ub_new != 0 )
 	{
-		memcpy( ub,ub_new,nV*sizeof(real_t) );
+		/* any limit beyond infinity means that there is no limit */
+		for( i=0; i<nV; ++i )
+			ub[i] = getMin( ub_new[i],INFTY );
 	}
 	else
 	{
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index ccffa89..21952ce 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -4761,7 +4761,7 @@ returnValue QProblem::determineDataShift(	const real_t* const g_new, const real_
 	{
 		/* if lower constraints' bounds are to be disabled or do not exist, shift them to -infinity */
 		if ( lbA_new != 0 )
-			delta_lbA[i] = lbA_new[i] - lbA[i];
+			delta_lbA[i] = getMax( lbA_new[i],-INFTY ) - lbA[i];
 		else
 			delta_lbA[i] = -INFTY - lbA[i];
 	}
@@ -4770,7 +4770,7 @@ returnValue QProblem::determineDataShift(	const real_t* const g_new, const real_
 	{
 		/* if upper constraints' bounds are to be disabled or do not exist, shift them to infinity */
 		if ( ubA_new != 0 )
-			delta_ubA[i] = ubA_new[i] - ubA[i];
+			delta_ubA[i] = getMin( ubA_new[i],INFTY ) - ubA[i];
 		else
 			delta_ubA[i] = INFTY - ubA[i];
 	}
@@ -5547,9 +5547,9 @@ real_t QProblem::getRelativeHomotopyLength(	const real_t* const g_new, const rea
 	{
 		for (i = 0; i < nC; i++)
 		{
-			s = getAbs(lbA_new[i]);
+			s = getAbs(getMax( lbA_new[i],-INFTY ));
 			if (s < 1.0) s = 1.0;
-			d = getAbs(lbA_new[i] - lbA[i]) / s;
+			d = getAbs(getMax( lbA_new[i],-INFTY ) - lbA[i]) / s;
 			if (d > len) len = d;
 		}
 	}
@@ -5560,9 +5560,9 @@ real_t QProblem::getRelativeHomotopyLength(	const real_t* const g_new, const rea
 	{
 		for (i = 0; i < nC; i++)
 		{
-			s = getAbs(ubA_new[i]);
+			s = getAbs(getMin( ubA_new[i],INFTY ));
 			if (s < 1.0) s = 1.0;
-			d = getAbs(ubA_new[i] - ubA[i]) / s;
+			d = getAbs(getMin( ubA_new[i],INFTY ) - ubA[i]) / s;
 			if (d > len) len = d;
 		}
 	}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 969b387..626831d 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1749,7 +1749,7 @@ returnValue QProblemB::determineDataShift(	const real_t* const g_new, const real
 	if ( lb_new != 0 )
 	{
 		for( i=0; i<nV; ++i )
-			delta_lb[i] = lb_new[i] - lb[i];
+			delta_lb[i] = getMax( lb_new[i],-INFTY ) - lb[i];
 	}
 	else
 	{
@@ -1761,7 +1761,7 @@ returnValue QProblemB::determineDataShift(	const real_t* const g_new, const real
 	if ( ub_new != 0 )
 	{
 		for( i=0; i<nV; ++i )
-			delta_ub[i] = ub_new[i] - ub[i];
+			delta_ub[i] = getMin( ub_new[i],INFTY ) - ub[i];
 	}
 	else
 	{
@@ -2195,9 +2195,9 @@ real_t QProblemB::getRelativeHomotopyLength(	const real_t* const g_new, const re
 	{
 		for (i = 0; i < nV; i++)
 		{
-			s = getAbs(lb_new[i]);
+			s = getAbs(getMax( lb_new[i],-INFTY ));
 			if (s < 1.0) s = 1.0;
-			d = getAbs(lb_new[i] - lb[i]) / s;
+			d = getAbs(getMax( lb_new[i],-INFTY ) - lb[i]) / s;
 			if (d > len) len = d;
 		}
 	}
@@ -2208,9 +2208,9 @@ real_t QProblemB::getRelativeHomotopyLength(	const real_t* const g_new, const re
 	{
 		for (i = 0; i < nV; i++)
 		{
-			s = getAbs(ub_new[i]);
+			s = getAbs(getMin( ub_new[i],INFTY ));
 			if (s < 1.0) s = 1.0;
-			d = getAbs(ub_new[i] - ub[i]) / s;
+			d = getAbs(getMin( ub_new[i],INFTY ) - ub[i]) / s;
 			if (d > len) len = d;
 		}
 	}
-- 
2.43.0


From 66fdf200400336c481f5c22d23db31c7966af062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 55/73] fix: without far bounds, the time spent on setting up a
 guessed working set was not reported

---
 src/QProblem.cpp  | 4 ++++
 src/QProblemB.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 21952ce..f63b5dc 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -553,6 +553,10 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 											nWSR,cputime,0,
 											isFirstCall
 											);
+
+		/* Also account for the time needed to set up the guessed working set. */
+		if ( cputime != 0 )
+			*cputime += auxTime;
 	}
 	else
 	{
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 626831d..31fddca 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -500,6 +500,10 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 											nWSR,cputime,0,
 											isFirstCall
 											);
+
+		/* Also account for the time needed to set up the guessed working set. */
+		if ( cputime != 0 )
+			*cputime += auxTime;
 	}
 	else
 	{
-- 
2.43.0


From 657dc684c2d0aab86049bc95b875abce625af7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 56/73] fix: a Cholesky factor read from file was used in
 transposed form

---
 src/QProblem.cpp  | 22 ++++++++++++----------
 src/QProblemB.cpp | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f63b5dc..2d27cff 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -428,13 +428,20 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 	}
 	else
 	{
-		/* Also read Cholesky factor from file and store it directly into R [thus... */
-		returnValue returnvalue = readFromFile( R, nV,nV, R_file );
+		/* Also read Cholesky factor from file (stored row-wise, unlike R). */
+		real_t* _R = new real_t[nV*nV];
+		returnValue returnvalue = readFromFile( _R, nV,nV, R_file );
 		if ( returnvalue != SUCCESSFUL_RETURN )
+		{
+			delete[] _R;
 			return THROWWARNING( returnvalue );
+		}
+
+		/* 3) Call to main initialisation routine. */
+		returnvalue = solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,_R, nWSR,cputime );
 
-		/* 3) Call to main initialisation routine. ...passing R here!] */
-		return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,R, nWSR,cputime );
+		delete[] _R;
+		return returnvalue;
 	}
 }
 
@@ -1455,12 +1462,7 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 		}
 		else
 		{
-			if ( _R == R )
-			{
-				/* Cholesky factor read from file and already loaded into R. */
-				haveCholesky = BT_TRUE;
-			}
-			else if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) && ( guessedConstraints == 0 ) )
+			if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) && ( guessedConstraints == 0 ) )
 			{
 				for( i=0; i<nV; ++i )
 					for( j=i; j<nV; ++j )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 31fddca..7b6f4c6 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -399,13 +399,20 @@ returnValue QProblemB::init( 	const char* const H_file, const char* const g_file
 	}
 	else
 	{
-		/* Also read Cholesky factor from file and store it directly into R [thus... */
-		returnValue returnvalue = readFromFile( R, nV,nV, R_file );
+		/* Also read Cholesky factor from file (stored row-wise, unlike R). */
+		real_t* _R = new real_t[nV*nV];
+		returnValue returnvalue = readFromFile( _R, nV,nV, R_file );
 		if ( returnvalue != SUCCESSFUL_RETURN )
+		{
+			delete[] _R;
 			return THROWWARNING( returnvalue );
+		}
+
+		/* 3) Call to main initialisation routine. */
+		returnvalue = solveInitialQP( xOpt,yOpt,guessedBounds,_R, nWSR,cputime );
 
-		/* 3) Call to main initialisation routine. ...passing R here!] */
-		return solveInitialQP( xOpt,yOpt,guessedBounds,R, nWSR,cputime );
+		delete[] _R;
+		return returnvalue;
 	}
 }
 
@@ -2400,12 +2407,7 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 		}
 		else
 		{
-			if ( _R == R )
-			{
-				/* Cholesky factor read from file and already loaded into R. */
-				haveCholesky = BT_TRUE;
-			}
-			else if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) )
+			if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) )
 			{
 				for( i=0; i<nV; ++i )
 					for( j=i; j<nV; ++j )
-- 
2.43.0


From 46cbf147737ae920319bd8fe49ca0fa45cef2707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 57/73] fix: the bilinear form of sparse symmetric matrices
 cleared the wrong part of its output

---
 src/Matrices.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 5ded79b..5af3aed 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -2206,8 +2206,9 @@ returnValue SymSparseMat::bilinear( const Indexlist* const icols,
 		return THROWERROR( RET_DIAGONAL_NOT_INITIALISED );
 
 	/* clear output */
-	for (i = 0; i < xN*xN; i++)
-		y[i] = 0.0;
+	for (i = 0; i < xN; i++)
+		for (j = 0; j < xN; j++)
+			y[i*yLD+j] = 0.0;
 
 	/* compute lower triangle */
 	for (l = 0; l < icols->length; l++)
-- 
2.43.0


From 4f09eaa0bd5ab608fb792445a2b5b0a812b758b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:47 +0000
Subject: [PATCH 58/73] fix: far bounds of constraints were not respected along
 the homotopy when no constraint limit was finite

---
 src/QProblem.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 2d27cff..4422b04 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2088,6 +2088,19 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 		}
 	}
 
+	/* Far bounds introduce limits that have to be respected along the homotopy
+	 * (for the bounds, this has been detected by QProblemB::setupSubjectToType). */
+	for ( i=0; i<nC; i++ )
+	{
+		if ( constraints.getType(i) != ST_BOUNDED )
+			continue;
+
+		if ( lbA_new != 0 && lbA_new[i] > -INFTY )
+			constraints.setNoLower( BT_FALSE );
+		if ( ubA_new != 0 && ubA_new[i] < INFTY )
+			constraints.setNoUpper( BT_FALSE );
+	}
+
 	return SUCCESSFUL_RETURN;
 }
 
-- 
2.43.0


From 9e470199072f783226a4fabf044cd7c4de07a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 59/73] fix: a constraint beyond its far bound is relaxed when
 resuming instead of enforcing all far bounds of constraints

---
 src/QProblem.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 4422b04..455e017 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2074,33 +2074,24 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 				constraints.setStatus( i,ST_LOWER );
 		}
 
-		if ( lbNew > -INFTY && isFarAway( lbA[i],Ax[i] ) == BT_TRUE )
+		if ( lbNew > -INFTY && ( isFarAway( lbA[i],Ax[i] ) == BT_TRUE
+			|| ( constraints.getStatus(i) == ST_INACTIVE && Ax_l[i] < -options.boundTolerance ) ) )
 		{
-			/* Now a lower limit has become finite.  To avoid numerical issues, adjust lbA */
+			/* Now a lower limit has become finite (or a far bound, which had not been
+			 * respected so far, matters).  To avoid numerical issues, adjust lbA */
 			lbA[i] = Ax[i] - options.boundRelaxation;
 			Ax_l[i] = Ax[i] - lbA[i];
 		}
-		if ( ubNew < INFTY && isFarAway( ubA[i],Ax[i] ) == BT_TRUE )
+		if ( ubNew < INFTY && ( isFarAway( ubA[i],Ax[i] ) == BT_TRUE
+			|| ( constraints.getStatus(i) == ST_INACTIVE && Ax_u[i] < -options.boundTolerance ) ) )
 		{
-			/* Now an upper limit has become finite.  To avoid numerical issues, adjust ubA */
+			/* Now an upper limit has become finite (or a far bound, which had not been
+			 * respected so far, matters).  To avoid numerical issues, adjust ubA */
 			ubA[i] = Ax[i] + options.boundRelaxation;
 			Ax_u[i] = ubA[i] - Ax[i];
 		}
 	}
 
-	/* Far bounds introduce limits that have to be respected along the homotopy
-	 * (for the bounds, this has been detected by QProblemB::setupSubjectToType). */
-	for ( i=0; i<nC; i++ )
-	{
-		if ( constraints.getType(i) != ST_BOUNDED )
-			continue;
-
-		if ( lbA_new != 0 && lbA_new[i] > -INFTY )
-			constraints.setNoLower( BT_FALSE );
-		if ( ubA_new != 0 && ubA_new[i] < INFTY )
-			constraints.setNoUpper( BT_FALSE );
-	}
-
 	return SUCCESSFUL_RETURN;
 }
 
-- 
2.43.0


From 1cb3699e05bba3e92b8ad9d9f550333b1937ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 60/73] fix: debug output of SQProblemSchur accessed a
 non-existing TQ factorisation

---
 src/QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 455e017..e483959 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6259,7 +6259,7 @@ returnValue QProblem::printIteration( 	int_t iter,
 			for (i = 0; i < nC; i++) if (y[nV+i] < -EPS && getAbs((ubA[i]-AX[i])*y[nV+i]) > ccmpl) ccmpl = getAbs((ubA[i]-AX[i])*y[nV+i]);
 
 			Tmin = 1.0e16; Tmax = 0.0;
-			for (i = 0; i < nAC; i++)
+			for (i = 0; i < nAC && T != 0; i++)  /* T is not available within SQProblemSchur */
 				if (getAbs(TT(i,sizeT-i-1)) < Tmin)
 					Tmin = getAbs(TT(i,sizeT-i-1));
 				else if (getAbs(TT(i,sizeT-i-1)) > Tmax)
-- 
2.43.0


From 93964745337944ab31ad23d8c09da9edecf8f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 61/73] fix: SQProblemSchur printed an entry in front of its
 array when undoing a deletion

---
 src/SQProblemSchur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index f858a48..3e3c659 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3348,7 +3348,7 @@ returnValue SQProblemSchur::deleteFromSchurComplement( int_t idx, BooleanType al
 returnValue SQProblemSchur::undoDeleteFromSchurComplement( int_t idx )
 {
 	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "undo deletion of entry %d with idx = %d and type %d from Schur complement. nS = %i\n", idx, schurUpdateIndex[nS-1], schurUpdate[nS-1],nS+1);
+		MyPrintf( "undo deletion of entry %d with idx = %d and type %d from Schur complement. nS = %i\n", idx, schurUpdateIndex[nS], schurUpdate[nS],nS+1);
 
 	if ( idx != nS )
 	{
-- 
2.43.0


From 2493fb584692dfdcfd18c8366fdc5953a513e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 62/73] fix: Octave/MATLAB interfaces free the Cholesky factor
 with delete[]

---
 interfaces/matlab/qpOASES.cpp          | 4 ++--
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES.cpp          | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/matlab/qpOASES.cpp b/interfaces/matlab/qpOASES.cpp
index 5c5274f..ff59118 100644
--- a/interfaces/matlab/qpOASES.cpp
+++ b/interfaces/matlab/qpOASES.cpp
@@ -564,7 +564,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -590,7 +590,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							isSparse
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index b10aede..9c97a42 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -660,7 +660,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
diff --git a/interfaces/octave/qpOASES.cpp b/interfaces/octave/qpOASES.cpp
index 0c1fd01..7c3c6c5 100644
--- a/interfaces/octave/qpOASES.cpp
+++ b/interfaces/octave/qpOASES.cpp
@@ -541,7 +541,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -566,7 +566,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,guessedConstraints,R
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 7ddfa32..84d6bc8 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -649,7 +649,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
-- 
2.43.0


From 993ea7d1a96aac7005d02c08f9a56bf217af01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 63/73] fix: EQP solution for several right-hand sides with one
 output overran its multiplier buffer

---
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 9c97a42..ddd250a 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -1060,7 +1060,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			}
 		}
 		else
-			y_out = new real_t[nV+nC];
+			y_out = new real_t[(nV+nC)*nRHS];
 
 		/* Solve equality constrained QP */
 		returnValue returnvalue = globalQP->sqp->solveCurrentEQP( nRHS,g,lb,ub,lbA,ubA, x_out,y_out );
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 84d6bc8..73470d5 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -1049,7 +1049,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			}
 		}
 		else
-			y_out = new real_t[nV+nC];
+			y_out = new real_t[(nV+nC)*nRHS];
 
 		/* Solve equality constrained QP */
 		returnValue returnvalue = globalQP->sqp->solveCurrentEQP( nRHS,g,lb,ub,lbA,ubA, x_out,y_out );
-- 
2.43.0


From e4d50ae54be4254dcdb4fb635491d949c87027ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 64/73] fix: EQP or matrix change on a simply bounded QP
 instance crashed the Octave/MATLAB interfaces

---
 interfaces/matlab/qpOASES_sequence.cpp | 12 ++++++++++++
 interfaces/octave/qpOASES_sequence.cpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index ddd250a..e7e7797 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -835,6 +835,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Modifying matrices is not possible for simply bounded QP!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		g_idx = 3;
 		
@@ -986,6 +992,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Solving the current EQP is not possible for simply bounded QP!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		int_t nRHS = (int_t)mxGetN(prhs[2]);
 		nV = globalQP->getNV( );
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 73470d5..ecea532 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -824,6 +824,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Modifying matrices is not possible for simply bounded QP!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		g_idx = 3;
 		
@@ -975,6 +981,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Solving the current EQP is not possible for simply bounded QP!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		int_t nRHS = (int_t)mxGetN(prhs[2]);
 		nV = globalQP->getNV( );
-- 
2.43.0


From 2b68f579edfe2bc51b43a6f25f6b6f2eb3731340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 65/73] fix: qpOASES_sequence('m') raised an error instead of
 delivering the documented exitflag

---
 interfaces/matlab/qpOASES_sequence.cpp | 12 ------------
 interfaces/octave/qpOASES_sequence.cpp | 12 ------------
 2 files changed, 24 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index e7e7797..4880e0a 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -309,18 +309,6 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
-	switch (returnvalue)
-	{
-		case SUCCESSFUL_RETURN:
-		case RET_QP_UNBOUNDED:
-		case RET_QP_INFEASIBLE:
-			break;
-
-		default:
-			myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
-			return -1;
-	}
-
 	/* 2) Assign lhs arguments. */
 	obtainOutputs(	0,globalSQP,returnvalue,nWSRout,maxCpuTimeOut,
 					nOutputs,plhs,nV,nC );
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index ecea532..24736f6 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -309,18 +309,6 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
-	switch (returnvalue)
-	{
-		case SUCCESSFUL_RETURN:
-		case RET_QP_UNBOUNDED:
-		case RET_QP_INFEASIBLE:
-			break;
-
-		default:
-			myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
-			return -1;
-	}
-
 	/* 2) Assign lhs arguments. */
 	obtainOutputs(	0,globalSQP,returnvalue,nWSRout,maxCpuTimeOut,
 					nOutputs,plhs,nV,nC );
-- 
2.43.0


From a35bd1bfa7780be17558fb82983540e9a4ac487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 66/73] fix: sparse Hessian lacked diagonal entries in columns
 without entries below the diagonal

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 8 ++++++++
 interfaces/octave/qpOASES_octave_utils.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 5a10400..a925d84 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -884,6 +884,14 @@ returnValue setupHessianMatrix(	const mxArray* prhsH, int_t nV,
 				(*Hir)[i + nfill] = (sparse_int_t)(mat_ir[i]);
 				(*Hv)[i + nfill] = (real_t)(v[i]);
 			}
+
+            /* add zero diagonal element behind all entries of the column */
+            if ( needInsertDiag == BT_TRUE )
+            {
+                (*Hir)[mat_jc[j+1] + nfill] = (sparse_int_t)j;
+                (*Hv)[mat_jc[j+1] + nfill] = 0.0;
+                nfill++;
+            }
 		}
 		(*Hjc)[nV] = (sparse_int_t)(mat_jc[nV]) + nfill;
 
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index bc48616..bebf846 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -874,6 +874,14 @@ returnValue setupHessianMatrix(	const mxArray* prhsH, int_t nV,
 				(*Hir)[i + nfill] = (sparse_int_t)(mat_ir[i]);
 				(*Hv)[i + nfill] = (real_t)(v[i]);
 			}
+
+            /* add zero diagonal element behind all entries of the column */
+            if ( needInsertDiag == BT_TRUE )
+            {
+                (*Hir)[mat_jc[j+1] + nfill] = (sparse_int_t)j;
+                (*Hv)[mat_jc[j+1] + nfill] = 0.0;
+                nfill++;
+            }
 		}
 		(*Hjc)[nV] = (sparse_int_t)(mat_jc[nV]) + nfill;
 
-- 
2.43.0


From e6dca34fec892794e2a314f6cdfbe3ee95f0fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 67/73] fix: Octave/MATLAB interfaces read data that is not of
 type double as if it were

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 21 ++++++++++++++++++---
 interfaces/octave/qpOASES_octave_utils.cpp | 21 ++++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index a925d84..498965a 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -273,6 +273,12 @@ returnValue smartDimensionCheck(	real_t** input, uint_t m, uint_t n, BooleanType
 	else
 	{
 		/* input is non-empty */
+		if ( mxIsDouble( prhs[ idx ] ) == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+			return RET_INVALID_ARGUMENTS;
+		}
+
         if ( mxIsSparse( prhs[ idx ] ) == 0 )
         {
             if ( ( mxGetM( prhs[ idx ] ) == m ) && ( mxGetN( prhs[ idx ] ) == n ) )
@@ -359,6 +365,12 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 	if ( rhs_index < 0 )
 		return BT_FALSE;
 
+	if ( ( mxIsEmpty(prhs[rhs_index]) == 0 ) && ( mxIsDouble(prhs[rhs_index]) == 0 ) )
+	{
+		myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+		return BT_TRUE;
+	}
+
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
 		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
@@ -422,7 +434,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 		return BT_FALSE;
 	}
 
-	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) )
+	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) && ( mxIsDouble( optionName ) == true ) )
 	{
 		*optionValue = mxGetPr( optionName );
 		return BT_TRUE;
@@ -430,7 +442,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 	else
 	{
 		char msg[MAX_STRING_LENGTH];
-		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar, using default value instead!", optionString );
+		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar of type double, using default value instead!", optionString );
 		mexWarnMsgTxt( msg );
 		return BT_FALSE;
 	}
@@ -613,8 +625,11 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		}
 		else
 		{
-			if ( mxIsScalar(curField) == false )
+			if ( ( mxIsScalar(curField) == false ) || ( mxIsDouble(curField) == false ) )
+			{
+				myMexErrMsgTxt( "ERROR (qpOASES): auxInput entry 'hessianType' must be a scalar of type double!" );
 				return RET_INVALID_ARGUMENTS;
+			}
 
 			double* hessianTypeTmp = mxGetPr(curField);
 			int_t hessianTypeInt = (int_t)*hessianTypeTmp;
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index bebf846..f416ba5 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -263,6 +263,12 @@ returnValue smartDimensionCheck(	real_t** input, uint_t m, uint_t n, BooleanType
 	else
 	{
 		/* input is non-empty */
+		if ( mxIsDouble( prhs[ idx ] ) == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+			return RET_INVALID_ARGUMENTS;
+		}
+
         if ( mxIsSparse( prhs[ idx ] ) == 0 )
         {
             if ( ( mxGetM( prhs[ idx ] ) == m ) && ( mxGetN( prhs[ idx ] ) == n ) )
@@ -349,6 +355,12 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 	if ( rhs_index < 0 )
 		return BT_FALSE;
 
+	if ( ( mxIsEmpty(prhs[rhs_index]) == 0 ) && ( mxIsDouble(prhs[rhs_index]) == 0 ) )
+	{
+		myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+		return BT_TRUE;
+	}
+
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
 		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
@@ -412,7 +424,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 		return BT_FALSE;
 	}
 
-	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) )
+	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) && ( mxIsDouble( optionName ) == true ) )
 	{
 		*optionValue = mxGetPr( optionName );
 		return BT_TRUE;
@@ -420,7 +432,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 	else
 	{
 		char msg[MAX_STRING_LENGTH];
-		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar, using default value instead!", optionString );
+		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar of type double, using default value instead!", optionString );
 		mexWarnMsgTxt( msg );
 		return BT_FALSE;
 	}
@@ -603,8 +615,11 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		}
 		else
 		{
-			if ( mxIsScalar(curField) == false )
+			if ( ( mxIsScalar(curField) == false ) || ( mxIsDouble(curField) == false ) )
+			{
+				myMexErrMsgTxt( "ERROR (qpOASES): auxInput entry 'hessianType' must be a scalar of type double!" );
 				return RET_INVALID_ARGUMENTS;
+			}
 
 			double* hessianTypeTmp = mxGetPr(curField);
 			int_t hessianTypeInt = (int_t)*hessianTypeTmp;
-- 
2.43.0


From bd90a0ab80c283abcfcb7062bdb00d85ac88f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 68/73] fix: qpOASES_options rounded the values of options

---
 interfaces/matlab/qpOASES_options.m | 2 +-
 interfaces/octave/qpOASES_options.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_options.m b/interfaces/matlab/qpOASES_options.m
index 0cccf95..b991379 100644
--- a/interfaces/matlab/qpOASES_options.m
+++ b/interfaces/matlab/qpOASES_options.m
@@ -167,7 +167,7 @@ function [ options ] = qpOASES_options( varargin )
 			error('ERROR (qpOASES_options): Argmument no. %d is an invalid option!',i );
 		end
 
-		eval( ['options.',argName,' = ',num2str(argValue),';'] );
+		options.(argName) = double( argValue );
 
 	end
 
diff --git a/interfaces/octave/qpOASES_options.m b/interfaces/octave/qpOASES_options.m
index 0cccf95..b991379 100644
--- a/interfaces/octave/qpOASES_options.m
+++ b/interfaces/octave/qpOASES_options.m
@@ -167,7 +167,7 @@ function [ options ] = qpOASES_options( varargin )
 			error('ERROR (qpOASES_options): Argmument no. %d is an invalid option!',i );
 		end
 
-		eval( ['options.',argName,' = ',num2str(argValue),';'] );
+		options.(argName) = double( argValue );
 
 	end
 
-- 
2.43.0


From a0ab0bcb6017a9ca7688b21085db4eefba1be123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 69/73] fix: cpuTime of auxOutput was only set for the first QP
 of a series

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 2 +-
 interfaces/octave/qpOASES_octave_utils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 498965a..dfdeac1 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -838,7 +838,7 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 						/* cpu time */
 						curField = mxGetField( auxOutput,0,"cpuTime" );
 						double* cpuTime = mxGetPr(curField);
-						cpuTime[0] = (double) _cpuTime;
+						cpuTime[k] = (double) _cpuTime;
 					}
 				}
 			}
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index f416ba5..5002f32 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -828,7 +828,7 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 						/* cpu time */
 						curField = mxGetField( auxOutput,0,"cpuTime" );
 						double* cpuTime = mxGetPr(curField);
-						cpuTime[0] = (double) _cpuTime;
+						cpuTime[k] = (double) _cpuTime;
 					}
 				}
 			}
-- 
2.43.0


From e1da53887977c50a06fe069edc50d91d02d71a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 70/73] fix: qpOASES_sequence('i') with the handle as only
 output wrote beyond the output array

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 8 +++++++-
 interfaces/octave/qpOASES_octave_utils.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index dfdeac1..efc7612 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -703,7 +703,10 @@ returnValue allocateOutputs(	int nlhs, mxArray* plhs[], int_t nV, int_t nC = 0,
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleMatrix( 1, 1, mxREAL );
 
-	/* x */
+	/* x (there is no room for it if only the handle is requested) */
+	if ( ( handle >= 0 ) && ( nlhs <= curIdx ) )
+		return SUCCESSFUL_RETURN;
+
 	plhs[curIdx++] = mxCreateDoubleMatrix( nV, nP, mxREAL );
 
 	if ( nlhs > curIdx )
@@ -771,6 +774,9 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 		plhs[curIdx++] = mxCreateDoubleScalar( handle );
 
 	/* x */
+	if ( ( handle >= 0 ) && ( nlhs <= curIdx ) )
+		return SUCCESSFUL_RETURN;
+
 	double* x = mxGetPr( plhs[curIdx++] );
 	qp->getPrimalSolution( &(x[k*nV]) );
 
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 5002f32..302d6c5 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -693,7 +693,10 @@ returnValue allocateOutputs(	int nlhs, mxArray* plhs[], int_t nV, int_t nC = 0,
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleMatrix( 1, 1, mxREAL );
 
-	/* x */
+	/* x (there is no room for it if only the handle is requested) */
+	if ( ( handle >= 0 ) && ( nlhs <= curIdx ) )
+		return SUCCESSFUL_RETURN;
+
 	plhs[curIdx++] = mxCreateDoubleMatrix( nV, nP, mxREAL );
 
 	if ( nlhs > curIdx )
@@ -761,6 +764,9 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 		plhs[curIdx++] = mxCreateDoubleScalar( handle );
 
 	/* x */
+	if ( ( handle >= 0 ) && ( nlhs <= curIdx ) )
+		return SUCCESSFUL_RETURN;
+
 	double* x = mxGetPr( plhs[curIdx++] );
 	qp->getPrimalSolution( &(x[k*nV]) );
 
-- 
2.43.0


From de39798e4e2e135dc33a947d55cedde439cdc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 71/73] fix: matrix change refused by the QP object freed
 matrices still in use

---
 interfaces/matlab/qpOASES_sequence.cpp | 15 +++++++++++++++
 interfaces/octave/qpOASES_sequence.cpp | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 4880e0a..8928cd2 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -917,6 +917,21 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		if ( smartDimensionCheck( &ubA,nC,1, BT_TRUE,prhs,ubA_idx ) != SUCCESSFUL_RETURN )
 			return;
 
+		/* Check that QP object is going to adopt the new matrices: otherwise it keeps on using the current ones */
+		if ( ( H_idx < 0 ) && ( globalQP->H != 0 ) )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Hessian matrix must not become empty during a sequence!" );
+			return;
+		}
+
+		if ( ( globalQP->sqp->getStatus( ) == QPS_NOTINITIALISED )       ||
+			 ( globalQP->sqp->getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+			 ( globalQP->sqp->getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): QP needs to be initialised first!" );
+			return;
+		}
+
 		/* default value for nWSR */
 		nWSRin = 5*(nV+nC);
 
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 24736f6..4a43f05 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -906,6 +906,21 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		if ( smartDimensionCheck( &ubA,nC,1, BT_TRUE,prhs,ubA_idx ) != SUCCESSFUL_RETURN )
 			return;
 
+		/* Check that QP object is going to adopt the new matrices: otherwise it keeps on using the current ones */
+		if ( ( H_idx < 0 ) && ( globalQP->H != 0 ) )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Hessian matrix must not become empty during a sequence!" );
+			return;
+		}
+
+		if ( ( globalQP->sqp->getStatus( ) == QPS_NOTINITIALISED )       ||
+			 ( globalQP->sqp->getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+			 ( globalQP->sqp->getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): QP needs to be initialised first!" );
+			return;
+		}
+
 		/* default value for nWSR */
 		nWSRin = 5*(nV+nC);
 
-- 
2.43.0


From 835f7b9f7bd70ea7331b0c5959a392e9da5519b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 72/73] fix: constraint matrix with rows but no columns was
 read out of bounds

---
 interfaces/matlab/qpOASES_sequence.cpp | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 8928cd2..3fecd52 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -536,7 +536,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 				return;
 
-			if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+			if ( ( ( nC > 0 ) || ( mxGetN( prhs[ A_idx ] ) != 0 ) ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 			{
 				myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 				return;
@@ -896,7 +896,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
-		if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+		if ( ( ( nC > 0 ) || ( mxGetN( prhs[ A_idx ] ) != 0 ) ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 			return;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 4a43f05..983f6c9 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -531,7 +531,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 				return;
 
-			if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+			if ( ( ( nC > 0 ) || ( mxGetN( prhs[ A_idx ] ) != 0 ) ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 			{
 				myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 				return;
@@ -885,7 +885,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
-		if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+		if ( ( ( nC > 0 ) || ( mxGetN( prhs[ A_idx ] ) != 0 ) ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 			return;
-- 
2.43.0


From 25fd16a048851c951d1e2a0fd88f3c8270154326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 73/73] fix: command longer than one character was read from
 uninitialised memory

---
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 3fecd52..cdb7319 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -324,7 +324,7 @@ int_t SQProblem_hotstart(	int_t handle,
 void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 {
 	/* inputs */
-	char typeString[2];
+	char typeString[2] = "";
 
 	real_t *g=0, *lb=0, *ub=0, *lbA=0, *ubA=0;
 	HessianType hessianType = HST_UNKNOWN;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 983f6c9..f71186d 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -324,7 +324,7 @@ int_t SQProblem_hotstart(	int_t handle,
 void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 {
 	/* inputs */
-	char typeString[2];
+	char typeString[2] = "";
 
 	real_t *g=0, *lb=0, *ub=0, *lbA=0, *ubA=0;
 	HessianType hessianType = HST_UNKNOWN;
-- 
2.43.0

