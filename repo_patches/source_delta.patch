From 110f2c5e9a496ba5311be47805c6339c01181246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 01/25] fix: compare exponents of the same variable in
 Monomial.MatchesFormOf

x^2 y and y^2 x were treated as like terms (and x^2 y, y x^2 as unlike ones)
because exponents were compared by position instead of by variable.
---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 52acee9..024e167 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -465,7 +465,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 			return false
 		} else {
 			// If v was in mIn, but not of the right degree, then these two are not the same
-			if m.Exponents[ii] != mIn.Exponents[ii] {
+			if m.Exponents[ii] != mIn.Exponents[foundIndex] {
 				return false
 			}
 		}
-- 
2.43.0


From 00814f0859ffab04f2eac9fc36e85d60f3792b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:19 +0000
Subject: [PATCH 02/25] fix: do not modify the receiver in
 Monomial.DerivativeWrt

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 024e167..a0ed1b8 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -517,7 +517,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 				}
 			}
 		default:
-			monomialOut = m
+			monomialOut = m.Copy()
 			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
 			monomialOut.Exponents[foundIndex] -= 1
 		}
-- 
2.43.0


From 480cb2d17939f152e5bd293bf7b0c2bdd7ee32f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 03/25] fix: PolynomialVector.DerivativeWrt neither modifies
 its receiver nor fails on constant derivatives

---
 symbolic/polynomial_vector.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 4e4144d..d218516 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -381,12 +381,30 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
-	// Constants
-	var derivative PolynomialVector = pv
+	// Input Processing
+	err := pv.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = vIn.Check()
+	if err != nil {
+		panic(err)
+	}
 
 	// Algorithm
-	for ii, polynomial := range pv {
-		derivative[ii] = polynomial.DerivativeWrt(vIn).(Polynomial)
+	var derivative PolynomialVector
+	for _, polynomial := range pv {
+		switch dPolynomial := polynomial.DerivativeWrt(vIn).(type) {
+		case K:
+			derivative = append(derivative, dPolynomial.ToPolynomial())
+		case Polynomial:
+			derivative = append(derivative, dPolynomial)
+		default:
+			panic(
+				fmt.Errorf("unexpected type in PolynomialVector.DerivativeWrt: %T", dPolynomial),
+			)
+		}
 	}
 
 	return derivative
-- 
2.43.0


From 0ab6a1abf5d6c1a72442abb7b18446cb3d8bb593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 04/25] fix: PolynomialMatrix.DerivativeWrt does not fail on
 constant derivatives

---
 symbolic/polynomial_matrix.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index eb53016..3c65abc 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -436,7 +436,16 @@ func (pm PolynomialMatrix) DerivativeWrt(vIn Variable) Expression {
 	for _, row := range pm {
 		var dpmRow []Polynomial
 		for _, polynomial := range row {
-			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(Polynomial))
+			switch dPolynomial := polynomial.DerivativeWrt(vIn).(type) {
+			case K:
+				dpmRow = append(dpmRow, dPolynomial.ToPolynomial())
+			case Polynomial:
+				dpmRow = append(dpmRow, dPolynomial)
+			default:
+				panic(
+					fmt.Errorf("unexpected type in PolynomialMatrix.DerivativeWrt: %T", dPolynomial),
+				)
+			}
 		}
 		dpm = append(dpm, dpmRow)
 	}
-- 
2.43.0


From 49a127379cc4c4953d0ad1e42629bfbc0763598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:50 +0000
Subject: [PATCH 05/25] fix: Monomial.LinearCoeff handles constants and
 variables that do not occur

---
 symbolic/monomial.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index a0ed1b8..ece0e44 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -358,8 +358,11 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	if IsLinear(m) {
 		// If the monomial is linear,
 		// then find the variable that is present
-		idx, _ := FindInSlice(m.VariableFactors[0], wrtVars)
-		linearCoeffs.SetVec(idx, m.Coefficient)
+		for ii, wrtVar := range wrtVars {
+			if m.IsDegreeOneContainingVariable(wrtVar) {
+				linearCoeffs.SetVec(ii, m.Coefficient)
+			}
+		}
 	}
 
 	// Return
-- 
2.43.0


From cf94d1673f94bd306d6de1afb8bca5ed04b71605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 06/25] fix: keep the simplified entries in MonomialMatrix.Plus

---
 symbolic/monomial_matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4f263f..df22e7f 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -127,7 +127,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -141,7 +141,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -156,7 +156,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -173,7 +173,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right.Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -188,7 +188,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right[ii][jj].Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
-- 
2.43.0


From 1abc93cb805ea96c42db0cc2736c47c094037187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 07/25] fix: Monomial.Multiply does not write behind the
 receiver's variable factors

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index ece0e44..c2056d1 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -198,7 +198,7 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	case Monomial:
 
 		// Collect all variables in both monomials
-		variables := append(m.VariableFactors, right.VariableFactors...)
+		variables := append(m.Copy().VariableFactors, right.VariableFactors...)
 		variables = UniqueVars(variables)
 
 		multiDegree := make([]int, len(variables))
-- 
2.43.0


From 46039bfb45d6dbe1a72972ca70739a8ee52a35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:26 +0000
Subject: [PATCH 08/25] fix: vectors and matrices substitute all variables of a
 map simultaneously

---
 symbolic/monomial_matrix.go   | 15 ++++++++++-----
 symbolic/monomial_vector.go   | 11 ++++++-----
 symbolic/polynomial_matrix.go | 14 +++++++++-----
 symbolic/polynomial_vector.go | 10 +++++-----
 symbolic/variable_matrix.go   | 14 +++++++++-----
 symbolic/variable_vector.go   | 10 +++++-----
 6 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index df22e7f..2566999 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -583,12 +583,17 @@ func (mm MonomialMatrix) SubstituteAccordingTo(substitutions map[Variable]Expres
 	}
 
 	// Algorithm
-	var out MatrixExpression = mm
-	for v, expr := range substitutions {
-		postSub := out.Substitute(v, expr.(ScalarExpression))
-		out = postSub.(MatrixExpression)
+	var out [][]ScalarExpression
+	for ii := 0; ii < mm.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < mm.Dims()[1]; jj++ {
+			eltSubbed := mm.At(ii, jj).SubstituteAccordingTo(substitutions)
+			tempRow = append(tempRow, eltSubbed.(ScalarExpression))
+		}
+		out = append(out, tempRow)
 	}
-	return out
+
+	return ConcretizeMatrixExpression(out)
 }
 
 // Power Returns the monomial matrix raised to the power of the input integer.
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f8c8745..f88d610 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -512,12 +512,13 @@ func (mv MonomialVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Setup
-	var out VectorExpression = mv
-	for varKey, expr := range subMap {
-		postSub := out.Substitute(varKey, expr.(ScalarExpression))
-		out = postSub.(VectorExpression)
+	var out []ScalarExpression
+	for ii := 0; ii < mv.Len(); ii++ {
+		eltSubbed := mv.AtVec(ii).SubstituteAccordingTo(subMap)
+		out = append(out, eltSubbed.(ScalarExpression))
 	}
-	return out
+
+	return ConcretizeVectorExpression(out)
 }
 
 // Power raises the monomial vector to the input power.
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 3c65abc..94e05d7 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -598,13 +598,17 @@ func (pm PolynomialMatrix) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var out MatrixExpression = pm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
+	var out [][]ScalarExpression
+	for ii := 0; ii < pm.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < pm.Dims()[1]; jj++ {
+			eltSubbed := pm.At(ii, jj).SubstituteAccordingTo(subMap)
+			tempRow = append(tempRow, eltSubbed.(ScalarExpression))
+		}
+		out = append(out, tempRow)
 	}
 
-	return out
+	return ConcretizeMatrixExpression(out)
 }
 
 // Power Raises the polynomial matrix to the power of the input integer.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index d218516..2f7a934 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -519,13 +519,13 @@ func (pv PolynomialVector) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var result VectorExpression = pv
-	for tempVar, tempExpr := range subMap {
-		resultSubbed := result.Substitute(tempVar, tempExpr.(ScalarExpression))
-		result = resultSubbed.(VectorExpression)
+	var out []ScalarExpression
+	for ii := 0; ii < pv.Len(); ii++ {
+		eltSubbed := pv.AtVec(ii).SubstituteAccordingTo(subMap)
+		out = append(out, eltSubbed.(ScalarExpression))
 	}
 
-	return result
+	return ConcretizeVectorExpression(out)
 }
 
 // Power Computes the power of the polynomial vector.
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index f56ae37..ffafb9d 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -582,13 +582,17 @@ func (vm VariableMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out MatrixExpression = vm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
+	var out [][]ScalarExpression
+	for ii := 0; ii < vm.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < vm.Dims()[1]; jj++ {
+			eltSubbed := vm.At(ii, jj).SubstituteAccordingTo(subMap)
+			tempRow = append(tempRow, eltSubbed.(ScalarExpression))
+		}
+		out = append(out, tempRow)
 	}
 
-	return out
+	return ConcretizeMatrixExpression(out)
 }
 
 // Power This function raises the variable matrix to a given power.
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 4d6e546..e7bb213 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -476,13 +476,13 @@ func (vv VariableVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out VectorExpression = vv
-	for tempVar, tempExpr := range subMap {
-		outSubbed := out.Substitute(tempVar, tempExpr.(ScalarExpression))
-		out = outSubbed.(VectorExpression)
+	var out []ScalarExpression
+	for ii := 0; ii < vv.Len(); ii++ {
+		eltSubbed := vv.AtVec(ii).SubstituteAccordingTo(subMap)
+		out = append(out, eltSubbed.(ScalarExpression))
 	}
 
-	return out
+	return ConcretizeVectorExpression(out)
 
 }
 
-- 
2.43.0


From b765bbf1f852427cc03d090a85f400fd63c58c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 09/25] fix: the scalar linear inequality representation
 rejects equality constraints

---
 symbolic/scalar_constraint.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 312c769..2f7494b 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -112,6 +112,14 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		}
 	}
 
+	if sc.Sense == SenseEqual {
+		panic(
+			smErrors.InequalityConstraintRequiredError{
+				Operation: "LinearInequalityConstraintRepresentation",
+			},
+		)
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
-- 
2.43.0


From dddd0b7ce72f56420d24166868ae74ceacf85735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:52 +0000
Subject: [PATCH 10/25] fix: linear representations of scalar constraints count
 every constant term

---
 symbolic/scalar_constraint.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 2f7494b..814a580 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -131,8 +131,7 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	}
 
 	// Create b
-	newRHS := sc.Right().(ScalarExpression).Constant() - sc.Left().(ScalarExpression).Constant()
-	b = newRHS
+	b = -newLHS.Constant()
 
 	if sc.Sense == SenseGreaterThanEqual {
 		b = -b
@@ -184,8 +183,7 @@ func (sc ScalarConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	C = newLHS.LinearCoeff(wrt...)
 
 	// Create d
-	newRHS := sc.Right().(ScalarExpression).Constant() - sc.Left().(ScalarExpression).Constant()
-	d = newRHS
+	d = -newLHS.Constant()
 
 	// Return
 	return C, d
-- 
2.43.0


From a5a394f9752403ec519171ad308e25cc15ec9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 11/25] fix: implication and non-negativity checks take
 constants and non-linear terms of the left-hand side into account

---
 symbolic/scalar_constraint.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 814a580..ff5681f 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -38,8 +38,9 @@ func (sc ScalarConstraint) Simplify() ScalarConstraint {
 	// Create LHS
 	newLHS := sc.LeftHandSide
 
-	// If RHS is a constant, then simply return the constraint
+	// If RHS is a constant, then only the left hand side needs to be simplified
 	if _, ok := sc.RightHandSide.(K); ok {
+		sc.LeftHandSide = sc.LeftHandSide.AsSimplifiedExpression().(ScalarExpression)
 		return sc
 	}
 
@@ -316,7 +317,10 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 		containsOneVar := len(sc.Variables()) == 1 && len(otherC.Variables()) == 1
 		scAndOtherShareSameVar := len(UnionOfVariables(sc.Variables(), otherC.Variables())) == 1
 
-		if containsOneVar && scAndOtherShareSameVar {
+		// Note: The bounds can only be read off of constraints which are linear in the variable.
+		bothAreLinear := sc.IsLinear() && otherC.IsLinear()
+
+		if containsOneVar && scAndOtherShareSameVar && bothAreLinear {
 			// Get the coefficient of the single variable
 			scCoeffVector := sc.LeftHandSide.LinearCoeff(sc.Variables())
 			scCoeff := scCoeffVector.AtVec(0)
@@ -329,6 +333,10 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 			sc = sc.ScaleBy(1.0 / scCoeff).(ScalarConstraint)
 			otherC = otherC.ScaleBy(1.0 / otherCCoeff).(ScalarConstraint)
 
+			// Collect the bounds (i.e., the constants of both sides) of both constraints.
+			scBound := sc.RightHandSide.Constant() - sc.LeftHandSide.Constant()
+			otherCBound := otherC.RightHandSide.Constant() - otherC.LeftHandSide.Constant()
+
 			// The implication holds if all of the following are true:
 			// 1. The sense of sc and otherC are either the same (or one is equality)
 			// 2. The bounds of the constraint with the LessThanEqual or GreaterThanEqual sense are within the bounds of the other constraint.
@@ -347,7 +355,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseLessThanEqual:
 					// Both are <=
 					// Then the implication holds if the upper bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				default:
 					// sc is <= and otherC is either >= or ==
 					// Then the implication holds if the upper bound of sc is <= the lower bound of otherC
@@ -359,7 +367,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseGreaterThanEqual:
 					// Both are >=
 					// Then the implication holds if the lower bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				default:
 					// sc is >= and otherC is either <= or ==
 					// Then the implication holds if the lower bound of sc is >= the upper bound of otherC
@@ -371,15 +379,15 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseEqual:
 					// Both are ==
 					// Then the implication holds if the bounds are equal
-					return sc.RightHandSide.Constant() == otherC.RightHandSide.Constant()
+					return scBound == otherCBound
 				case SenseLessThanEqual:
 					// sc is == and otherC is <=
 					// Then the implication holds if the bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				case SenseGreaterThanEqual:
 					// sc is == and otherC is >=
 					// Then the implication holds if the bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				}
 			default:
 				panic("unreachable code reached in ScalarConstraint.ImpliesThisIsAlsoSatisfied")
@@ -432,7 +440,7 @@ func (sc ScalarConstraint) IsNonnegativityConstraint() bool {
 
 	lhsIsVariableLike = simplifiedAsPL.Degree() == 1
 
-	if !lhsIsVariableLike {
+	if !lhsIsVariableLike || simplified.LeftHandSide.Constant() != 0 {
 		return false // If lhs is still not variable like, then return false.
 	}
 
-- 
2.43.0


From d3f29270e0fd206c914a3439304e66699e637a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 12/25] fix: a vector constraint between vectors of different
 lengths is not valid

---
 symbolic/vector_constraint.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 0ae693d..aaece18 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -76,6 +76,14 @@ func (vc VectorConstraint) Check() error {
 		return err
 	}
 
+	if vc.LeftHandSide.Len() != vc.RightHandSide.Len() {
+		return smErrors.VectorDimensionError{
+			Operation: "Comparison (" + vc.ConstrSense().String() + ")",
+			Arg1:      vc.LeftHandSide,
+			Arg2:      vc.RightHandSide,
+		}
+	}
+
 	// All Checks Passed!
 	return nil
 }
-- 
2.43.0


From 905f0d50adb6b256aaf5f689700a1101bc43f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 13/25] fix: vector constraints of length one and with several
 constant terms can be simplified and represented

---
 symbolic/vector_constraint.go | 53 +++++++++++++++--------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index aaece18..e7259ba 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -146,10 +146,7 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	}
 
 	// Create A
-	newLHS := vc.Left().(PolynomialLikeVector)
-	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	newLHS := asVectorExpression(vc.LeftHandSide.Minus(vc.RightHandSide))
 
 	A = newLHS.LinearCoeff(wrt...)
 
@@ -158,15 +155,9 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	}
 
 	// Create b
-	N := vc.Left().(VectorExpression).Len()
-	var newRHS *mat.VecDense = mat.NewVecDense(N, make([]float64, N))
-	rightConst := vc.Right().(VectorExpression).Constant()
-	leftConst := vc.Left().(VectorExpression).Constant()
+	b = newLHS.Constant()
 
-	newRHS.SubVec(&rightConst, &leftConst)
-	b = *newRHS
-
-	if vc.Sense == SenseGreaterThanEqual {
+	if vc.Sense != SenseGreaterThanEqual {
 		b.ScaleVec(-1, &b)
 	}
 
@@ -211,20 +202,13 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	}
 
 	// Create C
-	newLHS := vc.Left().(PolynomialLikeVector)
-	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	newLHS := asVectorExpression(vc.LeftHandSide.Minus(vc.RightHandSide))
 
 	C = newLHS.LinearCoeff(wrt...)
 
 	// Create d
-	N := vc.Left().(VectorExpression).Len()
-	var newRHS *mat.VecDense = mat.NewVecDense(N, make([]float64, N))
-	rightConst := vc.Right().(VectorExpression).Constant()
-	leftConst := vc.Left().(VectorExpression).Constant()
-	newRHS.SubVec(&rightConst, &leftConst)
-	d = *newRHS
+	d = newLHS.Constant()
+	d.ScaleVec(-1, &d)
 
 	// Return the tuple
 	return C, d
@@ -283,24 +267,33 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 	}
 
 	// Create Left Hand side of all of the expressions
-	var newLHS Expression = vc.LeftHandSide.Minus(vc.LeftHandSide.Constant())
-	newLHS = newLHS.Minus(
-		vc.RightHandSide.Minus(vc.RightHandSide.Constant()),
-	)
+	newLHS := asVectorExpression(vc.LeftHandSide.Minus(vc.LeftHandSide.Constant()))
+	newLHS = asVectorExpression(newLHS.Minus(
+		asVectorExpression(vc.RightHandSide.Minus(vc.RightHandSide.Constant())),
+	))
 
 	// Create Right Hand Side of only constants
-	var newRHS Expression = VecDenseToKVector(vc.RightHandSide.Constant()).Minus(
+	newRHS := asVectorExpression(VecDenseToKVector(vc.RightHandSide.Constant()).Minus(
 		vc.LeftHandSide.Constant(),
-	)
+	))
 
 	// Return new constraint
 	return VectorConstraint{
-		LeftHandSide:  newLHS.(VectorExpression),
-		RightHandSide: newRHS.(VectorExpression),
+		LeftHandSide:  newLHS,
+		RightHandSide: newRHS,
 		Sense:         vc.Sense,
 	}
 }
 
+// asVectorExpression Returns the expression as a vector expression. The arithmetic of vectors of
+// length 1 returns scalars, which are placed in a vector of length 1.
+func asVectorExpression(e Expression) VectorExpression {
+	if eAsSE, tf := e.(ScalarExpression); tf {
+		return ConcretizeVectorExpression([]ScalarExpression{eAsSE})
+	}
+	return e.(VectorExpression)
+}
+
 // Variables Returns a slice of all the variables in the constraint.
 func (vc VectorConstraint) Variables() []Variable {
 	return VariablesInThisConstraint(vc)
-- 
2.43.0


From 572cc2d964bdafb3e5d363b44d96900382b82e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 14/25] fix: matrix constraints with one column can be
 simplified

---
 symbolic/matrix_constraint.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index f46a70e..14d3b0d 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -158,24 +158,40 @@ func (mc MatrixConstraint) SubstituteAccordingTo(subMap map[Variable]Expression)
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
 	// Create Left Hand side of all of the expressions
-	var newLHS Expression = mc.LeftHandSide.Minus(mc.LeftHandSide.Constant())
-	newLHS = newLHS.Minus(
-		mc.RightHandSide.Minus(mc.RightHandSide.Constant()),
-	)
+	newLHS := asMatrixExpression(mc.LeftHandSide.Minus(mc.LeftHandSide.Constant()))
+	newLHS = asMatrixExpression(newLHS.Minus(
+		asMatrixExpression(mc.RightHandSide.Minus(mc.RightHandSide.Constant())),
+	))
 
 	// Create Right Hand Side of only constants
-	var newRHS Expression = DenseToKMatrix(mc.RightHandSide.Constant()).Minus(
+	newRHS := asMatrixExpression(DenseToKMatrix(mc.RightHandSide.Constant()).Minus(
 		mc.LeftHandSide.Constant(),
-	)
+	))
 
 	// Return new constraint
 	return MatrixConstraint{
-		LeftHandSide:  newLHS.(MatrixExpression),
-		RightHandSide: newRHS.(MatrixExpression),
+		LeftHandSide:  newLHS,
+		RightHandSide: newRHS,
 		Sense:         mc.Sense,
 	}
 }
 
+// asMatrixExpression Returns the expression as a matrix expression. The arithmetic of matrices with
+// only one column returns vectors or scalars, which are placed in a matrix with one column.
+func asMatrixExpression(e Expression) MatrixExpression {
+	switch concreteE := e.(type) {
+	case ScalarExpression:
+		return ConcretizeMatrixExpression([][]ScalarExpression{{concreteE}})
+	case VectorExpression:
+		var column [][]ScalarExpression
+		for ii := 0; ii < concreteE.Len(); ii++ {
+			column = append(column, []ScalarExpression{concreteE.AtVec(ii)})
+		}
+		return ConcretizeMatrixExpression(column)
+	}
+	return e.(MatrixExpression)
+}
+
 // Variables Returns a slice of all the variables in the constraint.
 func (mc MatrixConstraint) Variables() []Variable {
 	return VariablesInThisConstraint(mc)
-- 
2.43.0


From c84175aaa357aca397d866588e844a3d3d8af83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:54 +0000
Subject: [PATCH 15/25] fix: 1 x 1 matrices can be raised to a power

---
 symbolic/matrix_expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bc47294..456363d 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -161,6 +161,11 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 		})
 	}
 
+	// Products of 1 x 1 matrices are scalars
+	if me.Dims()[0] == 1 {
+		return asMatrixExpression(me.At(0, 0).Power(exponent))
+	}
+
 	// Algorithm
 	var out MatrixExpression = K(0).Plus(Identity(me.Dims()[0])).(MatrixExpression)
 	for i := 0; i < exponent; i++ {
-- 
2.43.0


From 044a64f8e957094430eb629dcf91ef42862a46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 16/25] fix: new variables never reuse the identifier of a
 tracked variable

---
 symbolic/variable.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 62089c2..872c0e9 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -392,11 +392,11 @@ func NewContinuousVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableID(currentEnv)
 
 	// Create variable
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       float64(-Infinity),
 		Upper:       float64(+Infinity),
 		Type:        Continuous,
@@ -411,6 +411,19 @@ func NewContinuousVariable(envs ...Environment) Variable {
 
 }
 
+// nextVariableID returns an identifier that is not used by any of the variables tracked in env.
+func nextVariableID(env Environment) uint64 {
+	trackedVariables := env.AllTrackedVariables()
+
+	nextID := uint64(len(trackedVariables))
+	for {
+		if foundIndex, _ := FindInSlice(Variable{ID: nextID}, trackedVariables); foundIndex == -1 {
+			return nextID
+		}
+		nextID++
+	}
+}
+
 // NewBinaryVariable creates a new binary variable.
 func NewBinaryVariable(envs ...Environment) Variable {
 	// Constants
@@ -423,11 +436,11 @@ func NewBinaryVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableID(currentEnv)
 
 	// Get New Variable Object and add it to environment
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       0.0,
 		Upper:       1.0,
 		Type:        Binary,
-- 
2.43.0


From cfd9cb00ef57989df26382a6b76eaa1a982deaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 17/25] fix: VariableMatrix.Multiply accepts every constant

---
 symbolic/variable_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index ffafb9d..fde63ee 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -247,7 +247,7 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		for _, vmRow := range vm {
 			var mmRow []Monomial
 			for _, v := range vmRow {
-				mmRow = append(mmRow, v.Multiply(right).(Monomial))
+				mmRow = append(mmRow, v.ToMonomial().Multiply(right).(Monomial))
 			}
 			mmOut = append(mmOut, mmRow)
 		}
-- 
2.43.0


From 4b0416cd9ca92adc2dd92eb50983982d34565b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:13 +0000
Subject: [PATCH 18/25] fix: VariableMatrix.Plus accepts zero entries

---
 symbolic/variable_matrix.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index fde63ee..e4e3ccf 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -139,15 +139,7 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 
 	case KMatrix:
 		// Create a new matrix of polynomials.
-		var pmOut PolynomialMatrix
-		for ii, vmRow := range vm {
-			var pmRow []Polynomial
-			for jj, v := range vmRow {
-				pmRow = append(pmRow, v.Plus(right[ii][jj]).(Polynomial))
-			}
-			pmOut = append(pmOut, pmRow)
-		}
-		return pmOut
+		return MatrixPlusTemplate(vm, right)
 	}
 
 	// panic if the type is not recognized
-- 
2.43.0


From a663c529f5f33327ea854694bedf97931752ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 19/25] fix: KMatrix.Check rejects empty and ragged matrices

---
 symbolic/constant_matrix.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 3ac79f9..c93ffb3 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -11,9 +11,25 @@ import (
 type KMatrix [][]K
 
 // Check Checks to make sure that the constant is initialized properly.
-// ConstantMatrix objects are always initialized properly, so this should always return
-// no error.
 func (km KMatrix) Check() error {
+	// Check that the matrix contains at least one row
+	if len(km) == 0 {
+		return smErrors.EmptyMatrixError{Expression: km}
+	}
+
+	// Check that all rows have the same number of columns
+	numColumns := len(km[0])
+	for ii, row := range km {
+		if len(row) != numColumns {
+			return smErrors.MatrixColumnMismatchError{
+				ExpectedNColumns: numColumns,
+				ActualNColumns:   len(row),
+				Row:              ii,
+			}
+		}
+	}
+
+	// All checks passed
 	return nil
 }
 
-- 
2.43.0


From 5274186dcba99c82e4d7cecc03eac455e22e507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 20/25] fix: MonomialMatrix.Multiply accepts rows whose product
 simplifies

---
 symbolic/monomial_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 2566999..946545f 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -298,7 +298,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 				for jj := 1; jj < len(row); jj++ {
 					product_ii = product_ii.Plus(
 						row[jj].ToPolynomial().Multiply(right[jj]),
-					).(Polynomial)
+					)
 				}
 				// Enforce that product_ii is a ScalarExpression
 				product_iiAsSE, tf := product_ii.(ScalarExpression)
-- 
2.43.0


From 3a4633de51bf7f28f0d893d5045bffc8585ce633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 21/25] fix: vectors of length one stand for every entry of
 longer vectors in sums and products

---
 symbolic/constant_vector.go   | 16 ++++++++++++----
 symbolic/polynomial_vector.go |  8 ++++++--
 symbolic/variable_vector.go   |  8 ++++++--
 symbolic/vector_expression.go |  5 +++++
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 60f4621..d93f66e 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -342,13 +342,21 @@ func (kv KVector) Multiply(rightIn interface{}) Expression {
 
 	case KVector:
 		// If the input is a KVector and the dimensions match
-		// then right is a (1x1) vector and can use the scalar method.
-		out = kv.Multiply(right[0])
+		// then one of the two is a (1x1) vector and can use the scalar method.
+		if right.Len() != 1 {
+			out = right.Multiply(kv[0])
+		} else {
+			out = kv.Multiply(right[0])
+		}
 
 	case VariableVector:
 		// If the input is a KVector and the dimensions match
-		// then right is a (1x1) vector and can use the scalar method.
-		out = kv.Multiply(right[0])
+		// then one of the two is a (1x1) vector and can use the scalar method.
+		if right.Len() != 1 {
+			out = right.Multiply(kv[0])
+		} else {
+			out = kv.Multiply(right[0])
+		}
 
 	default:
 		// Panic if the input type is not recognized
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 2f7a934..fc7e86d 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -246,9 +246,13 @@ func (pv PolynomialVector) Multiply(rightIn interface{}) Expression {
 		}
 		out = ConcretizeExpression(product)
 	case PolynomialVector:
-		// This should only be true if the polynomial vector is actually a polynomial.
+		// This should only be true if one of the polynomial vectors is actually a polynomial.
 		// Convert it to a polynomial and do the multiplication as if it was with just the scalar.
-		out = pv.Multiply(right[0])
+		if right.Len() != 1 {
+			out = right.Multiply(pv[0])
+		} else {
+			out = pv.Multiply(right[0])
+		}
 
 	default:
 		panic(
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index e7bb213..356c2e6 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -204,9 +204,13 @@ func (vv VariableVector) Multiply(rightIn interface{}) Expression {
 	case ScalarExpression:
 		out = VectorMultiplyTemplate(vv, right)
 	case VectorExpression:
-		// Vector of polynomials must be (1x1)
+		// One of the two vectors must be (1x1)
 		rightAsVE, _ := ToVectorExpression(right)
-		out = vv.Multiply(rightAsVE.AtVec(0))
+		if rightAsVE.Len() != 1 {
+			out = rightAsVE.Multiply(vv.AtVec(0))
+		} else {
+			out = vv.Multiply(rightAsVE.AtVec(0))
+		}
 	default:
 		// Otherwise, panic
 		panic(
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 8a72998..6d39376 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -399,6 +399,11 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			sum = append(sum, se.Plus(rightExpr).(ScalarExpression))
 		}
 	case VectorExpression:
+		// A vector of length 1 is added to every entry of a longer vector
+		if ve.Len() == 1 && rightExpr.Len() != 1 {
+			return rightExpr.Plus(veAsSlice[0])
+		}
+
 		for ii, se := range veAsSlice {
 			rightII := rightExpr.AtVec(ii)
 			sum = append(sum, se.Plus(rightII).(ScalarExpression))
-- 
2.43.0


From d2686b5ba0fc738ec115b4b01aab2e879eb0031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 22/25] fix: 1 x 1 matrices stand for every entry of larger
 expressions in sums and products

---
 symbolic/matrix_expression.go |  6 ++++++
 symbolic/monomial_matrix.go   | 10 ++++++++++
 symbolic/polynomial_matrix.go | 10 ++++++++++
 symbolic/variable_matrix.go   | 10 ++++++++++
 4 files changed, 36 insertions(+)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 456363d..b222091 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -174,6 +174,12 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 	return out
 }
 
+// isOneByOne returns true if the expression has dimension (1,1).
+func isOneByOne(e Expression) bool {
+	dims := e.Dims()
+	return dims[0] == 1 && dims[1] == 1
+}
+
 // MatrixMultiplyTemplate is a function that can compute the multiplication of two matrix objects. Any object that implements MatrixExpression can be used in this function to compute products.
 // This is also heavily used across all matrix objects because they are required to implement Multiply.
 func MatrixMultiplyTemplate(left MatrixExpression, right MatrixExpression) Expression {
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 946545f..0a9492c 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -112,6 +112,11 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		// A matrix of dimension (1,1) is added to every entry of a larger expression
+		if isOneByOne(mm) && !isOneByOne(eAsE) {
+			return eAsE.Plus(mm[0][0])
+		}
 	}
 
 	// Constants
@@ -281,6 +286,11 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 		}
 		return product
 	case VariableVector:
+		// A matrix of dimension (1,1) multiplies every entry of a longer vector
+		if isOneByOne(mm) && !isOneByOne(right) {
+			return right.Multiply(mm[0][0])
+		}
+
 		if nRows == 1 {
 			// Output will be a scalar expression
 			var product Expression = K(0.0)
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 94e05d7..aee283f 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -113,6 +113,11 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		// A matrix of dimension (1,1) is added to every entry of a larger expression
+		if isOneByOne(pm) && !isOneByOne(eAsE) {
+			return eAsE.Plus(pm[0][0])
+		}
 	}
 
 	// Perform the addition
@@ -271,6 +276,11 @@ func (pm PolynomialMatrix) Multiply(e interface{}) Expression {
 		}
 		out = ConcretizeExpression(product)
 	case VariableVector:
+		// A matrix of dimension (1,1) multiplies every entry of a longer vector
+		if isOneByOne(pm) && !isOneByOne(right) {
+			return right.Multiply(pm[0][0])
+		}
+
 		// Identify output dimensions
 		nResultRows := pm.Dims()[0]
 
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index e4e3ccf..44cd95f 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -245,6 +245,11 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		}
 		out = mmOut
 	case KVector:
+		// A matrix of dimension (1,1) multiplies every entry of a longer vector
+		if isOneByOne(vm) && !isOneByOne(right) {
+			return right.Multiply(vm[0][0])
+		}
+
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
 
@@ -266,6 +271,11 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Use the KVector case
 		out = vm.Multiply(VecDenseToKVector(right))
 	case VariableVector:
+		// A matrix of dimension (1,1) multiplies every entry of a longer vector
+		if isOneByOne(vm) && !isOneByOne(right) {
+			return right.Multiply(vm[0][0])
+		}
+
 		// Output will be another vector
 		nVMCols := vm.Dims()[1]
 		var result Expression = K(0.0)
-- 
2.43.0


From 5088bdc07271dbb387f16a769a6de66194dc9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:04 +0000
Subject: [PATCH 23/25] fix: Variable.Plus rejects malformed operands

---
 symbolic/variable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 872c0e9..bd17c23 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -77,6 +77,14 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		panic(err)
 	}
 
+	if IsExpression(rightIn) {
+		rightAsE, _ := ToExpression(rightIn)
+		err = rightAsE.Check()
+		if err != nil {
+			panic(err)
+		}
+	}
+
 	// Algorithm
 	var out Expression
 	switch right := rightIn.(type) {
-- 
2.43.0


From 6f3704982136e40eae91cc189d5afa70ecedd59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 24/25] fix: KMatrix.Multiply treats a one-entry operand as a
 scalar when multiplying variable vectors

---
 symbolic/constant_matrix.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index c93ffb3..3824a69 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -269,7 +269,13 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 	case VariableVector:
 		// Choose the correct output type based on the size of km
 		nR := km.Dims()[0]
-		if nR == 1 {
+		if isOneByOne(right) && km.Dims()[1] != 1 {
+			// A vector of length 1 multiplies every entry of the matrix
+			out = km.Multiply(right[0].ToPolynomial())
+		} else if isOneByOne(km) && !isOneByOne(right) {
+			// A matrix of dimension (1,1) multiplies every entry of a longer vector
+			out = right.Multiply(km[0][0])
+		} else if nR == 1 {
 			// If the output is a scalar, return a scalar
 			var prod Expression = K(0)
 			for cIndex := 0; cIndex < len(right); cIndex++ {
-- 
2.43.0


From 391d6bef8b3b5625e58506f29d3149098a0af239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:02 +0000
Subject: [PATCH 25/25] fix: only monomials with coefficient one convert to a
 variable

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index c2056d1..5d7dbfa 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -573,7 +573,7 @@ func (m Monomial) ToVariable() Variable {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
 	// Algorithm
-	if m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
+	if m.IsVariable(m.VariableFactors[0]) {
 		return m.VariableFactors[0]
 	} else {
 		panic(
-- 
2.43.0

