#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it is reviewable)."""
import json,os
S="symbolic/"
sc=[S+"constant.go",S+"variable.go",S+"monomial.go",S+"polynomial.go",S+"expression.go"]
ve=[S+"constant_vector.go",S+"variable_vector.go",S+"monomial_vector.go",S+"polynomial_vector.go",S+"vector_expression.go"]
ma=[S+"constant_matrix.go",S+"variable_matrix.go",S+"monomial_matrix.go",S+"polynomial_matrix.go",S+"matrix_expression.go"]
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p("C01","Adding scalar expressions adds their values",
 "For any two valid scalar expressions (constant, variable, monomial, polynomial, or a plain number), if their sum is returned then at every assignment of values to variables it evaluates to the sum of the operands' values. The sum of two scalar expressions is itself scalar, and adding two valid scalar expressions never fails.",
 ["inputs"],"all pairs of well-formed scalar operands (any number of monomials, factors and exponents, shared or disjoint variables) and all assignments",
 "Tests add a handful of small fixed expressions and compare shapes; the like-term merge must be right for every list of monomials in every factor order.",
 sc,[("case analysis over operand kinds in Plus",S+"{constant,variable,monomial,polynomial}.go"),("merging of like terms",S+"polynomial.go Simplify"),("like-term test",S+"monomial.go MatchesFormOf")],["expr.Plus(x)"])
p("C02","Subtracting scalar expressions subtracts their values",
 "For any two valid scalar expressions, if their difference is returned then at every assignment it evaluates to the left operand's value minus the right operand's value. A plain number on the right behaves as the constant with that value.",
 ["inputs"],"all pairs of well-formed scalar operands and all assignments",
 "Subtraction is built from multiplication by -1 and addition; tests check a few pairs, while cancellation can leave any subset of terms.",
 sc,[("difference as sum with the negated operand",S+"expression.go Minus"),("Minus per kind",S+"{constant,variable,monomial,polynomial}.go")],["expr.Minus(x)"])
p("C03","Multiplying scalar expressions multiplies their values",
 "For any two valid scalar expressions, if their product is returned then at every assignment it evaluates to the product of the operands' values. Multiplying two valid scalar expressions never fails.",
 ["inputs"],"all pairs of well-formed scalar operands and all assignments",
 "The product regroups exponents over a union of factor lists and distributes over sums; tests cover products with one or two factors.",
 sc,[("exponent accumulation",S+"monomial.go Multiply"),("distribution over terms",S+"polynomial.go Multiply")],["expr.Multiply(x)"])
p("C04","Simplification preserves value and leaves no like or zero terms",
 "Simplifying a valid expression yields an expression with the same value at every assignment. A simplified polynomial has no two terms with the same powers of the same variables, and no zero term unless the whole polynomial is zero.",
 ["inputs"],"all well-formed polynomials (any number and order of terms and factors), and vectors and matrices of them",
 "Tests simplify a few fixed polynomials; order of terms and of factors inside a term is unbounded.",
 [S+"polynomial.go",S+"monomial.go",S+"polynomial_vector.go",S+"polynomial_matrix.go",S+"monomial_matrix.go",S+"expression.go"],[("like-term merge",S+"polynomial.go Simplify"),("narrowing to simpler kinds",S+"*.go AsSimplifiedExpression, ConcretizeExpression")],["Simplify()","AsSimplifiedExpression()"])
p("C05","Vector sums, differences and scalings are elementwise",
 "When a sum or difference of a vector expression with a vector of the same length or with a scalar is returned, entry i evaluates at every assignment to the sum or difference of the operands' entries i (the scalar standing for every entry). When the product of a vector with a scalar is returned, every entry is multiplied by that scalar.",
 ["inputs"],"all vector lengths and contents, all supported operand kinds, all assignments",
 "Tests use vectors of one or two fixed lengths with few kinds of entries; the loops must be right at every index.",
 ve,[("elementwise templates",S+"vector_expression.go VectorPlusTemplate, VectorMultiplyTemplate"),("kind unification",S+"vector_expression.go ConcretizeVectorExpression")],["vec.Plus","vec.Minus","vec.Multiply"])
p("C06","Matrix sums are entrywise and matrix products are row-by-column sums",
 "When a sum or difference with a matrix is returned, entry (i,j) evaluates to the sum or difference of the entries (i,j), a scalar operand standing for every entry. When a product with a matrix is returned, entry (i,j) evaluates to the sum over k of left(i,k)*right(k,j), or to the entry times the scalar when one operand is a scalar.",
 ["inputs"],"all matrix shapes and contents, all supported operand kinds, all assignments",
 "Tests multiply small fixed matrices, mostly constant or square; the index arithmetic must be right for every shape.",
 ma,[("entrywise and product loops",S+"*_matrix.go Plus/Minus/Multiply"),("templates",S+"matrix_expression.go")],["mat.Plus","mat.Minus","mat.Multiply"])
p("C07","Powers evaluate to repeated products",
 "Raising a scalar expression, a one-entry vector or a square matrix to a non-negative integer power yields an expression that evaluates to the corresponding repeated product, with exponent zero giving one (the identity for a matrix). A negative exponent is always rejected.",
 ["inputs"],"all well-formed bases and all integer exponents",
 "Tests use exponents up to 3; the loop must be right for every exponent.",
 [S+"scalar_expression.go",S+"vector_expression.go",S+"matrix_expression.go"],[("iterated product templates","ScalarPowerTemplate, VectorPowerTemplate, MatrixPowerTemplate")],["expr.Power(n)"])
p("C08","The derivative is the partial derivative",
 "For any valid expression and any variable, the returned derivative evaluates at every assignment to the partial derivative of the expression with respect to that variable, entry by entry for vectors and matrices. Taking a derivative of a valid expression never fails.",
 ["inputs"],"all well-formed expressions with exponents of any size, all variables, all assignments",
 "Tests differentiate a few monomials; exponents above two, several factors, vanishing or constant entries are not explored.",
 sc+ve+ma,[("product rule on a monomial",S+"monomial.go DerivativeWrt"),("termwise and entrywise loops",S+"polynomial.go, *_vector.go, *_matrix.go DerivativeWrt")],["expr.DerivativeWrt(v)"])
p("C09","Substitution evaluates like the original at the substituted values",
 "Substituting a scalar expression for a variable gives an expression whose value at every assignment is the original's value with that variable set to the replacement's value. With a map of replacements all variables are replaced simultaneously, whatever the iteration order of the map.",
 ["inputs","schedules"],"all well-formed expressions, variables, replacement expressions and maps; all map iteration orders",
 "Map iteration order is random and tests use at most two replacements that do not mention each other's variables.",
 sc+ve+ma+[S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go",S+"utils.go"],[("factorwise substitution",S+"monomial.go Substitute, SubstituteAccordingTo"),("entrywise templates",S+"vector_expression.go, matrix_expression.go")],["expr.Substitute","expr.SubstituteAccordingTo","constraint.Substitute*"])
p("C10","Operations never modify their operands",
 "No operation on expressions or constraints changes the value or contents of its receiver or of any argument. In particular slices handed in by the caller keep their contents, including memory beyond their length.",
 ["inputs","histories"],"all operations on all operands, in any sequence of operations on shared sub-expressions",
 "Value-receiver methods share backing arrays, so a write shows only in an operand a test looks at again after the call; tests almost never do.",
 sc+ve+ma+[S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go",S+"utils.go"],[("copying before writing",S+"monomial.go Copy, polynomial.go Copy"),("append only to own slices","all packages")],["operand after any call"])
p("C11","Constant and linear coefficients are the polynomial's true coefficients",
 "For any valid expression in simplified form, the reported constant is its value with all variables at zero, and the reported coefficient of each requested variable is the coefficient of that variable's degree-one term (zero when there is none). Hence a linear expression equals its coefficients times the variables plus its constant whenever the requested variables include all of its own.",
 ["inputs"],"all simplified well-formed scalars, vectors and matrices, every list of requested variables, and all assignments",
 "Tests ask for coefficients with respect to the expression's own variables in order; other lists and constant entries are not covered.",
 sc+ve+ma+[S+"polynomial_like_vector.go"],[("coefficient extraction",S+"polynomial.go/monomial.go/variable.go LinearCoeff, Constant"),("row-wise extraction",S+"polynomial_like_vector.go")],["Constant()","LinearCoeff(vars)"])
p("C12","Linear representations describe exactly the constraint's solution set",
 "The inequality representation of a linear inequality constraint describes exactly the assignments that satisfy it (with the sense normalised to less-or-equal), and the equality representation of a linear equality constraint exactly its solutions. Constraints of the wrong sense or with non-linear sides are rejected.",
 ["inputs"],"all linear scalar and vector constraints, all requested variable lists covering the constraint's variables, all assignments",
 "Tests check coefficients of a few constraints with all terms on the left; signs and constants on both sides vary freely.",
 [S+"scalar_constraint.go",S+"vector_constraint.go"],[("sense normalisation and constant transfer","LinearInequalityConstraintRepresentation, LinearEqualityConstraintRepresentation")],["LinearInequalityConstraintRepresentation","LinearEqualityConstraintRepresentation"])
p("C13","Comparisons build the constraint that was written",
 "Comparing two valid expressions yields a constraint whose sense is the one asked for and whose left and right sides have, at every assignment, the values of the operands in the order written, a scalar standing for every entry when compared with a vector or matrix. Less-equal, greater-equal and equal are the corresponding comparisons.",
 ["inputs"],"all pairs of operands for which a constraint is returned, all three senses",
 "Each operand kind has its own code; tests look at a few pairs and often only at one side.",
 sc+ve+ma,[("Comparison per kind","all expression files")],["x.LessEq(y)","x.GreaterEq(y)","x.Eq(y)","x.Comparison(y,s)"])
p("C14","Simplifying or rescaling a constraint keeps its solutions",
 "Whenever simplifying a constraint returns, it yields one satisfied by exactly the same assignments, with only a constant on the right-hand side. Multiplying a scalar constraint by a non-zero number yields one satisfied by exactly the same assignments, the sense being flipped exactly when the number is negative.",
 ["inputs"],"all well-formed scalar, vector and matrix constraints, all factors, all assignments",
 "Tests rescale by a few factors; transfer of terms from right to left has to be right for every pair of sides.",
 [S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go"],[("moving non-constant terms left","Simplify, AsSimplifiedConstraint"),("sense flip","ScaleBy")],["AsSimplifiedConstraint()","Simplify()","ScaleBy(f)"])
p("C15","A claimed implication between constraints is always true",
 "If one constraint reports that it implies another, then every assignment that satisfies the first also satisfies the second.",
 ["inputs"],"all pairs of well-formed constraints for which the answer is yes, all assignments",
 "Soundness quantifies over all assignments and both constraints' coefficients; tests only check simple bounds on one variable.",
 [S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go"],[("bound comparison after normalising the coefficient","ImpliesThisIsAlsoSatisfied")],["ImpliesThisIsAlsoSatisfied(other)"])
p("C16","Only non-negativity constraints are recognised as such",
 "If a scalar constraint is reported to be a non-negativity constraint, then its solutions are exactly the assignments at which one particular variable is greater than or equal to zero.",
 ["inputs"],"all well-formed scalar constraints for which the answer is yes, all assignments",
 "Tests look at a few shapes; constants, signs and senses combine freely.",
 [S+"scalar_constraint.go"],[("shape recognition after simplification","IsNonnegativityConstraint")],["IsNonnegativityConstraint()"])
p("C17","Mismatched dimensions are always rejected and results have the right shape",
 "An addition, subtraction, multiplication, comparison or stacking of operands whose dimensions do not fit never returns a result. A result that is returned has the dimensions the operation prescribes.",
 ["inputs"],"all pairs of operand kinds and all shapes",
 "Tests try one mismatching shape per kind; one-by-one operands and other shapes take different paths.",
 ve+ma+["smErrors/matrix_dimension_error.go"],[("dimension checks","smErrors/matrix_dimension_error.go, symbolic/utils.go"),("constructors of constraints",S+"*_constraint.go")],["Plus/Minus/Multiply/Comparison/HStack/VStack","Dims()"])
p("C18","Transposing, indexing and stacking select exactly the right entries",
 "Entry (i,j) of a transpose is entry (j,i) of the original; indexing returns exactly the addressed entry; horizontal and vertical stacking place every entry of every block at its offset. All entries keep their value at every assignment.",
 ["inputs"],"all shapes, all kinds, all indices, any number of stacked blocks",
 "Index arithmetic over arbitrary shapes and block lists; tests use few small shapes.",
 ve+ma+[S+"expression.go"],[("Transpose, At, AtVec per kind","*_vector.go, *_matrix.go"),("stacking",S+"expression.go HStack, VStack")],["Transpose()","At(i,j)","AtVec(i)","HStack","VStack"])
p("C19","The variable list is complete, sound and free of duplicates",
 "The list of variables of a valid expression or constraint contains exactly the variables that occur in it, each exactly once. Union and de-duplication of variable lists keep exactly the distinct variables of their inputs.",
 ["inputs"],"all well-formed expressions and constraints and all lists of variables",
 "Sets over arbitrary nesting and repetition; tests use two or three variables.",
 sc+ve+ma+[S+"constraint.go",S+"scalar_constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go"],[("collection and de-duplication","Variables, UniqueVars, UnionOfVariables, VariablesInThisConstraint")],["Variables()","UniqueVars","UnionOfVariables","NumVariables","VariableIDs"])
p("C20","New variables never share an identity with an existing one",
 "Every variable created in an environment gets an identifier different from that of every variable already tracked there, and is tracked from then on. Tracking adds a variable exactly when no tracked variable has its identifier, and never drops or alters the others.",
 ["histories"],"all sequences of creating and tracking variables, vectors and matrices of variables in an environment",
 "Identity is a property of the whole creation history; tests create a few variables in a row.",
 [S+"variable.go",S+"variable_vector.go",S+"variable_matrix.go",S+"basic_environment.go"],[("identifier choice",S+"variable.go NewContinuousVariable, NewBinaryVariable"),("tracking",S+"basic_environment.go TrackVariable")],["NewVariable","NewBinaryVariable","NewVariableVector","NewVariableMatrix","TrackVariable"])
p("C21","The reported degree is the polynomial degree",
 "The degree of a constant is 0, of a variable 1, of a monomial the sum of its exponents, and of a polynomial, vector or matrix the largest degree among its terms or entries. Linearity and quadraticity tests answer exactly whether that degree is at most one or two.",
 ["inputs"],"all well-formed polynomial-like expressions",
 "A maximum of sums over arbitrarily many terms; tests use two or three.",
 sc+ve+ma+[S+"polynomial_like.go"],[("sum and maximum loops","Degree"),("classification",S+"expression.go IsLinear, IsQuadratic")],["Degree()","IsLinear","IsQuadratic"])
p("C22","Conversions between representations keep every entry",
 "Converting a constant, variable, monomial, or a vector or matrix of them, or a numeric vector or matrix, to another representation yields an object of the same shape in which every entry has the same value at every assignment. Conversions to a narrower kind are rejected when the value does not fit.",
 ["inputs"],"all conversion functions, all shapes and contents",
 "Copy loops over all indices; tests use one or two shapes.",
 sc+ve+ma+["get/KMatrix/from.go","get/KVector/from.go"],[("conversion loops","To*, VecDenseToKVector, DenseToKMatrix, From, Concretize*")],["To*()","From(x)"])
p("C23","Splitting constraints into scalar constraints keeps the solution set",
 "Compiling a list of scalar, vector and matrix constraints into scalar constraints yields exactly one constraint per entry of every input, with that entry's two sides and sense, in order. Entry access on a vector or matrix constraint returns that entry's constraint.",
 ["inputs"],"all lists of constraints of all shapes",
 "Nested loops over lists of shapes; tests use one or two short lists.",
 [S+"constraint.go",S+"vector_constraint.go",S+"matrix_constraint.go"],[("entry extraction",S+"vector_constraint.go AtVec, matrix_constraint.go At"),("compilation loop",S+"constraint.go")],["CompileConstraintsIntoScalarConstraints","AtVec","At"])
p("C24","Out-of-range indices are always rejected, in-range ones never",
 "Accessing an entry of a valid expression or constraint returns if and only if the index lies within its dimensions; an index outside is always rejected and never answered with another entry.",
 ["inputs"],"all kinds, shapes and index pairs, including negative indices",
 "Tests try one or two bad indices per kind.",
 sc+ve+ma+["smErrors/out_of_bounds_error.go"],[("index checks","smErrors/out_of_bounds_error.go"),("At, AtVec","all expression files")],["At(i,j)","AtVec(i)"])
p("C25","Malformed operands are always rejected",
 "An arithmetic operation, comparison or derivative whose receiver or argument fails its own validity check (a term whose exponent and factor lists differ in length, an empty polynomial, a ragged matrix, a variable with crossed bounds) never returns a result.",
 ["inputs"],"all operations and operand kinds, malformed entries at any position",
 "Tests place one malformed entry at one position per kind.",
 sc+ve+ma,[("validity checks","Check() in all expression files")],["panic on malformed input","Check()"])
p("C26","Results of operations are well formed",
 "Whenever an arithmetic operation, derivative, substitution, power, transpose or stacking of well-formed operands returns, the result passes its own validity check: factor and exponent lists match, no factor appears twice, exponents are positive, no polynomial is empty and no matrix is ragged.",
 ["inputs","histories"],"all operations, all well-formed operands, hence all finite compositions of operations",
 "Closure under arbitrary composition; tests inspect results of single operations on few inputs.",
 sc+ve+ma,[("construction of results","all expression files")],["result.Check()"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
