; Conversions between representations.
(root C22 K.ToMonomial K.ToPolynomial Variable.ToMonomial Variable.ToPolynomial Monomial.ToPolynomial Monomial.ToVariable
 KVector.ToMonomialVector KVector.ToPolynomialVector VariableVector.ToMonomialVector VariableVector.ToPolynomialVector MonomialVector.ToPolynomialVector
 KMatrix.ToMonomialMatrix KMatrix.ToPolynomialMatrix VariableMatrix.ToMonomialMatrix VariableMatrix.ToPolynomialMatrix
 KVector.ToVecDense KMatrix.ToDense VecDenseToKVector DenseToKMatrix Vector.ToScalarExpressions
 ConcretizeVectorExpression ConcretizeMatrixExpression ConcretizeExpression
 ToScalarExpression ToVectorExpression ToMatrixExpression ToExpression
 ToPolynomialLikeScalar ToPolynomialLikeVector ToPolynomialLikeMatrix ToPolynomialLike
 getKVector.From getKMatrix.From)
(contract K.ToMonomial (args self) (case convert
 (ensures C22 (wf (AMono result))) (ensures C22 (and (= (mc result) self) (= (lenV (mv result)) 0))) (ensures C22 (= (sval q (AMono result)) self)) (nopanic C22 true)))
(contract K.ToPolynomial (args self) (case convert
 (ensures C22 (wf (APoly result))) (ensures C22 (= (sval q (APoly result)) self)) (nopanic C22 true)))
(contract Variable.ToMonomial (args self) (case convert (given (wfV self))
 (ensures C22 (wf (AMono result))) (ensures C22 (and (= (mc result) 1.0) (= (lenV (mv result)) 1) (= (atV (mv result) 0) self) (= (atI (mx result) 0) 1))) (ensures C22 (= (sval q (AMono result)) (val q (vid self)))) (nopanic C22 true)))
(contract Variable.ToPolynomial (args self) (case convert (given (wfV self))
 (ensures C22 (wf (APoly result))) (ensures C22 (= (sval q (APoly result)) (val q (vid self)))) (nopanic C22 true)))
(contract Monomial.ToPolynomial (args self) (case convert (given (wfM self))
 (ensures C22 (wf (APoly result))) (ensures C22 (= (sval q (APoly result)) (mval q self))) (nopanic C22 true)))
;  narrowing: only a monomial that is a variable becomes one
(contract Monomial.ToVariable (args self) (case convert (given (wfM self))
 (ensures C22 (wfV result)) (ensures C22 (= (val q (vid result)) (mval q self)))
 (nopanic C22 (and (= (mc self) 1.0) (isvar self (vid (atV (mv self) 0)))))))
;  vectors
(contract KVector.ToMonomialVector (args self)
 (inv C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (wfM (atM ?o:SeqM k?)) (= (mval q (atM ?o:SeqM k?)) (atR self k?)))) :pattern ((atM ?o:SeqM k?)))))
 (case convert
 (ensures C22 (= (lenM result) (lenR self)))
 (ensures C22 (=> (> (lenR self) 0) (wf (AMV result))))
 (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenR self))) (= (mval q (atM result k?)) (atR self k?))) :pattern ((atM result k?)))))
 (nopanic C22 true)))
(contract KVector.ToPolynomialVector (args self)
 (case convert (given (> (lenR self) 0))
 (ensures C22 (= (lenP result) (lenR self)))
 (ensures C22 (wf (APV result)))
 (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenR self))) (= (sval q (APoly (atP result k?))) (atR self k?))) :pattern ((atP result k?)))))
 (nopanic C22 true)))
(contract VariableVector.ToMonomialVector (args self)
 (inv C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (wfM (atM ?o:SeqM k?)) (= (mval q (atM ?o:SeqM k?)) (val q (vid (atV self k?)))))) :pattern ((atM ?o:SeqM k?)))))
 (case convert (given (wf (AVV self)))
 (ensures C22 (= (lenM result) (lenV self)))
 (ensures C22 (=> (> (lenV self) 0) (wf (AMV result))))
 (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenV self))) (= (mval q (atM result k?)) (val q (vid (atV self k?))))) :pattern ((atM result k?)))))
 (nopanic C22 true)))
(contract VariableVector.ToPolynomialVector (args self)
 (inv C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (wfP (atP ?o:SeqP k?)) (= (sval q (APoly (atP ?o:SeqP k?))) (val q (vid (atV self k?)))))) :pattern ((atP ?o:SeqP k?)))))
 (case convert (given (wf (AVV self)))
 (ensures C22 (= (lenP result) (lenV self)))
 (ensures C22 (=> (> (lenV self) 0) (wf (APV result))))
 (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenV self))) (= (sval q (APoly (atP result k?))) (val q (vid (atV self k?))))) :pattern ((atP result k?)))))
 (nopanic C22 true)))
(contract MonomialVector.ToPolynomialVector (args self)
 (inv C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (wfP (atP ?o:SeqP k?)) (= (sval q (APoly (atP ?o:SeqP k?))) (mval q (atM self k?))))) :pattern ((atP ?o:SeqP k?)))))
 (case convert (given (wf (AMV self)))
 (ensures C22 (= (lenP result) (lenM self)))
 (ensures C22 (wf (APV result)))
 (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenM self))) (= (sval q (APoly (atP result k?))) (mval q (atM self k?)))) :pattern ((atP result k?)))))
 (nopanic C22 true)))
;  matrices
(macro (row22 O AT MK X) (forall ((b? Int)) (! (=> (and (<= 0 b?) (< b? #j)) (and (wf (MK (AT O b?))) (= (sval q (MK (AT O b?))) (at q X $i b?)))) :pattern ((AT O b?)))))
(macro (rows22 O ATT AT MK X) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (cols X))) (and (wf (MK (AT (ATT O a?) b?))) (= (sval q (MK (AT (ATT O a?) b?))) (at q X a? b?)))) :pattern ((AT (ATT O a?) b?)))))
(macro (rowb22 O ATT AT MK X) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (cols X)) (or (< a? $i) (and (= a? $i) (< b? #j)))) (and (wf (MK (AT (ATT O a?) b?))) (= (sval q (MK (AT (ATT O a?) b?))) (at q X a? b?)))) :pattern ((AT (ATT O a?) b?)))))
(macro (lens22 O ATT LEN X) (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (LEN (ATT O a?)) (cols X))) :pattern ((ATT O a?)))))
(contract KMatrix.ToMonomialMatrix (args self)
 (inv C22 (rows22 ?o:SeqMM atMM atM AMono (AKM self)))
 (inv C22 (rowb22 ?o:SeqMM atMM atM AMono (AKM self)))
 (inv C22 (row22 ?o:SeqM atM AMono (AKM self)))
 (inv C22 (lens22 ?o:SeqMM atMM lenM (AKM self)))
 (case convert (given (wf (AKM self)))
 (ensures C22 (= (lenMM result) (lenRR self)))
 (ensures C22 (wf (AMM result)))
 (ensures C22 (= (cols (AMM result)) (cols (AKM self))))
 (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb (AKM self) i? j?) (= (at q (AMM result) i? j?) (at q (AKM self) i? j?))) :pattern ((at q (AMM result) i? j?)))))
 (nopanic C22 true)))
(contract KMatrix.ToPolynomialMatrix (args self)
 (inv C22 (rows22 ?o:SeqPP atPP atP APoly (AKM self)))
 (inv C22 (rowb22 ?o:SeqPP atPP atP APoly (AKM self)))
 (inv C22 (row22 ?o:SeqP atP APoly (AKM self)))
 (inv C22 (lens22 ?o:SeqPP atPP lenP (AKM self)))
 (case convert (given (wf (AKM self)))
 (ensures C22 (= (lenPP result) (lenRR self)))
 (ensures C22 (wf (APM result)))
 (ensures C22 (= (cols (APM result)) (cols (AKM self))))
 (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb (AKM self) i? j?) (= (at q (APM result) i? j?) (at q (AKM self) i? j?))) :pattern ((at q (APM result) i? j?)))))
 (nopanic C22 true)))
(contract VariableMatrix.ToMonomialMatrix (args self)
 (inv C22 (rows22 ?o:SeqMM atMM atM AMono (AVM self)))
 (inv C22 (row22 ?o:SeqM atM AMono (AVM self)))
 (inv C22 (lens22 ?o:SeqMM atMM lenM (AVM self)))
 (case convert (given (wf (AVM self)))
 (ensures C22 (= (lenMM result) (lenVV self)))
 (ensures C22 (wf (AMM result)))
 (ensures C22 (= (cols (AMM result)) (cols (AVM self))))
 (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb (AVM self) i? j?) (= (at q (AMM result) i? j?) (at q (AVM self) i? j?))) :pattern ((at q (AMM result) i? j?)))))
 (nopanic C22 true)))
(contract VariableMatrix.ToPolynomialMatrix (args self)
 (inv C22 (rows22 ?o:SeqPP atPP atP APoly (AVM self)))
 (inv C22 (row22 ?o:SeqP atP APoly (AVM self)))
 (inv C22 (lens22 ?o:SeqPP atPP lenP (AVM self)))
 (case convert (given (wf (AVM self)))
 (ensures C22 (= (lenPP result) (lenVV self)))
 (ensures C22 (wf (APM result)))
 (ensures C22 (= (cols (APM result)) (cols (AVM self))))
 (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb (AVM self) i? j?) (= (at q (APM result) i? j?) (at q (AVM self) i? j?))) :pattern ((at q (APM result) i? j?)))))
 (nopanic C22 true)))
;  from anything
(contract ToScalarExpression (args e)
 (case scalar (domain e S AFloat)
  (ensures C22 (= result1 ANil))
  (ensures C22 (isS result0))
  (ensures C22 (= (wf result0) (wf e)))
  (ensures C22 (= (sval q result0) (sval q e)))
  (nopanic C22 true))
 (case other (domain e V M G AInt AStr ABool ANil)
  (ensures C22 (not (= result1 ANil)))
  (nopanic C22 true)))
(contract ToPolynomialLikeScalar (args e)
 (case scalar (domain e S AFloat)
  (ensures C22 (= result1 ANil))
  (ensures C22 (isS result0))
  (ensures C22 (= (wf result0) (wf e)))
  (ensures C22 (= (sval q result0) (sval q e)))
  (nopanic C22 true))
 (case other (domain e V M G AInt AStr ABool ANil)
  (ensures C22 (not (= result1 ANil)))
  (nopanic C22 true)))
(contract ToVectorExpression (args e)
 (case vector (domain e V AVec APVec)
  (ensures C22 (= result1 ANil))
  (ensures C22 (isV result0))
  (ensures C22 (= (wf result0) (wf e)))
  (ensures C22 (= (rows result0) (rows e)))
  (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows e))) (= (at q result0 k? 0) (at q e k? 0))) :pattern ((at q result0 k? 0)))))
  (nopanic C22 true))
 (case other (domain e S M ADen APDen AFloat AInt AStr ABool ANil)
  (ensures C22 (not (= result1 ANil)))
  (nopanic C22 true)))
(contract ToPolynomialLikeVector (args e)
 (case vector (domain e V AVec)
  (ensures C22 (= result1 ANil))
  (ensures C22 (isV result0))
  (ensures C22 (= (wf result0) (wf e)))
  (ensures C22 (= (rows result0) (rows e)))
  (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows e))) (= (at q result0 k? 0) (at q e k? 0))) :pattern ((at q result0 k? 0)))))
  (nopanic C22 true))
 (case other (domain e S M ADen APDen AFloat AInt AStr ABool ANil)
  (ensures C22 (not (= result1 ANil)))
  (nopanic C22 true)))
(contract ToMatrixExpression (args e)
 (case matrix (domain e M ADen APDen) (given (and (> (rows e) 0) (> (cols e) 0) (wf e)))
  (ensures C22 (= result1 ANil))
  (ensures C22 (isM result0))
  (ensures C22 (wf result0))
  (ensures C22 (= (rows result0) (rows e)))
  (ensures C22 (= (cols result0) (cols e)))
  (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb e i? j?) (= (at q result0 i? j?) (at q e i? j?))) :pattern ((at q result0 i? j?)))))
  (nopanic C22 true))
 (case other (domain e S V AVec APVec AFloat AInt AStr ABool ANil)
  (ensures C22 (not (= result1 ANil)))
  (nopanic C22 true)))
(contract ToPolynomialLikeMatrix (args e)
 (case matrix (domain e M ADen) (given (and (> (rows e) 0) (> (cols e) 0) (wf e)))
  (ensures C22 (= result1 ANil))
  (ensures C22 (isM result0))
  (ensures C22 (wf result0))
  (ensures C22 (= (rows result0) (rows e)))
  (ensures C22 (= (cols result0) (cols e)))
  (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb e i? j?) (= (at q result0 i? j?) (at q e i? j?))) :pattern ((at q result0 i? j?)))))
  (nopanic C22 true))
 (case other (domain e S V AVec APVec AFloat AInt AStr ABool ANil)
  (ensures C22 (not (= result1 ANil)))
  (nopanic C22 true)))
(contract ToExpression (args e)
 (case any (domain e E AFloat G) (given (and (> (rows e) 0) (> (cols e) 0) (wf e)))
  (ensures C22 (= result1 ANil))
  (ensures C22 (isE result0))
  (ensures C22 (wf result0))
  (ensures C22 (= (rows result0) (rows e)))
  (ensures C22 (= (cols result0) (cols e)))
  (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb e i? j?) (= (at q result0 i? j?) (at q e i? j?))) :pattern ((at q result0 i? j?)))))
  (nopanic C22 true))
 (case other (domain e AInt AStr ABool ANil)
  (ensures C22 false)))
(contract ToPolynomialLike (args e)
 (case any (domain e E AFloat AVec ADen) (given (and (> (rows e) 0) (> (cols e) 0) (wf e)))
  (ensures C22 (= result1 ANil))
  (ensures C22 (isE result0))
  (ensures C22 (wf result0))
  (ensures C22 (= (rows result0) (rows e)))
  (ensures C22 (= (cols result0) (cols e)))
  (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb e i? j?) (= (at q result0 i? j?) (at q e i? j?))) :pattern ((at q result0 i? j?)))))
  (nopanic C22 true))
 (case other (domain e AInt AStr ABool ANil)
  (ensures C22 false)))
(contract getKVector.From (args e)
 (inv C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) (to_real (atI !s:SeqI k?)))) :pattern ((atR ?o:SeqR k?)))))
 (case vector (domain e AKV AVec APVec)
  (ensures C22 (= (lenR result) (rows e)))
  (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows e))) (= (atR result k?) (at q e k? 0))) :pattern ((atR result k?)))))
  (nopanic C22 true))
 (case floats (domain e ASlF)
  (ensures C22 (= (lenR result) (lenR (aslf e))))
  (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenR result))) (= (atR result k?) (atR (aslf e) k?))) :pattern ((atR result k?)))))
  (nopanic C22 (> (lenR (aslf e)) 0)))
 (case ints (domain e ASlI)
  (ensures C22 (= (lenR result) (lenI (asli e))))
  (ensures C22 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenR result))) (= (atR result k?) (to_real (atI (asli e) k?)))) :pattern ((atR result k?)))))
  (nopanic C22 (> (lenI (asli e)) 0)))
 (case other (domain e S AVV AMV APV M ADen APDen AFloat AInt AStr ABool ANil)
  (ensures C22 false)))
(contract getKMatrix.From (args e)
 (inv C22 (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (lenR (atRR !s:SeqRR a?)) (lenR (atRR !s:SeqRR 0)))) :pattern ((atRR !s:SeqRR a?)))))
 (inv C22 (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (lenR (atRR ?o:SeqRR a?)) (lenR (atRR !s:SeqRR a?)))) :pattern ((atRR ?o:SeqRR a?)))))
 (inv C22 (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (lenR (atRR !s:SeqRR a?)))) (= (atR (atRR ?o:SeqRR a?) b?) (atR (atRR !s:SeqRR a?) b?))) :pattern ((atR (atRR ?o:SeqRR a?) b?)))))
 (inv C22 (forall ((b? Int)) (! (=> (and (<= 0 b?) (< b? #j)) (= (atR ?o:SeqR b?) (atR (atRR !s:SeqRR $i) b?))) :pattern ((atR ?o:SeqR b?)))))
 (inv C22 (forall ((b? Int)) (! (=> (and (<= 0 b?) (< b? #j)) (= (atR ?o:SeqR b?) (atR !s:SeqR b?))) :pattern ((atR ?o:SeqR b?)))))
 (case matrix (domain e AKM ADen APDen) (given (wf e))
  (ensures C22 (= (lenRR result) (rows e)))
  (ensures C22 (wf (AKM result)))
  (ensures C22 (= (cols (AKM result)) (cols e)))
  (ensures C22 (forall ((i? Int) (j? Int)) (! (=> (inb e i? j?) (= (at q (AKM result) i? j?) (at q e i? j?))) :pattern ((at q (AKM result) i? j?)))))
  (nopanic C22 true))
 (case floats (domain e ASlFF) (given (> (lenRR (aslff e)) 0))
  (ensures C22 (recmR (aslff e)))
  (ensures C22 (= (lenRR result) (lenRR (aslff e))))
  (ensures C22 (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? (lenRR (aslff e)))) (= (lenR (atRR result a?)) (lenR (atRR (aslff e) a?)))) :pattern ((atRR result a?)))))
  (ensures C22 (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (lenRR (aslff e))) (<= 0 b?) (< b? (lenR (atRR (aslff e) a?)))) (= (atR (atRR result a?) b?) (atR (atRR (aslff e) a?) b?))) :pattern ((atR (atRR result a?) b?)))))
  (nopanic C22 (recmR (aslff e))))
 (case other (domain e S V AVM AMM APM AVec APVec AFloat AInt AStr ABool ANil)
  (ensures C22 false)))
