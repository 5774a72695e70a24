; Constraints: simplifying, scaling.
(macro (kx e) (or ((_ is AK) e) ((_ is AKV) e) ((_ is AKM) e)))
(macro (ky e) (or (kx e) ((_ is AFloat) e) ((_ is AInt) e) ((_ is AVec) e) ((_ is APVec) e) ((_ is ADen) e) ((_ is APDen) e)))
(root C14 ScalarConstraint.Simplify ScalarConstraint.ScaleBy Constraint.AsSimplifiedConstraint)

(contract Scalar.Constant (args self) (pure (C14 C15 C16)))
(contract Vector.Constant (args self) (pure (C14 C15 C16)))
(contract Matrix.Constant (args self) (pure (C14 C15 C16)))

(contract ScalarConstraint.Simplify (args self)
 (case same (given (wfC (ASC self)))
  (ensures * (wfC (ASC result)))
  (ensures * (= (cs (ASC result)) (cs (ASC self))))
  (ensures * ((_ is AK) (cr (ASC result))))
  (ensures * (= (holdsAt q (ASC result) 0 0) (holdsAt q (ASC self) 0 0)))))
(contract ScalarConstraint.ScaleBy (args self factor)
 (case same (given (and (wfC (ASC self)) (not (= factor 0.0))))
  (ensures * (wfC resultA))
  (ensures * ((_ is ASC) resultA))
  (ensures * (= (cs resultA) (ite (< factor 0.0) (ite (= (cs (ASC self)) 60) 62 (ite (= (cs (ASC self)) 62) 60 61)) (cs (ASC self)))))
  (ensures * (= (holdsAt q resultA 0 0) (holdsAt q (ASC self) 0 0)))))
(contract Constraint.AsSimplifiedConstraint (args self)
 (case same (given (wfC self))
  (ensures * (wfC result))
  (ensures * (= (cs result) (cs self)))
  (ensures * (= (rows (cl result)) (rows (cl self))))
  (ensures * (= (cols (cl result)) (cols (cl self))))
  (ensures * (kx (cr result)))
  (ensures * (forall ((i? Int) (j? Int)) (! (=> (inb (cl self) i? j?) (= (holdsAt q result i? j?) (holdsAt q self i? j?))) :pattern ((at q (cl result) i? j?)))))))
(contract asVectorExpression (args e)
 (case other (domain e M)
  (ensures * false))
 (case keep (domain e S V) (given (wf e))
  (ensures * (isV result))
  (ensures * (wf result))
  (ensures * (= (rows result) (rows e)))
  (ensures * (= (cols result) (cols e)))
  (ensures C14 (=> (kx e) (kx result)))
  (entry * true (at q e i j))))
(contract asMatrixExpression (args e)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (= (lenA (atAA ?o:SeqAA k?)) 1) (isS (atA (atAA ?o:SeqAA k?) 0)) (wf (atA (atAA ?o:SeqAA k?) 0)) (= (sval q (atA (atAA ?o:SeqAA k?) 0)) (at q e k? 0)))) :pattern ((atAA ?o:SeqAA k?)))))
 (inv C14 (=> (kx e) (ksSS ?o:SeqAA)))
 (case keep (domain e S V M) (given (wf e))
  (ensures * (isM result))
  (ensures * (wf result))
  (ensures * (= (rows result) (rows e)))
  (ensures * (= (cols result) (cols e)))
  (ensures C14 (=> (kx e) (kx result)))
  (entry * true (at q e i j))))
; arithmetic on constants yields constants
(contract Vector.AtVec (case in (ensures C14 (=> (kx self) (kx result)))))
(contract Expression.At (case in (ensures C14 (=> (kx self) (kx result)))))
(contract ConcretizeVectorExpression (args s)
 (inv C14 (=> (ksS s) (not ?b:Bool)))
 (inv C14 (=> (and (ksS s) (> #i 0)) (not ?b:Bool)))
 (case concrete (ensures C14 (=> (ksS s) (kx result)))))
(contract ConcretizeMatrixExpression (args s)
 (inv C14 (=> (ksSS s) (not ?b:Bool)))
 (inv C14 (=> (and (ksSS s) (> #i 0)) (not ?b:Bool)))
 (inv C14 (=> (and (ksSS s) (or (> $i 0) (> #j 0))) (not ?b:Bool)))
 (case concrete (ensures C14 (=> (ksSS s) (kx result)))))
(contract ConcretizeExpression (args s)
 (inv C14 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) (kx ?e:Any)) (kx (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?)))))
 (inv C14 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) (kx !e:Any)) (kx (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?)))))
 (case scalar (ensures C14 (=> (kx s) (kx result))))
 (case vector (ensures C14 (=> (ksS (asla s)) (kx result))))
 (case matrix (ensures C14 (=> (ksSS (aslaa s)) (kx result)))))
(macro ksofar (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) (kx self)) (kx (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?)))))
(macro ksofar2 (=> (and (kx self) (kx right)) (ksSS ?o:SeqAA)))
(contract VectorPlusTemplate (args self right)
 (inv C14 (=> (and (kx self) (kx right)) (ksS ?o:SeqA)))
 (case entries (ensures C14 (=> (and (kx self) (kx right)) (kx result)))))
(contract MatrixPlusTemplate (args self right)
 (inv C14 (=> (and (kx self) (kx right)) (ksS ?o:SeqA)))
 (inv C14 (=> (and (kx self) (kx right)) (ksSS ?o:SeqAA)))
 (case entries (ensures C14 (=> (and (kx self) (kx right)) (kx result)))))
(contract Scalar.AsSimplifiedExpression (case val (ensures (C14 C15 C16) (=> (kx self) (kx result)))))
(contract Expression.AsSimplifiedExpression (case entries (ensures C14 (=> (kx self) (kx result)))))
(contract Scalar.Plus (case val (ensures (C14 C15 C16) (=> (and (kx self) (or (kx right) ((_ is AFloat) right))) (kx result)))))
(contract Scalar.Minus (case val (ensures (C14 C15 C16) (=> (and (kx self) (or (kx right) ((_ is AFloat) right))) (kx result)))))
(contract Scalar.Multiply (case val (ensures (C14 C15 C16) (=> (and (kx self) (or (kx right) ((_ is AFloat) right))) (kx result)))))
(contract Expression.Plus (args self right)
 (case entries
  (ensures C14 (=> (and (kx self) (ky right)) (kx result)))))
(contract Expression.Minus (args self right)
 (case entries
  (ensures C14 (=> (and (kx self) (ky right)) (kx result)))))
(contract Expression.Multiply (args self right)
 (inv C14 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) (kx self) ((_ is AK) right)) ((_ is AK) (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?)))))
 (case entries
  (ensures C14 (=> (and (kx self) (or ((_ is AK) right) ((_ is AFloat) right))) (kx result)))))
(contract Vector.ToScalarExpressions
 (inv C14 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) (kx self)) ((_ is AK) (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?)))))
 (case list (ensures C14 (=> (kx self) (ksS result)))))
