; Linear representations of constraints.
(root C12 ScalarConstraint.LinearInequalityConstraintRepresentation ScalarConstraint.LinearEqualityConstraintRepresentation VectorConstraint.LinearInequalityConstraintRepresentation VectorConstraint.LinearEqualityConstraintRepresentation)
; sums and differences are simplified, and of no higher degree than their operands
(macro upto (imax (deg self) (deg right)))
(contract Scalar.Plus
 (inv C12 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenM ?o:SeqM))) (<= (degM (atM ?o:SeqM k?)) upto)) :pattern ((atM ?o:SeqM k?)))))
 (case val
  (ensures (C12 C15 C16) (simp result))
  (ensures (C15 C16) (tidy result))
  (ensures C12 (<= (deg result) upto))))
(contract Scalar.Minus
 (case val
  (ensures (C12 C15 C16) (simp result))
  (ensures (C15 C16) (tidy result))
  (ensures C12 (<= (deg result) upto))))
(contract Scalar.Multiply
 (inv C12 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenM ?o:SeqM)) (or ((_ is AK) right) ((_ is AFloat) right))) (<= (degM (atM ?o:SeqM k?)) (deg self))) :pattern ((atM ?o:SeqM k?)))))
 (case val
  (ensures C12 (=> (or ((_ is AK) right) ((_ is AFloat) right)) (<= (deg result) (deg self))))))
(contract Polynomial.Simplify (args self)
 (inv C12 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenM ?o:SeqM))) (<= (degM (atM ?o:SeqM k?)) (degP self))) :pattern ((atM ?o:SeqM k?)))))
 (case simplify (ensures C12 (<= (degP result) (degP self)))))
(contract Scalar.AsSimplifiedExpression
 (case val
  (ensures C12 (<= (deg result) (deg self)))))
(macro (degto o D) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA o))) (<= (deg (atA o k?)) D)) :pattern ((atA o k?)))))
(macro const1 (or ((_ is AK) right) ((_ is AFloat) right)))
;  vectors
(macro (sv e) (or (isS e) (isV e)))
(contract ConcretizeVectorExpression (args s)
 (inv C12 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (<= (degM (atM ?o:SeqM k?)) (deg (atA s k?)))) :pattern ((atM ?o:SeqM k?)))))
 (inv C12 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (<= (degP (atP ?o:SeqP k?)) (deg (atA s k?)))) :pattern ((atP ?o:SeqP k?)))))
 (case concrete
  (ensures C12 (<= (deg result) (mxA s (lenA s))))))
(contract ConcretizeExpression (args s)
 (case scalar (ensures C12 (<= (deg result) (deg s))) (ensures C12 (simp result)))
 (case vector (ensures C12 (<= (deg result) (mxA (asla s) (lenA (asla s))))) (ensures C12 (=> (simpS (asla s)) (simp result)))))
(contract Vector.ToScalarExpressions
 (inv C12 (degto ?o:SeqA (deg self)))
 (case list (ensures C12 (degto result (deg self)))))
(contract Vector.AtVec (case in (ensures C12 (<= (deg result) (deg self)))))
(contract Expression.At (case in (ensures C12 (=> (sv self) (<= (deg result) (deg self))))))
(contract VectorPlusTemplate
 (inv C12 (degto ?o:SeqA upto))
 (inv C12 (simpS ?o:SeqA))
 (case entries
  (ensures C12 (simp result))
  (ensures C12 (<= (deg result) upto))))
(contract Expression.AsSimplifiedExpression
 (inv C12 (degto ?o:SeqA (deg self)))
 (case entries
  (ensures C12 (=> (sv self) (<= (deg result) (deg self))))))
(contract PolynomialVector.Simplify
 (inv C12 (degto ?o:SeqA (deg (APV self))))
 (case entries
  (ensures C12 (<= (deg result) (deg (APV self))))))
(macro svs (and (sv self) (or (sv right) ((_ is AFloat) right) ((_ is AVec) right) ((_ is APVec) right))))
(contract Expression.Plus
 (inv C12 (degto ?o:SeqA upto))
 (inv C12 (simpS ?o:SeqA))
 (case entries
  (ensures C12 (=> svs (sv result)))
  (ensures C12 (=> svs (simp result)))
  (ensures C12 (=> svs (<= (deg result) upto)))))
(contract Expression.Minus
 (inv C12 (degto ?o:SeqA upto))
 (inv C12 (simpS ?o:SeqA))
 (case entries
  (ensures C12 (=> svs (sv result)))
  (ensures C12 (=> svs (simp result)))
  (ensures C12 (=> svs (<= (deg result) upto)))))
(contract Expression.Multiply
 (inv C12 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA ?o:SeqA)) const1) (<= (deg (atA ?o:SeqA k?)) (deg self))) :pattern ((atA ?o:SeqA k?)))))
 (inv C12 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenM ?o:SeqM)) const1) (<= (degM (atM ?o:SeqM k?)) (deg self))) :pattern ((atM ?o:SeqM k?)))))
 (inv C12 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenP ?o:SeqP)) const1) (<= (degP (atP ?o:SeqP k?)) (deg self))) :pattern ((atP ?o:SeqP k?)))))
 (case entries
  (ensures C12 (=> (and (sv self) const1) (sv result)))
  (ensures C12 (=> (and (sv self) const1) (<= (deg result) (deg self))))))

; the representations
(macro w0 (atVV wrt 0))
(macro (covers c w) (forall ((d? Int)) (! (=> (or (occ (cl c) d?) (occ (cr c) d?)) (memV w d?)) :pattern ((occ (cl c) d?)) :pattern ((occ (cr c) d?)) :pattern ((memV w d?)))))
(macro (linear c) (and (<= (deg (cl c)) 1) (<= (deg (cr c)) 1)))
(macro (dev q c i) (- (- (at q (cl c) i 0) (at r0 (cl c) i 0)) (- (at q (cr c) i 0) (at r0 (cr c) i 0))))
(macro (dev0 c i) (- (at r0 (cr c) i 0) (at r0 (cl c) i 0)))
(macro (eL c i) (ent (cl c) i 0))
(macro (eR c i) (ent (cr c) i 0))
(macro (udev c i d) (- (ulc (eL c i) d) (ulc (eR c i) d)))
(macro given1 (and (= (lenVV wrt) 1) (wfsV w0) (distV w0)))
(contract ScalarConstraint.LinearInequalityConstraintRepresentation (args self wrt)
 (case rep (given (and (wfC (ASC self)) given1 (covers (ASC self) w0) (linear (ASC self)) (not (= (cs (ASC self)) 61)))) (vals r0 (unit d?))
  (ensures * (= (lenR result0) (lenV w0)))
  (ensures * (= (<= (vdot q result0 w0 (lenV w0)) result1) (holdsAt q (ASC self) 0 0))))
 (case sense (given (and (wfC (ASC self)) (= (cs (ASC self)) 61)))
  (ensures * false))
 (case nonlinear (given (and (wfC (ASC self)) (not (linear (ASC self)))))
  (ensures * false)))
(contract ScalarConstraint.LinearEqualityConstraintRepresentation (args self wrt)
 (case rep (given (and (wfC (ASC self)) given1 (covers (ASC self) w0) (linear (ASC self)) (= (cs (ASC self)) 61))) (vals r0 (unit d?))
  (ensures * (= (lenR result0) (lenV w0)))
  (ensures * (= (= (vdot q result0 w0 (lenV w0)) result1) (holdsAt q (ASC self) 0 0))))
 (case sense (given (and (wfC (ASC self)) (not (= (cs (ASC self)) 61))))
  (ensures * false))
 (case nonlinear (given (and (wfC (ASC self)) (not (linear (ASC self)))))
  (ensures * false)))
(contract VectorConstraint.LinearInequalityConstraintRepresentation (args self wrt)
 (case rep (given (and (wfC (AVC self)) given1 (covers (AVC self) w0) (linear (AVC self)) (not (= (cs (AVC self)) 61)))) (vals r0 (unit d?))
  (ensures * (= (drows result0) (rows (cl (AVC self)))))
  (ensures * (= (dcols result0) (lenV w0)))
  (ensures * (= (lenR result1) (rows (cl (AVC self)))))
  (ensures * (forall ((i? Int) (k? Int)) (! (=> (and (<= 0 i?) (< i? (rows (cl (AVC self)))) (<= 0 k?) (< k? (lenV w0))) (= (dat result0 i? k?) (ite (= (cs (AVC self)) 62) (- (udev (AVC self) i? (vid (atV w0 k?)))) (udev (AVC self) i? (vid (atV w0 k?)))))) :pattern ((dat result0 i? k?)))))
  (ensures * (forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? (rows (cl (AVC self))))) (= (rdot q result0 i? w0 (lenV w0)) (ite (= (cs (AVC self)) 62) (- (dev q (AVC self) i?)) (dev q (AVC self) i?)))) :pattern ((rdot q result0 i? w0 (lenV w0))))))
  (ensures * (forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? (rows (cl (AVC self))))) (= (atR result1 i?) (ite (= (cs (AVC self)) 62) (- (dev0 (AVC self) i?)) (dev0 (AVC self) i?)))) :pattern ((atR result1 i?)))))
  (ensures * (forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? (rows (cl (AVC self))))) (= (<= (rdot q result0 i? w0 (lenV w0)) (atR result1 i?)) (holdsAt q (AVC self) i? 0))) :pattern ((rdot q result0 i? w0 (lenV w0)))))))
 (case sense (given (and (wfC (AVC self)) (= (cs (AVC self)) 61)))
  (ensures * false))
 (case nonlinear (given (and (wfC (AVC self)) (not (linear (AVC self)))))
  (ensures * false)))
(contract VectorConstraint.LinearEqualityConstraintRepresentation (args self wrt)
 (case rep (given (and (wfC (AVC self)) given1 (covers (AVC self) w0) (linear (AVC self)) (= (cs (AVC self)) 61))) (vals r0 (unit d?))
  (ensures * (= (drows result0) (rows (cl (AVC self)))))
  (ensures * (= (dcols result0) (lenV w0)))
  (ensures * (= (lenR result1) (rows (cl (AVC self)))))
  (ensures * (forall ((i? Int) (k? Int)) (! (=> (and (<= 0 i?) (< i? (rows (cl (AVC self)))) (<= 0 k?) (< k? (lenV w0))) (= (dat result0 i? k?) (ite (= (cs (AVC self)) 62) (- (udev (AVC self) i? (vid (atV w0 k?)))) (udev (AVC self) i? (vid (atV w0 k?)))))) :pattern ((dat result0 i? k?)))))
  (ensures * (forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? (rows (cl (AVC self))))) (= (rdot q result0 i? w0 (lenV w0)) (ite (= (cs (AVC self)) 62) (- (dev q (AVC self) i?)) (dev q (AVC self) i?)))) :pattern ((rdot q result0 i? w0 (lenV w0))))))
  (ensures * (forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? (rows (cl (AVC self))))) (= (atR result1 i?) (ite (= (cs (AVC self)) 62) (- (dev0 (AVC self) i?)) (dev0 (AVC self) i?)))) :pattern ((atR result1 i?)))))
  (ensures * (forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? (rows (cl (AVC self))))) (= (= (rdot q result0 i? w0 (lenV w0)) (atR result1 i?)) (holdsAt q (AVC self) i? 0))) :pattern ((rdot q result0 i? w0 (lenV w0)))))))
 (case sense (given (and (wfC (AVC self)) (not (= (cs (AVC self)) 61))))
  (ensures * false))
 (case nonlinear (given (and (wfC (AVC self)) (not (linear (AVC self)))))
  (ensures * false)))
(contract asVectorExpression
 (case keep
  (ensures C12 (=> (simp e) (simp result)))
  (ensures C12 (<= (deg result) (deg e)))))
