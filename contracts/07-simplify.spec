; Simplified results hold no like terms and no zero terms.
(root C04 Polynomial.Simplify Expression.AsSimplifiedExpression Scalar.AsSimplifiedExpression PolynomialVector.Simplify PolynomialMatrix.Simplify)

(contract ConcretizeVectorExpression (args s)
 (inv (C04 C12) (=> (simpS !s:SeqA) (simpsP ?o:SeqP)))
 (case concrete
  (ensures (C04 C12) (=> (simpS s) (simp result)))))
(contract ConcretizeMatrixExpression (args s)
 (inv (C04 C12) (=> (simpS !s:SeqA) (simpsP ?o:SeqP)))
 (inv (C04 C12) (=> (simpSS !s:SeqAA) (simpsP ?o:SeqP)))
 (inv (C04 C12) (=> (simpSS !s:SeqAA) (simpsPP ?o:SeqPP)))
 (case concrete
  (ensures (C04 C12) (=> (simpSS s) (simp result)))))
(contract Expression.AsSimplifiedExpression (args self)
 (inv (C04 C12) (simpS ?o:SeqA))
 (inv (C04 C12) (simpSS ?o:SeqAA))
 (inv (C04 C12) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (simpA (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?)))))
 (case entries
  (ensures (C04 C12) (simp result))))
(contract Scalar.AsSimplifiedExpression (args self)
 (case val (ensures (C04 C12 C15 C16) (simp result)) (ensures (C15 C16) (tidy result))))
(contract PolynomialVector.Simplify (args self)
 (inv (C04 C12) (simpS ?o:SeqA))
 (inv (C04 C12) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (simpA (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?)))))
 (case entries (ensures (C04 C12) (simp result))))
(contract PolynomialMatrix.Simplify (args self)
 (inv (C04 C12) (simpS ?o:SeqA))
 (inv (C04 C12) (simpSS ?o:SeqAA))
 (inv (C04 C12) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (simpA (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?)))))
 (case entries (ensures (C04 C12) (simp result))))
