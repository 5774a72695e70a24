; Constants and linear coefficients.
(root C11 Scalar.Constant Scalar.LinearCoeff Vector.Constant Vector.LinearCoeff Matrix.Constant)

(contract Scalar.Constant (args self)
 (case constant (given (and (wf self) (simp self)))
  (ensures * (= result (sval r0 self))))
 (case calm (given (wf self))
  (nopanic * true)))
(contract Vector.Constant (args self) (fresh)
 (inv * (=> (simp self) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) (at r0 self k? 0))) :pattern ((atR ?o:SeqR k?))))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) (at r0 self k? 0))) :pattern ((atR ?o:SeqR k?)))))
 (case constant (given (wf self))
  (ensures * (= (lenR result) (rows self)))
  (ensures * (=> (simp self) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows self))) (= (atR result k?) (at r0 self k? 0))) :pattern ((atR result k?))))))
  (nopanic * true)))
(contract Matrix.Constant (args self) (fresh)
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= #i a?) (< a? (rows self)) (<= 0 b?) (< b? (cols self))) (= (dat ?o:Dense a? b?) 0.0)) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (rows self)) (<= 0 b?) (< b? (cols self)) (or (> a? $i) (and (= a? $i) (>= b? #j)))) (= (dat ?o:Dense a? b?) 0.0)) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (=> (simp self) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (cols self))) (= (dat ?o:Dense a? b?) (at r0 self a? b?))) :pattern ((dat ?o:Dense a? b?))))))
 (inv * (=> (simp self) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (cols self)) (or (< a? $i) (and (= a? $i) (< b? #j)))) (= (dat ?o:Dense a? b?) (at r0 self a? b?))) :pattern ((dat ?o:Dense a? b?))))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (cols self))) (= (dat ?o:Dense a? b?) (at r0 self a? b?))) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (cols self)) (or (< a? $i) (and (= a? $i) (< b? #j)))) (= (dat ?o:Dense a? b?) (at r0 self a? b?))) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (and (= (drows ?o:Dense) (rows self)) (= (dcols ?o:Dense) (cols self))))
 (case constant (given (wf self)) (vals r0)
  (ensures * (= (drows result) (rows self)))
  (ensures * (= (dcols result) (cols self)))
  (ensures * (=> (simp self) (forall ((a? Int) (b? Int)) (! (=> (inb self a? b?) (= (dat result a? b?) (at r0 self a? b?))) :pattern ((dat result a? b?))))))
  (nopanic * true)))

(contract Scalar.LinearCoeff (args self wrt) (fresh)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) (lcoS self (vid (atV !w:SeqV k?))))) :pattern ((atR ?o:SeqR k?)))))
 (case given (given (and (wf self) (simp self) (= (lenVV wrt) 1) (wfsV (atVV wrt 0))))
  (ensures * (= (lenR result) (lenV (atVV wrt 0))))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenR result))) (= (atR result k?) (lcoS self (vid (atV (atVV wrt 0) k?))))) :pattern ((atR result k?)))))
  (nopanic * (> (lenV (atVV wrt 0)) 0)))
 (case all (given (and (wf self) (simp self) (= (lenVV wrt) 0)))
  (ensures * (= (lenR result) (lenV (det.Expression.Variables self))))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenR result))) (= (atR result k?) (lcoS self (vid (atV (det.Expression.Variables self) k?))))) :pattern ((atR result k?)))))))
(contract Vector.LinearCoeff (args self wrt) (fresh)
 (case given (given (and (wf self) (simp self) (= (lenVV wrt) 1) (wfsV (atVV wrt 0))))
  (ensures * (= (drows result) (rows self)))
  (ensures * (= (dcols result) (lenV (atVV wrt 0))))
  (ensures * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (rows self)) (<= 0 b?) (< b? (dcols result))) (= (dat result a? b?) (lcoS (ent self a? 0) (vid (atV (atVV wrt 0) b?))))) :pattern ((dat result a? b?)))))
  (nopanic * (> (lenV (atVV wrt 0)) 0)))
 (case all (given (and (wf self) (simp self) (= (lenVV wrt) 0)))
  (ensures * (= (drows result) (rows self)))
  (ensures * (= (dcols result) (lenV (det.Expression.Variables self))))
  (ensures * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (rows self)) (<= 0 b?) (< b? (dcols result))) (= (dat result a? b?) (lcoS (ent self a? 0) (vid (atV (det.Expression.Variables self) b?))))) :pattern ((dat result a? b?)))))))
(contract PolynomialLikeVector_SharedLinearCoeffCalc (args self wrt) (fresh)
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (lenV !w:SeqV))) (= (dat ?o:Dense a? b?) (lcoS (ent self a? 0) (vid (atV !w:SeqV b?))))) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (lenV !w:SeqV)) (or (< a? $i) (and (= a? $i) (< b? #j)))) (= (dat ?o:Dense a? b?) (lcoS (ent self a? 0) (vid (atV !w:SeqV b?))))) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (and (= (drows ?o:Dense) (rows self)) (= (dcols ?o:Dense) (lenV !w:SeqV))))
 (case given (domain self V) (given (and (wf self) (simp self) (= (lenVV wrt) 1) (wfsV (atVV wrt 0))))
  (ensures * (= (drows result) (rows self)))
  (ensures * (= (dcols result) (lenV (atVV wrt 0))))
  (ensures * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (rows self)) (<= 0 b?) (< b? (dcols result))) (= (dat result a? b?) (lcoS (ent self a? 0) (vid (atV (atVV wrt 0) b?))))) :pattern ((dat result a? b?)))))
  (nopanic * (> (lenV (atVV wrt 0)) 0)))
 (case all (domain self V) (given (and (wf self) (simp self) (= (lenVV wrt) 0)))
  (ensures * (= (drows result) (rows self)))
  (ensures * (= (dcols result) (lenV (det.Expression.Variables self))))
  (ensures * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (rows self)) (<= 0 b?) (< b? (dcols result))) (= (dat result a? b?) (lcoS (ent self a? 0) (vid (atV (det.Expression.Variables self) b?))))) :pattern ((dat result a? b?)))))))
(contract Expression.Variables (args self) (pure (C11 C12 C15 C16)))
(contract Vector.AtVec
 (case in
  (ensures (C11 C12 C14 C15 C16) (=> (simp self) (simp result)))
  (ensures (C11 C12 C14 C15 C16) (forall ((d? Int)) (! (= (lcoS result d?) (lcoS (ent self i 0) d?)) :pattern ((lcoS result d?)))))))
(contract Expression.At
 (case in
  (ensures (C11 C12 C14 C15 C16) (=> (simp self) (simp result)))
  (ensures (C11 C12 C14 C15 C16) (forall ((d? Int)) (! (= (lcoS result d?) (lcoS (ent self i j) d?)) :pattern ((lcoS result d?)))))))
