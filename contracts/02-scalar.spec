; Scalar expressions: values of sums, differences and products.
(root C01 Scalar.Plus)
(root C03 Scalar.Multiply)
(root C02 Scalar.Minus)

(contract Scalar.Plus (args self right)
 (case val (domain right S N)
  (given (and (wf self) (wf right)))
  (ensures * (isS result))
  (ensures * (wf result))
  (ensures * (= (sval q result) (+ (sval q self) (sval q right))))
  (nopanic * (not ((_ is AInt) right)))))

(contract Scalar.Minus (args self right)
 (case val (domain right S N)
  (given (and (wf self) (wf right)))
  (ensures * (isS result))
  (ensures * (wf result))
  (ensures * (= (sval q result) (- (sval q self) (sval q right))))
  (nopanic * (not ((_ is AInt) right)))))

;  products of two monomials, and of the terms of a polynomial
(contract Monomial.Multiply (args self right)
 (case kind (domain right AK AVar AMono AFloat AInt)
  (given (and (wfM self) (wf right)))
  (ensures * ((_ is AMono) result))))

(contract Scalar.Multiply (args self right)
 (inv * (forall ((d? Int)) (! (= (pexp ?x:SeqI !w:SeqV (lenV !w:SeqV) d?) (pexp (mx !m:Mono) (mv !m:Mono) #i d?)) :pattern ((pexp ?x:SeqI !w:SeqV (lenV !w:SeqV) d?)))))
 (inv * (forall ((d? Int)) (! (= (pexp ?x:SeqI !w:SeqV (lenV !w:SeqV) d?) (+ (pexp (mx !m:Mono) (mv !m:Mono) (lenV (mv !m:Mono)) d?) (pexp (mx !n:Mono) (mv !n:Mono) #i d?))) :pattern ((pexp ?x:SeqI !w:SeqV (lenV !w:SeqV) d?)))))
 (lemma * (addM (am result) (am self) (am right)))
 (inv * (= (psum q ?s:SeqM #i) (* (psum q !p:SeqM #i) (sval q !r:Any))))
 (inv * (forall ((k? Int)) (! (=> (and (<= #i k?) (< k? (lenM ?s:SeqM))) (= (atM ?s:SeqM k?) (atM !p:SeqM k?))) :pattern ((atM ?s:SeqM k?)))))
 (inv * (= (psum q ?s:SeqM (lenM ?s:SeqM)) (* (psum q !p:SeqM #i) (sval q !r:Any))))
 (inv * (= (sval q ?e:Any) (* (sval q !a:Any) (psum q !p:SeqM #i))))
 (case val (domain right S N)
  (given (and (wf self) (wf right)))
  (ensures * (isS result))
  (ensures * (wf result))
  (ensures * (= (sval q result) (* (sval q self) (sval q right))))
  (nopanic * (not ((_ is AInt) right)))))

(contract Scalar.AsSimplifiedExpression (args self)
 (case val (given (wf self))
  (ensures * (isS result))
  (ensures * (wf result))
  (ensures * (= (sval q result) (sval q self)))
  (nopanic * true)))
