; Powers.
(root C07 (Expression.Power negative) (Expression.Power scalar) (Expression.Power vector) (Expression.Power matrix))
(contract Identity (args n)
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? n) (<= 0 b?) (< b? n)) (= (dat ?o:Dense a? b?) (ite (and (= a? b?) (< a? #i)) 1.0 0.0))) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (and (= (drows ?o:Dense) n) (= (dcols ?o:Dense) n)))
 (case identity (given (> n 0))
  (ensures * (= (drows result) n))
  (ensures * (= (dcols result) n))
  (ensures * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? n) (<= 0 b?) (< b? n)) (= (dat result a? b?) (ite (= a? b?) 1.0 0.0))) :pattern ((dat result a? b?)))))
  (nopanic * (> n 0))))
(contract asMatrixExpression (case keep (nopanic (C07 C09) (> (rows e) 0))))
(contract Expression.Multiply (args self right)
 (case square (domain right M) (given (and (isM self) (wf self) (wf right) (= (cols self) (rows right))))
  (ensures C07 (isE result))
  (ensures C07 (wf result))
  (ensures C07 (= (rows result) (rows self)))
  (ensures C07 (= (cols result) (cols right)))
  (entry C07 true (dot q self i right j (cols self)))
  (nopanic C07 true)))
(contract Expression.Power (args self n)
 (inv (C07 C09) (= (sval q ?e:Any) (pow (at q self 0 0) #i)))
 (inv (C07 C09 C26) (and (isS ?e:Any) (wf ?e:Any)))
 (inv (C07 C26) (and (isM ?e:Any) (wf ?e:Any) (= (rows ?e:Any) (rows self)) (= (cols ?e:Any) (rows self))))
 (inv C07 (forall ((i? Int) (j? Int)) (! (=> (and (<= 0 i?) (< i? (rows self)) (<= 0 j?) (< j? (rows self))) (= (at q ?e:Any i? j?) (mpow q self #i i? j?))) :pattern ((at q ?e:Any i? j?)))))
 (case negative (given (and (isE self) (< n 0)))
  (ensures C07 false))
 (case scalar (domain self S) (given (wf self))
  (ensures (C07 C09 C26) (isS result))
  (ensures (C07 C09 C26) (wf result))
  (ensures (C07 C09) (= (sval q result) (pow (sval q self) n)))
  (nopanic (C07 C09) (<= 0 n)))
 (case vector (domain self V) (given (wf self))
  (ensures (C07 C26) (isS result))
  (ensures (C07 C26) (wf result))
  (ensures C07 (= (sval q result) (pow (at q self 0 0) n)))
  (nopanic C07 (and (<= 0 n) (= (rows self) 1))))
 (case matrix (domain self M) (given (wf self))
  (ensures (C07 C26) (isM result))
  (ensures (C07 C26) (wf result))
  (ensures (C07 C17 C26) (= (rows self) (cols self)))
  (ensures (C07 C26) (= (rows result) (rows self)))
  (ensures (C07 C26) (= (cols result) (rows self)))
  (entry C07 true (mpow q self n i j))
  (nopanic C07 (and (<= 0 n) (= (rows self) (cols self))))))
(contract K.Plus (args self right)
 (case dense (domain right ADen) (given (and (> (drows (aden right)) 0) (> (dcols (aden right)) 0)))
  (ensures C07 (isE result))
  (ensures C07 (wf result))
  (ensures C07 (= (rows result) (rows right)))
  (ensures C07 (= (cols result) (cols right)))
  (entry C07 true (+ self (at q right i j)))
  (nopanic C07 true)))
(contract MatrixMultiplyTemplate (args self right) (case entries (nopanic C07 true)))
(contract K.Plus (args self right)
 (case densek (domain right AKM) (given (wf right))
  (ensures C07 (isE result))
  (ensures C07 (wf result))
  (ensures C07 (= (rows result) (rows right)))
  (ensures C07 (= (cols result) (cols right)))
  (entry C07 true (+ self (at q right i j)))
  (nopanic C07 true)))
(contract KMatrix.Plus (args self right)
 (case addk (domain right AK AFloat) (given (and (> (rows (AKM self)) 0) (wf (AKM self))))
  (ensures C07 (isE result))
  (ensures C07 (wf result))
  (ensures C07 (= (rows result) (rows (AKM self))))
  (ensures C07 (= (cols result) (cols (AKM self))))
  (entry C07 true (+ (sval q right) (at q (AKM self) i j)))
  (nopanic C07 true))
 (case addkm (domain right AKM) (given (and (wf (AKM self)) (wf right) (= (rows right) (rows (AKM self))) (= (cols right) (cols (AKM self)))))
  (ensures C07 (isE result))
  (ensures C07 (wf result))
  (ensures C07 (= (rows result) (rows (AKM self))))
  (ensures C07 (= (cols result) (cols (AKM self))))
  (entry C07 true (+ (at q right i j) (at q (AKM self) i j)))
  (nopanic C07 true)))
