; Dimensions and entries.
(root C24 Expression.At Vector.AtVec)

(contract Expression.Dims (args self) (fresh)
 (case dims (given (chk self))
  (ensures * (= (lenI result) 2))
  (ensures * (= (atI result 0) (rows self)))
  (ensures * (= (atI result 1) (cols self)))
  (nopanic * true)))

(contract Vector.Len (args self)
 (case len (given (chk self))
  (ensures * (= result (rows self)))
  (nopanic * true)))

(contract Expression.At (args self i j)
 (case in (given (chk self))
  (ensures * (inb self i j))
  (ensures * (isS result))
  (ensures * (=> (wf self) (wf result)))
  (ensures * (= (sval q result) (at q self i j)))
  (nopanic * (inb self i j))))

(contract Vector.AtVec (args self i)
 (case in (given (chk self))
  (ensures * (inb self i 0))
  (ensures * (isS result))
  (ensures * (=> (wf self) (wf result)))
  (ensures * (= (sval q result) (at q self i 0)))
  (nopanic * (inb self i 0))))

(contract KVector.ToVecDense (args self) (fresh)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) (atR !s:SeqR k?))) :pattern ((atR ?o:SeqR k?)))))
 (case copy
  (ensures * (= (lenR result) (lenR self)))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenR self))) (= (atR result k?) (atR self k?))) :pattern ((atR result k?)))))
  (nopanic * (> (lenR self) 0))))

(contract KMatrix.ToDense (args self) (fresh)
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (lenR (atRR !s:SeqRR 0)))) (= (dat ?o:Dense a? b?) (atR (atRR !s:SeqRR a?) b?))) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (lenR (atRR !s:SeqRR 0))) (or (< a? $i) (and (= a? $i) (< b? #j)))) (= (dat ?o:Dense a? b?) (atR (atRR !s:SeqRR a?) b?))) :pattern ((dat ?o:Dense a? b?)))))
 (inv * (and (= (drows ?o:Dense) (lenRR !s:SeqRR)) (= (dcols ?o:Dense) (lenR (atRR !s:SeqRR 0)))))
 (case copy (given (recmR self))
  (ensures * (= (drows result) (lenRR self)))
  (ensures * (= (dcols result) (lenR (atRR self 0))))
  (ensures * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (lenRR self)) (<= 0 b?) (< b? (lenR (atRR self 0)))) (= (dat result a? b?) (atR (atRR self a?) b?))) :pattern ((dat result a? b?)))))
  (nopanic * (> (lenR (atRR self 0)) 0))))

(contract Matrix.Dims (args self)
 (case malformed (given (not (chk self)))
  (ensures C25 false)))
