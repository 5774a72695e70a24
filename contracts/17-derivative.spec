; Derivatives.
(root C08 (Expression.DerivativeWrt value))
;  a list of the derivatives of the first entries of S
(macro (dlist O S) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (or (isK (atA O k?)) (isMono (atA O k?))) (wf (atA O k?)) (= (sval q (atA O k?)) (dmval q (atM S k?) (vid v))))) :pattern ((atA O k?)))))
(macro (drow O AT MK S) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (sval q (MK (AT O k?))) (dval q (MK (AT S k?)) (vid v)))) :pattern ((AT O k?)))))
(contract Monomial.DerivativeWrt (args self v) (pure C08)
 (case value
  (ensures (C08 C17 C26) (or (isK result) (isMono result)))))
(contract Polynomial.DerivativeWrt (args self v)
 (case value
  (ensures (C08 C17 C26) (or (isK result) (isPoly result)))))
(contract Expression.DerivativeWrt (args self v)
 (inv C08 (and (= (lenI ?x:SeqI) (lenV ?y:SeqV)) (= (pun q ?x:SeqI ?y:SeqV (lenV ?y:SeqV)) (pun q (updI (mx (am self)) !n:Int 0) (mv (am self)) #i))))
 (inv (C08 C17 C26) (= (lenI ?x:SeqI) (lenV ?y:SeqV)))
 (inv (C08 C17 C26) (posI ?x:SeqI))
 (inv (C08 C17 C26) (distV ?y:SeqV))
 (inv (C08 C17 C26) (forall ((d? Int)) (! (=> (memV ?y:SeqV d?) (and (memV (mv (am self)) d?) (< (idxV (mv (am self)) d?) #i))) :pattern ((memV ?y:SeqV d?)))))
 (inv C08 (= (psum q ?o:SeqM (lenM ?o:SeqM)) (pdsum q (pm (ap self)) #i (vid v))))
 (inv C08 (dlist ?o:SeqA (amv self)))
 (inv C08 (=> (not ?b:Bool) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (isK (atA ?o:SeqA k?))) :pattern ((atA ?o:SeqA k?))))))
 (inv C08 (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< a? (rows self)) (< b? (cols self))) (= (atR (atRR ?o:SeqRR a?) b?) (ite (< a? #i) (dval q (AVar (atV (atVV (avm self) a?) b?)) (vid v)) 0.0))) :pattern ((atR (atRR ?o:SeqRR a?) b?)))))
 (inv C08 (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< a? (rows self)) (< b? (cols self))) (= (atR (atRR ?o:SeqRR a?) b?) (ite (or (< a? $i) (and (= a? $i) (< b? #j))) (dval q (AVar (atV (atVV (avm self) a?) b?)) (vid v)) 0.0))) :pattern ((atR (atRR ?o:SeqRR a?) b?)))))
 (case value (given (and (wf self) (wfV v)))
  (ensures (C08 C17 C26) (isE result))
  (ensures (C08 C17 C26) (= (isS result) (isS self)))
  (ensures (C08 C17 C26) (wf result))
  (ensures (C08 C17) (= (rows result) (rows self)))
  (ensures (C08 C17) (= (cols result) (cols self)))
  (entry C08 true (dval q (ent self i j) (vid v)))
  (nopanic C08 (> (rows self) 0))))
