; Entries of constraints and splitting into scalar constraints.
(root C24 VectorConstraint.AtVec MatrixConstraint.At)
(root C23 VectorConstraint.AtVec MatrixConstraint.At CompileConstraintsIntoScalarConstraints)
(contract VectorConstraint.Len (args self)
 (case len (given (and (kindC (AVC self)) (chkC (AVC self))))
  (ensures * (= result (rows (cl (AVC self)))))
  (nopanic * true)))
(contract MatrixConstraint.Dims (args self) (fresh)
 (case dims (given (and (kindC (AMC self)) (chkC (AMC self))))
  (ensures * (= (lenI result) 2))
  (ensures * (= (atI result 0) (rows (cl (AMC self)))))
  (ensures * (= (atI result 1) (cols (cl (AMC self)))))
  (nopanic * true)))
(contract VectorConstraint.Dims (args self) (fresh)
 (case dims (given (and (kindC (AVC self)) (chkC (AVC self))))
  (ensures * (= (lenI result) 2))
  (ensures * (= (atI result 0) (rows (cl (AVC self)))))
  (ensures * (= (atI result 1) (cols (cl (AVC self)))))
  (nopanic * true)))
(contract VectorConstraint.AtVec (args self i)
 (case entry (given (and (kindC (AVC self)) (chkC (AVC self))))
  (ensures * (inb (cl (AVC self)) i 0))
  (ensures * (kindC (ASC result)))
  (ensures * (=> (wfC (AVC self)) (wfC (ASC result))))
  (ensures * (= (cs (ASC result)) (cs (AVC self))))
  (ensures * (= (sval q (cl (ASC result))) (at q (cl (AVC self)) i 0)))
  (ensures * (= (sval q (cr (ASC result))) (at q (cr (AVC self)) i 0)))
  (nopanic * (inb (cl (AVC self)) i 0))))
(contract MatrixConstraint.At (args self i j)
 (case entry (given (and (kindC (AMC self)) (chkC (AMC self))))
  (ensures * (inb (cl (AMC self)) i j))
  (ensures * (kindC (ASC result)))
  (ensures * (=> (wfC (AMC self)) (wfC (ASC result))))
  (ensures * (= (cs (ASC result)) (cs (AMC self))))
  (ensures * (= (sval q (cl (ASC result))) (at q (cl (AMC self)) i j)))
  (ensures * (= (sval q (cr (ASC result))) (at q (cr (AMC self)) i j)))
  (nopanic * (inb (cl (AMC self)) i j))))

(macro (isEntry q o p c i j) (and (wfC (ASC (atC o p))) (= (cs (ASC (atC o p))) (cs c)) (= (sval q (cl (ASC (atC o p)))) (at q (cl c) i j)) (= (sval q (cr (ASC (atC o p)))) (at q (cr c) i j))))
(macro (placed q o s) (forall ((k? Int) (i? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? (lenA s)) (inb (cl (atA s k?)) i? j?) (< (pos s k? i? j?) (lenC o))) (isEntry q o (pos s k? i? j?) (atA s k?) i? j?)) :pattern ((pos s k? i? j?)))))
(contract CompileConstraintsIntoScalarConstraints (args s)
 (inv * (= (lenC ?o:SeqC) (pos s #i 0 0)))
 (inv * (= (lenC ?o:SeqC) (pos s $i #i 0)))
 (inv * (= (lenC ?o:SeqC) (pos s $i $j #i)))
 (inv * (placed q ?o:SeqC s))
 (case split (given (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA s))) (wfC (atA s k?))) :pattern ((atA s k?)))))
  (ensures * (= (lenC result) (off s (lenA s))))
  (ensures * (forall ((k? Int) (i? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? (lenA s)) (inb (cl (atA s k?)) i? j?)) (isEntry q result (pos s k? i? j?) (atA s k?) i? j?)) :pattern ((pos s k? i? j?)))))
  (nopanic * true)))
