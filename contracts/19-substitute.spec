; Substitution.
(root C09
 (Expression.Substitute scalar) (Expression.Substitute vector) (Expression.Substitute matrix)
 (Expression.SubstituteAccordingTo scalar) (Expression.SubstituteAccordingTo vector) (Expression.SubstituteAccordingTo matrix)
 Constraint.Substitute Constraint.SubstituteAccordingTo)
(macro (list9 O X) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA O k?)) (wf (atA O k?)) (= (sval q (atA O k?)) (at X self k? 0)))) :pattern ((atA O k?)))))
(macro (row9 O X) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #j)) (and (isS (atA O k?)) (wf (atA O k?)) (= (sval q (atA O k?)) (at X self $i k?)))) :pattern ((atA O k?)))))
(macro (rows9 O X) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (cols self))) (and (isS (atA (atAA O a?) b?)) (wf (atA (atAA O a?) b?)) (= (sval q (atA (atAA O a?) b?)) (at X self a? b?)))) :pattern ((atA (atAA O a?) b?)))))
(macro (lens9 O) (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (lenA (atAA O a?)) (cols self))) :pattern ((atAA O a?)))))
(contract Expression.Substitute (args self v e)
 (inv (C09 C26) (and (isS ?e:Any) (wf ?e:Any)))
 (inv C09 (= (sval q ?e:Any) (* (mc (am self)) (pun (vsub q (vid v) (sval q e)) (mx (am self)) (mv (am self)) #i))))
 (inv C09 (= (sval q ?e:Any) (psum (vsub q (vid v) (sval q e)) (pm (ap self)) #i)))
 (case scalar (domain self S) (given (and (wf self) (wfV v) (isS e) (wf e)))
  (ensures (C09 C26) (isS result))
  (ensures (C09 C26) (wf result))
  (ensures C09 (= (sval q result) (sval (vsub q (vid v) (sval q e)) self)))
  (nopanic C09 true))
 (case vector (domain self V) (given (and (wf self) (wfV v) (isS e) (wf e))) (vals (vsub r (vid v) (sval r e)))
  (ensures (C09 C26) (isV result))
  (ensures (C09 C26) (wf result))
  (ensures (C09 C26) (= (rows result) (rows self)))
  (ensures C09 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows self))) (= (at q result k? 0) (at (vsub q (vid v) (sval q e)) self k? 0))) :pattern ((at q result k? 0)))))
  (nopanic C09 (> (rows self) 0)))
 (case matrix (domain self M) (given (and (wf self) (wfV v) (isS e) (wf e))) (vals (vsub r (vid v) (sval r e)))
  (ensures (C09 C26) (isM result))
  (ensures (C09 C26) (wf result))
  (ensures (C09 C26) (= (rows result) (rows self)))
  (ensures (C09 C26) (= (cols result) (cols self)))
  (entry C09 true (at (vsub q (vid v) (sval q e)) self i j))
  (nopanic C09 true)))
(contract VectorSubstituteTemplate (args self v e)
 (inv C09 (list9 ?o:SeqA (vsub q (vid v) (sval q e))))
 (case vector (given (and (isV self) (wf self) (wfV v) (isS e) (wf e))) (vals (vsub r (vid v) (sval r e)))
  (ensures (C09 C26) (isV result))
  (ensures (C09 C26) (wf result))
  (ensures (C09 C26) (= (rows result) (rows self)))
  (ensures C09 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows self))) (= (at q result k? 0) (at (vsub q (vid v) (sval q e)) self k? 0))) :pattern ((at q result k? 0)))))
  (nopanic C09 (> (rows self) 0))))
(contract MatrixSubstituteTemplate (args self v e)
 (inv C09 (row9 ?o:SeqA (vsub q (vid v) (sval q e))))
 (inv C09 (rows9 ?o:SeqAA (vsub q (vid v) (sval q e))))
 (inv (C09 C26) (lens9 ?o:SeqAA))
 (case matrix (given (and (isM self) (wf self) (wfV v) (isS e) (wf e))) (vals (vsub r (vid v) (sval r e)))
  (ensures (C09 C26) (isM result))
  (ensures (C09 C26) (wf result))
  (ensures (C09 C26) (= (rows result) (rows self)))
  (ensures (C09 C26) (= (cols result) (cols self)))
  (entry C09 true (at (vsub q (vid v) (sval q e)) self i j))
  (nopanic C09 true)))
(contract CheckSubstitutionMap (args m)
 (case ok (given (okMap m))
  (ensures * (= result ANil))
  (nopanic * true)))
(contract Expression.SubstituteAccordingTo (args self m)
 (inv (C09 C26) (and (isS ?e:Any) (wf ?e:Any)))
 (inv C09 (= (sval q ?e:Any) (* (mc (am self)) (pun (vmsub q m) (mx (am self)) (mv (am self)) #i))))
 (inv C09 (= (sval q ?e:Any) (psum (vmsub q m) (pm (ap self)) #i)))
 (inv C09 (list9 ?o:SeqA (vmsub q m)))
 (inv C09 (row9 ?o:SeqA (vmsub q m)))
 (inv C09 (rows9 ?o:SeqAA (vmsub q m)))
 (inv (C09 C26) (lens9 ?o:SeqAA))
 (case scalar (domain self S) (given (and (wf self) (okMap m)))
  (ensures (C09 C26) (isS result))
  (ensures (C09 C26) (wf result))
  (ensures C09 (= (sval q result) (sval (vmsub q m) self)))
  (nopanic C09 true))
 (case vector (domain self V) (given (and (wf self) (okMap m))) (vals (vmsub r m))
  (ensures (C09 C26) (isV result))
  (ensures (C09 C26) (wf result))
  (ensures (C09 C26) (= (rows result) (rows self)))
  (ensures C09 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows self))) (= (at q result k? 0) (at (vmsub q m) self k? 0))) :pattern ((at q result k? 0)))))
  (nopanic C09 (> (rows self) 0)))
 (case matrix (domain self M) (given (and (wf self) (okMap m))) (vals (vmsub r m))
  (ensures (C09 C26) (isM result))
  (ensures (C09 C26) (wf result))
  (ensures (C09 C26) (= (rows result) (rows self)))
  (ensures (C09 C26) (= (cols result) (cols self)))
  (entry C09 true (at (vmsub q m) self i j))
  (nopanic C09 true)))
;  constraints: side by side
(macro (side9 R S X) (forall ((i? Int) (j? Int)) (! (=> (inb S i? j?) (= (at q R i? j?) (at X S i? j?))) :pattern ((at q R i? j?)))))
(contract Constraint.Substitute (args self v e)
 (case sides (given (and (wfC self) (wfV v) (isS e) (wf e)))
  (ensures (C09 C26) (isC result))
  (ensures (C09 C26) (kindC result))
  (ensures C09 (and (= ((_ is ASC) result) ((_ is ASC) self)) (= ((_ is AVC) result) ((_ is AVC) self))))
  (ensures C09 (= (cs result) (cs self)))
  (ensures C09 (and (= (rows (cl result)) (rows (cl self))) (= (rows (cr result)) (rows (cr self)))))
  (ensures C09 (and (= (cols (cl result)) (cols (cl self))) (= (cols (cr result)) (cols (cr self)))))
  (ensures (C09 C26) (wfC result))
  (ensures C09 (side9 (cl result) (cl self) (vsub q (vid v) (sval q e))))
  (ensures C09 (side9 (cr result) (cr self) (vsub q (vid v) (sval q e))))
  (nopanic C09 (> (rows (cl self)) 0))))
(contract Constraint.SubstituteAccordingTo (args self m)
 (case sides (given (and (wfC self) (okMap m)))
  (ensures (C09 C26) (isC result))
  (ensures (C09 C26) (kindC result))
  (ensures C09 (and (= ((_ is ASC) result) ((_ is ASC) self)) (= ((_ is AVC) result) ((_ is AVC) self))))
  (ensures C09 (= (cs result) (cs self)))
  (ensures C09 (and (= (rows (cl result)) (rows (cl self))) (= (rows (cr result)) (rows (cr self)))))
  (ensures C09 (and (= (cols (cl result)) (cols (cl self))) (= (cols (cr result)) (cols (cr self)))))
  (ensures (C09 C26) (wfC result))
  (ensures C09 (side9 (cl result) (cl self) (vmsub q m)))
  (ensures C09 (side9 (cr result) (cr self) (vmsub q m)))
  (nopanic C09 (> (rows (cl self)) 0))))
