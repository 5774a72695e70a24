; Degrees.
(root C21 Expression.Degree IsLinear IsQuadratic Constraint.IsLinear)

(contract Expression.Degree (args self)
 (inv * (= ?d:Int (pdeg !x:SeqI #i)))
 (inv * (= (+ ?d:Int (pdeg (mx !m:Mono) (+ ?i:Int 1))) (degM !m:Mono)))
 (inv * (= ?d:Int (pmax !s:SeqM #i)))
 (inv * (= ?d:Int (mxP !s:SeqP #i)))
 (inv * (= ?d:Int (mxMM !s:SeqMM #i)))
 (inv * (= ?d:Int (mxPP !s:SeqPP #i)))
 (inv * (= ?d:Int (imax (mxMM !s:SeqMM $i) (pmax (atMM !s:SeqMM $i) #j))))
 (inv * (= ?d:Int (imax (mxPP !s:SeqPP $i) (mxP (atPP !s:SeqPP $i) #j))))
 (case degree (given (wf self))
  (ensures * (= result (deg self)))
  (nopanic * true)))
(contract IsLinear (args e)
 (case linear (domain e E) (given (wf e))
  (ensures * (= result (<= (deg e) 1)))
  (nopanic * true)))
(contract IsQuadratic (args e)
 (case quadratic (domain e E) (given (wf e))
  (ensures * (= result (<= (deg e) 2)))
  (nopanic * true)))
(contract Constraint.IsLinear (args self)
 (case linear (given (wfC self))
  (ensures * (= result (and (<= (deg (cl self)) 1) (<= (deg (cr self)) 1))))
  (nopanic * true)))
