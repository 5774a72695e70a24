; Results of operations are well formed.
(root C26
 Scalar.Plus (Expression.Plus entries (self V M) (right E N G)) (Expression.Plus entries (self S) (right V M G))
 Scalar.Minus (Expression.Minus entries (self V M) (right E N G)) (Expression.Minus entries (self S) (right V M G))
 Scalar.Multiply (Expression.Multiply entries (self V M) (right E N G)) (Expression.Multiply entries (self S) (right V M G))
 (Expression.DerivativeWrt value) (Expression.Power scalar) (Expression.Power vector) (Expression.Power matrix)
 (Expression.Substitute scalar) (Expression.Substitute vector) (Expression.Substitute matrix)
 (Expression.SubstituteAccordingTo scalar) (Expression.SubstituteAccordingTo vector) (Expression.SubstituteAccordingTo matrix)
 Expression.Transpose HStack VStack)
(macro (list26 O) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA O k?)) (wf (atA O k?)))) :pattern ((atA O k?)))))
(macro (row26 O) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #j)) (and (isS (atA O k?)) (wf (atA O k?)))) :pattern ((atA O k?)))))
(macro (rows26 O) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (cols self))) (and (isS (atA (atAA O a?) b?)) (wf (atA (atAA O a?) b?)))) :pattern ((atA (atAA O a?) b?)))))
(contract VectorSubstituteTemplate
 (inv C26 (list26 ?o:SeqA))
 (inv C26 (row26 ?o:SeqA))
 (inv C26 (rows26 ?o:SeqAA)))
(contract MatrixSubstituteTemplate
 (inv C26 (list26 ?o:SeqA))
 (inv C26 (row26 ?o:SeqA))
 (inv C26 (rows26 ?o:SeqAA)))
(contract Expression.SubstituteAccordingTo
 (inv C26 (list26 ?o:SeqA))
 (inv C26 (row26 ?o:SeqA))
 (inv C26 (rows26 ?o:SeqAA)))
(contract Expression.DerivativeWrt
 (inv C26 (list26 ?o:SeqA))
 (inv C26 (row26 ?o:SeqA))
 (inv C26 (rows26 ?o:SeqAA)))
