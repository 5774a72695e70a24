; Transposes and stacking.
(root C18 Expression.Transpose Expression.At Vector.AtVec)
;  the transpose O of S filled row by row of S, or row by row of O
(macro (fillS O S ATT AT LL) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (LL O))) (= (AT (ATT O b?) a?) (AT (ATT S a?) b?))) :pattern ((AT (ATT O b?) a?)))))
(macro (fillS2 O S ATT AT LL) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (LL O)) (or (< a? $i) (and (= a? $i) (< b? #j)))) (= (AT (ATT O b?) a?) (AT (ATT S a?) b?))) :pattern ((AT (ATT O b?) a?)))))
(macro (fillO O S ATT AT LL) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 b?) (< b? #i) (<= 0 a?) (< a? (LL S))) (= (AT (ATT O b?) a?) (AT (ATT S a?) b?))) :pattern ((AT (ATT O b?) a?)))))
(macro (fillO2 O S ATT AT LL) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (LL S)) (<= 0 b?) (or (< b? $i) (and (= b? $i) (< a? #j)))) (= (AT (ATT O b?) a?) (AT (ATT S a?) b?))) :pattern ((AT (ATT O b?) a?)))))
(macro (fillrow O S ATT AT) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (AT O k?) (AT (ATT S k?) $i))) :pattern ((AT O k?)))))
(macro (fillone O S ATT AT) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (AT (ATT O 0) k?) (AT S k?))) :pattern ((AT (ATT O 0) k?)))))
(macro (filldS D S) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (dcols D))) (= (dat D a? b?) (dat S a? b?))) :pattern ((dat D a? b?)))))
(macro (filldS2 D S) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (dcols D)) (or (< a? $i) (and (= a? $i) (< b? #j)))) (= (dat D a? b?) (dat S a? b?))) :pattern ((dat D a? b?)))))
(macro (rowlens O ATT LL N) (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (LL (ATT O a?)) N)) :pattern ((LL (ATT O a?))))))
(macro (rowlens2 O ATT LL N) (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? $i)) (= (LL (ATT O a?)) N)) :pattern ((LL (ATT O a?))))))
(contract Expression.Transpose (args self)
 (inv * (rowlens ?o:SeqRR atRR lenR (rows self)))
 (inv * (rowlens ?o:SeqVV atVV lenV (rows self)))
 (inv * (rowlens ?o:SeqMM atMM lenM (rows self)))
 (inv * (rowlens ?o:SeqPP atPP lenP (rows self)))
 (inv * (alenVV ?o:SeqVV (rows self)))
 (inv * (alenVV ?o:SeqVV (cols self)))
 (inv * (alenMM ?o:SeqMM (rows self)))
 (inv * (alenMM ?o:SeqMM (cols self)))
 (inv * (alenPP ?o:SeqPP (rows self)))
 (inv * (alenRR ?o:SeqRR (rows self)))
 (inv * (alenRR ?o:SeqRR (cols self)))
 (inv * (fillS ?o:SeqRR !s:SeqRR atRR atR lenRR))
 (inv * (fillS2 ?o:SeqRR !s:SeqRR atRR atR lenRR))
 (inv * (fillO ?o:SeqRR !s:SeqRR atRR atR lenRR))
 (inv * (fillO2 ?o:SeqRR !s:SeqRR atRR atR lenRR))
 (inv * (fillrow ?o:SeqR !s:SeqRR atRR atR))
 (inv * (alenPP ?o:SeqPP (cols self)))
 (inv * (fillS ?o:SeqVV !s:SeqVV atVV atV lenVV))
 (inv * (fillS2 ?o:SeqVV !s:SeqVV atVV atV lenVV))
 (inv * (fillO ?o:SeqVV !s:SeqVV atVV atV lenVV))
 (inv * (fillO2 ?o:SeqVV !s:SeqVV atVV atV lenVV))
 (inv * (fillrow ?o:SeqV !s:SeqVV atVV atV))
 (inv * (fillone ?o:SeqVV !s:SeqV atVV atV))
 (inv * (fillS ?o:SeqMM !s:SeqMM atMM atM lenMM))
 (inv * (fillS2 ?o:SeqMM !s:SeqMM atMM atM lenMM))
 (inv * (fillO ?o:SeqMM !s:SeqMM atMM atM lenMM))
 (inv * (fillO2 ?o:SeqMM !s:SeqMM atMM atM lenMM))
 (inv * (fillrow ?o:SeqM !s:SeqMM atMM atM))
 (inv * (fillone ?o:SeqMM !s:SeqM atMM atM))
 (inv * (fillS ?o:SeqPP !s:SeqPP atPP atP lenPP))
 (inv * (fillS2 ?o:SeqPP !s:SeqPP atPP atP lenPP))
 (inv * (fillO ?o:SeqPP !s:SeqPP atPP atP lenPP))
 (inv * (fillO2 ?o:SeqPP !s:SeqPP atPP atP lenPP))
 (inv * (fillrow ?o:SeqP !s:SeqPP atPP atP))
 (inv * (fillone ?o:SeqPP !s:SeqP atPP atP))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (dat ?o:Dense 0 k?) (atR !s:SeqR k?))) :pattern ((dat ?o:Dense 0 k?)))))
 (inv * (filldS ?o:Dense !s:Dense))
 (inv * (filldS2 ?o:Dense !s:Dense))
 (case entries (given (wf self))
  (ensures * (isE result))
  (ensures * (wf result))
  (ensures * (= (rows result) (cols self)))
  (ensures * (= (cols result) (rows self)))
  (entry * true (at q self j i))
  (nopanic C18 true)))

;  stacking: block k starts at column hoff k, or at row voff k
(root C18 HStack VStack)
(macro (blocks S) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA S))) (and (isE (atA S k?)) (wf (atA S k?)))) :pattern ((atA S k?)))))
(macro (samerows S) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA S))) (= (rows (atA S k?)) (rows (atA S 0)))) :pattern ((atA S k?)))))
(macro (samecols S) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA S))) (= (cols (atA S k?)) (cols (atA S 0)))) :pattern ((atA S k?)))))
(macro (sizes D O S) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenI O))) (= (atI O k?) (D (atA S k?)))) :pattern ((atI O k?)))))
(macro (samesofar D S) (forall ((k? Int)) (! (=> (and (<= 0 k?) (or (< k? #i) (= k? 0)) (< k? (lenA S))) (= (D (atA S k?)) (D (atA S 0)))) :pattern ((atA S k?)))))
;  the row R of the blocks before block K, and of block K up to column J
(macro (hrow R S I K J) (forall ((k? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? (lenA S)) (<= 0 j?) (< j? (cols (atA S k?))) (or (< k? K) (and (= k? K) (< j? J)))) (= (sval q (atA R (+ (hoff S k?) j?))) (at q (atA S k?) I j?))) :pattern ((at q (atA S k?) I j?)))))
(macro (okrow R) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA R))) (and (isS (atA R k?)) (wf (atA R k?)))) :pattern ((atA R k?)))))
(macro (hrows R S) (forall ((a? Int) (k? Int) (j? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 k?) (< k? (lenA S)) (<= 0 j?) (< j? (cols (atA S k?)))) (= (sval q (atA (atAA R a?) (+ (hoff S k?) j?))) (at q (atA S k?) a? j?))) :pattern ((at q (atA S k?) a? j?)))))
(contract HStack (args s)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atA ?o:SeqA k?) (atA s k?))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (= (lenI ?o:SeqI) #i))
 (inv * (sizes rows ?o:SeqI s))
 (inv * (sizes cols ?o:SeqI s))
 (inv * (and (samesofar rows s) (<= 0 ?n:Int)))
 (inv * (= (lenA ?o:SeqA) (hoff s #i)))
 (inv * (= (lenA ?o:SeqA) (+ (hoff s $i) #j)))
 (inv * (hrow ?o:SeqA s $i #i 0))
 (inv * (forall ((j? Int)) (! (=> (and (<= 0 j?) (< j? (lenA ?o:SeqA))) (= (sval q (atA ?o:SeqA j?)) (at q (atA s $j) $i j?))) :pattern ((at q (atA s $j) $i j?)))))
 (inv * (hrow ?o:SeqA s $i $j #j))
 (inv * (okrow ?o:SeqA))
 (inv * (alenAA ?o:SeqAA (hoff s (lenA s))))
 (inv * (wf2A ?o:SeqAA))
 (inv * (hrows ?o:SeqAA s))
 (case stack (given (blocks s))
  (ensures * (samerows s))
  (ensures * (isE result))
  (ensures * (wf result))
  (ensures * (= (rows result) (rows (atA s 0))))
  (ensures * (= (cols result) (hoff s (lenA s))))
  (ensures * (forall ((i? Int) (k? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? (lenA s)) (<= 0 i?) (< i? (rows (atA s k?))) (<= 0 j?) (< j? (cols (atA s k?)))) (= (at q result i? (+ (hoff s k?) j?)) (at q (atA s k?) i? j?))) :pattern ((at q (atA s k?) i? j?)))))
  (nopanic C18 (and (> (lenA s) 0) (> (rows (atA s 0)) 0) (samerows s)))))
;  rows of the blocks before block K, and of block K up to row I
(macro (vrows R S K I) (forall ((k? Int) (i? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? (lenA S)) (<= 0 i?) (< i? (rows (atA S k?))) (<= 0 j?) (< j? (cols (atA S k?))) (or (< k? K) (and (= k? K) (< i? I)))) (= (sval q (atA (atAA R (+ (voff S k?) i?)) j?)) (at q (atA S k?) i? j?))) :pattern ((at q (atA S k?) i? j?)))))
(macro (vrow R X I) (forall ((j? Int)) (! (=> (and (<= 0 j?) (< j? #i)) (= (sval q (atA R j?)) (at q X I j?))) :pattern ((atA R j?)))))
(contract VStack (args s)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atA ?o:SeqA k?) (atA s k?))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (= (lenI ?o:SeqI) #i))
 (inv * (sizes cols ?o:SeqI s))
 (inv * (and (samesofar cols s) (<= 0 ?n:Int)))
 (inv * (= (lenA ?o:SeqA) #i))
 (inv * (vrow ?o:SeqA (atA s $i) $j))
 (inv * (okrow ?o:SeqA))
 (inv * (alenAA ?o:SeqAA (cols (atA s 0))))
 (inv * (wf2A ?o:SeqAA))
 (inv * (= (lenAA ?o:SeqAA) (voff s #i)))
 (inv * (= (lenAA ?o:SeqAA) (+ (voff s $i) #j)))
 (inv * (vrows ?o:SeqAA s #i 0))
 (inv * (vrows ?o:SeqAA s $i #j))
 (case stack (given (blocks s))
  (ensures * (samecols s))
  (ensures * (isE result))
  (ensures * (wf result))
  (ensures * (= (rows result) (voff s (lenA s))))
  (ensures * (= (cols result) (cols (atA s 0))))
  (ensures * (forall ((i? Int) (k? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? (lenA s)) (<= 0 i?) (< i? (rows (atA s k?))) (<= 0 j?) (< j? (cols (atA s k?)))) (= (at q result (+ (voff s k?) i?) j?) (at q (atA s k?) i? j?))) :pattern ((at q (atA s k?) i? j?)))))
  (nopanic C18 (and (> (lenA s) 0) (> (rows (atA s 0)) 0) (samecols s)))))
