; Rows of entries, and matrices built row by row.
;  entries k < #i of the list O hold the values of the entries of the list S
(macro (copyrow O AT MK S) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (wf (MK (AT O k?))) (= (sval q (MK (AT O k?))) (sval q (atA S k?))))) :pattern ((AT O k?)))))
;  the first #i rows of O hold the values of those of S
(macro (copyrows O ATT AT LEN MK S) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (LEN (ATT O a?)))) (and (wf (MK (AT (ATT O a?) b?))) (= (sval q (MK (AT (ATT O a?) b?))) (sval q (atA (atAA S a?) b?))))) :pattern ((AT (ATT O a?) b?)))))
(macro (samelens O ATT LEN S) (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (LEN (ATT O a?)) (lenA (atAA S a?)))) :pattern ((ATT O a?)))))
;  a flag that records whether a kind of entry was seen
(macro (seen KIND B) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (lenA (atAA !s:SeqAA a?))) (KIND (atA (atAA !s:SeqAA a?) b?))) B) :pattern ((atA (atAA !s:SeqAA a?) b?)))))
(macro (seen2 KIND B) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (lenA (atAA !s:SeqAA a?))) (or (< a? $i) (and (= a? $i) (< b? #j))) (KIND (atA (atAA !s:SeqAA a?) b?))) B) :pattern ((atA (atAA !s:SeqAA a?) b?)))))
(macro (isK x) ((_ is AK) x))
(macro (isVar x) ((_ is AVar) x))
(macro (isMono x) ((_ is AMono) x))
(macro (isPoly x) ((_ is APoly) x))
(macro (notVar x) (not ((_ is AVar) x)))

(root C06
 (Expression.Plus entries (self M) (right E N G))
 (Expression.Plus entries (self S V) (right M ADen APDen))
 (Expression.Minus entries (self M) (right E N G))
 (Expression.Minus entries (self S V) (right M ADen APDen))
 (Expression.Multiply entries (self M) (right E N G))
 (Expression.Multiply entries (self V) (right V AVec APVec))
 (Expression.Multiply entries (self S V) (right M ADen APDen)))

(contract ConcretizeMatrixExpression (args s)
 (inv * (seen isK ?b:Bool))
 (inv * (seen isVar ?b:Bool))
 (inv * (seen isMono ?b:Bool))
 (inv * (seen isPoly ?b:Bool))
 (inv * (seen notVar (not ?b:Bool)))
 (inv * (seen2 isK ?b:Bool))
 (inv * (seen2 isVar ?b:Bool))
 (inv * (seen2 isMono ?b:Bool))
 (inv * (seen2 isPoly ?b:Bool))
 (inv * (seen2 notVar (not ?b:Bool)))
 (inv * (=> (not ?b:Bool) (exists ((a? Int) (b? Int)) (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (lenA (atAA !s:SeqAA a?))) (not ((_ is AVar) (atA (atAA !s:SeqAA a?) b?)))))))
 (inv * (=> (not ?b:Bool) (exists ((a? Int) (b? Int)) (and (<= 0 a?) (<= 0 b?) (or (< a? $i) (and (= a? $i) (< b? #j))) (< b? (lenA (atAA !s:SeqAA a?))) (not ((_ is AVar) (atA (atAA !s:SeqAA a?) b?)))))))
 (inv * (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (lenA (atAA !s:SeqAA a?)) (lenA (atAA !s:SeqAA 0)))) :pattern ((atAA !s:SeqAA a?)))))
 (inv * (copyrow ?o:SeqR atR AK !s:SeqA))
 (inv * (copyrow ?o:SeqV atV AVar !s:SeqA))
 (inv * (copyrow ?o:SeqM atM AMono !s:SeqA))
 (inv * (copyrow ?o:SeqP atP APoly !s:SeqA))
 (inv * (copyrows ?o:SeqRR atRR atR lenR AK !s:SeqAA))
 (inv * (copyrows ?o:SeqVV atVV atV lenV AVar !s:SeqAA))
 (inv * (copyrows ?o:SeqMM atMM atM lenM AMono !s:SeqAA))
 (inv * (copyrows ?o:SeqPP atPP atP lenP APoly !s:SeqAA))
 (inv * (samelens ?o:SeqRR atRR lenR !s:SeqAA))
 (inv * (samelens ?o:SeqVV atVV lenV !s:SeqAA))
 (inv * (samelens ?o:SeqMM atMM lenM !s:SeqAA))
 (inv * (samelens ?o:SeqPP atPP lenP !s:SeqAA))
 (case concrete (given (and (rect2A s) (wf2A s) (isS (atA (atAA s 0) 0))))
  (ensures * (isM result))
  (ensures * (wf result))
  (ensures * (= (rows result) (lenAA s)))
  (ensures * (= (cols result) (lenA (atAA s 0))))
  (entry * true (aaval q s i j))
  (nopanic * true)))

(contract ConcretizeExpression (args s)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (sval q (atA ?o:SeqA k?)) (at q !e:Any k? 0))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)))) :pattern ((atA ?o:SeqA k?)))))
 (case matrix (domain s ASlAA) (given (and (rect2A (aslaa s)) (wf2A (aslaa s)) (isS (atA (atAA (aslaa s) 0) 0))))
  (ensures * (isE result))
  (ensures * (= (isS result) (and (= (lenAA (aslaa s)) 1) (= (lenA (atAA (aslaa s) 0)) 1))))
  (ensures * (= (isV result) (and (> (lenAA (aslaa s)) 1) (= (lenA (atAA (aslaa s) 0)) 1))))
  (ensures * (wf result))
  (ensures * (= (rows result) (lenAA (aslaa s))))
  (ensures * (= (cols result) (lenA (atAA (aslaa s) 0))))
  (entry * true (aaval q (aslaa s) i j))
  (nopanic * true)))

;  a row of simplified entries, and the rows completed so far
(macro (simprow MK AT X) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (sval q (MK (AT X k?)))))) :pattern ((atA ?o:SeqA k?)))))
(macro (simprows MK AT ATT X) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (lenA (atAA ?o:SeqAA a?)))) (and (isS (atA (atAA ?o:SeqAA a?) b?)) (wf (atA (atAA ?o:SeqAA a?) b?)) (= (sval q (atA (atAA ?o:SeqAA a?) b?)) (sval q (MK (AT (ATT X a?) b?)))))) :pattern ((atA (atAA ?o:SeqAA a?) b?)))))
(macro (simplens LEN ATT X) (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (lenA (atAA ?o:SeqAA a?)) (LEN (ATT X 0)))) :pattern ((atAA ?o:SeqAA a?)))))
(contract Expression.AsSimplifiedExpression
 (inv * (simprow AMono atM (atMM !s:SeqMM $i)))
 (inv * (simprow APoly atP (atPP !s:SeqPP $i)))
 (inv * (simprows AMono atM atMM !s:SeqMM))
 (inv * (simprows APoly atP atPP !s:SeqPP))
 (inv * (simplens lenM atMM !s:SeqMM))
 (inv * (simplens lenP atPP !s:SeqPP)))
(contract PolynomialMatrix.Simplify (args self)
 (inv * (simprow APoly atP (atPP !s:SeqPP $i)))
 (inv * (simprows APoly atP atPP !s:SeqPP))
 (inv * (simplens lenP atPP !s:SeqPP))
 (case entries (given (wf (APM self)))
  (ensures * (isM result))
  (ensures * (wf result))
  (ensures * (= (rows result) (rows (APM self))))
  (ensures * (= (cols result) (cols (APM self))))
  (entry * true (at q (APM self) i j))
  (nopanic * true)))

(contract DenseToKMatrix (args d) (fresh)
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (dcols !d:Dense))) (= (atR (atRR ?o:SeqRR a?) b?) (dat !d:Dense a? b?))) :pattern ((atR (atRR ?o:SeqRR a?) b?)))))
 (inv * (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (lenR (atRR ?o:SeqRR a?)) (dcols !d:Dense))) :pattern ((atRR ?o:SeqRR a?)))))
 (inv * (forall ((b? Int)) (! (=> (and (<= 0 b?) (< b? #j)) (= (atR ?o:SeqR b?) (dat !d:Dense $i b?))) :pattern ((atR ?o:SeqR b?)))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? $i) (<= 0 b?) (< b? (dcols !d:Dense))) (= (atR (atRR ?o:SeqRR a?) b?) (dat !d:Dense a? b?))) :pattern ((atR (atRR ?o:SeqRR a?) b?)))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= 0 b?) (< b? (dcols !d:Dense)) (or (< a? $i) (and (= a? $i) (< b? #j)))) (= (atR (atRR ?o:SeqRR a?) b?) (dat !d:Dense a? b?))) :pattern ((atR (atRR ?o:SeqRR a?) b?)))))
 (case copy
  (ensures * (= (lenRR result) (drows d)))
  (ensures * (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? (drows d))) (= (lenR (atRR result a?)) (dcols d))) :pattern ((atRR result a?)))))
  (ensures * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (drows d)) (<= 0 b?) (< b? (dcols d))) (= (atR (atRR result a?) b?) (dat d a? b?))) :pattern ((atR (atRR result a?) b?)))))
  (nopanic * true)))

(macro (constdense X D) (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? (drows D)) (<= 0 b?) (< b? (dcols D))) (= (dat D a? b?) X)) :pattern ((dat D a? b?)))))
(contract OnesMatrix (args nr nc) (fresh)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (* #i nc))) (= (atR ?o:SeqR k?) 1.0)) :pattern ((atR ?o:SeqR k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (+ (* $i nc) #j))) (= (atR ?o:SeqR k?) 1.0)) :pattern ((atR ?o:SeqR k?)))))
 (case ones (given (and (> nr 0) (> nc 0)))
  (ensures * (= (drows result) nr))
  (ensures * (= (dcols result) nc))
  (ensures * (constdense 1.0 result))
  (nopanic * (and (> nr 0) (> nc 0)))))
(contract ZerosMatrix (args nr nc) (fresh)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (* #i nc))) (= (atR ?o:SeqR k?) 0.0)) :pattern ((atR ?o:SeqR k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (+ (* $i nc) #j))) (= (atR ?o:SeqR k?) 0.0)) :pattern ((atR ?o:SeqR k?)))))
 (case zeros (given (and (> nr 0) (> nc 0)))
  (ensures * (= (drows result) nr))
  (ensures * (= (dcols result) nc))
  (ensures * (constdense 0.0 result))
  (nopanic * (and (> nr 0) (> nc 0)))))
(contract MatrixPlusTemplate (args self right) (generic)
 (case mismatch (given (and (isM self) (isM right) (wf self) (wf right) (not (and (= (rows self) (rows right)) (= (cols self) (cols right))))))
  (ensures * false))
 (case entries (given (and (isM self) (isM right) (wf self) (wf right) (= (rows self) (rows right)) (= (cols self) (cols right))))
  (ensures * (isM result))
  (ensures * (wf result))
  (ensures * (= (rows result) (rows self)))
  (ensures * (= (cols result) (cols self)))
  (entry * true (+ (at q self i j) (at q right i j)))))
;  a matrix filled with one variable
(contract Expression.Plus
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atV ?o:SeqV k?) !v:Var)) :pattern ((atV ?o:SeqV k?)))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (lenV (atVV ?o:SeqVV a?)))) (= (atV (atVV ?o:SeqVV a?) b?) !v:Var)) :pattern ((atV (atVV ?o:SeqVV a?) b?)))))
 (inv * (forall ((b? Int)) (! (=> (and (<= 0 b?) (< b? #j)) (= (atV (atVV ?o:SeqVV $i) b?) !v:Var)) :pattern ((atV (atVV ?o:SeqVV $i) b?)))))
 (inv * (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (lenV (atVV ?o:SeqVV a?)) (lenR (atRR !s:SeqRR 0)))) :pattern ((atVV ?o:SeqVV a?))))))

(contract MatrixMultiplyTemplate (args self right) (generic)
 (inv * (and (isS ?o:Any) (wf ?o:Any)))
 (inv * (= (sval q ?o:Any) (dot q self $i right $j #i)))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #j)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (dot q self $i right k? (cols self))))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? #i) (<= 0 b?) (< b? (cols right))) (and (isS (atA (atAA ?o:SeqAA a?) b?)) (wf (atA (atAA ?o:SeqAA a?) b?)) (= (sval q (atA (atAA ?o:SeqAA a?) b?)) (dot q self a? right b? (cols self))))) :pattern ((atA (atAA ?o:SeqAA a?) b?)))))
 (inv * (forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? #i)) (= (lenA (atAA ?o:SeqAA a?)) (cols right))) :pattern ((atAA ?o:SeqAA a?)))))
 (case mismatch (given (and (isM self) (isM right) (wf self) (wf right) (not (= (cols self) (rows right)))))
  (ensures * false))
 (case entries (given (and (isM self) (isM right) (wf self) (wf right) (= (cols self) (rows right))))
  (ensures * (isE result))
  (ensures * (wf result))
  (ensures * (= (rows result) (rows self)))
  (ensures * (= (cols result) (cols right)))
  (entry (C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C13 C14 C15 C16 C18 C19 C20 C21 C22 C23 C24 C25) true (dot q self i right j (cols self)))))

;  sums of products accumulated term by term
(contract Expression.Multiply
 (inv * (and (isS ?o:Any) (wf ?o:Any)))
 (inv * (= (sval q ?o:Any) (dot q self 0 right 0 #i)))
 (inv * (= (sval q ?o:Any) (dot q self $i right 0 #j)))
 (inv * (and (isE ?o:Any) (wf ?o:Any) (= (cols ?o:Any) 1) (or (one ?o:Any) (= (rows ?o:Any) (rows self)))))
 (inv * (=> (> #i 0) (= (rows ?o:Any) (rows self))))
 (inv * (=> (>= #i 0) (= (rows ?o:Any) (rows self))))
 (inv * (=> (= #i 0) (and (one ?o:Any) (= (at q ?o:Any 0 0) 0.0))))
 (inv * (=> (> #i 0) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows self))) (= (at q ?o:Any k? 0) (dot q self k? right 0 #i))) :pattern ((at q ?o:Any k? 0))))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows self))) (= (at q ?o:Any k? 0) (dot q self k? right 0 #i))) :pattern ((at q ?o:Any k? 0)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atV ?o:SeqV k?) (atV (atVV !s:SeqVV k?) $j))) :pattern ((atV ?o:SeqV k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (dot q self k? right 0 (cols self))))) :pattern ((atA ?o:SeqA k?))))))
(contract ConcretizeExpression (args s)
 (case scalar (domain s S) (given (wf s))
  (ensures * (isS result))
  (ensures * (wf result))
  (ensures * (= (sval q result) (sval q s)))))
(contract Expression.Multiply
 (inv * (and (isS (atA ?o:SeqA $i)) (wf (atA ?o:SeqA $i)) (= (sval q (atA ?o:SeqA $i)) (dot q self $i right 0 #j))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? $i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (dot q self k? right 0 (cols self))))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (<= ?i:Int (rows right)))
 (inv * (=> (> ?i:Int 0) (<= (cols self) (rows right))))
 (inv * (=> (>= ?i:Int 0) (<= (cols self) (rows right)))))
