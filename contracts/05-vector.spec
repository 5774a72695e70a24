; Vectors: sums, differences and scalings are elementwise.
(root C05
 (Expression.Plus entries (self V) (right S V N AVec APVec))
 (Expression.Plus entries (self S) (right V AVec APVec))
 (Expression.Minus entries (self V) (right S V N AVec APVec))
 (Expression.Minus entries (self S) (right V AVec APVec))
 (Expression.Multiply entries (self V) (right S N))
 (Expression.Multiply entries (self S) (right V AVec APVec)))

(contract Vector.ToScalarExpressions (args self)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (sval q (AK (atR !s:SeqR k?)))))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (sval q (AVar (atV !s:SeqV k?)))))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (sval q (AMono (atM !s:SeqM k?)))))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (sval q (APoly (atP !s:SeqP k?)))))) :pattern ((atA ?o:SeqA k?)))))
 (case list (given (wf self))
  (ensures * (= (lenA result) (rows self)))
  (ensures * (wfsS result))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (rows self))) (= (sval q (atA result k?)) (at q self k? 0))) :pattern ((atA result k?)) :pattern ((at q self k? 0)))))
  (nopanic * true)))

(contract ConcretizeVectorExpression (args s)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) ((_ is AK) (atA !s:SeqA k?))) ?b:Bool) :pattern ((atA !s:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) ((_ is AVar) (atA !s:SeqA k?))) ?b:Bool) :pattern ((atA !s:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) ((_ is AMono) (atA !s:SeqA k?))) ?b:Bool) :pattern ((atA !s:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) ((_ is APoly) (atA !s:SeqA k?))) ?b:Bool) :pattern ((atA !s:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i) ?b:Bool) ((_ is AVar) (atA !s:SeqA k?))) :pattern ((atA !s:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (AK (atR ?o:SeqR k?))) (wf (AK (atR ?o:SeqR k?))) (= (sval q (AK (atR ?o:SeqR k?))) (sval q (atA !s:SeqA k?))))) :pattern ((atR ?o:SeqR k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (wf (AVar (atV ?o:SeqV k?))) (= (sval q (AVar (atV ?o:SeqV k?))) (sval q (atA !s:SeqA k?))))) :pattern ((atV ?o:SeqV k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (wf (AMono (atM ?o:SeqM k?))) (= (sval q (AMono (atM ?o:SeqM k?))) (sval q (atA !s:SeqA k?))))) :pattern ((atM ?o:SeqM k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (wf (APoly (atP ?o:SeqP k?))) (= (sval q (APoly (atP ?o:SeqP k?))) (sval q (atA !s:SeqA k?))))) :pattern ((atP ?o:SeqP k?)))))
 (inv * (=> (not ?b:Bool) (exists ((k? Int)) (and (<= 0 k?) (< k? #i) (not ((_ is AVar) (atA !s:SeqA k?)))))))
 (case concrete (given (wfsS s))
  (ensures * (isV result))
  (ensures * (wf result))
  (ensures * (= (rows result) (lenA s)))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA s))) (= (at q result k? 0) (sval q (atA s k?)))) :pattern ((at q result k? 0)))))
  (nopanic * (> (lenA s) 0))))

(contract ConcretizeExpression (args s)
 (case vector (domain s ASlA) (given (wfsS (asla s)))
  (ensures * (isE result))
  (ensures * (or (isS result) (isV result)))
  (ensures * (wf result))
  (ensures * (= (rows result) (lenA (asla s))))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenA (asla s)))) (= (at q result k? 0) (sval q (atA (asla s) k?)))) :pattern ((at q result k? 0)))))
  (nopanic * (> (lenA (asla s)) 0))))

(contract Expression.AsSimplifiedExpression (args self)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (mval q (atM !s:SeqM k?))))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (sval q (APoly (atP !s:SeqP k?)))))) :pattern ((atA ?o:SeqA k?)))))
 (case entries (given (wf self))
  (ensures * (isE result))
  (ensures * (= (isS result) (isS self)))
  (ensures * (= (isV result) (isV self)))
  (ensures * (wf result))
  (ensures * (= (rows result) (rows self)))
  (ensures * (= (cols result) (cols self)))
  (entry * true (at q self i j))
  (nopanic * true)))

(contract PolynomialVector.Simplify (args self)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (sval q (APoly (atP !s:SeqP k?)))))) :pattern ((atA ?o:SeqA k?)))))
 (case entries (given (wf (APV self)))
  (ensures * (isV result))
  (ensures * (wf result))
  (ensures * (= (rows result) (lenP self)))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenP self))) (= (at q result k? 0) (sval q (APoly (atP self k?))))) :pattern ((at q result k? 0)))))
  (nopanic * true)))

(contract VecDenseToKVector (args s) (fresh)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) (atR !s:SeqR k?))) :pattern ((atR ?o:SeqR k?)))))
 (case copy
  (ensures * (= (lenR result) (lenR s)))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenR s))) (= (atR result k?) (atR s k?))) :pattern ((atR result k?)))))
  (nopanic * true)))

(contract OnesVector (args n) (fresh)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) 1.0)) :pattern ((atR ?o:SeqR k?)))))
 (case ones
  (ensures * (= (lenR result) n))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? n)) (= (atR result k?) 1.0)) :pattern ((atR result k?)))))
  (nopanic * (> n 0))))

(contract ZerosVector (args n) (fresh)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) 0.0)) :pattern ((atR ?o:SeqR k?)))))
 (case zeros
  (ensures * (= (lenR result) n))
  (ensures * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? n)) (= (atR result k?) 0.0)) :pattern ((atR result k?)))))
  (nopanic * (> n 0))))

(contract VectorPlusTemplate (args self right)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (+ (sval q (atA !s:SeqA k?)) (sval q !e:Any))))) :pattern ((atA ?o:SeqA k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (isS (atA ?o:SeqA k?)) (wf (atA ?o:SeqA k?)) (= (sval q (atA ?o:SeqA k?)) (+ (sval q (atA !s:SeqA k?)) (at q !e:Any k? 0))))) :pattern ((atA ?o:SeqA k?)))))
 (case matrix (domain self V) (domain right M)
  (ensures * false))
 (case entries (domain self V) (domain right S V) (given (and (wf self) (wf right) (or (one self) (one right) (and (= (rows self) (rows right)) (= (cols self) (cols right))))))
  (ensures * (isE result))
  (ensures * (or (isS result) (isV result)))
  (ensures * (wf result))
  (ensures * (= (rows result) (ite (one self) (rows right) (rows self))))
  (ensures * (= (cols result) 1))
  (entry (C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C13 C14 C15 C16 C18 C19 C20 C21 C22 C23 C24 C25) true (+ (bat q self i j) (bat q right i j)))))

(macro (pickrows a b) (ite (one a) (rows b) (rows a)))
(macro (pickcols a b) (ite (one a) (cols b) (cols a)))
(contract Expression.Plus (args self right)
 (case entries (domain right E N G) (given (and (wf self) (wf right) (not (and (isS self) (isSN right)))))
  (ensures (C05 C06 C12 C14 C17 C26) (isE result))
  (ensures (C05 C06 C12 C14 C17 C26) (wf result))
  (ensures (C05 C06 C12 C14 C17 C26) (= (rows result) (pickrows self right)))
  (ensures (C05 C06 C12 C14 C17 C26) (= (cols result) (pickcols self right)))
  (ensures (C05 C06 C12 C14 C17 C26) (=> (isV self) (or (isS result) (isV result))))
  (entry (C05 C06 C12 C14) true (+ (bat q self i j) (bat q right i j)))))

(contract Expression.Minus (args self right)
 (case entries (domain right E N G) (given (and (wf self) (wf right) (not (and (isS self) (isSN right)))))
  (ensures (C05 C06 C12 C14 C17 C26) (isE result))
  (ensures (C05 C06 C12 C14 C17 C26) (wf result))
  (ensures (C05 C06 C12 C14 C17 C26) (= (rows result) (pickrows self right)))
  (ensures (C05 C06 C12 C14 C17 C26) (= (cols result) (pickcols self right)))
  (entry (C05 C06 C12 C14) true (- (bat q self i j) (bat q right i j)))))

(contract Expression.Multiply (args self right)
 (case entries (domain right E N G) (given (and (wf self) (wf right) (not (and (isS self) (isSN right)))))
  (ensures (C05 C06 C12 C14 C17 C26) (isE result))
  (ensures (C05 C06 C12 C14 C17 C26) (wf result))
  (ensures (C05 C06 C12 C14 C17 C26) (= (rows result) (pickrows self right)))
  (ensures (C05 C06 C12 C14 C17 C26) (= (cols result) (ite (one right) (cols self) (cols right))))
  (entry (C05 C06 C12 C14) (or (one self) (one right)) (* (bat q self i j) (bat q right i j)))
  (entry (C05 C06 C12 C14) (not (or (one self) (one right))) (dot q self i right j (cols self)))))
