; Mathematical vocabulary of the contracts.  Directives starting with ";@" are expanded by
; vcgen (see vcgen/theory.go) into the boilerplate they name.
(declare-sort Val)   ; an assignment of real values to variable IDs
(declare-sort Str)
(declare-sort VMap)  ; a map from variables to expressions
(declare-sort VSet)  ; a set of variables (a map from variables to booleans, only ever true)
(declare-sort Dense) ; a gonum matrix
;@seqsort R I S V M P A C RR VV MM PP AA
(declare-datatypes ((Var 0) (Mono 0) (Poly 0) (SC 0) (Any 0)) (
 ((mkVar (vid Int) (vlo Real) (vup Real) (vty Int) (vname Str) (venv Any)))
 ((mkMono (mc Real) (mx SeqI) (mv SeqV)))
 ((mkPoly (pm SeqM)))
 ((mkSC (scl Any) (scr Any) (scs Int)))
 ((ANil) (AFloat (af Real)) (AInt (ai Int)) (AU64 (au Int)) (AStr (astr Str)) (ABool (abool Bool))
  (AK (ak Real)) (AVar (av Var)) (AMono (am Mono)) (APoly (ap Poly))
  (AKV (akv SeqR)) (AVV (avv SeqV)) (AMV (amv SeqM)) (APV (apv SeqP))
  (AKM (akm SeqRR)) (AVM (avm SeqVV)) (AMM (amm SeqMM)) (APM (apm SeqPP))
  (AVec (avec SeqR)) (APVec (apvec SeqR)) (ADen (aden Dense)) (APDen (apden Dense))
  (ASC (asc SC)) (AVC (avc SC)) (AMC (amc SC))
  (ASlV (aslv SeqV)) (ASlI (asli SeqI)) (ASlU (aslu SeqI)) (ASlS (asls SeqS)) (ASlF (aslf SeqR)) (ASlFF (aslff SeqRR)) (ASlA (asla SeqA)) (ASlAA (aslaa SeqAA))
  (AEnv (aenv Int)) (AOther (aoid Int)))
))
;@seq R Real
;@seq I Int
;@seq S Str
;@seq V Var
;@seq M Mono
;@seq P Poly
;@seq A Any
;@seq C SC
;@seq RR SeqR
;@seq VV SeqV
;@seq MM SeqM
;@seq PP SeqP
;@seq AA SeqA

; ---- machine level ----
(declare-const str_empty Str)
(declare-fun str_lit (Int) Str)
(declare-fun str_len (Str) Int)
(assert (forall ((s Str)) (! (>= (str_len s) 0) :pattern ((str_len s)))))
(define-fun trunc ((x Real)) Int (ite (>= x 0.0) (to_int x) (- (to_int (- x)))))
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun tmod ((a Int) (b Int)) Int (- a (* b (tdiv a b))))

; ---- assignments ----
(declare-const r Val)
(declare-const r0 Val)
(declare-fun val (Val Int) Real)
(assert (forall ((i Int)) (! (= (val r0 i) 0.0) :pattern ((val r0 i)))))
(declare-fun vsub (Val Int Real) Val)
(assert (forall ((q Val) (i Int) (x Real) (j Int)) (! (= (val (vsub q i x) j) (ite (= i j) x (val q j))) :pattern ((val (vsub q i x) j)))))

; ---- powers ----
(declare-fun pow (Real Int) Real)
(assert (forall ((x Real) (n Int)) (! (and (=> (= n 0) (= (pow x n) 1.0)) (=> (= n 1) (= (pow x n) x)) (=> (= n 2) (= (pow x n) (* x x)))) :pattern ((pow x n)))))
(assert (forall ((x Real) (n Int) (m Int)) (! (=> (and (= n (+ m 1)) (>= m 0)) (= (pow x n) (* (pow x m) x))) :pattern ((pow x n) (pow x m)))))

; ---- variable lists ----
(declare-fun cv (Int) Var) ; the variable carrying an ID
(define-fun chkV ((v Var)) Bool (< (vlo v) (vup v)))
(define-fun wfV ((v Var)) Bool (and (chkV v) (= v (cv (vid v))) (>= (vid v) 0)))
;@all wfsV V (wfV x)
;@all chksV V (chkV x)
(declare-fun memV (SeqV Int) Bool)
(declare-fun idxV (SeqV Int) Int)
(assert (forall ((s SeqV) (d Int)) (! (=> (memV s d) (and (<= 0 (idxV s d)) (< (idxV s d) (lenV s)) (= (vid (atV s (idxV s d))) d))) :pattern ((memV s d)))))
; lemma: the only member
;!lemma
(assert (forall ((s SeqV) (d Int)) (! (=> (and (memV s d) (= (lenV s) 1)) (= (vid (atV s 0)) d)) :pattern ((memV s d)))))
(assert (forall ((s SeqV) (d Int) (k Int)) (! (=> (and (<= 0 k) (< k (lenV s)) (= (vid (atV s k)) d)) (memV s d)) :pattern ((memV s d) (atV s k)))))
;!lemma
(assert (forall ((s SeqV) (x Var) (d Int)) (! (= (memV (snocV s x) d) (or (memV s d) (= (vid x) d))) :pattern ((memV (snocV s x) d)))))
;!lemma hint Var (atV (catV s! t!) (idxV s! d!)) hint Var (atV (catV s! t!) (+ (lenV s!) (idxV t! d!))) hint Bool (memV s! d!) hint Bool (memV t! d!)
(assert (forall ((s SeqV) (t SeqV) (d Int)) (! (= (memV (catV s t) d) (or (memV s d) (memV t d))) :pattern ((memV (catV s t) d)))))
(declare-fun distV (SeqV) Bool)
(declare-fun dist1 (SeqV) Int)
(declare-fun dist2 (SeqV) Int)
(assert (forall ((s SeqV) (j Int) (k Int)) (! (=> (and (distV s) (<= 0 j) (< j (lenV s)) (<= 0 k) (< k (lenV s)) (= (vid (atV s j)) (vid (atV s k)))) (= j k)) :pattern ((distV s) (atV s j) (atV s k)))))
(assert (forall ((s SeqV)) (! (or (distV s) (and (<= 0 (dist1 s)) (< (dist1 s) (dist2 s)) (< (dist2 s) (lenV s)) (= (vid (atV s (dist1 s))) (vid (atV s (dist2 s)))))) :pattern ((distV s)))))
;!lemma
(assert (forall ((s SeqV) (x Var)) (! (=> (and (distV s) (not (memV s (vid x)))) (distV (snocV s x))) :pattern ((distV (snocV s x))))))
; seen: true of everything; it only puts a term in reach of the quantifiers of an invariant
(declare-fun seenV (Var) Bool)
(assert (forall ((x Var)) (! (seenV x) :pattern ((seenV x)))))
(declare-fun seenM (Mono) Bool)
(assert (forall ((x Mono)) (! (seenM x) :pattern ((seenM x)))))
; subV s t: every ID of s occurs in t
(declare-fun subV (SeqV SeqV) Bool)
(declare-fun wsubV (SeqV SeqV) Int)
(assert (forall ((s SeqV) (t SeqV) (d Int)) (! (=> (and (subV s t) (memV s d)) (memV t d)) :pattern ((subV s t) (memV s d)) :pattern ((subV s t) (memV t d)))))
(assert (forall ((s SeqV) (t SeqV)) (! (or (subV s t) (and (memV s (wsubV s t)) (not (memV t (wsubV s t))))) :pattern ((subV s t)))))
; lemma (pigeonhole): distinct lists of one length, one included in the other
;!lemma rank 20 hint Bool (distV t!) hint Bool (subV s! t!)
(assert (forall ((s SeqV) (t SeqV)) (! (=> (and (subV s t) (distV s) (distV t) (= (lenV s) (lenV t))) (subV t s)) :pattern ((subV s t)))))

;@ex ocI I (= x d)
(declare-fun distI (SeqI) Bool)
(declare-fun distI1 (SeqI) Int)
(declare-fun distI2 (SeqI) Int)
(assert (forall ((s SeqI) (j Int) (k Int)) (! (=> (and (distI s) (<= 0 j) (< j (lenI s)) (<= 0 k) (< k (lenI s)) (= (atI s j) (atI s k))) (= j k)) :pattern ((distI s) (atI s j) (atI s k)))))
(assert (forall ((s SeqI)) (! (or (distI s) (and (<= 0 (distI1 s)) (< (distI1 s) (distI2 s)) (< (distI2 s) (lenI s)) (= (atI s (distI1 s)) (atI s (distI2 s))))) :pattern ((distI s)))))

; ---- monomials ----
;@all posI I (>= x 1)
(define-fun okX ((x SeqI) (v SeqV)) Bool (and (= (lenI x) (lenV v)) (distV v) (posI x)))
(define-fun chkM ((m Mono)) Bool (= (lenI (mx m)) (lenV (mv m))))
(define-fun wfM ((m Mono)) Bool (and (okX (mx m) (mv m)) (wfsV (mv m))))
;@all wfsM M (wfM x)
;@all chksM M (chkM x)
; product of the first n factors
(declare-fun pun (Val SeqI SeqV Int) Real)
(assert (forall ((q Val) (x SeqI) (v SeqV) (n Int)) (! (=> (= n 0) (= (pun q x v n) 1.0)) :pattern ((pun q x v n)))))
(assert (forall ((q Val) (x SeqI) (v SeqV) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenV v))) (= (pun q x v n) (* (pun q x v k) (pow (val q (vid (atV v k))) (atI x k))))) :pattern ((pun q x v n) (atV v k)))))
;!lemma induct n
(assert (forall ((q Val) (x SeqI) (v SeqV) (y Int) (w Var) (n Int)) (! (=> (= (lenI x) (lenV v)) (and (=> (and (<= 0 n) (<= n (lenV v))) (= (pun q (snocI x y) (snocV v w) n) (pun q x v n))) (=> (= n (+ (lenV v) 1)) (= (pun q (snocI x y) (snocV v w) n) (* (pun q x v (lenV v)) (pow (val q (vid w)) y)))))) :pattern ((pun q (snocI x y) (snocV v w) n)))))
(assert (forall ((q Val) (x SeqI) (v SeqV) (k Int) (y Int) (n Int)) (! (=> (and (= (lenI x) (lenV v)) (<= 0 k) (< k (lenV v)) (<= 0 n) (<= n (lenV v)) (<= 0 y) (<= 0 (atI x k)))
   (and (=> (>= k n) (= (pun q (updI x k y) v n) (pun q x v n)))
        (=> (and (< k n) (>= y (atI x k))) (= (pun q (updI x k y) v n) (* (pun q x v n) (pow (val q (vid (atV v k))) (- y (atI x k))))))
        (=> (and (< k n) (< y (atI x k))) (= (pun q x v n) (* (pun q (updI x k y) v n) (pow (val q (vid (atV v k))) (- (atI x k) y))))))) :pattern ((pun q (updI x k y) v n)))))
(define-fun unit ((q Val) (m Mono)) Real (pun q (mx m) (mv m) (lenV (mv m))))
; the zero assignment
;!lemma induct n hint Real (pow (val r0 (vid (atV v! prev!))) (- (atI x! prev!) 1))
(assert (forall ((x SeqI) (v SeqV) (n Int)) (! (=> (and (posI x) (= (lenI x) (lenV v)) (< 0 n) (<= n (lenV v))) (= (pun r0 x v n) 0.0)) :pattern ((pun r0 x v n)))))
; exponent of an ID among the first n factors
(declare-fun pexp (SeqI SeqV Int Int) Int)
(assert (forall ((x SeqI) (v SeqV) (n Int) (d Int)) (! (=> (= n 0) (= (pexp x v n d) 0)) :pattern ((pexp x v n d)))))
(assert (forall ((x SeqI) (v SeqV) (n Int) (d Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenV v))) (= (pexp x v n d) (+ (pexp x v k d) (ite (= (vid (atV v k)) d) (atI x k) 0)))) :pattern ((pexp x v n d) (atV v k)))))
;!lemma induct n
(assert (forall ((x SeqI) (v SeqV) (y Int) (w Var) (n Int) (d Int)) (! (=> (= (lenI x) (lenV v)) (and (=> (and (<= 0 n) (<= n (lenV v))) (= (pexp (snocI x y) (snocV v w) n d) (pexp x v n d))) (=> (= n (+ (lenV v) 1)) (= (pexp (snocI x y) (snocV v w) n d) (+ (pexp x v (lenV v) d) (ite (= (vid w) d) y 0)))))) :pattern ((pexp (snocI x y) (snocV v w) n d)))))
;!lemma induct n
(assert (forall ((x SeqI) (v SeqV) (n Int) (d Int)) (! (=> (and (distV v) (= (lenI x) (lenV v)) (<= 0 n) (<= n (lenV v))) (= (pexp x v n d) (ite (and (memV v d) (< (idxV v d) n)) (atI x (idxV v d)) 0))) :pattern ((pexp x v n d) (distV v)))))
;!lemma induct n
(assert (forall ((x SeqI) (v SeqV) (n Int) (d Int)) (! (=> (and (not (memV v d)) (<= 0 n) (<= n (lenV v))) (= (pexp x v n d) 0)) :pattern ((pexp x v n d)))))
;!lemma induct n
(assert (forall ((x SeqI) (v SeqV) (k Int) (y Int) (n Int) (d Int)) (! (=> (and (<= 0 k) (< k (lenI x)) (<= 0 n) (<= n (lenV v))) (= (pexp (updI x k y) v n d) (+ (pexp x v n d) (ite (and (< k n) (= (vid (atV v k)) d)) (- y (atI x k)) 0)))) :pattern ((pexp (updI x k y) v n d)))))
(define-fun mexp ((m Mono) (d Int)) Int (pexp (mx m) (mv m) (lenV (mv m)) d))
; degree
(declare-fun pdeg (SeqI Int) Int)
(assert (forall ((x SeqI) (n Int)) (! (=> (= n 0) (= (pdeg x n) 0)) :pattern ((pdeg x n)))))
(assert (forall ((x SeqI) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenI x))) (= (pdeg x n) (+ (pdeg x k) (atI x k)))) :pattern ((pdeg x n) (atI x k)))))
;!lemma induct n
(assert (forall ((x SeqI) (y Int) (n Int)) (! (and (=> (and (<= 0 n) (<= n (lenI x))) (= (pdeg (snocI x y) n) (pdeg x n))) (=> (= n (+ (lenI x) 1)) (= (pdeg (snocI x y) n) (+ (pdeg x (lenI x)) y)))) :pattern ((pdeg (snocI x y) n)))))
;!lemma induct n
(assert (forall ((x SeqI) (k Int) (y Int) (n Int)) (! (=> (and (<= 0 k) (< k (lenI x)) (<= 0 n) (<= n (lenI x))) (= (pdeg (updI x k y) n) (+ (pdeg x n) (ite (< k n) (- y (atI x k)) 0)))) :pattern ((pdeg (updI x k y) n)))))
;!lemma induct n
(assert (forall ((x SeqI) (n Int)) (! (=> (and (posI x) (<= 0 n) (<= n (lenI x))) (>= (pdeg x n) n)) :pattern ((pdeg x n)))))
;!lemma induct n
(assert (forall ((x SeqI) (n Int) (k Int)) (! (=> (and (posI x) (<= 0 k) (< k n) (<= n (lenI x))) (>= (pdeg x n) (+ (atI x k) (- n 1)))) :pattern ((pdeg x n) (atI x k)))))
(define-fun degM ((m Mono)) Int (pdeg (mx m) (lenI (mx m))))
; same powers of the same variables
(declare-fun same (SeqI SeqV SeqI SeqV) Bool)
(declare-fun wsame (SeqI SeqV SeqI SeqV) Int)
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (n Int) (d Int)) (! (=> (and (same x v y w) (= n (lenV v))) (= (pexp x v n d) (pexp y w (lenV w) d))) :pattern ((same x v y w) (pexp x v n d)))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (n Int) (d Int)) (! (=> (and (same x v y w) (= n (lenV w))) (= (pexp y w n d) (pexp x v (lenV v) d))) :pattern ((same x v y w) (pexp y w n d)))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV)) (! (or (same x v y w) (not (= (pexp x v (lenV v) (wsame x v y w)) (pexp y w (lenV w) (wsame x v y w))))) :pattern ((same x v y w)))))
;!lemma rank 20 hint Int (pdeg (left x! v! y! w!) (lenI x!))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV)) (! (=> (and (same x v y w) (okX x v) (okX y w)) (and (= (lenV v) (lenV w)) (= (pdeg x (lenI x)) (pdeg y (lenI y))))) :pattern ((same x v y w)))))
;!lemma rank 20
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (q Val) (n Int)) (! (=> (and (same x v y w) (okX x v) (okX y w) (= n (lenV v))) (= (pun q x v n) (pun q y w (lenV w)))) :pattern ((same x v y w) (pun q x v n)))))
;!lemma rank 20
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (q Val) (n Int)) (! (=> (and (same x v y w) (okX x v) (okX y w) (= n (lenV w))) (= (pun q y w n) (pun q x v (lenV v)))) :pattern ((same x v y w) (pun q y w n)))))
; lemma: equal powers mean the same variables with the same exponents ...
;!lemma hint Int (pexp x! v! (lenV v!) (vid (atV v! k!))) hint Int (pexp y! w! (lenV w!) (vid (atV v! k!)))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (k Int)) (! (=> (and (same x v y w) (okX x v) (okX y w) (<= 0 k) (< k (lenV v))) (and (memV w (vid (atV v k))) (= (atI x k) (atI y (idxV w (vid (atV v k))))))) :pattern ((same x v y w) (atV v k)))))
;!lemma hint Int (pexp x! v! (lenV v!) (vid (atV w! k!))) hint Int (pexp y! w! (lenV w!) (vid (atV w! k!)))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (k Int)) (! (=> (and (same x v y w) (okX x v) (okX y w) (<= 0 k) (< k (lenV w))) (and (memV v (vid (atV w k))) (= (atI y k) (atI x (idxV v (vid (atV w k))))))) :pattern ((same x v y w) (atV w k)))))
; ... and conversely (pigeonhole)
(declare-fun wmatch (SeqI SeqV SeqI SeqV) Int)
;!lemma rank 21 witness (wmatch x v y w) hint Bool (subV v! w!) hint Bool (subV w! v!) hint Bool (distV w!) hint Bool (memV w! (wsubV v! w!)) hint Bool (memV w! (wsame x! v! y! w!)) hint Bool (memV v! (wsame x! v! y! w!))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV)) (! (let ((k (wmatch x v y w))) (=> (and (okX x v) (okX y w) (= (lenV v) (lenV w))) (or (same x v y w) (and (<= 0 k) (< k (lenV v)) (or (not (memV w (vid (atV v k)))) (not (= (atI x k) (atI y (idxV w (vid (atV v k))))))))))) :pattern ((same x v y w)))))
(define-fun sameM ((a Mono) (b Mono)) Bool (same (mx a) (mv a) (mx b) (mv b)))
; exponents of the first list are the sums of those of the other two
(declare-fun addx (SeqI SeqV SeqI SeqV SeqI SeqV) Bool)
(declare-fun waddx (SeqI SeqV SeqI SeqV SeqI SeqV) Int)
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV)) (! (or (addx x v y w z u) (let ((d (waddx x v y w z u))) (not (= (pexp x v (lenV v) d) (+ (pexp y w (lenV w) d) (pexp z u (lenV u) d)))))) :pattern ((addx x v y w z u)))))
;!lemma rank 20 hint Real (pun q! (left x! v! y! w!) v! (lenV v!)) hint Real (pun q! (left2 x! v! y! w! z! u!) v! (lenV v!))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV) (q Val) (n Int)) (! (=> (and (addx x v y w z u) (okX x v) (okX y w) (okX z u) (= n (lenV w))) (= (pun q x v (lenV v)) (* (pun q y w n) (pun q z u (lenV u))))) :pattern ((addx x v y w z u) (pun q y w n)))))
;!lemma rank 20 hint Int (pdeg (left x! v! y! w!) (lenI x!)) hint Int (pdeg (left2 x! v! y! w! z! u!) (lenI (left x! v! y! w!)))  hint Int (pdeg (left2 x! v! y! w! z! u!) (lenI x!))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV)) (! (=> (and (addx x v y w z u) (okX x v) (okX y w) (okX z u)) (= (pdeg x (lenI x)) (+ (pdeg y (lenI y)) (pdeg z (lenI z))))) :pattern ((addx x v y w z u)))))
;!lemma hint Int (pexp x! v! (lenV v!) (vid (atV v! k!))) hint Int (pexp y! w! (lenV w!) (vid (atV v! k!))) hint Int (pexp z! u! (lenV u!) (vid (atV v! k!))) def (assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV) (d Int)) (! (=> (addx x v y w z u) (= (pexp x v (lenV v) d) (+ (pexp y w (lenV w) d) (pexp z u (lenV u) d)))) :pattern ((addx x v y w z u) (pexp x v (lenV v) d)))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV) (k Int)) (! (let ((d (vid (atV v k)))) (=> (and (addx x v y w z u) (distV v) (= (lenI x) (lenV v)) (<= 0 k) (< k (lenI x))) (and (= (pexp x v (lenV v) d) (atI x k)) (memV v d) (= (atI x k) (+ (pexp y w (lenV w) d) (pexp z u (lenV u) d)))))) :pattern ((addx x v y w z u) (atI x k)))))
(define-fun addM ((a Mono) (b Mono) (c Mono)) Bool (addx (mx a) (mv a) (mx b) (mv b) (mx c) (mv c)))
; the single variable d, to the first power
(define-fun isvar ((m Mono) (d Int)) Bool (and (= (lenV (mv m)) 1) (= (vid (atV (mv m) 0)) d) (= (atI (mx m) 0) 1)))
(define-fun mval ((q Val) (m Mono)) Real (* (mc m) (unit q m)))
; derivative of the product of factors
(declare-fun dun (Val SeqI SeqV Int) Real)
(assert (forall ((q Val) (x SeqI) (v SeqV) (d Int)) (! (=> (and (distV v) (= (lenI x) (lenV v))) (ite (memV v d) (= (dun q x v d) (* (to_real (atI x (idxV v d))) (pun q (updI x (idxV v d) (- (atI x (idxV v d)) 1)) v (lenV v)))) (= (dun q x v d) 0.0))) :pattern ((dun q x v d)))))
(define-fun dmval ((q Val) (m Mono) (d Int)) Real (* (mc m) (dun q (mx m) (mv m) d)))

; ---- polynomials ----
(declare-fun psum (Val SeqM Int) Real)
(assert (forall ((q Val) (s SeqM) (n Int)) (! (=> (= n 0) (= (psum q s n) 0.0)) :pattern ((psum q s n)))))
(assert (forall ((q Val) (s SeqM) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenM s))) (= (psum q s n) (+ (psum q s k) (mval q (atM s k))))) :pattern ((psum q s n) (atM s k)))))
;!lemma induct n
(assert (forall ((q Val) (s SeqM) (x Mono) (n Int)) (! (and (=> (and (<= 0 n) (<= n (lenM s))) (= (psum q (snocM s x) n) (psum q s n))) (=> (= n (+ (lenM s) 1)) (= (psum q (snocM s x) n) (+ (psum q s (lenM s)) (mval q x))))) :pattern ((psum q (snocM s x) n)))))
;!lemma induct n
(assert (forall ((q Val) (s SeqM) (k Int) (x Mono) (n Int)) (! (=> (and (<= 0 k) (< k (lenM s)) (<= 0 n) (<= n (lenM s))) (= (psum q (updM s k x) n) (ite (< k n) (+ (- (psum q s n) (mval q (atM s k))) (mval q x)) (psum q s n)))) :pattern ((psum q (updM s k x) n)))))
;!lemma rank 20 hint Real (psum q! (catM s! t!) (lenM s!)) hint Real (psum q! t! (lenM t!))
(assert (forall ((q Val) (s SeqM) (t SeqM) (n Int)) (! (=> (= n (+ (lenM s) (lenM t))) (= (psum q (catM s t) n) (+ (psum q s (lenM s)) (psum q t (lenM t))))) :pattern ((psum q (catM s t) n)))))
(define-fun tot ((q Val) (s SeqM)) Real (psum q s (lenM s)))
(define-fun chkP ((p Poly)) Bool (and (> (lenM (pm p)) 0) (chksM (pm p))))
(define-fun wfP ((p Poly)) Bool (and (> (lenM (pm p)) 0) (wfsM (pm p))))
;@all wfsP P (wfP x)
;@all chksP P (chkP x)
(declare-fun pdsum (Val SeqM Int Int) Real)
(assert (forall ((q Val) (s SeqM) (n Int) (d Int)) (! (=> (= n 0) (= (pdsum q s n d) 0.0)) :pattern ((pdsum q s n d)))))
(assert (forall ((q Val) (s SeqM) (n Int) (d Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenM s))) (= (pdsum q s n d) (+ (pdsum q s k d) (dmval q (atM s k) d)))) :pattern ((pdsum q s n d) (atM s k)))))
;!lemma induct n
(assert (forall ((q Val) (s SeqM) (x Mono) (n Int) (d Int)) (! (and (=> (and (<= 0 n) (<= n (lenM s))) (= (pdsum q (snocM s x) n d) (pdsum q s n d))) (=> (= n (+ (lenM s) 1)) (= (pdsum q (snocM s x) n d) (+ (pdsum q s (lenM s) d) (dmval q x d))))) :pattern ((pdsum q (snocM s x) n d)))))
(declare-fun pmax (SeqM Int) Int)
(declare-fun wpmax (SeqM Int) Int)
;!lemma induct n witness (wpmax s n) def (assert (forall ((s SeqM) (n Int)) (! (=> (<= n 0) (= (pmax s n) 0)) :pattern ((pmax s n)))))
(assert (forall ((s SeqM) (n Int)) (! (=> (and (> (pmax s n) 0) (<= n (lenM s))) (let ((k (wpmax s n))) (and (<= 0 k) (< k n) (= (pmax s n) (degM (atM s k)))))) :pattern ((pmax s n)))))
(assert (forall ((s SeqM) (n Int)) (! (and (=> (= n 0) (= (pmax s n) 0)) (>= (pmax s n) 0)) :pattern ((pmax s n)))))
(assert (forall ((s SeqM) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenM s))) (= (pmax s n) (ite (> (degM (atM s k)) (pmax s k)) (degM (atM s k)) (pmax s k)))) :pattern ((pmax s n) (atM s k)))))
;!lemma induct n
(assert (forall ((s SeqM) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (<= n (lenM s))) (>= (pmax s n) (degM (atM s k)))) :pattern ((pmax s n) (atM s k)))))
;!lemma induct n
(assert (forall ((s SeqM) (x Mono) (n Int)) (! (and (=> (and (<= 0 n) (<= n (lenM s))) (= (pmax (snocM s x) n) (pmax s n))) (=> (= n (+ (lenM s) 1)) (= (pmax (snocM s x) n) (ite (> (degM x) (pmax s (lenM s))) (degM x) (pmax s (lenM s)))))) :pattern ((pmax (snocM s x) n)))))
; no two like terms
(declare-fun nolike (SeqM) Bool)
(declare-fun nolike1 (SeqM) Int)
(declare-fun nolike2 (SeqM) Int)
(assert (forall ((s SeqM) (j Int) (k Int)) (! (=> (and (nolike s) (<= 0 j) (< j (lenM s)) (<= 0 k) (< k (lenM s)) (sameM (atM s j) (atM s k))) (= j k)) :pattern ((nolike s) (atM s j) (atM s k)))))
(assert (forall ((s SeqM)) (! (or (nolike s) (and (<= 0 (nolike1 s)) (< (nolike1 s) (nolike2 s)) (< (nolike2 s) (lenM s)) (sameM (atM s (nolike1 s)) (atM s (nolike2 s))))) :pattern ((nolike s)))))

; the variables that occur: (ocX s n d) says that ID d occurs in one of the first n elements
;@ex ocM M (memV (mv x) d)
;@ex ocP P (ocM (pm x) (lenM (pm x)) d)
;@ex ocVV VV (memV x d)
;@ex ocMM MM (ocM x (lenM x) d)
;@ex ocPP PP (ocP x (lenP x) d)
(declare-fun occ (Any Int) Bool)
(assert (forall ((x Real) (d Int)) (! (not (occ (AK x) d)) :pattern ((occ (AK x) d)))))
(assert (forall ((x SeqR) (d Int)) (! (not (occ (AKV x) d)) :pattern ((occ (AKV x) d)))))
(assert (forall ((x SeqRR) (d Int)) (! (not (occ (AKM x) d)) :pattern ((occ (AKM x) d)))))
(assert (forall ((x Var) (d Int)) (! (= (occ (AVar x) d) (= d (vid x))) :pattern ((occ (AVar x) d)))))
(assert (forall ((x Mono) (d Int)) (! (= (occ (AMono x) d) (memV (mv x) d)) :pattern ((occ (AMono x) d)))))
(assert (forall ((x Poly) (d Int)) (! (= (occ (APoly x) d) (ocM (pm x) (lenM (pm x)) d)) :pattern ((occ (APoly x) d)))))
(assert (forall ((x SeqV) (d Int)) (! (= (occ (AVV x) d) (memV x d)) :pattern ((occ (AVV x) d)))))
(assert (forall ((x SeqM) (d Int)) (! (= (occ (AMV x) d) (ocM x (lenM x) d)) :pattern ((occ (AMV x) d)))))
(assert (forall ((x SeqP) (d Int)) (! (= (occ (APV x) d) (ocP x (lenP x) d)) :pattern ((occ (APV x) d)))))
(assert (forall ((x SeqVV) (d Int)) (! (= (occ (AVM x) d) (ocVV x (lenVV x) d)) :pattern ((occ (AVM x) d)))))
(assert (forall ((x SeqMM) (d Int)) (! (= (occ (AMM x) d) (ocMM x (lenMM x) d)) :pattern ((occ (AMM x) d)))))
(assert (forall ((x SeqPP) (d Int)) (! (= (occ (APM x) d) (ocPP x (lenPP x) d)) :pattern ((occ (APM x) d)))))
;@all ncM M (> (lenV (mv x)) 0)
;@all cstM M (= (lenV (mv x)) 0)
;@all nzM M (not (= (mc x) 0.0))
; lemmas: the value at zero
;!lemma induct n
(assert (forall ((s SeqM) (n Int)) (! (=> (and (wfsM s) (ncM s) (<= 0 n) (<= n (lenM s))) (= (psum r0 s n) 0.0)) :pattern ((psum r0 s n)))))
;!lemma rank 20
(assert (forall ((s SeqM) (n Int) (k Int)) (! (=> (and (wfsM s) (nolike s) (= n (lenM s)) (<= 0 k) (< k n) (= (lenV (mv (atM s k))) 0)) (= (psum r0 s n) (mc (atM s k)))) :pattern ((psum r0 s n) (atM s k)))))
;!lemma induct n
(assert (forall ((q Val) (s SeqM) (n Int) (m Int)) (! (=> (and (wfsM s) (= (pmax s m) 0) (= m (lenM s)) (<= 0 n) (<= n m)) (= (psum q s n) (psum r0 s n))) :pattern ((pmax s m) (psum q s n)))))
; ---- expressions ----
(declare-fun sval (Val Any) Real)
(assert (forall ((q Val) (x Real)) (! (= (sval q (AK x)) x) :pattern ((sval q (AK x))))))
(assert (forall ((q Val) (x Real)) (! (= (sval q (AFloat x)) x) :pattern ((sval q (AFloat x))))))
(assert (forall ((q Val) (x Int)) (! (= (sval q (AInt x)) (to_real x)) :pattern ((sval q (AInt x))))))
(assert (forall ((q Val) (v Var)) (! (= (sval q (AVar v)) (val q (vid v))) :pattern ((sval q (AVar v))))))
(assert (forall ((q Val) (m Mono)) (! (= (sval q (AMono m)) (mval q m)) :pattern ((sval q (AMono m))))))
(assert (forall ((q Val) (p Poly)) (! (= (sval q (APoly p)) (tot q (pm p))) :pattern ((sval q (APoly p))))))
(define-fun isS ((e Any)) Bool (or ((_ is AK) e) ((_ is AVar) e) ((_ is AMono) e) ((_ is APoly) e)))
(define-fun isN ((e Any)) Bool (or ((_ is AFloat) e) ((_ is AInt) e)))
(define-fun isSN ((e Any)) Bool (or (isS e) (isN e)))
(define-fun isV ((e Any)) Bool (or ((_ is AKV) e) ((_ is AVV) e) ((_ is AMV) e) ((_ is APV) e)))
(define-fun isM ((e Any)) Bool (or ((_ is AKM) e) ((_ is AVM) e) ((_ is AMM) e) ((_ is APM) e)))
(define-fun isE ((e Any)) Bool (or (isS e) (isV e) (isM e)))
; what IsExpression accepts
(define-fun isX ((e Any)) Bool (or (isE e) ((_ is AFloat) e) ((_ is AVec) e) ((_ is APVec) e) ((_ is ADen) e) ((_ is APDen) e)))
(define-fun isVX ((e Any)) Bool (or (isV e) ((_ is AVec) e) ((_ is APVec) e)))
(define-fun isMX ((e Any)) Bool (or (isM e) ((_ is ADen) e) ((_ is APDen) e)))

(declare-fun drows (Dense) Int)
(declare-fun dcols (Dense) Int)
(declare-fun dat (Dense Int Int) Real)
(assert (forall ((d Dense)) (! (>= (drows d) 0) :pattern ((drows d)))))
(assert (forall ((d Dense)) (! (>= (dcols d) 0) :pattern ((dcols d)))))

(declare-fun rows (Any) Int)
(declare-fun cols (Any) Int)
(assert (forall ((e Any)) (! (=> (isSN e) (= (rows e) 1)) :pattern ((rows e)))))
(assert (forall ((e Any)) (! (=> (or (isSN e) (isVX e)) (= (cols e) 1)) :pattern ((cols e)))))
(assert (forall ((s SeqR)) (! (= (rows (AKV s)) (lenR s)) :pattern ((rows (AKV s))))))
(assert (forall ((s SeqV)) (! (= (rows (AVV s)) (lenV s)) :pattern ((rows (AVV s))))))
(assert (forall ((s SeqM)) (! (= (rows (AMV s)) (lenM s)) :pattern ((rows (AMV s))))))
(assert (forall ((s SeqP)) (! (= (rows (APV s)) (lenP s)) :pattern ((rows (APV s))))))
(assert (forall ((s SeqR)) (! (= (rows (AVec s)) (lenR s)) :pattern ((rows (AVec s))))))
(assert (forall ((s SeqR)) (! (= (rows (APVec s)) (lenR s)) :pattern ((rows (APVec s))))))
(assert (forall ((s SeqRR)) (! (= (rows (AKM s)) (lenRR s)) :pattern ((rows (AKM s))))))
(assert (forall ((s SeqVV)) (! (= (rows (AVM s)) (lenVV s)) :pattern ((rows (AVM s))))))
(assert (forall ((s SeqMM)) (! (= (rows (AMM s)) (lenMM s)) :pattern ((rows (AMM s))))))
(assert (forall ((s SeqPP)) (! (= (rows (APM s)) (lenPP s)) :pattern ((rows (APM s))))))
(assert (forall ((s SeqRR)) (! (= (cols (AKM s)) (lenR (atRR s 0))) :pattern ((cols (AKM s))))))
(assert (forall ((s SeqVV)) (! (= (cols (AVM s)) (lenV (atVV s 0))) :pattern ((cols (AVM s))))))
(assert (forall ((s SeqMM)) (! (= (cols (AMM s)) (lenM (atMM s 0))) :pattern ((cols (AMM s))))))
(assert (forall ((s SeqPP)) (! (= (cols (APM s)) (lenP (atPP s 0))) :pattern ((cols (APM s))))))
(assert (forall ((d Dense)) (! (= (rows (ADen d)) (drows d)) :pattern ((rows (ADen d))))))
(assert (forall ((d Dense)) (! (= (cols (ADen d)) (dcols d)) :pattern ((cols (ADen d))))))
(assert (forall ((d Dense)) (! (= (rows (APDen d)) (drows d)) :pattern ((rows (APDen d))))))
(assert (forall ((d Dense)) (! (= (cols (APDen d)) (dcols d)) :pattern ((cols (APDen d))))))
(define-fun one ((e Any)) Bool (and (= (rows e) 1) (= (cols e) 1)))

; entry (i,j) as an expression
(declare-fun ent (Any Int Int) Any)
(assert (forall ((e Any) (i Int) (j Int)) (! (=> (isS e) (= (ent e i j) e)) :pattern ((ent e i j)))))
(assert (forall ((s SeqR) (i Int) (j Int)) (! (= (ent (AKV s) i j) (AK (atR s i))) :pattern ((ent (AKV s) i j)))))
(assert (forall ((s SeqV) (i Int) (j Int)) (! (= (ent (AVV s) i j) (AVar (atV s i))) :pattern ((ent (AVV s) i j)))))
(assert (forall ((s SeqM) (i Int) (j Int)) (! (= (ent (AMV s) i j) (AMono (atM s i))) :pattern ((ent (AMV s) i j)))))
(assert (forall ((s SeqP) (i Int) (j Int)) (! (= (ent (APV s) i j) (APoly (atP s i))) :pattern ((ent (APV s) i j)))))
(assert (forall ((s SeqRR) (i Int) (j Int)) (! (= (ent (AKM s) i j) (AK (atR (atRR s i) j))) :pattern ((ent (AKM s) i j)))))
(assert (forall ((s SeqVV) (i Int) (j Int)) (! (= (ent (AVM s) i j) (AVar (atV (atVV s i) j))) :pattern ((ent (AVM s) i j)))))
(assert (forall ((s SeqMM) (i Int) (j Int)) (! (= (ent (AMM s) i j) (AMono (atM (atMM s i) j))) :pattern ((ent (AMM s) i j)))))
(assert (forall ((s SeqPP) (i Int) (j Int)) (! (= (ent (APM s) i j) (APoly (atP (atPP s i) j))) :pattern ((ent (APM s) i j)))))
; value of entry (i,j)
(declare-fun at (Val Any Int Int) Real)
(assert (forall ((q Val) (e Any) (i Int) (j Int)) (! (=> (isE e) (= (at q e i j) (sval q (ent e i j)))) :pattern ((at q e i j)))))
(assert (forall ((q Val) (e Any) (i Int) (j Int)) (! (=> (isN e) (= (at q e i j) (sval q e))) :pattern ((at q e i j)))))
(assert (forall ((q Val) (s SeqR) (i Int) (j Int)) (! (= (at q (AVec s) i j) (atR s i)) :pattern ((at q (AVec s) i j)))))
(assert (forall ((q Val) (s SeqR) (i Int) (j Int)) (! (= (at q (APVec s) i j) (atR s i)) :pattern ((at q (APVec s) i j)))))
(assert (forall ((q Val) (s Dense) (i Int) (j Int)) (! (= (at q (ADen s) i j) (dat s i j)) :pattern ((at q (ADen s) i j)))))
(assert (forall ((q Val) (s Dense) (i Int) (j Int)) (! (= (at q (APDen s) i j) (dat s i j)) :pattern ((at q (APDen s) i j)))))
; entry with a 1 x 1 operand standing for every entry
(define-fun bat ((q Val) (e Any) (i Int) (j Int)) Real (ite (one e) (at q e 0 0) (at q e i j)))
(define-fun inb ((e Any) (i Int) (j Int)) Bool (and (<= 0 i) (< i (rows e)) (<= 0 j) (< j (cols e))))

; rectangular, non-empty matrices
;@all2 R true
;@all2 V (wfV x)
;@all2 M (wfM x)
;@all2 P (wfP x)
; dot product of row i of the first with column j of the second operand, first n terms
(declare-fun dot (Val Any Int Any Int Int) Real)
(assert (forall ((q Val) (a Any) (i Int) (b Any) (j Int) (n Int)) (! (=> (= n 0) (= (dot q a i b j n) 0.0)) :pattern ((dot q a i b j n)))))
; lemma: one term
;!lemma hint Real (dot q! a! i! b! j! 0)
(assert (forall ((q Val) (a Any) (i Int) (b Any) (j Int) (n Int)) (! (=> (= n 1) (= (dot q a i b j n) (* (at q a i 0) (at q b 0 j)))) :pattern ((dot q a i b j n)))))
(assert (forall ((q Val) (a Any) (i Int) (b Any) (j Int) (n Int) (m Int)) (! (=> (and (= n (+ m 1)) (<= 0 m)) (= (dot q a i b j n) (+ (dot q a i b j m) (* (at q a i m) (at q b m j))))) :pattern ((dot q a i b j n) (dot q a i b j m)))))
; well-formed operands
(declare-fun wf (Any) Bool)
(assert (forall ((x Real)) (! (wf (AK x)) :pattern ((wf (AK x))))))
(assert (forall ((x Real)) (! (wf (AFloat x)) :pattern ((wf (AFloat x))))))
(assert (forall ((x Int)) (! (wf (AInt x)) :pattern ((wf (AInt x))))))
(assert (forall ((x Var)) (! (= (wf (AVar x)) (wfV x)) :pattern ((wf (AVar x))))))
(assert (forall ((x Mono)) (! (= (wf (AMono x)) (wfM x)) :pattern ((wf (AMono x))))))
(assert (forall ((x Poly)) (! (= (wf (APoly x)) (wfP x)) :pattern ((wf (APoly x))))))
(assert (forall ((x SeqR)) (! (= (wf (AKV x)) (> (lenR x) 0)) :pattern ((wf (AKV x))))))
(assert (forall ((x SeqR)) (! (= (wf (AVec x)) (> (lenR x) 0)) :pattern ((wf (AVec x))))))
(assert (forall ((x SeqR)) (! (= (wf (APVec x)) (> (lenR x) 0)) :pattern ((wf (APVec x))))))
(assert (forall ((x Dense)) (! (= (wf (ADen x)) (and (> (drows x) 0) (> (dcols x) 0))) :pattern ((wf (ADen x))))))
(assert (forall ((x Dense)) (! (= (wf (APDen x)) (and (> (drows x) 0) (> (dcols x) 0))) :pattern ((wf (APDen x))))))
(assert (forall ((x SeqV)) (! (= (wf (AVV x)) (and (> (lenV x) 0) (wfsV x))) :pattern ((wf (AVV x))))))
(assert (forall ((x SeqM)) (! (= (wf (AMV x)) (and (> (lenM x) 0) (wfsM x))) :pattern ((wf (AMV x))))))
(assert (forall ((x SeqP)) (! (= (wf (APV x)) (and (> (lenP x) 0) (wfsP x))) :pattern ((wf (APV x))))))
(assert (forall ((x SeqRR)) (! (= (wf (AKM x)) (rect2R x)) :pattern ((wf (AKM x))))))
(assert (forall ((x SeqVV)) (! (= (wf (AVM x)) (and (rect2V x) (wf2V x))) :pattern ((wf (AVM x))))))
(assert (forall ((x SeqMM)) (! (= (wf (AMM x)) (and (rect2M x) (wf2M x))) :pattern ((wf (AMM x))))))
(assert (forall ((x SeqPP)) (! (= (wf (APM x)) (and (rect2P x) (wf2P x))) :pattern ((wf (APM x))))))

; what Check accepts
;@chk2 R true
;@chk2 V (chkV x)
;@chk2 M (chkM x)
;@chk2 P (chkP x)
(declare-fun chk (Any) Bool)
(assert (forall ((x Real)) (! (chk (AK x)) :pattern ((chk (AK x))))))
(assert (forall ((x Var)) (! (= (chk (AVar x)) (chkV x)) :pattern ((chk (AVar x))))))
(assert (forall ((x Mono)) (! (= (chk (AMono x)) (chkM x)) :pattern ((chk (AMono x))))))
(assert (forall ((x Poly)) (! (= (chk (APoly x)) (chkP x)) :pattern ((chk (APoly x))))))
(assert (forall ((x SeqR)) (! (chk (AKV x)) :pattern ((chk (AKV x))))))
(assert (forall ((x SeqV)) (! (= (chk (AVV x)) (chksV x)) :pattern ((chk (AVV x))))))
(assert (forall ((x SeqM)) (! (= (chk (AMV x)) (and (> (lenM x) 0) (chksM x))) :pattern ((chk (AMV x))))))
(assert (forall ((x SeqP)) (! (= (chk (APV x)) (and (> (lenP x) 0) (chksP x))) :pattern ((chk (APV x))))))
(assert (forall ((x SeqRR)) (! (= (chk (AKM x)) (recmR x)) :pattern ((chk (AKM x))))))
(assert (forall ((x SeqVV)) (! (= (chk (AVM x)) (and (recmV x) (chk2V x))) :pattern ((chk (AVM x))))))
(assert (forall ((x SeqMM)) (! (= (chk (AMM x)) (and (recmM x) (chk2M x))) :pattern ((chk (AMM x))))))
(assert (forall ((x SeqPP)) (! (= (chk (APM x)) (and (recmP x) (chk2P x))) :pattern ((chk (APM x))))))
; lemma
;!lemma
(assert (forall ((e Any)) (! (=> (and (isE e) (wf e)) (chk e)) :pattern ((chk e)))))

; ---- gonum ----
(declare-const dempty Dense)
(assert (and (= (drows dempty) 0) (= (dcols dempty) 0)))
(declare-fun dzero (Int Int) Dense)
(assert (forall ((r Int) (c Int)) (! (=> (and (> r 0) (> c 0)) (and (= (drows (dzero r c)) r) (= (dcols (dzero r c)) c))) :pattern ((dzero r c)))))
(assert (forall ((r Int) (c Int) (i Int) (j Int)) (! (= (dat (dzero r c) i j) 0.0) :pattern ((dat (dzero r c) i j)))))
(declare-fun dmake (Int Int SeqR) Dense)
(assert (forall ((r Int) (c Int) (s SeqR)) (! (=> (and (> r 0) (> c 0)) (and (= (drows (dmake r c s)) r) (= (dcols (dmake r c s)) c))) :pattern ((dmake r c s)))))
(assert (forall ((r Int) (c Int) (s SeqR) (i Int) (j Int)) (! (= (dat (dmake r c s) i j) (atR s (+ (* i c) j))) :pattern ((dat (dmake r c s) i j)))))
; lemma: the index of an entry in the row-major list is in range
;!lemma
(assert (forall ((r Int) (c Int) (s SeqR) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i r) (<= 0 j) (< j c)) (and (<= 0 (+ (* i c) j)) (< (+ (* i c) j) (* r c)))) :pattern ((dat (dmake r c s) i j)))))
(declare-fun dset (Dense Int Int Real) Dense)
(assert (forall ((d Dense) (i Int) (j Int) (x Real)) (! (and (= (drows (dset d i j x)) (drows d)) (= (dcols (dset d i j x)) (dcols d))) :pattern ((dset d i j x)))))
(assert (forall ((d Dense) (i Int) (j Int) (x Real) (a Int) (b Int)) (! (= (dat (dset d i j x) a b) (ite (and (= a i) (= b j)) x (dat d a b))) :pattern ((dat (dset d i j x) a b)))))
(declare-fun dscale (Real Dense) Dense)
(assert (forall ((x Real) (d Dense)) (! (and (= (drows (dscale x d)) (drows d)) (= (dcols (dscale x d)) (dcols d))) :pattern ((dscale x d)))))
(assert (forall ((x Real) (d Dense) (i Int) (j Int)) (! (= (dat (dscale x d) i j) (* x (dat d i j))) :pattern ((dat (dscale x d) i j)))))
(declare-fun dadd (Dense Dense) Dense)
(assert (forall ((a Dense) (d Dense)) (! (and (= (drows (dadd a d)) (drows a)) (= (dcols (dadd a d)) (dcols a))) :pattern ((dadd a d)))))
(assert (forall ((a Dense) (d Dense) (i Int) (j Int)) (! (= (dat (dadd a d) i j) (+ (dat a i j) (dat d i j))) :pattern ((dat (dadd a d) i j)))))
(declare-fun dsub (Dense Dense) Dense)
(assert (forall ((a Dense) (d Dense)) (! (and (= (drows (dsub a d)) (drows a)) (= (dcols (dsub a d)) (dcols a))) :pattern ((dsub a d)))))
(assert (forall ((a Dense) (d Dense) (i Int) (j Int)) (! (= (dat (dsub a d) i j) (- (dat a i j) (dat d i j))) :pattern ((dat (dsub a d) i j)))))
(declare-fun dT (Dense) Dense)
(assert (forall ((d Dense)) (! (and (= (drows (dT d)) (dcols d)) (= (dcols (dT d)) (drows d))) :pattern ((dT d)))))
(assert (forall ((d Dense) (i Int) (j Int)) (! (= (dat (dT d) i j) (dat d j i)) :pattern ((dat (dT d) i j)))))
(declare-fun dcol (Dense Int) SeqR)
(assert (forall ((d Dense) (j Int)) (! (= (lenR (dcol d j)) (drows d)) :pattern ((dcol d j)))))
(assert (forall ((d Dense) (j Int) (i Int)) (! (= (atR (dcol d j) i) (dat d i j)) :pattern ((atR (dcol d j) i)))))
(declare-fun dmul (Dense Dense) Dense)
(assert (forall ((a Dense) (d Dense)) (! (and (= (drows (dmul a d)) (drows a)) (= (dcols (dmul a d)) (dcols d))) :pattern ((dmul a d)))))
(assert (forall ((a Dense) (d Dense) (i Int) (j Int)) (! (= (dat (dmul a d) i j) (dot r0 (ADen a) i (ADen d) j (dcols a))) :pattern ((dat (dmul a d) i j)))))
(declare-fun dmulv (Dense SeqR) SeqR)
(assert (forall ((a Dense) (v SeqR)) (! (= (lenR (dmulv a v)) (drows a)) :pattern ((dmulv a v)))))
(assert (forall ((a Dense) (v SeqR) (i Int)) (! (= (atR (dmulv a v) i) (dot r0 (ADen a) i (AVec v) 0 (dcols a))) :pattern ((atR (dmulv a v) i)))))
; lemma: sums of products with equal columns are equal (kdif2 names a differing term)
(declare-fun kdif2 (Val Any Int Any Any Int Int) Int)
;!lemma induct n witness (kdif2 q a i b c j n) hint Real (dot q! a! i! b! j! n!) hint Real (dot q! a! i! c! j! n!) def (assert (forall ((q Val) (a Any) (i Int) (b Any) (j Int) (n Int)) (! (=> (<= n 0) (= (dot q a i b j n) 0.0)) :pattern ((dot q a i b j n)))))
(assert (forall ((q Val) (a Any) (i Int) (b Any) (c Any) (j Int) (n Int)) (! (let ((k (kdif2 q a i b c j n))) (=> (=> (and (<= 0 k) (< k n)) (= (at q b k j) (at q c k j))) (= (dot q a i b j n) (dot q a i c j n)))) :pattern ((dot q a i b j n) (dot q a i c j n)))))
; lemma: sums of products of equal entries are equal (kdiff names a differing term)
(declare-fun kdiff (Val Any Any Any Any Int Int Int) Int)
;!lemma induct n witness (kdiff q (ADen a) (ADen b) x y i j n) hint Real (dot r0 (ADen a!) i! (ADen b!) j! n!) hint Real (dot q! x! i! y! j! n!) def (assert (forall ((q Val) (a Any) (i Int) (b Any) (j Int) (n Int)) (! (=> (<= n 0) (= (dot q a i b j n) 0.0)) :pattern ((dot q a i b j n)))))
(assert (forall ((q Val) (a Dense) (b Dense) (x Any) (y Any) (i Int) (j Int) (n Int)) (! (let ((k (kdiff q (ADen a) (ADen b) x y i j n))) (=> (=> (and (<= 0 k) (< k n)) (and (= (dat a i k) (at q x i k)) (= (dat b k j) (at q y k j)))) (= (dot r0 (ADen a) i (ADen b) j n) (dot q x i y j n)))) :pattern ((dot r0 (ADen a) i (ADen b) j n) (dot q x i y j n)))))
;!lemma induct n witness (kdiff q (ADen a) (AVec b) x y i j n) def (assert (forall ((q Val) (a Any) (i Int) (b Any) (j Int) (n Int)) (! (=> (<= n 0) (= (dot q a i b j n) 0.0)) :pattern ((dot q a i b j n)))))
(assert (forall ((q Val) (a Dense) (b SeqR) (x Any) (y Any) (i Int) (j Int) (n Int)) (! (let ((k (kdiff q (ADen a) (AVec b) x y i j n))) (=> (=> (and (<= 0 k) (< k n)) (and (= (dat a i k) (at q x i k)) (= (atR b k) (at q y k j)))) (= (dot r0 (ADen a) i (AVec b) 0 n) (dot q x i y j n)))) :pattern ((dot r0 (ADen a) i (AVec b) 0 n) (dot q x i y j n)))))
(declare-fun scaleR (Real SeqR) SeqR)
(assert (forall ((x Real) (s SeqR)) (! (= (lenR (scaleR x s)) (lenR s)) :pattern ((scaleR x s)))))
(assert (forall ((x Real) (s SeqR) (i Int)) (! (= (atR (scaleR x s) i) (* x (atR s i))) :pattern ((atR (scaleR x s) i)))))
(declare-fun addR (SeqR SeqR) SeqR)
(assert (forall ((a SeqR) (b SeqR)) (! (= (lenR (addR a b)) (lenR a)) :pattern ((addR a b)))))
(assert (forall ((a SeqR) (b SeqR) (i Int)) (! (= (atR (addR a b) i) (+ (atR a i) (atR b i))) :pattern ((atR (addR a b) i)))))
(declare-fun subtR (SeqR SeqR) SeqR)
(assert (forall ((a SeqR) (b SeqR)) (! (= (lenR (subtR a b)) (lenR a)) :pattern ((subtR a b)))))
(assert (forall ((a SeqR) (b SeqR) (i Int)) (! (= (atR (subtR a b) i) (- (atR a i) (atR b i))) :pattern ((atR (subtR a b) i)))))

; ---- maps ----
(declare-fun mhas (VMap Var) Bool)
(declare-fun mget (VMap Var) Any)
(declare-fun mput (VMap Var Any) VMap)
(declare-fun mlen (VMap) Int)
(declare-const emptyVMap VMap)
(declare-fun isnilVMap (VMap) Bool)
(assert (forall ((m VMap)) (! (>= (mlen m) 0) :pattern ((mlen m)))))
(assert (forall ((v Var)) (! (not (mhas emptyVMap v)) :pattern ((mhas emptyVMap v)))))
(assert (forall ((m VMap) (v Var) (x Any) (w Var)) (! (= (mhas (mput m v x) w) (or (= v w) (mhas m w))) :pattern ((mhas (mput m v x) w)))))
(assert (forall ((m VMap) (v Var) (x Any) (w Var)) (! (= (mget (mput m v x) w) (ite (= v w) x (mget m w))) :pattern ((mget (mput m v x) w)))))
(assert (forall ((m VMap) (v Var)) (! (or (mhas m v) (= (mget m v) ANil)) :pattern ((mget m v)))))
(declare-fun keysOfVMap (VMap SeqV) Bool) ; an enumeration of the keys, each once
(declare-fun kidx (SeqV Var) Int)
(assert (forall ((m VMap) (s SeqV) (v Var)) (! (=> (and (keysOfVMap m s) (mhas m v)) (and (<= 0 (kidx s v)) (< (kidx s v) (lenV s)) (= (atV s (kidx s v)) v))) :pattern ((keysOfVMap m s) (mhas m v)))))
(assert (forall ((m VMap) (s SeqV) (k Int)) (! (=> (and (keysOfVMap m s) (<= 0 k) (< k (lenV s))) (and (mhas m (atV s k)) (= (kidx s (atV s k)) k))) :pattern ((keysOfVMap m s) (atV s k)))))
(declare-fun shas (VSet Var) Bool)
(declare-fun sput (VSet Var) VSet)
(declare-fun slen (VSet) Int)
(declare-const emptyVSet VSet)
(assert (forall ((v Var)) (! (not (shas emptyVSet v)) :pattern ((shas emptyVSet v)))))
(assert (forall ((m VSet)) (! (>= (slen m) 0) :pattern ((slen m)))))
(assert (forall ((m VSet) (v Var) (w Var)) (! (= (shas (sput m v) w) (or (= v w) (shas m w))) :pattern ((shas (sput m v) w)))))
(declare-fun keysOfVSet (VSet SeqV) Bool)
(assert (forall ((m VSet) (s SeqV) (v Var)) (! (=> (and (keysOfVSet m s) (shas m v)) (and (<= 0 (kidx s v)) (< (kidx s v) (lenV s)) (= (atV s (kidx s v)) v))) :pattern ((keysOfVSet m s) (shas m v)))))
(assert (forall ((m VSet) (s SeqV) (k Int)) (! (=> (and (keysOfVSet m s) (<= 0 k) (< k (lenV s))) (and (shas m (atV s k)) (= (kidx s (atV s k)) k))) :pattern ((keysOfVSet m s) (atV s k)))))
; sets of identifiers, and maps from identifiers to integers
(declare-sort ISet)
(declare-fun ihas (ISet Int) Bool)
(declare-fun iput (ISet Int) ISet)
(declare-fun lenISet (ISet) Int)
(declare-const emptyISet ISet)
(assert (forall ((d Int)) (! (not (ihas emptyISet d)) :pattern ((ihas emptyISet d)))))
(assert (forall ((m ISet) (d Int) (e Int)) (! (= (ihas (iput m d) e) (or (= d e) (ihas m e))) :pattern ((ihas (iput m d) e)))))
(declare-sort IMap)
(declare-fun imhas (IMap Int) Bool)
(declare-fun imget (IMap Int) Int)
(declare-fun imput (IMap Int Int) IMap)
(declare-fun lenIMap (IMap) Int)
(declare-const emptyIMap IMap)
(assert (forall ((d Int)) (! (not (imhas emptyIMap d)) :pattern ((imhas emptyIMap d)))))
(assert (forall ((m IMap) (d Int) (x Int) (e Int)) (! (= (imhas (imput m d x) e) (or (= d e) (imhas m e))) :pattern ((imhas (imput m d x) e)))))
(assert (forall ((m IMap) (d Int) (x Int) (e Int)) (! (= (imget (imput m d x) e) (ite (= d e) x (imget m e))) :pattern ((imget (imput m d x) e)))))
(assert (forall ((m IMap) (d Int)) (! (or (imhas m d) (= (imget m d) 0)) :pattern ((imget m d)))))

; ---- lists of expressions ----
;@all wfsS A (and (isS x) (wf x))
;@all allS A (isS x)
;@alen RR VV MM PP AA
;@all2 A (and (isS x) (wf x))
; entries of a list of rows
(define-fun aaval ((q Val) (s SeqAA) (i Int) (j Int)) Real (sval q (atA (atAA s i) j)))

; ---- simplified expressions: polynomials without like or zero terms ----
(define-fun simpP ((p Poly)) Bool (and (nolike (pm p)) (or (nzM (pm p)) (= (lenM (pm p)) 1))))
(define-fun simpA ((e Any)) Bool (=> ((_ is APoly) e) (simpP (ap e))))
;@all simpsP P (simpP x)
;@all simpS A (simpA x)
;@all simpsPP PP (simpsP x)
;@all simpSS AA (simpS x)
(define-fun simp ((e Any)) Bool (and (simpA e) (=> ((_ is APV) e) (simpsP (apv e))) (=> ((_ is APM) e) (simpsPP (apm e)))))

; ---- degree ----
(define-fun degP ((p Poly)) Int (pmax (pm p) (lenM (pm p))))
;@max mxP P (degP x)
;@max mxMM MM (pmax x (lenM x))
;@max mxPP PP (mxP x (lenP x))
(define-fun imax ((a Int) (b Int)) Int (ite (> a b) a b))
(declare-fun deg (Any) Int)
(assert (forall ((x Real)) (! (= (deg (AK x)) 0) :pattern ((deg (AK x))))))
(assert (forall ((x Var)) (! (= (deg (AVar x)) 1) :pattern ((deg (AVar x))))))
(assert (forall ((x Mono)) (! (= (deg (AMono x)) (degM x)) :pattern ((deg (AMono x))))))
(assert (forall ((x Poly)) (! (= (deg (APoly x)) (degP x)) :pattern ((deg (APoly x))))))
(assert (forall ((x SeqR)) (! (= (deg (AKV x)) 0) :pattern ((deg (AKV x))))))
(assert (forall ((x Real)) (! (= (deg (AFloat x)) 0) :pattern ((deg (AFloat x))))))
(assert (forall ((x SeqR)) (! (= (deg (AVec x)) 0) :pattern ((deg (AVec x))))))
(assert (forall ((x SeqR)) (! (= (deg (APVec x)) 0) :pattern ((deg (APVec x))))))
(assert (forall ((x Dense)) (! (= (deg (ADen x)) 0) :pattern ((deg (ADen x))))))
(assert (forall ((x Dense)) (! (= (deg (APDen x)) 0) :pattern ((deg (APDen x))))))
(assert (forall ((x SeqV)) (! (= (deg (AVV x)) 1) :pattern ((deg (AVV x))))))
(assert (forall ((x SeqM)) (! (= (deg (AMV x)) (pmax x (lenM x))) :pattern ((deg (AMV x))))))
(assert (forall ((x SeqP)) (! (= (deg (APV x)) (mxP x (lenP x))) :pattern ((deg (APV x))))))
(assert (forall ((x SeqRR)) (! (= (deg (AKM x)) 0) :pattern ((deg (AKM x))))))
(assert (forall ((x SeqVV)) (! (= (deg (AVM x)) 1) :pattern ((deg (AVM x))))))
(assert (forall ((x SeqMM)) (! (= (deg (AMM x)) (mxMM x (lenMM x))) :pattern ((deg (AMM x))))))
(assert (forall ((x SeqPP)) (! (= (deg (APM x)) (mxPP x (lenPP x))) :pattern ((deg (APM x))))))

; ---- constants ----
(define-fun isK ((e Any)) Bool ((_ is AK) e))
;@all ksS A (isK x)
;@all ksSS AA (ksS x)
; ---- constraints ----
(declare-fun cl (Any) Any)
(declare-fun cr (Any) Any)
(declare-fun cs (Any) Int)
(define-fun isC ((c Any)) Bool (or ((_ is ASC) c) ((_ is AVC) c) ((_ is AMC) c)))
(assert (forall ((s SC)) (! (= (cl (ASC s)) (scl s)) :pattern ((ASC s)))))
(assert (forall ((s SC)) (! (= (cr (ASC s)) (scr s)) :pattern ((ASC s)))))
(assert (forall ((s SC)) (! (= (cs (ASC s)) (scs s)) :pattern ((ASC s)))))
(assert (forall ((s SC)) (! (= (cl (AVC s)) (scl s)) :pattern ((AVC s)))))
(assert (forall ((s SC)) (! (= (cr (AVC s)) (scr s)) :pattern ((AVC s)))))
(assert (forall ((s SC)) (! (= (cs (AVC s)) (scs s)) :pattern ((AVC s)))))
(assert (forall ((s SC)) (! (= (cl (AMC s)) (scl s)) :pattern ((AMC s)))))
(assert (forall ((s SC)) (! (= (cr (AMC s)) (scr s)) :pattern ((AMC s)))))
(assert (forall ((s SC)) (! (= (cs (AMC s)) (scs s)) :pattern ((AMC s)))))
(define-fun senseOK ((s Int)) Bool (or (= s 60) (= s 61) (= s 62)))
; what the types of a constraint's sides say
(define-fun kindC ((c Any)) Bool (and (isC c) (=> ((_ is ASC) c) (and (isS (cl c)) (isS (cr c)))) (=> ((_ is AVC) c) (and (isV (cl c)) (isV (cr c)))) (=> ((_ is AMC) c) (and (isM (cl c)) (isM (cr c))))))
(define-fun chkC ((c Any)) Bool (and (chk (cl c)) (chk (cr c)) (senseOK (cs c)) (= (rows (cl c)) (rows (cr c))) (= (cols (cl c)) (cols (cr c)))))
(define-fun wfC ((c Any)) Bool (and (kindC c) (wf (cl c)) (wf (cr c)) (senseOK (cs c)) (= (rows (cl c)) (rows (cr c))) (= (cols (cl c)) (cols (cr c)))))
; the assignments that satisfy entry (i,j) of a constraint
(define-fun rel ((s Int) (x Real) (y Real)) Bool (ite (= s 60) (<= x y) (ite (= s 62) (>= x y) (= x y))))
(define-fun holdsAt ((q Val) (c Any) (i Int) (j Int)) Bool (rel (cs c) (at q (cl c) i j) (at q (cr c) i j)))
; lemma: the number of distinct variables
(declare-fun nvars (Any) Int)
(declare-fun wnv (SeqV Any) Int)
;!lemma rank 20 witness (wnv s e) hint Bool (subV s! (vs e!)) hint Bool (subV (vs e!) s!) hint Int (nvars e!)
(assert (forall ((s SeqV) (e Any)) (! (=> (and (distV s) (= (memV s (wnv s e)) (occ e (wnv s e)))) (= (nvars e) (lenV s))) :pattern ((distV s) (nvars e)))))

; ---- linear coefficients ----
; the coefficient of variable d among the first n terms of s
(declare-fun lsum (SeqM Int Int) Real)
(declare-fun wls (SeqM Int Int) Int)
(define-fun lcM ((m Mono) (d Int)) Real (ite (isvar m d) (mc m) 0.0))
(assert (forall ((s SeqM) (n Int) (d Int)) (! (=> (<= n 0) (= (lsum s n d) 0.0)) :pattern ((lsum s n d)))))
(assert (forall ((s SeqM) (n Int) (d Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenM s))) (= (lsum s n d) (+ (lsum s k d) (lcM (atM s k) d)))) :pattern ((lsum s n d) (lsum s k d)))))
; lemmas
;!lemma rank 2 induct n hint Real (lsum s! prev! d!)
(assert (forall ((s SeqM) (n Int) (d Int) (k Int)) (! (=> (and (nolike s) (<= 0 k) (< k n) (<= n (lenM s)) (isvar (atM s k) d)) (= (lsum s n d) (mc (atM s k)))) :pattern ((lsum s n d) (atM s k)))))
;!lemma induct n witness (wls s n d)
(assert (forall ((s SeqM) (n Int) (d Int)) (! (=> (<= n (lenM s)) (or (= (lsum s n d) 0.0) (let ((k (wls s n d))) (and (<= 0 k) (< k n) (isvar (atM s k) d))))) :pattern ((lsum s n d)))))
(declare-fun lcoS (Any Int) Real)
(assert (forall ((x Real) (d Int)) (! (= (lcoS (AK x) d) 0.0) :pattern ((lcoS (AK x) d)))))
(assert (forall ((x Var) (d Int)) (! (= (lcoS (AVar x) d) (ite (= (vid x) d) 1.0 0.0)) :pattern ((lcoS (AVar x) d)))))
(assert (forall ((x Mono) (d Int)) (! (= (lcoS (AMono x) d) (lcM x d)) :pattern ((lcoS (AMono x) d)))))
(assert (forall ((x Poly) (d Int)) (! (= (lcoS (APoly x) d) (lsum (pm x) (lenM (pm x)) d)) :pattern ((lcoS (APoly x) d)))))
; the sum of coefficient times variable over the first n variables of w
(declare-fun ldot (Val Any SeqV Int) Real)
(assert (forall ((q Val) (e Any) (w SeqV) (n Int)) (! (=> (<= n 0) (= (ldot q e w n) 0.0)) :pattern ((ldot q e w n)))))
(declare-fun wlin (Any SeqV) Int)
; lemma: a linear scalar is its constant plus its coefficients times the variables
;!lemma rank 20 witness (wlin e w) inst (wcovE e! w!) hint Bool (covE e! w!) hint Real (ldot q! e! w! n!) hint Real (sval q! e!)
(assert (forall ((q Val) (e Any) (w SeqV) (n Int)) (! (=> (and (isS e) (wf e) (<= (deg e) 1) (distV w) (= n (lenV w)) (=> (occ e (wlin e w)) (memV w (wlin e w)))) (= (sval q e) (+ (sval r0 e) (ldot q e w n)))) :pattern ((ldot q e w n)))))
; lemmas: entries of a well-formed expression
;!lemma
(assert (forall ((e Any) (i Int) (j Int)) (! (=> (and (isE e) (wf e) (inb e i j)) (wf (ent e i j))) :pattern ((wf (ent e i j))))))
;!lemma
(assert (forall ((e Any) (i Int) (j Int)) (! (=> (and (isE e) (wf e) (inb e i j)) (<= (deg (ent e i j)) (deg e))) :pattern ((deg (ent e i j))))))
;!lemma
(assert (forall ((e Any) (i Int) (j Int) (d Int)) (! (=> (and (isE e) (wf e) (inb e i j) (occ (ent e i j) d)) (occ e d)) :pattern ((occ (ent e i j) d)))))
; the assignment that is one at variable d and zero elsewhere
(declare-fun unit (Int) Val)
(assert (forall ((d Int) (k Int)) (! (= (val (unit d) k) (ite (= d k) 1.0 0.0)) :pattern ((val (unit d) k)))))
; the sum over the first n variables of w of (value of e at unit minus value of e at zero) times the variable
(declare-fun edot (Val Any SeqV Int) Real)
; the sum over the first n variables of w of coefficient times variable, for a vector and for a row of a matrix
(declare-fun vdot (Val SeqR SeqV Int) Real)
(declare-fun rdot (Val Dense Int SeqV Int) Real)
(declare-fun wlin2 (Any SeqV) Int)
; lemma: a linear scalar is its constant plus its coefficients times the variables
;!lemma rank 20 witness (wlin2 e w) inst (wcovE e! w!) hint Bool (covE e! w!) hint Real (edot q! e! w! n!) hint Real (ldot q! e! w! n!) hint Real (sval q! e!)
(assert (forall ((q Val) (e Any) (a SeqR) (w SeqV) (n Int)) (! (=> (and (isS e) (wf e) (<= (deg e) 1) (distV w) (= n (lenV w)) (=> (occ e (wlin2 e w)) (memV w (wlin2 e w)))) (= (sval q e) (+ (sval r0 e) (edot q e w n)))) :pattern ((vdot q a w n) (sval q e)))))
;!lemma rank 20 witness (wlin2 e w) inst (wcovE e! w!) hint Bool (covE e! w!) hint Real (edot q! e! w! n!) hint Real (ldot q! e! w! n!) hint Real (sval q! e!)
(assert (forall ((q Val) (e Any) (a Dense) (i Int) (w SeqV) (n Int)) (! (=> (and (isS e) (wf e) (<= (deg e) 1) (distV w) (= n (lenV w)) (=> (occ e (wlin2 e w)) (memV w (wlin2 e w)))) (= (sval q e) (+ (sval r0 e) (edot q e w n)))) :pattern ((rdot q a i w n) (sval q e)))))
; lemma: the coefficient in a linear scalar is the difference of its values at unit and zero
;!lemma rank 20 hint Real (sval (unit d!) e!)
(assert (forall ((e Any) (d Int)) (! (=> (and (isS e) (wf e) (<= (deg e) 1)) (= (lcoS e d) (- (sval (unit d) e) (sval r0 e)))) :pattern ((lcoS e d)))))
; lemmas: sums whose coefficients are the differences (or the negated differences) of those of two scalars
(declare-fun wvd (SeqR SeqV Any Any) Int)
(declare-fun wvn (SeqR SeqV Any Any) Int)
(declare-fun wrd (Dense Int SeqV Any Any) Int)
(declare-fun wrn (Dense Int SeqV Any Any) Int)
(define-fun ulc ((e Any) (d Int)) Real (- (sval (unit d) e) (sval r0 e)))
(assert (forall ((q Val) (a SeqR) (w SeqV) (n Int) (e Any) (f Any)) (! (=> (and (= n (lenV w)) (=> (and (<= 0 (wvd a w e f)) (< (wvd a w e f) n)) (= (atR a (wvd a w e f)) (- (ulc e (vid (atV w (wvd a w e f)))) (ulc f (vid (atV w (wvd a w e f)))))))) (= (vdot q a w n) (- (edot q e w n) (edot q f w n)))) :pattern ((vdot q a w n) (edot q e w n) (edot q f w n)))))
(assert (forall ((q Val) (a SeqR) (w SeqV) (n Int) (e Any) (f Any)) (! (=> (and (= n (lenV w)) (=> (and (<= 0 (wvn a w e f)) (< (wvn a w e f) n)) (= (- (atR a (wvn a w e f))) (- (ulc e (vid (atV w (wvn a w e f)))) (ulc f (vid (atV w (wvn a w e f)))))))) (= (- (vdot q a w n)) (- (edot q e w n) (edot q f w n)))) :pattern ((vdot q a w n) (edot q e w n) (edot q f w n)))))
(assert (forall ((q Val) (a Dense) (i Int) (w SeqV) (n Int) (e Any) (f Any)) (! (=> (and (= n (lenV w)) (=> (and (<= 0 (wrd a i w e f)) (< (wrd a i w e f) n)) (= (dat a i (wrd a i w e f)) (- (ulc e (vid (atV w (wrd a i w e f)))) (ulc f (vid (atV w (wrd a i w e f)))))))) (= (rdot q a i w n) (- (edot q e w n) (edot q f w n)))) :pattern ((rdot q a i w n) (edot q e w n) (edot q f w n)))))
(assert (forall ((q Val) (a Dense) (i Int) (w SeqV) (n Int) (e Any) (f Any)) (! (=> (and (= n (lenV w)) (=> (and (<= 0 (wrn a i w e f)) (< (wrn a i w e f) n)) (= (- (dat a i (wrn a i w e f))) (- (ulc e (vid (atV w (wrn a i w e f)))) (ulc f (vid (atV w (wrn a i w e f)))))))) (= (- (rdot q a i w n)) (- (edot q e w n) (edot q f w n)))) :pattern ((rdot q a i w n) (edot q e w n) (edot q f w n)))))
; the entries of constraints, counted in order: of i rows of length c, of the first n constraints, before entry (i,j) of constraint k
(declare-fun rc (Int Int) Int)
(declare-fun off (SeqA Int) Int)
(declare-fun pos (SeqA Int Int Int) Int)
(assert (forall ((n Int) (c Int)) (! (=> (<= n 0) (= (rc n c) 0)) :pattern ((rc n c)))))
(assert (forall ((n Int) (c Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k)) (= (rc n c) (+ (rc k c) c))) :pattern ((rc n c) (rc k c)))))
(define-fun cntC ((c Any)) Int (ite ((_ is ASC) c) 1 (rc (rows (cl c)) (cols (cl c)))))
(assert (forall ((a SeqA) (n Int)) (! (=> (<= n 0) (= (off a n) 0)) :pattern ((off a n)))))
(assert (forall ((a SeqA) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k)) (= (off a n) (+ (off a k) (cntC (atA a k))))) :pattern ((off a n) (off a k)))))
(assert (forall ((a SeqA) (k Int) (i Int) (j Int)) (! (= (pos a k i j) (+ (off a k) (+ (rc i (cols (cl (atA a k)))) j))) :pattern ((pos a k i j)))))
; lemmas: distinct entries are at distinct places, before the entries of later constraints
(define-fun inC ((a SeqA) (k Int) (i Int) (j Int)) Bool (and (<= 0 k) (< k (lenA a)) (wfC (atA a k)) (inb (cl (atA a k)) i j)))
;!lemma rank 20 hint Int (rc i! (cols (cl (atA a! k!)))) hint Int (rc (rows (cl (atA a! k!))) (cols (cl (atA a! k!)))) hint Int (rc i2! (cols (cl (atA a! k2!)))) hint Int (rc (rows (cl (atA a! k2!))) (cols (cl (atA a! k2!)))) hint Int (off a! k!) hint Int (off a! k2!)
(assert (forall ((a SeqA) (k Int) (i Int) (j Int) (k2 Int) (i2 Int) (j2 Int)) (! (=> (and (inC a k i j) (inC a k2 i2 j2) (= (pos a k i j) (pos a k2 i2 j2))) (and (= k k2) (= i i2) (= j j2))) :pattern ((pos a k i j) (pos a k2 i2 j2)))))
;!lemma rank 20
(assert (forall ((a SeqA) (k Int) (i Int) (j Int)) (! (=> (inC a k i j) (<= 0 (pos a k i j))) :pattern ((pos a k i j)))))
;!lemma rank 20 hint Int (rc (rows (cl (atA a! k!))) (cols (cl (atA a! k!))))
(assert (forall ((a SeqA) (k Int) (i Int) (j Int) (n Int)) (! (=> (and (inC a k i j) (< k n)) (and (<= 0 (pos a k i j)) (< (pos a k i j) (off a n)))) :pattern ((pos a k i j) (off a n)))))
; no term with variables has coefficient zero
(define-fun tidyM ((m Mono)) Bool (or (not (= (mc m) 0.0)) (= (lenV (mv m)) 0)))
;@all tidM M (tidyM x)
(define-fun tidy ((e Any)) Bool (and (=> ((_ is AMono) e) (tidyM (am e))) (=> ((_ is APoly) e) (tidM (pm (ap e))))))
; every variable is a candidate (a mark for the instantiation of existential claims)
(declare-fun cand (Int) Bool)
(assert (forall ((d Int)) (! (cand d) :pattern ((cand d)))))
; lemma: only variables that occur have coefficients
;!lemma def (assert (forall ((e Any) (d Int)) (! (or (isS e) (= (lcoS e d) 0.0)) :pattern ((lcoS e d)))))
(assert (forall ((e Any) (d Int)) (! (=> (not (= (lcoS e d) 0.0)) (occ e d)) :pattern ((lcoS e d)))))
; lemma: a linear scalar in one variable
(declare-fun wocc (Any Int) Int)
(assert (forall ((q Val) (e Any) (d Int)) (! (=> (and (isS e) (wf e) (<= (deg e) 1) (=> (occ e (wocc e d)) (= (wocc e d) d))) (and (cand d) (= (sval q e) (+ (sval r0 e) (* (lcoS e d) (val q d)))))) :pattern ((lcoS e d) (sval q e)))))
; lemma: the coefficients of a tidy linear scalar are not zero
(assert (forall ((e Any) (d Int)) (! (=> (and (isS e) (wf e) (<= (deg e) 1) (tidy e) (simp e) (occ e d)) (not (= (lcoS e d) 0.0))) :pattern ((lcoS e d)))))
; lemma: arithmetic of scaling c v + x0 by 1/c
(declare-fun scal (Real Real Real Real Real) Bool)
;!lemma rank 20 hint Bool (scal c! f! v! x! y!)
(assert (forall ((c Real) (f Real) (v Real) (x Real) (y Real)) (! (and (scal c f v x y) (=> (and (= (* c f) 1.0) (= x (+ y (* c v)))) (= (* f x) (+ (* f y) v)))) :pattern ((scal c f v x y)))))
; the number of variables of a constraint
(declare-fun nvarsC (Any) Int)
(declare-fun wnc (SeqV Any) Int)
(declare-fun count (SeqV Any) Bool)
;!lemma rank 20 witness (wnc s c) hint Bool (count s! c!) hint Bool (subV s! (vsC c!)) hint Bool (subV (vsC c!) s!) hint Int (nvarsC c!)
(assert (forall ((s SeqV) (c Any)) (! (and (count s c) (=> (and (distV s) (= (memV s (wnc s c)) (or (occ (cl c) (wnc s c)) (occ (cr c) (wnc s c))))) (= (nvarsC c) (lenV s)))) :pattern ((count s c)))))
; a variable of a constraint, if there is one
(declare-fun onlyC (Any) Int)
(define-fun occC ((c Any) (d Int)) Bool (or (occ (cl c) d) (occ (cr c) d)))
(assert (forall ((s SeqV) (c Any)) (! (=> (and (count s c) (< 0 (lenV s)) (occC c (vid (atV s 0)))) (occC c (onlyC c))) :pattern ((count s c)))))
;@max mxA A (deg x)
; functions of which only is known that they are functions of their arguments
(declare-fun det.Expression.Variables (Any) SeqV)
(declare-fun det.Vector.Constant (Any) SeqR)
(declare-fun det.Matrix.Constant (Any) Dense)
(declare-fun det.Scalar.Constant (Any) Real)

; where block n of a horizontal or vertical stack begins
(declare-fun hoff (SeqA Int) Int)
(assert (forall ((s SeqA) (n Int)) (! (=> (= n 0) (= (hoff s n) 0)) :pattern ((hoff s n)))))
(assert (forall ((s SeqA) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenA s))) (= (hoff s n) (+ (hoff s k) (ite (< (cols (atA s k)) 0) 0 (cols (atA s k)))))) :pattern ((hoff s n) (hoff s k)) :pattern ((hoff s n) (atA s k)))))
;!lemma induct n
(assert (forall ((s SeqA) (k Int) (n Int)) (! (=> (and (<= 0 k) (< k n) (<= n (lenA s))) (<= (+ (hoff s k) (ite (< (cols (atA s k)) 0) 0 (cols (atA s k)))) (hoff s n))) :pattern ((hoff s k) (hoff s n)))))
;!lemma induct k
(assert (forall ((s SeqA) (k Int)) (! (=> (and (<= 0 k) (<= k (lenA s))) (<= 0 (hoff s k))) :pattern ((hoff s k)))))
(declare-fun voff (SeqA Int) Int)
(assert (forall ((s SeqA) (n Int)) (! (=> (= n 0) (= (voff s n) 0)) :pattern ((voff s n)))))
(assert (forall ((s SeqA) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k) (< k (lenA s))) (= (voff s n) (+ (voff s k) (ite (< (rows (atA s k)) 0) 0 (rows (atA s k)))))) :pattern ((voff s n) (voff s k)) :pattern ((voff s n) (atA s k)))))
;!lemma induct n
(assert (forall ((s SeqA) (k Int) (n Int)) (! (=> (and (<= 0 k) (< k n) (<= n (lenA s))) (<= (+ (voff s k) (ite (< (rows (atA s k)) 0) 0 (rows (atA s k)))) (voff s n))) :pattern ((voff s k) (voff s n)))))
;!lemma induct k
(assert (forall ((s SeqA) (k Int)) (! (=> (and (<= 0 k) (<= k (lenA s))) (<= 0 (voff s k))) :pattern ((voff s k)))))
;!lemma hint Int (hoff s! 0)
(assert (forall ((s SeqA) (n Int)) (! (=> (and (< 0 n) (<= n (lenA s))) (<= (cols (atA s 0)) (hoff s n))) :pattern ((hoff s n)))))
;!lemma hint Int (voff s! 0)
(assert (forall ((s SeqA) (n Int)) (! (=> (and (< 0 n) (<= n (lenA s))) (<= (rows (atA s 0)) (voff s n))) :pattern ((voff s n)))))

; the partial derivative of a scalar expression with respect to the variable with ID d
(declare-fun dval (Val Any Int) Real)
(assert (forall ((q Val) (x Real) (d Int)) (! (= (dval q (AK x) d) 0.0) :pattern ((dval q (AK x) d)))))
(assert (forall ((q Val) (v Var) (d Int)) (! (= (dval q (AVar v) d) (ite (= (vid v) d) 1.0 0.0)) :pattern ((dval q (AVar v) d)))))
(assert (forall ((q Val) (m Mono) (d Int)) (! (= (dval q (AMono m) d) (dmval q m d)) :pattern ((dval q (AMono m) d)))))
(assert (forall ((q Val) (p Poly) (d Int)) (! (= (dval q (APoly p) d) (pdsum q (pm p) (lenM (pm p)) d)) :pattern ((dval q (APoly p) d)))))
(declare-fun det.Monomial.DerivativeWrt (Mono Var) Any)

; entry (i,j) of the n-th power of a matrix, and the partial sums of its product with the matrix
(declare-fun mpow (Val Any Int Int Int) Real)
(declare-fun mdot (Val Any Int Int Int Int) Real)
(declare-fun mdif (Val Any Any Int Int Int Int) Int)
(assert (forall ((q Val) (e Any) (n Int) (i Int) (j Int)) (! (=> (= n 0) (= (mpow q e n i j) (ite (= i j) 1.0 0.0))) :pattern ((mpow q e n i j)))))
(assert (forall ((q Val) (e Any) (n Int) (i Int) (j Int)) (! (=> (>= n 1) (= (mpow q e n i j) (mdot q e (- n 1) i j (rows e)))) :pattern ((mpow q e n i j)))))
(assert (forall ((q Val) (e Any) (n Int) (i Int) (j Int) (k Int)) (! (=> (= k 0) (= (mdot q e n i j k) 0.0)) :pattern ((mdot q e n i j k)))))
(assert (forall ((q Val) (e Any) (n Int) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (= k (+ l 1)) (<= 0 l)) (= (mdot q e n i j k) (+ (mdot q e n i j l) (* (mpow q e n i l) (at q e l j))))) :pattern ((mdot q e n i j k) (mdot q e n i j l)))))
; the partial sums agree when the entries of a are those of the m-th power
;!lemma rank 20 witness (mdif q a e (- n 1) i j k) inst (walleq q! a! e! (- n! 1) i! k!) hint Bool (alleq q! a! e! (- n! 1) i! k!) hint Real (dot q! a! i! e! j! k!) hint Real (mpow q! e! n! i! j!) hint Real (mdot q! e! (- n! 1) i! j! k!)
(assert (forall ((q Val) (a Any) (e Any) (n Int) (i Int) (j Int) (k Int)) (! (let ((w (mdif q a e (- n 1) i j k))) (=> (and (>= n 1) (= k (rows e)) (=> (and (<= 0 w) (< w k)) (= (at q a i w) (mpow q e (- n 1) i w)))) (= (dot q a i e j k) (mpow q e n i j)))) :pattern ((dot q a i e j k) (mpow q e n i j)))))
; for a 1 x 1 matrix
;!lemma induct n hint Real (mdot q! e! prev! 0 0 0) hint Real (mpow q! e! prev! 0 0) hint Real (pow (at q! e! 0 0) prev!)
(assert (forall ((q Val) (e Any) (n Int) (i Int) (j Int)) (! (=> (and (= (rows e) 1) (<= 0 n) (= i 0) (= j 0)) (= (mpow q e n i j) (pow (at q e 0 0) n))) :pattern ((mpow q e n i j)))))

; maps of replacements
(declare-fun okMap (VMap) Bool)
(assert (forall ((m VMap) (v Var)) (! (=> (and (okMap m) (mhas m v)) (and (wfV v) (isS (mget m v)) (wf (mget m v)))) :pattern ((okMap m) (mhas m v)))))
; the assignment that gives every replaced variable the value of its replacement
(declare-fun vmsub (Val VMap) Val)
(assert (forall ((q Val) (m VMap) (d Int)) (! (= (val (vmsub q m) d) (ite (mhas m (cv d)) (sval q (mget m (cv d))) (val q d))) :pattern ((val (vmsub q m) d)))))
; lemma: the value of factors only depends on the values of their variables
;!lemma induct n
(assert (forall ((q Val) (i Int) (y Real) (x SeqI) (v SeqV) (n Int)) (! (=> (and (not (memV v i)) (<= 0 n) (<= n (lenV v))) (= (pun (vsub q i y) x v n) (pun q x v n))) :pattern ((pun (vsub q i y) x v n)))))

;@only C20
; ---- environments: what each of them tracks ----
(declare-sort EnvS)
(declare-const envDefault Int)
(declare-fun envname (Int) Str)
(declare-fun envs (EnvS Int) SeqV)
(declare-fun envput (EnvS Int SeqV) EnvS)
(assert (forall ((S EnvS) (i Int) (s SeqV) (j Int)) (! (= (envs (envput S i s) j) (ite (= i j) s (envs S j))) :pattern ((envs (envput S i s) j)))))
(assert (forall ((S EnvS) (i Int) (s SeqV)) (! (= (envs (envput S i s) i) s) :pattern ((envput S i s)))))
(assert (forall ((S EnvS) (i Int)) (! (= (envput S i (envs S i)) S) :pattern ((envput S i (envs S i))))))
(assert (forall ((S EnvS) (i Int) (a SeqV) (b SeqV)) (! (= (envput (envput S i a) i b) (envput S i b)) :pattern ((envput (envput S i a) i b)))))
; the list b extends the list a by variables whose identifiers differ from all those before them
(define-fun extends ((b SeqV) (a SeqV)) Bool (and (<= (lenV a) (lenV b))
 (forall ((k Int)) (! (=> (and (<= 0 k) (< k (lenV a))) (= (atV b k) (atV a k))) :pattern ((atV b k)) :pattern ((atV a k))))
 (forall ((k Int) (l Int)) (! (=> (and (<= (lenV a) k) (< k (lenV b)) (<= 0 l) (< l k)) (not (= (vid (atV b k)) (vid (atV b l))))) :pattern ((atV b k) (atV b l))))))
;@ex hasId V (= (vid x) d)
;!lemma rank 20 hint Bool (hasId s! (lenV s!) d!) hint Bool (memV s! d!) hint Var (atV s! (w_hasId s! (lenV s!) d!))
(assert (forall ((s SeqV) (n Int) (d Int)) (! (=> (>= n (lenV s)) (= (hasId s n d) (memV s d))) :pattern ((hasId s n d)))))
; the rows of a matrix one after another
(declare-fun flatV (SeqVV Int) SeqV)
(assert (forall ((s SeqVV) (n Int)) (! (=> (<= n 0) (= (flatV s n) emptyV)) :pattern ((flatV s n)))))
(assert (forall ((s SeqVV) (n Int) (m Int)) (! (=> (and (= n (+ m 1)) (<= 0 m) (< m (lenVV s))) (= (flatV s n) (catV (flatV s m) (atVV s m)))) :pattern ((flatV s n) (flatV s m)))))
; lemma: rows from n on do not count
;!lemma induct n
(assert (forall ((s SeqVV) (i Int) (x SeqV) (n Int)) (! (=> (and (<= 0 i) (< i (lenVV s)) (<= n i)) (= (flatV (updVV s i x) n) (flatV s n))) :pattern ((flatV (updVV s i x) n)))))
;!lemma induct n
(assert (forall ((s SeqVV) (x SeqV) (n Int)) (! (and (=> (<= n (lenVV s)) (= (flatV (snocVV s x) n) (flatV s n))) (=> (= n (+ (lenVV s) 1)) (= (flatV (snocVV s x) n) (catV (flatV s (lenVV s)) x)))) :pattern ((flatV (snocVV s x) n)))))
; lemma: lists
(assert (forall ((a SeqV) (b SeqV) (x Var)) (! (= (catV a (snocV b x)) (snocV (catV a b) x)) :pattern ((catV a (snocV b x))))))
(assert (forall ((a SeqV) (b SeqV) (c SeqV)) (! (= (catV a (catV b c)) (catV (catV a b) c)) :pattern ((catV a (catV b c))))))
(assert (forall ((s SeqV)) (! (= (subV s 0 0) emptyV) :pattern ((subV s 0 0)))))
(assert (forall ((s SeqV) (i Int) (x Var) (n Int)) (! (=> (and (<= 0 i) (< i (lenV s)) (= n (+ i 1))) (= (subV (updV s i x) 0 n) (snocV (subV s 0 i) x))) :pattern ((subV (updV s i x) 0 n)))))
;@end
