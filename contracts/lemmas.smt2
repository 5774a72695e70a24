; Auxiliary definitions and lemmas, only for the proofs of the lemmas of theory.smt2 (tools/lemmas.py).
; No check of the code uses them. Lemmas here have rank 10 unless marked otherwise.

; ---- exponents left of (x,v) after taking away the first m factors of (y,w) ----
(declare-fun sb (SeqI SeqV SeqI SeqV Int) SeqI)
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (m Int)) (! (=> (<= m 0) (= (sb x v y w m) x)) :pattern ((sb x v y w m)))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (m Int) (k Int)) (! (=> (and (= m (+ k 1)) (<= 0 k)) (let ((j (idxV v (vid (atV w k))))) (= (sb x v y w m) (updI (sb x v y w k) j (- (atI (sb x v y w k) j) (atI y k)))))) :pattern ((sb x v y w m) (sb x v y w k)))))
; the exponents of (y,w) are at most those of (x,v)
(declare-fun dom (SeqI SeqV SeqI SeqV) Bool)
(declare-fun wdom (SeqI SeqV SeqI SeqV) Int)
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (j Int)) (! (=> (and (dom x v y w) (<= 0 j) (< j (lenV v))) (<= (pexp y w (lenV w) (vid (atV v j))) (atI x j))) :pattern ((dom x v y w) (atV v j)))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV)) (! (or (dom x v y w) (let ((j (wdom x v y w))) (and (<= 0 j) (< j (lenV v)) (not (<= (pexp y w (lenV w) (vid (atV v j))) (atI x j)))))) :pattern ((dom x v y w)))))
;@all zI I (= x 0)
;@all nnI I (>= x 0)
; what the relations stand for
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV) (d Int)) (! (=> (addx x v y w z u) (= (pexp x v (lenV v) d) (+ (pexp y w (lenV w) d) (pexp z u (lenV u) d)))) :pattern ((addx x v y w z u) (pexp x v (lenV v) d)) :pattern ((addx x v y w z u) (pexp y w (lenV w) d)) :pattern ((addx x v y w z u) (pexp z u (lenV u) d)))))

;!lemma rank 10 induct m
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (m Int)) (! (= (lenI (sb x v y w m)) (lenI x)) :pattern ((sb x v y w m)))))
; partial exponents grow
;!lemma rank 10 induct n hint Int (pexp y! w! prev! d!)
(assert (forall ((y SeqI) (w SeqV) (n Int) (d Int) (m Int)) (! (=> (and (posI y) (= (lenI y) (lenV w)) (<= 0 m) (<= m n) (<= n (lenV w))) (and (<= 0 (pexp y w m d)) (<= (pexp y w m d) (pexp y w n d)))) :pattern ((pexp y w m d) (pexp y w n d)))))
; the entries of sb
;!lemma rank 10 induct m hint SeqI (sb x! v! y! w! m!) hint Int (pexp y! w! m! (vid (atV v! j!))) hint Int (pexp y! w! prev! (vid (atV v! j!))) hint Bool (memV v! (vid (atV w! prev!))) hint Bool (memV w! (vid (atV w! prev!))) hint Int (atI (sb x! v! y! w! m!) j!)
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (m Int) (j Int)) (! (=> (and (distV v) (subV w v) (= (lenI x) (lenV v)) (= (lenI y) (lenV w)) (<= 0 m) (<= m (lenV w)) (<= 0 j) (< j (lenV v))) (= (atI (sb x v y w m) j) (- (atI x j) (pexp y w m (vid (atV v j)))))) :pattern ((atI (sb x v y w m) j)))))
; products and degrees
;!lemma rank 10 induct m hint SeqI (sb x! v! y! w! m!) hint Bool (memV v! (vid (atV w! prev!))) hint Bool (memV w! (vid (atV w! prev!))) hint Int (pexp y! w! m! (vid (atV w! prev!))) hint Int (pexp y! w! prev! (vid (atV w! prev!))) hint Int (pexp y! w! (lenV w!) (vid (atV w! prev!)))
(assert (forall ((q Val) (x SeqI) (v SeqV) (y SeqI) (w SeqV) (m Int)) (! (=> (and (distV v) (subV w v) (= (lenI x) (lenV v)) (= (lenI y) (lenV w)) (posI y) (dom x v y w) (<= 0 m) (<= m (lenV w))) (= (pun q x v (lenV v)) (* (pun q y w m) (pun q (sb x v y w m) v (lenV v))))) :pattern ((pun q (sb x v y w m) v (lenV v))))))
;!lemma rank 10 induct m hint SeqI (sb x! v! y! w! m!) hint Bool (memV v! (vid (atV w! prev!))) hint Bool (memV w! (vid (atV w! prev!)))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (m Int)) (! (=> (and (subV w v) (= (lenI x) (lenV v)) (= (lenI y) (lenV w)) (<= 0 m) (<= m (lenV w))) (= (pdeg x (lenI x)) (+ (pdeg y m) (pdeg (sb x v y w m) (lenI x))))) :pattern ((pdeg (sb x v y w m) (lenI x))))))
;!lemma rank 10 induct n
(assert (forall ((q Val) (x SeqI) (v SeqV) (n Int)) (! (=> (and (zI x) (= (lenI x) (lenV v)) (<= 0 n) (<= n (lenV v))) (= (pun q x v n) 1.0)) :pattern ((zI x) (pun q x v n)))))
;!lemma rank 10 induct n
(assert (forall ((x SeqI) (n Int)) (! (=> (and (zI x) (<= 0 n) (<= n (lenI x))) (= (pdeg x n) 0)) :pattern ((zI x) (pdeg x n)))))
;!lemma rank 10 induct n
(assert (forall ((x SeqI) (n Int)) (! (=> (and (nnI x) (<= 0 n) (<= n (lenI x))) (>= (pdeg x n) 0)) :pattern ((nnI x) (pdeg x n)))))
;!lemma rank 10 induct n hint Int (pdeg x! prev!)
(assert (forall ((x SeqI) (n Int) (k Int)) (! (=> (and (nnI x) (<= 0 k) (< k n) (<= n (lenI x))) (>= (pdeg x n) (atI x k))) :pattern ((nnI x) (pdeg x n) (atI x k)))))
;!lemma rank 10 induct n hint Int (pdeg (repI m! 1) prev!) hint Int (atI (repI m! 1) prev!)
(assert (forall ((m Int) (n Int)) (! (=> (and (<= 0 n) (<= n m)) (= (pdeg (repI m 1) n) n)) :pattern ((pdeg (repI m 1) n)))))
;!lemma rank 10
(assert (forall ((m Int)) (! (=> (<= 0 m) (posI (repI m 1))) :pattern ((repI m 1)))))

; ---- pigeonhole ----
(define-fun hole ((s SeqV) (t SeqV)) SeqI (sb (repI (lenV t) 1) t (repI (lenV s) 1) s (lenV s)))
;!lemma rank 10 hint Int (w_nnI (hole s! t!)) hint Int (atI (hole s! t!) (w_nnI (hole s! t!))) hint Int (atI (repI (lenV t!) 1) (w_nnI (hole s! t!))) hint Int (pexp (repI (lenV s!) 1) s! (lenV s!) (vid (atV t! (w_nnI (hole s! t!)))))
(assert (forall ((s SeqV) (t SeqV)) (! (=> (and (subV s t) (distV s) (distV t)) (nnI (hole s t))) :pattern ((subV s t)))))
;!lemma rank 10 hint Int (pdeg (hole s! t!) (lenI (repI (lenV t!) 1))) hint Int (pdeg (repI (lenV t!) 1) (lenV t!)) hint Int (pdeg (repI (lenV s!) 1) (lenV s!)) hint Int (pdeg (hole s! t!) (lenV t!)) hint Int (pdeg (repI (lenV t!) 1) (lenI (repI (lenV t!) 1)))
(assert (forall ((s SeqV) (t SeqV)) (! (=> (and (subV s t) (distV s) (distV t)) (and (= (pdeg (hole s t) (lenV t)) (- (lenV t) (lenV s))) (<= (lenV s) (lenV t)))) :pattern ((subV s t)))))
;!lemma rank 11 hint Int (wsubV t! s!) hint Int (idxV t! (wsubV t! s!)) hint Int (atI (hole s! t!) (idxV t! (wsubV t! s!))) hint Int (atI (repI (lenV t!) 1) (idxV t! (wsubV t! s!))) hint Int (pexp (repI (lenV s!) 1) s! (lenV s!) (wsubV t! s!)) hint Int (pdeg (hole s! t!) (lenV t!)) hint Bool (memV s! (wsubV t! s!)) hint Bool (subV t! s!)
(assert (forall ((s SeqV) (t SeqV)) (! (=> (and (subV s t) (distV s) (distV t) (= (lenV s) (lenV t))) (subV t s)) :pattern ((subV s t) (distV t)))))

; ---- same powers, sums of powers ----
;!lemma rank 12 hint Bool (memV w! (wsubV w! v!)) hint Int (pexp x! v! (lenV v!) (wsubV w! v!)) hint Int (pexp y! w! (lenV w!) (wsubV w! v!)) hint Int (wdom x! v! y! w!) hint Int (pexp x! v! (lenV v!) (vid (atV v! (wdom x! v! y! w!)))) hint Int (atI x! (idxV v! (vid (atV v! (wdom x! v! y! w!))))) hint Int (pexp x! v! (lenV v!) (wsubV v! w!)) hint Int (pexp y! w! (lenV w!) (wsubV v! w!))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV)) (! (=> (and (same x v y w) (okX x v) (okX y w)) (and (subV w v) (subV v w) (dom x v y w))) :pattern ((same x v y w)))))
(define-fun left ((x SeqI) (v SeqV) (y SeqI) (w SeqV)) SeqI (sb x v y w (lenV w)))
;!lemma rank 12 hint Int (w_zI (left x! v! y! w!)) hint Int (atI (left x! v! y! w!) (w_zI (left x! v! y! w!))) hint Int (pexp x! v! (lenV v!) (vid (atV v! (w_zI (left x! v! y! w!))))) hint Int (pexp y! w! (lenV w!) (vid (atV v! (w_zI (left x! v! y! w!)))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV)) (! (=> (and (same x v y w) (okX x v) (okX y w)) (zI (left x v y w))) :pattern ((same x v y w)))))
;!lemma rank 12 hint Real (pun q! (left x! v! y! w!) v! (lenV v!))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (q Val)) (! (=> (and (same x v y w) (okX x v) (okX y w)) (= (pun q x v (lenV v)) (pun q y w (lenV w)))) :pattern ((same x v y w) (pun q x v (lenV v))) :pattern ((same x v y w) (pun q y w (lenV w))))))
;!lemma rank 12 hint Bool (memV w! (wsubV w! v!)) hint Int (pexp x! v! (lenV v!) (wsubV w! v!)) hint Int (pexp y! w! (lenV w!) (wsubV w! v!)) hint Int (pexp z! u! (lenV u!) (wsubV w! v!)) hint Int (pexp z! u! 0 (wsubV w! v!)) hint Int (pexp y! w! (lenV w!) (wsubV u! v!)) hint Int (pexp y! w! 0 (wsubV u! v!)) hint Int (pexp x! v! (lenV v!) (wsubV u! v!)) hint Int (pexp z! u! (lenV u!) (wsubV u! v!)) hint Int (pexp x! v! (lenV v!) (vid (atV v! (wdom x! v! y! w!)))) hint Int (pexp z! u! 0 (vid (atV v! (wdom x! v! y! w!)))) hint Int (pexp z! u! (lenV u!) (vid (atV v! (wdom x! v! y! w!))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV)) (! (=> (and (addx x v y w z u) (okX x v) (okX y w) (okX z u)) (and (subV w v) (subV u v) (dom x v y w))) :pattern ((addx x v y w z u)))))
;!lemma rank 12 hint Int (atI (left x! v! y! w!) (wdom (left x! v! y! w!) v! z! u!)) hint Int (pexp x! v! (lenV v!) (vid (atV v! (wdom (left x! v! y! w!) v! z! u!)))) hint Int (pexp y! w! (lenV w!) (vid (atV v! (wdom (left x! v! y! w!) v! z! u!))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV)) (! (=> (and (addx x v y w z u) (okX x v) (okX y w) (okX z u)) (dom (left x v y w) v z u)) :pattern ((addx x v y w z u)))))
(define-fun left2 ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV)) SeqI (sb (left x v y w) v z u (lenV u)))
;!lemma rank 12 hint Int (atI (left2 x! v! y! w! z! u!) (w_zI (left2 x! v! y! w! z! u!))) hint Int (atI (left x! v! y! w!) (w_zI (left2 x! v! y! w! z! u!))) hint Int (pexp x! v! (lenV v!) (vid (atV v! (w_zI (left2 x! v! y! w! z! u!)))))
(assert (forall ((x SeqI) (v SeqV) (y SeqI) (w SeqV) (z SeqI) (u SeqV)) (! (=> (and (addx x v y w z u) (okX x v) (okX y w) (okX z u)) (zI (left2 x v y w z u))) :pattern ((addx x v y w z u)))))

; ---- sums of terms ----
;!lemma rank 10 induct n hint Mono (atM (catM s! t!) prev!) hint Real (psum q! (catM s! t!) prev!) hint Real (psum q! s! prev!)
(assert (forall ((q Val) (s SeqM) (t SeqM) (n Int)) (! (=> (and (<= 0 n) (<= n (lenM s))) (= (psum q (catM s t) n) (psum q s n))) :pattern ((psum q (catM s t) n)))))
;!lemma rank 10 induct m hint Mono (atM (catM s! t!) (+ (lenM s!) prev!)) hint Real (psum q! (catM s! t!) (+ (lenM s!) prev!)) hint Real (psum q! t! m!)
(assert (forall ((q Val) (s SeqM) (t SeqM) (m Int)) (! (=> (and (<= 0 m) (<= m (lenM t))) (= (psum q (catM s t) (+ (lenM s) m)) (+ (psum q s (lenM s)) (psum q t m)))) :pattern ((psum q (catM s t) (lenM s)) (psum q t m)))))
;!lemma rank 10
(assert (forall ((m Mono)) (! (=> (wfM m) (= (mval r0 m) (ite (= (lenV (mv m)) 0) (mc m) 0.0))) :pattern ((pun r0 (mx m) (mv m) (lenV (mv m)))))))
;!lemma rank 10
(assert (forall ((a Mono) (b Mono)) (! (=> (and (= (lenV (mv a)) 0) (= (lenV (mv b)) 0)) (sameM a b)) :pattern ((same (mx a) (mv a) (mx b) (mv b))))))
;!lemma rank 10 induct n
(assert (forall ((s SeqM) (n Int) (k Int)) (! (=> (and (wfsM s) (nolike s) (<= 0 n) (<= n (lenM s)) (<= 0 k) (< k (lenM s)) (= (lenV (mv (atM s k))) 0)) (= (psum r0 s n) (ite (< k n) (mc (atM s k)) 0.0))) :pattern ((nolike s) (psum r0 s n) (atM s k)))))

; ---- the sums of products in a matrix power ----
(assert (forall ((q Val) (a Any) (i Int) (b Any) (j Int) (n Int)) (! (=> (<= n 0) (= (dot q a i b j n) 0.0)) :pattern ((dot q a i b j n)))))
(assert (forall ((q Val) (e Any) (n Int) (i Int) (j Int) (k Int)) (! (=> (<= k 0) (= (mdot q e n i j k) 0.0)) :pattern ((mdot q e n i j k)))))
; the first k entries of row i of a are those of the m-th power of e
(declare-fun alleq (Val Any Any Int Int Int) Bool)
(declare-fun walleq (Val Any Any Int Int Int) Int)
(assert (forall ((q Val) (a Any) (e Any) (m Int) (i Int) (k Int) (w Int)) (! (=> (and (alleq q a e m i k) (<= 0 w) (< w k)) (= (at q a i w) (mpow q e m i w))) :pattern ((alleq q a e m i k) (at q a i w)) :pattern ((alleq q a e m i k) (mpow q e m i w)))))
(assert (forall ((q Val) (a Any) (e Any) (m Int) (i Int) (k Int)) (! (let ((w (walleq q a e m i k))) (or (alleq q a e m i k) (and (<= 0 w) (< w k) (not (= (at q a i w) (mpow q e m i w)))))) :pattern ((alleq q a e m i k)))))
;!lemma rank 10 induct k hint Real (dot q! a! i! e! j! k!) hint Real (mdot q! e! m! i! j! k!) hint Real (dot q! a! i! e! j! prev!) hint Real (mdot q! e! m! i! j! prev!) hint Real (at q! a! i! prev!) hint Bool (alleq q! a! e! m! i! k!) hint Bool (alleq q! a! e! m! i! prev!) hint Real (mpow q! e! m! i! prev!)
(assert (forall ((q Val) (a Any) (e Any) (m Int) (i Int) (j Int) (k Int)) (! (=> (alleq q a e m i k) (= (dot q a i e j k) (mdot q e m i j k))) :pattern ((dot q a i e j k) (mdot q e m i j k)))))

; ---- numbers of variables ----
; the list of the variables of an expression, of a constraint; nvars and nvarsC are their lengths
(declare-fun vs (Any) SeqV)
(assert (forall ((e Any)) (! (and (distV (vs e)) (= (nvars e) (lenV (vs e)))) :pattern ((nvars e)))))
(assert (forall ((e Any) (d Int)) (! (= (memV (vs e) d) (occ e d)) :pattern ((memV (vs e) d)) :pattern ((occ e d)))))
(declare-fun vsC (Any) SeqV)
(assert (forall ((e Any)) (! (and (distV (vsC e)) (= (nvarsC e) (lenV (vsC e)))) :pattern ((nvarsC e)))))
(assert (forall ((c Any) (d Int)) (! (= (memV (vsC c) d) (or (occ (cl c) d) (occ (cr c) d))) :pattern ((memV (vsC c) d)))))
(assert (forall ((s SeqV) (c Any)) (! (count s c) :pattern ((count s c)))))
(assert (forall ((c Real) (f Real) (v Real) (x Real) (y Real)) (! (scal c f v x y) :pattern ((scal c f v x y)))))
(assert (forall ((s SeqV) (n Int) (d Int)) (! (=> (>= n (lenV s)) (= (hasId s n d) (hasId s (lenV s) d))) :pattern ((hasId s n d)))))

; ---- places of the entries of constraints ----
(assert (forall ((e Any)) (! (and (>= (rows e) 0) (>= (cols e) 0)) :pattern ((rows e)) :pattern ((cols e)))))
;!lemma rank 10 induct n hint Int (rc prev! c!)
(assert (forall ((n Int) (c Int)) (! (=> (<= 0 c) (<= 0 (rc n c))) :pattern ((rc n c)))))
;!lemma rank 10 induct n hint Int (rc prev! c!) hint Int (rc 0 c!)
(assert (forall ((n Int) (c Int) (k Int)) (! (=> (and (<= 0 c) (<= 0 k) (< k n)) (and (<= 0 (rc k c)) (<= (+ (rc k c) c) (rc n c)))) :pattern ((rc n c) (rc k c)))))
;!lemma rank 10 hint Int (rc (rows (cl c!)) (cols (cl c!)))
(assert (forall ((c Any)) (! (>= (cntC c) 0) :pattern ((cl c)))))
;!lemma rank 10 induct n hint Int (off a! prev!) hint Any (cl (atA a! prev!))
(assert (forall ((a SeqA) (n Int)) (! (<= 0 (off a n)) :pattern ((off a n)))))
;!lemma rank 10 induct n hint Int (off a! prev!) hint Any (cl (atA a! prev!)) hint Any (cl (atA a! k!)) hint Int (off a! 0)
(assert (forall ((a SeqA) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (and (<= 0 (off a k)) (<= (+ (off a k) (cntC (atA a k))) (off a n)))) :pattern ((off a n) (off a k)))))

; ---- linear scalars ----
;!lemma rank 10 hint Bool (posI (mx m!)) hint Int (atI (mx m!) 0) hint Int (pdeg (mx m!) 0)
(assert (forall ((m Mono)) (! (=> (and (wfM m) (<= (degM m) 1)) (or (= (lenV (mv m)) 0) (isvar m (vid (atV (mv m) 0))))) :pattern ((pdeg (mx m) (lenI (mx m)))))))
;!lemma rank 10 hint Int (pdeg (mx m!) (lenI (mx m!))) hint Real (pun q! (mx m!) (mv m!) 0) hint Real (pow (val q! (vid (atV (mv m!) 0))) 1)
(assert (forall ((q Val) (m Mono)) (! (=> (and (wfM m) (<= (degM m) 1)) (= (mval q m) (* (mc m) (ite (= (lenV (mv m)) 0) 1.0 (val q (vid (atV (mv m) 0))))))) :pattern ((pun q (mx m) (mv m) (lenV (mv m)))))))
;!lemma rank 10 hint Int (pdeg (mx m!) (lenI (mx m!)))
(assert (forall ((m Mono) (d Int)) (! (=> (and (wfM m) (<= (degM m) 1)) (= (- (mval (unit d) m) (mval r0 m)) (lcM m d))) :pattern ((pun (unit d) (mx m) (mv m) (lenV (mv m)))))))
;!lemma rank 11 induct n hint Int (pdeg (mx (atM s! prev!)) (lenI (mx (atM s! prev!)))) hint Real (psum (unit d!) s! prev!) hint Real (lsum s! prev! d!)
(assert (forall ((s SeqM) (d Int) (n Int)) (! (=> (and (wfsM s) (<= (pmax s (lenM s)) 1) (<= 0 n) (<= n (lenM s))) (= (- (psum (unit d) s n) (psum r0 s n)) (lsum s n d))) :pattern ((psum (unit d) s n)))))
; sums over variables: of one term, of the first t terms
(declare-fun mdt (Val Mono SeqV Int) Real)
(assert (forall ((q Val) (m Mono) (w SeqV) (n Int)) (! (=> (<= n 0) (= (mdt q m w n) 0.0)) :pattern ((mdt q m w n)))))
(assert (forall ((q Val) (m Mono) (w SeqV) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k)) (= (mdt q m w n) (+ (mdt q m w k) (* (lcM m (vid (atV w k))) (val q (vid (atV w k))))))) :pattern ((mdt q m w n) (mdt q m w k)))))
(declare-fun pdt (Val SeqM Int SeqV Int) Real)
(assert (forall ((q Val) (s SeqM) (t Int) (w SeqV) (n Int)) (! (=> (<= n 0) (= (pdt q s t w n) 0.0)) :pattern ((pdt q s t w n)))))
(assert (forall ((q Val) (s SeqM) (t Int) (w SeqV) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k)) (= (pdt q s t w n) (+ (pdt q s t w k) (* (lsum s t (vid (atV w k))) (val q (vid (atV w k))))))) :pattern ((pdt q s t w n) (pdt q s t w k)))))
;!lemma rank 11 induct n hint Bool (memV w! d!) hint Real (mdt q! m! w! prev!) hint Real (mdt q! m! w! n!)
(assert (forall ((q Val) (m Mono) (w SeqV) (d Int) (n Int)) (! (=> (and (isvar m d) (distV w) (memV w d) (<= 0 n) (<= n (lenV w))) (= (mdt q m w n) (ite (< (idxV w d) n) (* (mc m) (val q d)) 0.0))) :pattern ((mdt q m w n) (memV w d)))))
;!lemma rank 11 induct n hint Real (mdt q! m! w! prev!)
(assert (forall ((q Val) (m Mono) (w SeqV) (n Int)) (! (=> (= (lenV (mv m)) 0) (= (mdt q m w n) 0.0)) :pattern ((mdt q m w n)))))
;!lemma rank 11 induct n hint Real (pdt q! s! t! w! prev!) hint Real (lsum s! t! (vid (atV w! prev!)))
(assert (forall ((q Val) (s SeqM) (t Int) (w SeqV) (n Int)) (! (=> (<= t 0) (= (pdt q s t w n) 0.0)) :pattern ((pdt q s t w n)))))
;!lemma rank 11 induct n hint Real (pdt q! s! t! w! prev!) hint Real (pdt q! s! u! w! prev!) hint Real (mdt q! (atM s! u!) w! prev!) hint Real (mdt q! (atM s! u!) w! n!) hint Real (lsum s! t! (vid (atV w! prev!))) hint Real (lsum s! u! (vid (atV w! prev!)))
(assert (forall ((q Val) (s SeqM) (t Int) (u Int) (w SeqV) (n Int)) (! (=> (and (= t (+ u 1)) (<= 0 u) (< u (lenM s))) (= (pdt q s t w n) (+ (pdt q s u w n) (mdt q (atM s u) w n)))) :pattern ((pdt q s t w n) (pdt q s u w n)))))
; the variables of the terms of s are in w
(declare-fun cov (SeqM SeqV) Bool)
(assert (forall ((s SeqM) (w SeqV) (d Int)) (! (=> (and (cov s w) (ocM s (lenM s) d)) (memV w d)) :pattern ((cov s w) (ocM s (lenM s) d)))))
(declare-fun wcov (SeqM SeqV) Int)
(assert (forall ((s SeqM) (w SeqV)) (! (or (cov s w) (and (ocM s (lenM s) (wcov s w)) (not (memV w (wcov s w))))) :pattern ((cov s w)))))
;!lemma rank 11 induct t hint Real (pdt q! s! prev! w! (lenV w!)) hint Real (pdt q! s! t! w! (lenV w!)) hint Int (pdeg (mx (atM s! prev!)) (lenI (mx (atM s! prev!)))) hint Bool (ocM s! (lenM s!) (vid (atV (mv (atM s! prev!)) 0))) hint Bool (memV (mv (atM s! prev!)) (vid (atV (mv (atM s! prev!)) 0))) hint Bool (memV w! (vid (atV (mv (atM s! prev!)) 0))) hint Real (mdt q! (atM s! prev!) w! (lenV w!)) hint Real (psum r0 s! prev!) hint Real (psum q! s! prev!) hint Int (pmax s! (lenM s!))
(assert (forall ((q Val) (s SeqM) (t Int) (w SeqV)) (! (=> (and (wfsM s) (<= (pmax s (lenM s)) 1) (distV w) (cov s w) (<= 0 t) (<= t (lenM s))) (= (psum q s t) (+ (psum r0 s t) (pdt q s t w (lenV w))))) :pattern ((psum q s t) (cov s w)))))
; what ldot, edot, vdot and rdot stand for
(assert (forall ((q Val) (e Any) (w SeqV) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k)) (= (ldot q e w n) (+ (ldot q e w k) (* (lcoS e (vid (atV w k))) (val q (vid (atV w k))))))) :pattern ((ldot q e w n) (ldot q e w k)))))
(assert (forall ((q Val) (e Any) (w SeqV) (n Int)) (! (=> (<= n 0) (= (edot q e w n) 0.0)) :pattern ((edot q e w n)))))
(assert (forall ((q Val) (e Any) (w SeqV) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k)) (= (edot q e w n) (+ (edot q e w k) (* (ulc e (vid (atV w k))) (val q (vid (atV w k))))))) :pattern ((edot q e w n) (edot q e w k)))))
(assert (forall ((q Val) (a SeqR) (w SeqV) (n Int)) (! (=> (<= n 0) (= (vdot q a w n) 0.0)) :pattern ((vdot q a w n)))))
(assert (forall ((q Val) (a SeqR) (w SeqV) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k)) (= (vdot q a w n) (+ (vdot q a w k) (* (atR a k) (val q (vid (atV w k))))))) :pattern ((vdot q a w n) (vdot q a w k)))))
(assert (forall ((q Val) (a Dense) (i Int) (w SeqV) (n Int)) (! (=> (<= n 0) (= (rdot q a i w n) 0.0)) :pattern ((rdot q a i w n)))))
(assert (forall ((q Val) (a Dense) (i Int) (w SeqV) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (<= 0 k)) (= (rdot q a i w n) (+ (rdot q a i w k) (* (dat a i k) (val q (vid (atV w k))))))) :pattern ((rdot q a i w n) (rdot q a i w k)))))
(assert (forall ((e Any) (d Int)) (! (or (isS e) (= (lcoS e d) 0.0)) :pattern ((lcoS e d)))))
;!lemma rank 11 induct n hint Real (ldot q! (APoly p!) w! prev!) hint Real (pdt q! (pm p!) (lenM (pm p!)) w! prev!)
(assert (forall ((q Val) (p Poly) (w SeqV) (n Int)) (! (= (ldot q (APoly p) w n) (pdt q (pm p) (lenM (pm p)) w n)) :pattern ((ldot q (APoly p) w n)))))
;!lemma rank 11 induct n hint Real (ldot q! (AMono m!) w! prev!) hint Real (mdt q! m! w! prev!)
(assert (forall ((q Val) (m Mono) (w SeqV) (n Int)) (! (= (ldot q (AMono m) w n) (mdt q m w n)) :pattern ((ldot q (AMono m) w n)))))
;!lemma rank 11 induct n hint Real (ldot q! (AK x!) w! prev!)
(assert (forall ((q Val) (x Real) (w SeqV) (n Int)) (! (= (ldot q (AK x) w n) 0.0) :pattern ((ldot q (AK x) w n)))))
;!lemma rank 11 induct n hint Real (ldot q! (AVar x!) w! prev!)
(assert (forall ((q Val) (x Var) (w SeqV) (n Int)) (! (=> (and (distV w) (memV w (vid x)) (<= 0 n) (<= n (lenV w))) (= (ldot q (AVar x) w n) (ite (< (idxV w (vid x)) n) (val q (vid x)) 0.0))) :pattern ((ldot q (AVar x) w n)))))
; the variables of e are in w
(declare-fun covE (Any SeqV) Bool)
(assert (forall ((e Any) (w SeqV) (d Int)) (! (=> (and (covE e w) (occ e d)) (memV w d)) :pattern ((covE e w) (occ e d)) :pattern ((covE e w) (memV w d)))))
(declare-fun wcovE (Any SeqV) Int)
(assert (forall ((e Any) (w SeqV)) (! (or (covE e w) (and (occ e (wcovE e w)) (not (memV w (wcovE e w))))) :pattern ((covE e w)))))
;!lemma rank 11 hint Real (ldot q! e! w! (lenV w!)) hint Real (sval r0 e!) hint Bool (cov (pm (ap e!)) w!) hint Bool (occ e! (wcov (pm (ap e!)) w!)) hint Bool (occ e! (vid (av e!))) hint Bool (occ e! (vid (atV (mv (am e!)) 0))) hint Bool (memV (mv (am e!)) (vid (atV (mv (am e!)) 0))) hint Bool (memV w! (vid (atV (mv (am e!)) 0))) hint Int (pdeg (mx (am e!)) (lenI (mx (am e!)))) hint Real (psum q! (pm (ap e!)) (lenM (pm (ap e!)))) hint Real (mdt q! (am e!) w! (lenV w!)) hint Real (ldot q! (AVar (av e!)) w! (lenV w!)) hint Real (pun q! (mx (am e!)) (mv (am e!)) (lenV (mv (am e!)))) hint Real (pun r0 (mx (am e!)) (mv (am e!)) (lenV (mv (am e!))))
(assert (forall ((q Val) (e Any) (w SeqV)) (! (=> (and (isS e) (wf e) (<= (deg e) 1) (distV w) (covE e w)) (= (sval q e) (+ (sval r0 e) (ldot q e w (lenV w))))) :pattern ((covE e w) (sval q e)))))
;!lemma rank 11 hint Real (sval (unit d!) e!) hint Real (sval r0 e!) hint Real (lcoS e! d!) hint Real (psum (unit d!) (pm (ap e!)) (lenM (pm (ap e!)))) hint Real (pun (unit d!) (mx (am e!)) (mv (am e!)) (lenV (mv (am e!)))) hint Real (pun r0 (mx (am e!)) (mv (am e!)) (lenV (mv (am e!))))
(assert (forall ((e Any) (d Int)) (! (=> (and (isS e) (wf e) (<= (deg e) 1)) (= (ulc e d) (lcoS e d))) :pattern ((sval (unit d) e)))))
;!lemma rank 11 induct n hint Real (ldot q! e! w! prev!) hint Real (edot q! e! w! prev!)
(assert (forall ((q Val) (e Any) (w SeqV) (n Int)) (! (=> (and (isS e) (wf e) (<= (deg e) 1)) (= (edot q e w n) (ldot q e w n))) :pattern ((edot q e w n)))))
