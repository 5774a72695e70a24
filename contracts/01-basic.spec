; Building blocks: validity checks, searching, matching and simplifying.

(contract Expression.Check (args self)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (chkM (atM !s:SeqM k?))) :pattern ((atM !s:SeqM k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (chkV (atV !s:SeqV k?))) :pattern ((atV !s:SeqV k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (chkP (atP !s:SeqP k?))) :pattern ((atP !s:SeqP k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (lenR (atRR !s:SeqRR k?)) (lenR (atRR !s:SeqRR 0)))) :pattern ((atRR !s:SeqRR k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (lenV (atVV !s:SeqVV k?)) (lenV (atVV !s:SeqVV 0)))) :pattern ((atVV !s:SeqVV k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (lenM (atMM !s:SeqMM k?)) (lenM (atMM !s:SeqMM 0)))) :pattern ((atMM !s:SeqMM k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (lenP (atPP !s:SeqPP k?)) (lenP (atPP !s:SeqPP 0)))) :pattern ((atPP !s:SeqPP k?)))))
 (inv * (forall ((k? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? #i) (<= 0 j?) (< j? (lenM (atMM !s:SeqMM k?)))) (chkM (atM (atMM !s:SeqMM k?) j?))) :pattern ((atM (atMM !s:SeqMM k?) j?)))))
 (inv * (forall ((k? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? #i) (<= 0 j?) (< j? (lenV (atVV !s:SeqVV k?)))) (chkV (atV (atVV !s:SeqVV k?) j?))) :pattern ((atV (atVV !s:SeqVV k?) j?)))))
 (inv * (forall ((k? Int) (j? Int)) (! (=> (and (<= 0 k?) (< k? #i) (<= 0 j?) (< j? (lenP (atPP !s:SeqPP k?)))) (chkP (atP (atPP !s:SeqPP k?) j?))) :pattern ((atP (atPP !s:SeqPP k?) j?)))))
 (case check
  (ensures * (= (= result ANil) (chk self)))
  (nopanic * true)))

(contract FindInSlice (args x s)
 (inv * (and (<= (- 1) ?p:Int) (=> (>= ?p:Int 0) (and (< ?p:Int (lenV !s:SeqV)) (= (vid (atV !s:SeqV ?p:Int)) (vid !v:Var))))))
 (inv * (=> (= ?p:Int (- 1)) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (not (= (vid (atV !s:SeqV k?)) (vid !v:Var)))) :pattern ((atV !s:SeqV k?))))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (not (= (vid (atV !s:SeqV k?)) (vid !v:Var)))) :pattern ((atV !s:SeqV k?)))))
 (inv * (=> (= ?p:Int (- 1)) (forall ((k? Int)) (! (=> (and (< ?i:Int k?) (< k? (lenV !s:SeqV))) (not (= (vid (atV !s:SeqV k?)) (vid !v:Var)))) :pattern ((atV !s:SeqV k?))))))
 (inv * (forall ((k? Int)) (! (=> (and (< ?p:Int k?) (< k? (lenV !s:SeqV))) (not (= (vid (atV !s:SeqV k?)) (vid !v:Var)))) :pattern ((atV !s:SeqV k?)))))
 (case variable (domain x AVar) (domain s ASlV)
  (ensures * (= result1 ANil))
  (ensures * (<= (- 1) result0))
  (ensures * (= (= result0 (- 1)) (not (memV (aslv s) (vid (av x))))))
  (ensures * (=> (>= result0 0) (and (< result0 (lenV (aslv s))) (= (vid (atV (aslv s) result0)) (vid (av x))))))
  (nopanic * true)))

(contract UniqueVars (args s) (fresh)
 (inv * (forall ((d? Int)) (! (= (ihas ?m:ISet d?) (memV ?o:SeqV d?)) :pattern ((ihas ?m:ISet d?)) :pattern ((memV ?o:SeqV d?)))))
 (inv * (forall ((d? Int)) (! (= (imhas ?m:IMap d?) (memV ?o:SeqV d?)) :pattern ((imhas ?m:IMap d?)) :pattern ((memV ?o:SeqV d?)))))
 (inv * (forall ((d? Int)) (! (=> (imhas ?m:IMap d?) (and (<= 0 (imget ?m:IMap d?)) (< (imget ?m:IMap d?) (lenV ?o:SeqV)) (= (vid (atV ?o:SeqV (imget ?m:IMap d?))) d?))) :pattern ((imhas ?m:IMap d?)))))
 (inv * (distV ?o:SeqV))
 (inv * (=> (wfsV !s:SeqV) (wfsV ?o:SeqV)))
 (inv * (=> (chksV !s:SeqV) (chksV ?o:SeqV)))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (memV ?o:SeqV (vid (atV !s:SeqV k?)))) :pattern ((atV !s:SeqV k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenV ?o:SeqV))) (memV !s:SeqV (vid (atV ?o:SeqV k?)))) :pattern ((atV ?o:SeqV k?)))))
 (case unique
  (ensures * (distV result))
  (ensures * (subV s result))
  (ensures * (subV result s))
  (ensures * (=> (wfsV s) (wfsV result)))
  (ensures * (=> (chksV s) (chksV result)))
  (nopanic * true)))

(contract Monomial.MatchesFormOf (args self m)
 (inv * (and (seenV !v:Var) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (not (= (vid (atV !s:SeqV k?)) (vid !v:Var)))) :pattern ((atV !s:SeqV k?))))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (and (memV !w:SeqV (vid (atV !v:SeqV k?))) (= (atI !x:SeqI k?) (atI !y:SeqI (idxV !w:SeqV (vid (atV !v:SeqV k?))))))) :pattern ((atV !v:SeqV k?)))))
 (case match (given (and (wfM self) (wfM m)))
  (ensures * (= result (sameM self m)))
  (nopanic * true)))

(contract Polynomial.ConstantMonomialIndex (args self)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (> (lenV (mv (atM !s:SeqM k?))) 0)) :pattern ((atM !s:SeqM k?)))))
 (case index (given (wfP self))
  (ensures * (and (<= (- 1) result) (< result (lenM (pm self)))))
  (ensures * (=> (= result (- 1)) (ncM (pm self))))
  (ensures * (=> (>= result 0) (= (lenV (mv (atM (pm self) result))) 0)))
  (nopanic * true)))

(contract Polynomial.VariableMonomialIndex (args self v)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (not (isvar (atM !s:SeqM k?) (vid !v:Var)))) :pattern ((atM !s:SeqM k?)))))
 (case index (given (and (wfP self) (wfV v)))
  (ensures * (and (<= (- 1) result) (< result (lenM (pm self)))))
  (ensures * (=> (= result (- 1)) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenM (pm self)))) (not (isvar (atM (pm self) k?) (vid v)))) :pattern ((atM (pm self) k?))))))
  (ensures * (=> (>= result 0) (isvar (atM (pm self) result) (vid v))))
  (nopanic * true)))

(contract Polynomial.MonomialIndex (args self m)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (not (sameM (atM !s:SeqM k?) !m:Mono))) :pattern ((atM !s:SeqM k?)))))
 (case index (given (and (wfP self) (wfM m)))
  (ensures * (and (<= (- 1) result) (< result (lenM (pm self)))))
  (ensures * (=> (= result (- 1)) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenM (pm self)))) (not (sameM (atM (pm self) k?) m))) :pattern ((atM (pm self) k?))))))
  (ensures * (=> (>= result 0) (sameM (atM (pm self) result) m)))
  (nopanic * true)))

(contract Monomial.Degree (args self)
 (inv * (= ?d:Int (pdeg !x:SeqI #i)))
 (inv * (= (+ ?d:Int (pdeg (mx !m:Mono) (+ ?i:Int 1))) (degM !m:Mono)))
 (case degree (given (wfM self))
  (ensures * (= result (degM self)))
  (nopanic * true)))

(contract Polynomial.Degree (args self)
 (inv * (= ?d:Int (pmax !s:SeqM #i)))
 (case degree (given (wfP self))
  (ensures * (= result (pmax (pm self) (lenM (pm self)))))
  (nopanic * true)))

(contract Polynomial.Constant (args self)
 (case constant (given (wfP self))
  (ensures * (=> (nolike (pm self)) (= result (tot r0 (pm self)))))
  (nopanic * true)))

(contract Polynomial.Simplify (args self)
 (inv * (= (+ ?c:Real (psum q ?s:SeqM (lenM ?s:SeqM))) (psum q !p:SeqM #i)))
 (inv * (= (psum q ?s:SeqM (lenM ?s:SeqM)) (+ !c:Real (psum q !p:SeqM #i))))
 (inv * (= (psum q ?s:SeqM (lenM ?s:SeqM)) (psum q !p:SeqM #i)))
 (inv * (nolike ?s:SeqM))
 (inv * (ncM ?s:SeqM))
 (inv * (nzM ?s:SeqM))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (not (sameM (atM !s:SeqM k?) !m:Mono))) :pattern ((atM !s:SeqM k?)))))
 (inv * (forall ((j? Int) (k? Int)) (! (=> (and (<= 0 j?) (< j? (lenM ?o:SeqM)) (<= #i k?) (< k? (lenM !s:SeqM))) (not (sameM (atM ?o:SeqM j?) (atM !s:SeqM k?)))) :pattern ((atM ?o:SeqM j?) (atM !s:SeqM k?)))))
 (case simplify (given (wfP self))
  (ensures * (wfP result))
  (ensures * (= (tot q (pm result)) (tot q (pm self))))
  (ensures * (nolike (pm result)))
  (ensures * (or (nzM (pm result)) (and (= (lenM (pm result)) 1) (= (lenV (mv (atM (pm result) 0))) 0))))
  (nopanic * true)))

(contract Expression.Variables (args self)
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (ocM !s:SeqM #i d?)) :pattern ((memV ?o:SeqV d?)) :pattern ((ocM !s:SeqM #i d?)))))
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (ocP !s:SeqP #i d?)) :pattern ((memV ?o:SeqV d?)) :pattern ((ocP !s:SeqP #i d?)))))
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (ocVV !s:SeqVV #i d?)) :pattern ((memV ?o:SeqV d?)) :pattern ((ocVV !s:SeqVV #i d?)))))
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (ocMM !s:SeqMM #i d?)) :pattern ((memV ?o:SeqV d?)) :pattern ((ocMM !s:SeqMM #i d?)))))
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (ocPP !s:SeqPP #i d?)) :pattern ((memV ?o:SeqV d?)) :pattern ((ocPP !s:SeqPP #i d?)))))
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (or (ocVV !s:SeqVV $i d?) (memV (atVV !s:SeqVV $i) d?))) :pattern ((memV ?o:SeqV d?)))))
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (or (ocMM !s:SeqMM $i d?) (ocM (atMM !s:SeqMM $i) #j d?))) :pattern ((memV ?o:SeqV d?)) :pattern ((ocM (atMM !s:SeqMM $i) #j d?)))))
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (or (ocPP !s:SeqPP $i d?) (ocP (atPP !s:SeqPP $i) #j d?))) :pattern ((memV ?o:SeqV d?)) :pattern ((ocP (atPP !s:SeqPP $i) #j d?)))))
 (case list (given (wf self))
  (ensures (C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C14 C15 C12 C16 C17 C19 C21 C22 C24 C25 C26) (forall ((d? Int)) (! (= (memV result d?) (occ self d?)) :pattern ((memV result d?)) :pattern ((occ self d?)))))
  (ensures * (distV result))
  (ensures * (wfsV result))
  (ensures (C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C14 C15 C12 C16 C17 C19 C21 C22 C24 C25 C26) (forall ((k? Int)) (! (=> (and ((_ is APoly) self) (<= 0 k?) (< k? (lenM (pm (ap self)))) (> (lenV (mv (atM (pm (ap self)) k?))) 0)) (memV result (vid (atV (mv (atM (pm (ap self)) k?)) 0)))) :pattern ((atM (pm (ap self)) k?)))))
  (nopanic * true)))
