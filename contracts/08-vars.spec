; Lists of variables.
(root C19 Expression.Variables NumVariables VariableIDs UniqueVars UnionOfVariables Unique Constraint.Variables VariablesInThisConstraint)

(contract NumVariables (args e)
 (case count (domain e E) (given (wf e))
  (ensures C19 (= result (nvars e)))
  (nopanic C19 true)))

(contract VariableIDs (args e)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atI ?o:SeqI k?) (vid (atV !s:SeqV k?)))) :pattern ((atI ?o:SeqI k?)) :pattern ((atV !s:SeqV k?)))))
 (inv * (= (lenI ?o:SeqI) #i))
 (case list (domain e E) (given (wf e))
  (ensures C19 (distI result))
  (ensures C19 (forall ((d? Int)) (! (= (ocI result (lenI result) d?) (occ e d?)) :pattern ((ocI result (lenI result) d?)))))
  (nopanic C19 true)))

(contract UnionOfVariables (args ls)
 (inv * (=> (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenVV !s:SeqVV))) (wfsV (atVV !s:SeqVV k?))) :pattern ((atVV !s:SeqVV k?)))) (wfsV ?o:SeqV)))
 (inv * (forall ((d? Int)) (! (= (memV ?o:SeqV d?) (ocVV !s:SeqVV #i d?)) :pattern ((memV ?o:SeqV d?)) :pattern ((ocVV !s:SeqVV #i d?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenV ?o:SeqV))) (wfV (atV ?o:SeqV k?))) :pattern ((atV ?o:SeqV k?)))))
 (case union
  (ensures (C15 C19) (distV result))
  (ensures (C15 C19) (=> (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenVV ls))) (wfsV (atVV ls k?))) :pattern ((atVV ls k?)))) (wfsV result)))
  (ensures (C15 C19) (forall ((d? Int)) (! (= (memV result d?) (ocVV ls (lenVV ls) d?)) :pattern ((memV result d?)))))
  (nopanic C19 true)))

(contract FindInSlice (args x s)
 (inv * (and (<= (- 1) ?p:Int) (=> (>= ?p:Int 0) (and (< ?p:Int (lenI !s:SeqI)) (= (atI !s:SeqI ?p:Int) !v:Int)))))
 (inv * (=> (= ?p:Int (- 1)) (not (ocI !s:SeqI #i !v:Int))))
 (case id (domain x AU64) (domain s ASlU)
  (ensures * (= result1 ANil))
  (ensures * (<= (- 1) result0))
  (ensures * (= (= result0 (- 1)) (not (ocI (aslu s) (lenI (aslu s)) (au x)))))
  (ensures * (=> (>= result0 0) (and (< result0 (lenI (aslu s))) (= (atI (aslu s) result0) (au x)))))
  (nopanic * true)))

(contract Unique (args l)
 (inv * (forall ((d? Int)) (! (= (ihas ?m:ISet d?) (ocI ?o:SeqI (lenI ?o:SeqI) d?)) :pattern ((ihas ?m:ISet d?)) :pattern ((ocI ?o:SeqI (lenI ?o:SeqI) d?)))))
 (inv * (distI ?o:SeqI))
 (inv * (<= (lenI ?o:SeqI) #i))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (ocI ?o:SeqI (lenI ?o:SeqI) (atI l k?))) :pattern ((atI l k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenI ?o:SeqI))) (ocI l (lenI l) (atI ?o:SeqI k?))) :pattern ((atI ?o:SeqI k?)))))
 (case unique
  (ensures C19 (distI result))
  (ensures C19 (forall ((d? Int)) (! (= (ocI result (lenI result) d?) (ocI l (lenI l) d?)) :pattern ((ocI result (lenI result) d?)))))
  (nopanic C19 true)))

(contract VariablesInThisConstraint (args c)
 (inv * (forall ((w? Var)) (! (=> (shas ?m:VSet w?) (and (wfV w?) (occ (cl c) (vid w?)))) :pattern ((shas ?m:VSet w?)))))
 (inv * (forall ((w? Var)) (! (=> (shas ?m:VSet w?) (and (wfV w?) (or (occ (cl c) (vid w?)) (occ (cr c) (vid w?))))) :pattern ((shas ?m:VSet w?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (shas ?m:VSet (atV !s:SeqV k?))) :pattern ((atV !s:SeqV k?)))))
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenV !s:SeqV))) (shas ?m:VSet (atV !s:SeqV k?))) :pattern ((atV !s:SeqV k?)))))
 (inv * (and (= (lenV ?o:SeqV) #i) (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atV ?o:SeqV k?) (atV !s:SeqV k?))) :pattern ((atV ?o:SeqV k?)) :pattern ((atV !s:SeqV k?))))))
 (case list (domain c ASC AVC AMC) (given (wfC c))
  (ensures * (distV result))
  (ensures * (wfsV result))
  (ensures * (forall ((d? Int)) (! (= (memV result d?) (or (occ (cl c) d?) (occ (cr c) d?))) :pattern ((memV result d?)))))
  (nopanic * true)))
(contract Constraint.Variables (args self)
 (case list (given (wfC self))
  (ensures * (distV result))
  (ensures * (wfsV result))
  (ensures (C12 C16 C19) (forall ((d? Int)) (! (= (memV result d?) (or (occ (cl self) d?) (occ (cr self) d?))) :pattern ((memV result d?)) :pattern ((occ (cl self) d?)) :pattern ((occ (cr self) d?)))))
  (nopanic * true)))
(contract Constraint.Check (args self)
 (case check (given (kindC self))
  (ensures * (= (= result ANil) (chkC self)))
  (nopanic * true)))

(contract Expression.Variables
 (inv * (distV ?o:SeqV))
 (inv * (wfsV ?o:SeqV)))
