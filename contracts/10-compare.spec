; Comparisons.
(root C13 Expression.Comparison Expression.LessEq Expression.GreaterEq Expression.Eq)
(macro (fits a b) (or (one a) (one b) (and (= (rows a) (rows b)) (= (cols a) (cols b)))))
(macro (compared s)
  (and (wfC result) (= (cs result) s) (fits self right)
       (= (rows (cl result)) (ite (one self) (rows right) (rows self)))
       (= (cols (cl result)) (ite (one self) (cols right) (cols self)))))
(macro (lefts a) (forall ((i? Int) (j? Int)) (! (=> (inb (cl result) i? j?) (= (at q (cl result) i? j?) (bat q a i? j?))) :pattern ((at q (cl result) i? j?)))))
(macro (rights b) (forall ((i? Int) (j? Int)) (! (=> (inb (cr result) i? j?) (= (at q (cr result) i? j?) (bat q b i? j?))) :pattern ((at q (cr result) i? j?)))))

(contract Expression.Comparison (args self right sense)
 (inv * (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (= (atR ?o:SeqR k?) !r:Real)) :pattern ((atR ?o:SeqR k?)))))
 (case entries (domain right E N G) (given (and (wf self) (wf right) (senseOK sense)))
  (ensures (C13 C17) (compared sense))
  (ensures C13 (lefts self))
  (ensures C13 (rights right))))
(contract Expression.LessEq (args self right)
 (case entries (domain right E N G) (given (and (wf self) (wf right)))
  (ensures (C13 C17) (compared 60))
  (ensures C13 (lefts self))
  (ensures C13 (rights right))))
(contract Expression.GreaterEq (args self right)
 (case entries (domain right E N G) (given (and (wf self) (wf right)))
  (ensures (C13 C17) (compared 62))
  (ensures C13 (lefts self))
  (ensures C13 (rights right))))
(contract Expression.Eq (args self right)
 (case entries (domain right E N G) (given (and (wf self) (wf right)))
  (ensures (C13 C17) (compared 61))
  (ensures C13 (lefts self))
  (ensures C13 (rights right))))
