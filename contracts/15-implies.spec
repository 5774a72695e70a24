; Non-negativity and implication.
(root C16 ScalarConstraint.IsNonnegativityConstraint)
(contract Polynomial.Simplify (args self)
 (case simplify (ensures (C15 C16) (tidM (pm result)))))
(contract ScalarConstraint.Simplify
 (case same
  (ensures (C15 C16) (simp (cl (ASC result))))
  (ensures (C15 C16) (tidy (cl (ASC result))))))
(contract Constraint.AsSimplifiedConstraint
 (case same
  (ensures (C15 C16) (=> ((_ is ASC) self) ((_ is ASC) result)))
  (ensures (C15 C16) (=> ((_ is ASC) self) (simp (cl result))))
  (ensures (C15 C16) (=> ((_ is ASC) self) (tidy (cl result))))
  (ensures (C15 C16) (=> ((_ is ASC) self) (= (holdsAt q result 0 0) (holdsAt q self 0 0))))))
(contract ScalarConstraint.IsNonnegativityConstraint (args self)
 (case yes (given (wfC (ASC self))) (vals r0 q?)
  (ensures * (=> result (exists ((d? Int)) (! (forall ((p? Val)) (! (= (holdsAt p? (ASC self) 0 0) (>= (val p? d?) 0.0)) :pattern ((val p? d?)))) :pattern ((cand d?))))))))
; implication
(root C15 Constraint.ImpliesThisIsAlsoSatisfied)
(macro (sat q c) (forall ((i? Int) (j? Int)) (! (=> (inb (cl c) i? j?) (holdsAt q c i? j?)) :pattern ((at q (cl c) i? j?)))))
(contract Scalar.Multiply
 (case val
  (ensures C15 (=> (and (simp self) (or (and ((_ is AK) right) (not (= (ak right) 0.0))) (and ((_ is AFloat) right) (not (= (af right) 0.0))))) (simp result)))))
(macro (pair ls) (and (= (lenVV ls) 2) (= (lenV (atVV ls 0)) 1) (= (lenV (atVV ls 1)) 1)))
(macro (head ls k) (vid (atV (atVV ls k) 0)))
(contract UnionOfVariables
 (case union
  (ensures C15 (=> (pair ls) (memV (atVV ls 0) (head ls 0))))
  (ensures C15 (=> (pair ls) (memV (atVV ls 1) (head ls 1))))
  (ensures C15 (=> (pair ls) (ocVV ls (lenVV ls) (head ls 0))))
  (ensures C15 (=> (pair ls) (ocVV ls (lenVV ls) (head ls 1))))
  (ensures C15 (=> (pair ls) (memV result (head ls 0))))
  (ensures C15 (=> (pair ls) (memV result (head ls 1))))
  (ensures C15 (=> (and (pair ls) (= (lenV result) 1)) (= (head ls 0) (vid (atV result 0)))))
  (ensures C15 (=> (and (pair ls) (= (lenV result) 1)) (= (head ls 1) (vid (atV result 0)))))))
(contract ScalarConstraint.ScaleBy
 (case same
  (ensures C15 (=> (simp (cl (ASC self))) (simp (cl resultA))))
  (ensures C15 (=> ((_ is AK) (cr (ASC self))) ((_ is AK) (cr resultA)))))
 (case unit (given (and (wfC (ASC self)) (not (= factor 0.0)))) (vals r0)
  (step C15 (= (sval q (cl resultA)) (* factor (sval q (cl (ASC self))))))
  (step C15 (= (sval r0 (cl resultA)) (* factor (sval r0 (cl (ASC self))))))
  (step C15 (forall ((d? Int)) (! (scal (lcoS (cl (ASC self)) d?) factor (val q d?) (sval q (cl (ASC self))) (sval r0 (cl (ASC self)))) :pattern ((lcoS (cl (ASC self)) d?)) :pattern ((val q d?)))))
  (ensures C15 (forall ((d? Int)) (! (=> (and (=  (* (lcoS (cl (ASC self)) d?) factor) 1.0) (= (sval q (cl (ASC self))) (+ (sval r0 (cl (ASC self))) (* (lcoS (cl (ASC self)) d?) (val q d?))))) (= (sval q (cl resultA)) (+ (sval r0 (cl resultA)) (val q d?)))) :pattern ((lcoS (cl (ASC self)) d?)))))))
(contract Constraint.ImpliesThisIsAlsoSatisfied (args self other)
 (inv * (=> ?f:Bool (=> (sat q self) (sat q other))))
 (case true (given (and (wfC self) (wfC other))) (vals r0)
  (ensures * (=> (and result ((_ is ASC) self) ((_ is ASC) other)) (=> (holdsAt q self 0 0) (holdsAt q other 0 0))))
  (ensures * (=> result (=> (sat q self) (sat q other))))))
(contract VariablesInThisConstraint
 (case list
  (step C15 (count result c))
  (ensures C15 (= (nvarsC c) (lenV result)))
  (step C15 (=> (< 0 (lenV result)) (memV result (vid (atV result 0)))))
  (step C15 (=> (< 0 (lenV result)) (occC c (vid (atV result 0)))))
  (ensures C15 (=> (< 0 (lenV result)) (occC c (onlyC c))))
  (ensures C15 (=> (< 0 (lenV result)) (memV result (onlyC c))))
  (ensures C15 (=> (= (lenV result) 1) (= (vid (atV result 0)) (onlyC c))))
  (ensures C15 (=> (= (lenV result) 1) (forall ((d? Int)) (! (=> (occC c d?) (= d? (onlyC c))) :pattern ((memV result d?)) :pattern ((occ (cl c) d?)) :pattern ((occ (cr c) d?))))))))
(contract Constraint.Variables
 (case list
  (ensures C15 (= (nvarsC self) (lenV result)))
  (ensures C15 (=> (= (lenV result) 1) (= (vid (atV result 0)) (onlyC self))))
  (ensures C15 (=> (= (lenV result) 1) (occC self (onlyC self))))
  (ensures C15 (=> (= (lenV result) 1) (forall ((d? Int)) (! (=> (occC self d?) (= d? (onlyC self))) :pattern ((occ (cl self) d?)) :pattern ((occ (cr self) d?))))))))
