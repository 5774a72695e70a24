; What environments track.  env0 and env1 are all environments before and after the call.
(environments C20)
(root C20 BasicEnvironment.TrackVariable BasicEnvironment.AllTrackedVariables NewVariable NewContinuousVariable NewBinaryVariable
 NewVariableVector NewVariableMatrix NewVariableMatrixClassic)

; the environment named by an optional argument
(macro (envOf es) (ite (= (lenA es) 1) (aenv (atA es 0)) envDefault))

(contract BasicEnvironment.AllTrackedVariables (args self)
 (case list
  (ensures C20 (= result (envs env0 self)))
  (nopanic C20 true)))

(contract BasicEnvironment.TrackVariable (args self v) (modifies env)
 (inv C20 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? #i)) (not (= (vid (atV !s:SeqV k?)) (vid v)))) :pattern ((atV !s:SeqV k?)))))
 (inv C20 (not (hasId (envs env0 self) #i (vid v))))
 (inv C20 (= ?f:Bool (hasId (envs env0 self) #i (vid v))))
 (inv C20 (= ?f:Bool (not (hasId (envs env0 self) #i (vid v)))))
 (case track
  (ensures C20 (= result (not (memV (envs env0 self) (vid v)))))
  (ensures C20 (= env1 (ite (memV (envs env0 self) (vid v)) env0 (envput env0 self (snocV (envs env0 self) v)))))
  (nopanic C20 true)))

(macro (creates es) (and (not (memV (envs env0 (envOf es)) (vid result))) (= env1 (envput env0 (envOf es) (snocV (envs env0 (envOf es)) result)))))

(contract NewVariable (args es) (modifies env)
 (case create (ensures C20 (creates es))))
(contract NewContinuousVariable (args es) (modifies env)
 (case create (ensures C20 (creates es))))
(contract NewBinaryVariable (args es) (modifies env)
 (case create (ensures C20 (creates es))))

(contract NewVariableVector (args n es) (modifies env)
 (inv C20 (<= #i (ite (< n 0) 0 n)))
 (inv C20 (<= (lenV ?s:SeqV) (ite (< n 0) 0 n)))
 (inv C20 (= ?e:EnvS (envput env0 (envOf es) (catV (envs env0 (envOf es)) ?s:SeqV))))
 (inv C20 (= ?e:EnvS (envput env0 (envOf es) (catV (envs env0 (envOf es)) (subV ?s:SeqV 0 #i)))))
 (inv C20 (extends (envs ?e:EnvS (envOf es)) (envs env0 (envOf es))))
 (case create
  (ensures C20 (= (lenV result) (ite (< n 0) 0 n)))
  (ensures C20 (= env1 (envput env0 (envOf es) (catV (envs env0 (envOf es)) result))))
  (ensures C20 (extends (envs env1 (envOf es)) (envs env0 (envOf es))))))

(contract NewVariableMatrixClassic (args m n es) (modifies env)
 (inv C20 (<= #i (ite (< m 0) 0 m)))
 (inv C20 (<= #i (ite (< n 0) 0 n)))
 (inv C20 (= ?e:EnvS (envput env0 (envOf es) (catV (envs env0 (envOf es)) (flatV ?s:SeqVV #i)))))
 (inv C20 (= ?e:EnvS (envput env0 (envOf es) (catV (catV (envs env0 (envOf es)) (flatV ?s:SeqVV $i)) (subV (atVV ?s:SeqVV $i) 0 #j)))))
 (inv C20 (= ?e:EnvS (envput env0 (envOf es) (catV (catV (envs env0 (envOf es)) (flatV !s:SeqVV $i)) ?t:SeqV))))
 (inv C20 (= ?e:EnvS (envput env0 (envOf es) (catV (catV (envs env0 (envOf es)) (flatV !s:SeqVV $i)) (subV ?t:SeqV 0 #j)))))
 (inv C20 (= (lenV ?t:SeqV) #i))
 (inv C20 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenVV ?s:SeqVV))) (= (lenV (atVV ?s:SeqVV k?)) (ite (< n 0) 0 n))) :pattern ((atVV ?s:SeqVV k?)))))
 (inv C20 (extends (envs ?e:EnvS (envOf es)) (envs env0 (envOf es))))
 (inv C20 (= (lenVV ?s:SeqVV) #i))
 (inv C20 (= (lenVV ?s:SeqVV) (+ $i 1)))
 (case create
  (ensures C20 (= (lenVV result) (ite (< m 0) 0 m)))
  (ensures C20 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenVV result))) (= (lenV (atVV result k?)) (ite (< n 0) 0 n))) :pattern ((atVV result k?)))))
  (ensures C20 (= env1 (envput env0 (envOf es) (catV (envs env0 (envOf es)) (flatV result (lenVV result))))))
  (ensures C20 (extends (envs env1 (envOf es)) (envs env0 (envOf es))))))
(contract NewVariableMatrix (args m n es) (modifies env)
 (case create
  (ensures C20 (= (lenVV result) (ite (< m 0) 0 m)))
  (ensures C20 (forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? (lenVV result))) (= (lenV (atVV result k?)) (ite (< n 0) 0 n))) :pattern ((atVV result k?)))))
  (ensures C20 (= env1 (envput env0 (envOf es) (catV (envs env0 (envOf es)) (flatV result (lenVV result))))))
  (ensures C20 (extends (envs env1 (envOf es)) (envs env0 (envOf es))))))


; scans of what is tracked
(contract hints:*
 (inv C20 (= ?f:Bool (hasId !s:SeqV #i (vid !v:Var))))
 (inv C20 (= ?f:Bool (not (hasId !s:SeqV #i (vid !v:Var)))))
 (inv C20 (= ?f:Bool (hasId !s:SeqV #i !d:Int)))
 (inv C20 (= ?f:Bool (not (hasId !s:SeqV #i !d:Int))))
 (inv C20 (not (hasId !s:SeqV #i (vid !v:Var))))
 (inv C20 (not (hasId !s:SeqV #i !d:Int)))
 (inv C20 (or ?f:Bool (not (memV !s:SeqV ?n:Int))))
 (inv C20 (or (not ?f:Bool) (not (memV !s:SeqV ?n:Int))))
 (inv C20 (not (memV !s:SeqV ?n:Int))))
