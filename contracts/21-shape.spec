; Dimensions: operands that do not fit are rejected, and results have the prescribed shape.
(root C17
 (Expression.Plus mismatch (self V M) (right E N G)) (Expression.Plus mismatch (self S) (right V M G))
 (Expression.Plus entries (self V M) (right E N G)) (Expression.Plus entries (self S) (right V M G))
 (Expression.Minus mismatch (self V M) (right E N G)) (Expression.Minus mismatch (self S) (right V M G))
 (Expression.Minus entries (self V M) (right E N G)) (Expression.Minus entries (self S) (right V M G))
 (Expression.Multiply mismatch (self V M) (right E N G)) (Expression.Multiply mismatch (self S) (right V M G))
 (Expression.Multiply entries (self V M) (right E N G)) (Expression.Multiply entries (self S) (right V M G))
 Expression.Comparison Expression.LessEq Expression.GreaterEq Expression.Eq
 HStack VStack (Expression.DerivativeWrt value) Expression.Transpose)
(macro (unfit a b) (not (or (one a) (one b) (and (= (rows a) (rows b)) (= (cols a) (cols b))))))
(contract Expression.Plus (args self right)
 (case mismatch (domain right E N G) (given (and (wf self) (wf right) (unfit self right)))
  (ensures C17 false)))
(contract Expression.Minus (args self right)
 (case mismatch (domain right E N G) (given (and (wf self) (wf right) (unfit self right)))
  (ensures C17 false)))
(contract Expression.Multiply (args self right)
 (case mismatch (domain right E N G) (given (and (wf self) (wf right) (not (or (one self) (one right) (= (cols self) (rows right))))))
  (ensures C17 false)))
