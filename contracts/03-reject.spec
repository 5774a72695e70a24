; Malformed operands are rejected.
(macro (bad e) (and (isE e) (not (chk e))))
(root C25 Expression.Plus Expression.Minus Expression.Multiply Expression.Comparison Expression.DerivativeWrt)

(contract Expression.Plus (args self right)
 (case malformed (domain right E AFloat AInt G)
  (given (or (bad self) (bad right)))
  (ensures C25 false)))
(contract Expression.Minus (args self right)
 (case malformed (domain right E AFloat AInt G)
  (given (or (bad self) (bad right)))
  (ensures C25 false)))
(contract Expression.Multiply (args self right)
 (case malformed (domain right E AFloat AInt G)
  (given (or (bad self) (bad right)))
  (ensures C25 false)))
(contract Expression.Comparison (args self right sense)
 (case malformed (domain right E AFloat AInt G)
  (given (or (bad self) (bad right)))
  (ensures C25 false)))
(contract Expression.DerivativeWrt (args self v)
 (case malformed
  (given (bad self))
  (ensures C25 false)))
