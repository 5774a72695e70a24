; Kinds of arguments.
(set S AK AVar AMono APoly)
(set V AKV AVV AMV APV)
(set M AKM AVM AMM APM)
(set N AFloat AInt)
(set G AVec APVec ADen APDen)
(set X S V M AFloat G)
(set E S V M)
