---------------------------- MODULE StringOrder ----------------------------
(* The order laws of String's comparison, decided for all strings up to MaxLen over *)
(* Chars, and the matrix of expected results for the real code.                     *)
EXTENDS String
ASSUME TotalOrder(AllStrings(Chars, MaxLen))
ASSUME \A a, b \in AllStrings(Chars, MaxLen) : CmpRuns(Runs(a), Runs(b)) = Cmp(a, b)
ASSUME \A a, b \in AllStrings(Chars, MaxLen) : PrintT(ToJson([p |-> a, q |-> b, res |-> Relations(a, b)]))
OInit == Init
ONext == FALSE /\ UNCHANGED vars
=============================================================================
