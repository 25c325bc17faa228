-------------------------------- MODULE Itoa --------------------------------
(* The digit loop of integer formatting on W-bit two's complement words: the  *)
(* steps of the algorithm, checked against the decimal denotation. The       *)
(* magnitude is kept unsigned, so the smallest number needs no special case. *)
EXTENDS Integers, Sequences
CONSTANTS W, Cap    \* word width; characters the buffer holds
VARIABLES word, pc, n, buf
vars == <<word, pc, n, buf>>
Val == IF word >= 2 ^ (W - 1) THEN word - 2 ^ W ELSE word
Mag == IF word >= 2 ^ (W - 1) THEN 2 ^ W - word ELSE word
Init == word \in 0..(2 ^ W - 1) /\ pc = "abs" /\ n = 0 /\ buf = <<>>
Abs == pc = "abs" /\ n' = Mag /\ pc' = "digits" /\ UNCHANGED <<word, buf>>
Digit == pc = "digits" /\ (n > 0 \/ buf = <<>>) /\ buf' = Append(buf, n % 10) /\ n' = n \div 10 /\ UNCHANGED <<word, pc>>
Sign == pc = "digits" /\ n = 0 /\ buf # <<>> /\ pc' = "done" /\ buf' = (IF Val < 0 THEN Append(buf, -1) ELSE buf) /\ UNCHANGED <<word, n>>
Done == pc = "done" /\ UNCHANGED vars
Next == Abs \/ Digit \/ Sign \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Denote(_)
Denote(b) == IF b = <<>> THEN 0 ELSE b[1] + 10 * Denote(Tail(b))    \* least significant digit first
Digits == IF buf # <<>> /\ buf[Len(buf)] = -1 THEN SubSeq(buf, 1, Len(buf) - 1) ELSE buf
InBuffer == Len(buf) + 1 <= Cap
Correct == pc = "done" => /\ (IF buf[Len(buf)] = -1 THEN -Denote(Digits) ELSE Denote(Digits)) = Val
                          /\ Len(Digits) > 1 => Digits[Len(Digits)] # 0
Finishes == <>(pc = "done")
=============================================================================
