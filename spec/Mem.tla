-------------------------------- MODULE Mem --------------------------------
(* Memory as an arena of bytes kept as runs <<value, count>>, so that arenas  *)
(* of any size can be judged; memcpy between disjoint parts of it.  Offsets   *)
(* are 0-based.                                                              *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Size, Values
VARIABLES mem, res, ev
vars == <<mem, res, ev>>
\* runs in normal form: neighbours differ, no empty runs
Join(a, r) == IF r[2] = 0 THEN a
              ELSE IF a # <<>> /\ a[Len(a)][1] = r[1] THEN [a EXCEPT ![Len(a)][2] = @ + r[2]]
              ELSE Append(a, r)
Cat(a, b) == FoldLeft(Join, a, b)
Count(a) == FoldLeft(LAMBDA n, r : n + r[2], 0, a)
\* the part [lo, lo + n)
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Slice(a, lo, n) ==
    FoldLeft(LAMBDA s, r : <<s[1] + r[2], Join(s[2], <<r[1], Max2(0, Min2(s[1] + r[2], lo + n) - Max2(s[1], lo))>>)>>, <<0, <<>> >>, a)[2]
Paste(a, lo, b) == LET n == Count(b) IN Cat(Cat(Slice(a, 0, lo), b), Slice(a, lo + n, Size - lo - n))
Init == mem = << <<0, Size>> >> /\ res = <<>> /\ ev = [op |-> "Init"]
Disjoint(d, s, n) == d + n <= s \/ s + n <= d
\* memcpy returns its destination
Copy(d, s, n) == /\ d + n <= Size /\ s + n <= Size /\ Disjoint(d, s, n)
                 /\ mem' = Paste(mem, d, Slice(mem, s, n)) /\ res' = <<d>>
Put(d, q) == d + Count(q) <= Size /\ mem' = Paste(mem, d, q) /\ res' = <<>>
\* a copy of 2^32 bytes and Count(q) more, whose last bytes are q, into memory that is followed by 8 bytes of 165: the end of the destination
Huge(q) == mem' = mem /\ res' = Join(q, <<165, 8>>)
Reset == mem' = << <<0, Size>> >> /\ res' = <<>>
Do(e) ==
  \/ e.op = "copy" /\ Copy(e.i, e.j, e.n)
  \/ e.op = "put" /\ Put(e.i, e.q)
  \/ e.op = "huge" /\ Huge(e.q)
  \/ e.op = "reset" /\ Reset
Next == \/ \E d, s \in 0..Size, n \in 0..Size : Copy(d, s, n) /\ ev' = [op |-> "copy", i |-> d, j |-> s, n |-> n]
        \/ \E d \in 0..(Size - 1), x \in Values : Put(d, << <<x, 1>> >>) /\ ev' = [op |-> "put", i |-> d, q |-> << <<x, 1>> >>]
\* ---- the run representation agrees with arrays, and only the destination changes
At(a, k) == LET s == Slice(a, k, 1) IN s[1][1]
Normal == Count(mem) = Size /\ \A k \in 1..(Len(mem) - 1) : mem[k][1] # mem[k + 1][1]
CopyRight == [][ev'.op = "copy" => \A k \in 0..(Size - 1) :
                   At(mem', k) = IF k \in ev'.i..(ev'.i + ev'.n - 1) THEN At(mem, k - ev'.i + ev'.j) ELSE At(mem, k)]_vars
View == mem
Emit == PrintT(ToJson([from |-> mem, ev |-> ev' @@ [res |-> res'], to |-> mem']))
=============================================================================
