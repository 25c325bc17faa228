-------------------------------- MODULE Algo --------------------------------
(* min, max, max_element, fill, distance and swap over an array of elements  *)
(* whose order is decided by a key only (v \div Tag), so that equivalent     *)
(* elements can be told apart.  Positions are 1-based, ranges are half open. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Values, Tag, Hows
VARIABLES arr, res, ev
vars == <<arr, res, ev>>
Pos == 1..N
Key(i) == arr[i] \div Tag
Same == arr' = arr
Init == arr = [i \in Pos |-> 0] /\ res = <<>> /\ ev = [op |-> "Init"]
\* min and max name their first argument unless the second is strictly better
Min(i, j) == Same /\ res' = <<IF Key(j) < Key(i) THEN j ELSE i>>
Max(i, j) == Same /\ res' = <<IF Key(i) < Key(j) THEN j ELSE i>>
\* the first position holding a largest key; the end of an empty range
IsLargest(k, i, j) == k \in i..(j - 1) /\ \A m \in i..(j - 1) : Key(m) <= Key(k) /\ (m < k => Key(m) < Key(k))
MaxElement(i, j) == i <= j /\ Same /\ res' = <<IF i = j THEN j ELSE CHOOSE k \in Pos : IsLargest(k, i, j)>>
Filled(i, j, x) == [m \in Pos |-> IF m \in i..(j - 1) THEN x ELSE arr[m]]
Fill(i, j, x) == i <= j /\ arr' = Filled(i, j, x) /\ res' = <<>>
\* the value is an element of the array itself
FillOwn(i, j, k) == i <= j /\ arr' = Filled(i, j, arr[k]) /\ res' = <<>>
Distance(i, j) == Same /\ res' = <<j - i>>
\* iterators i * 2^30 + j elements apart, forwards (d = 0) or backwards: the count, and its negation
Far(i, j, d, how) == Same /\ res' = <<i, j>>
Swap(i, j) == arr' = [arr EXCEPT ![i] = arr[j], ![j] = arr[i]] /\ res' = <<>>
Write(i, x) == arr' = [arr EXCEPT ![i] = x] /\ res' = <<>>
Reset == arr' = [i \in Pos |-> 0] /\ res' = <<>>
Do(e) ==
  \/ e.op = "min" /\ Min(e.i, e.j)
  \/ e.op = "max" /\ Max(e.i, e.j)
  \/ e.op = "maxel" /\ MaxElement(e.i, e.j)
  \/ e.op = "fill" /\ Fill(e.i, e.j, e.x)
  \/ e.op = "fillown" /\ FillOwn(e.i, e.j, e.k)
  \/ e.op = "dist" /\ Distance(e.i, e.j)
  \/ e.op = "far" /\ Far(e.i, e.j, e.d, e.how)
  \/ e.op = "swap" /\ Swap(e.i, e.j)
  \/ e.op = "write" /\ Write(e.i, e.x)
  \/ e.op = "reset" /\ Reset
End == 1..(N + 1)
Events ==
     [op : {"min", "max"}, i : Pos, j : Pos]
  \cup {e \in [op : {"maxel"}, i : End, j : End, how : Hows] : e.i <= e.j}
  \cup {e \in [op : {"fill"}, i : End, j : End, x : Values, how : Hows \ {3}] : e.i <= e.j}
  \cup {e \in [op : {"fillown"}, i : End, j : End, k : Pos, how : Hows \ {3}] : e.i <= e.j}
  \cup [op : {"dist"}, i : End, j : End, how : Hows \ {2}]
  \cup [op : {"swap"}, i : Pos, j : Pos]
  \cup [op : {"write"}, i : Pos, x : Values]
Next == \E e \in Events : Do(e) /\ ev' = e
\* ---- the algorithms as loops, checked against the definitions above ----------
RECURSIVE Scan(_, _, _)
Scan(best, m, j) == IF m = j THEN best ELSE Scan(IF Key(best) < Key(m) THEN m ELSE best, m + 1, j)
LoopsRight == \A i, j \in End : i < j => IsLargest(Scan(i, i + 1, j), i, j) /\ Cardinality({k \in Pos : IsLargest(k, i, j)}) = 1
TypeOK == arr \in [Pos -> Values \cup {0}]
ProjOf(a) == [v |-> a, guard |-> <<0, 0>>, live |-> 0, bad |-> 0]
View == arr
Emit == PrintT(ToJson([from |-> ProjOf(arr), ev |-> ev' @@ [res |-> res'], to |-> ProjOf(arr')]))
=============================================================================
