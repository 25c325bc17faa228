----------------------------- MODULE TypePairs -----------------------------
(* The relations between two types: what converts to, constructs, or may be *)
(* assigned to what, and whether that may throw.  Levels: 0 not possible,   *)
(* 1 possible but may throw, 2 cannot throw.                                *)
EXTENDS Types
Least(a, b) == IF a < b THEN a ELSE b
Lv(n) == Least(n, 2)
IntArg == [FromI |-> 2, Exp |-> 1]       \* constructors from int: FromI's is implicit and noexcept, Exp's explicit
ToIntLevel == 1                          \* ToI's operator int
DerivedFrom(a, b) == a = <<"Der">> /\ b = <<"Data">>
CvIn(a, b) == (IsConst(a) => IsConst(b)) /\ (IsVol(a) => IsVol(b))
\* qualification conversion of the pointee a to the pointee b; outer = every level so far is const
RECURSIVE QC(_, _, _, _)
QC(a, b, first, outer) ==
    /\ CvIn(a, b)
    /\ (CvIn(b, a) \/ first \/ outer)
    /\ LET x == U(a) y == U(b) IN
       IF Is(x, {"p"}) /\ Is(y, {"p"}) THEN QC(Tail(x), Tail(y), FALSE, (first \/ outer) /\ IsConst(b))
       ELSE IF Is(x, {"mo"}) /\ Is(y, {"mo"}) THEN QC(Tail(x), Tail(y), FALSE, (first \/ outer) /\ IsConst(b))
       ELSE x = y
RECURSIVE Similar(_, _)
Similar(a, b) == LET x == U(a) y == U(b) IN
    IF Is(x, {"p", "mo"}) /\ Is(y, {x[1]}) THEN Similar(Tail(x), Tail(y)) ELSE x = y
PointeeTo(a, b) == \/ QC(a, b, TRUE, TRUE)
                   \/ IsVoid(b) /\ ~IsFn(a) /\ CvIn(a, b)
                   \/ DerivedFrom(U(a), U(b)) /\ CvIn(a, b)
\* standard conversion of a value of unqualified, decayed type s to unqualified non-class type y
Std(s, y) ==
    \/ s = y
    \/ IsArith(y) /\ (IsArith(s) \/ s = <<"E">>)
    \/ y = <<"bool">> /\ Is(s, {"p", "mo"})
    \/ Is(y, {"p"}) /\ Is(s, {"p"}) /\ PointeeTo(Tail(s), Tail(y))
    \/ Is(y, {"mo"}) /\ Is(s, {"mo"}) /\ QC(Tail(s), Tail(y), TRUE, TRUE)
Related(x, s) == Similar(x, s) \/ DerivedFrom(U(s), U(x))
Compatible(x, s) == IF IsFn(s) \/ IsFn(x) THEN s = x ELSE QC(s, x, TRUE, TRUE) \/ (DerivedFrom(U(s), U(x)) /\ CvIn(s, x))
LValue(f) == Is(f, {"l"}) \/ IsFn(RemoveRef(f))
\* the copy or move constructor of class y applied to an expression of type f
ClassCopy(y, f) == LET s == RemoveRef(f) IN
    IF IsVol(s) THEN 0 ELSE IF LValue(f) \/ IsConst(s) THEN Class[y[1]].cpy ELSE Class[y[1]].mov
ClassAssign(y, f) == LET s == RemoveRef(f) IN
    IF IsVol(s) THEN 0 ELSE IF LValue(f) \/ IsConst(s) THEN Class[y[1]].cas ELSE Class[y[1]].mas
IsCls(x) == ~IsArray(x) /\ U(x)[1] \in Classes
\* implicit conversion of an expression of type f (not void) to the unqualified object type y
Value(f, y) ==
    LET s == RemoveRef(f) IN
    IF IsArray(y) \/ IsFn(y) THEN 0
    ELSE IF y[1] \in Classes THEN
        IF Class[y[1]].ab \/ ~Class[y[1]].dt THEN 0
        ELSE IF IsCls(s) THEN (IF U(s) = y \/ DerivedFrom(U(s), y) THEN Lv(ClassCopy(y, f)) ELSE 0)
        ELSE IF y = <<"FromI">> /\ Std(Decay(s), <<"int">>) THEN IntArg.FromI ELSE 0
    ELSE IF IsCls(s) THEN (IF U(s) = <<"ToI">> /\ ~IsVol(s) /\ IsArith(y) THEN ToIntLevel ELSE 0)
    ELSE IF Std(Decay(s), y) THEN 2 ELSE 0
\* binding a reference to x
Bind(f, x, rvalue) ==
    LET s == RemoveRef(f) c == Compatible(x, s) IN
    IF ~rvalue THEN
        IF LValue(f) /\ c THEN 2
        ELSE IF ~IsConst(x) \/ IsVol(x) THEN 0
        ELSE IF c THEN 2
        ELSE IF Related(x, s) THEN 0
        ELSE Value(f, U(x))
    ELSE IF (~LValue(f) \/ IsFn(s)) /\ c THEN 2
         ELSE IF Related(x, s) THEN 0
         ELSE Value(f, U(x))
Conv(f, x) ==
    IF IsVoid(f) \/ IsVoid(x) THEN (IF IsVoid(f) /\ IsVoid(x) THEN 2 ELSE 0)
    ELSE IF IsArray(x) \/ IsFn(x) THEN 0
    ELSE IF IsRef(x) THEN Bind(f, Tail(x), Is(x, {"r"}))
    ELSE Value(f, U(x))
\* x(f): direct initialisation
Direct(x, f) ==
    IF IsVoid(x) \/ IsVoid(f) \/ IsFn(x) \/ IsArray(x) THEN 0
    ELSE IF IsRef(x) THEN Bind(f, Tail(x), Is(x, {"r"}))
    ELSE LET y == U(x) s == RemoveRef(f) IN
         IF y[1] \in DOMAIN IntArg /\ ~(IsCls(s) /\ U(s) = y)
         THEN Least(IntArg[y[1]], IF IsCls(s) THEN Value(f, <<"int">>) ELSE IF Std(Decay(s), <<"int">>) THEN 2 ELSE 0)
         ELSE Value(f, y)
Assign(x, f) ==
    IF IsVoid(x) \/ IsVoid(f) THEN 0
    ELSE LET y == RemoveRef(x) s == RemoveRef(f) IN
         IF IsArray(y) \/ IsFn(y) \/ IsConst(y) THEN 0
         ELSE IF ~IsCls(y) THEN (IF Is(x, {"l"}) THEN Value(f, U(y)) ELSE 0)
         ELSE IF IsVol(y) THEN 0
         ELSE IF IsCls(s) THEN (IF U(s) = U(y) \/ DerivedFrom(U(s), U(y)) THEN Lv(ClassAssign(U(y), f)) ELSE 0)
         ELSE Least(Value(f, U(y)), Lv(K(y).mas))
\* ------------------------------------------------------------ common_type
Rank == [int |-> 1, uint |-> 1, long |-> 2, ulong |-> 2, ll |-> 3, ull |-> 3]
Promote(b) == IF b \in {"bool", "char", "schar", "uchar", "wchar", "c16", "short", "ushort", "E"} THEN "int" ELSE IF b = "c32" THEN "uint" ELSE b
Unsigned(b) == b \in {"uint", "ulong", "ull"}
ToU == [int |-> "uint", long |-> "ulong", ll |-> "ull"]
Bits == [int |-> 32, uint |-> 32, long |-> 64, ulong |-> 64, ll |-> 64, ull |-> 64]
Usual(a0, b0) ==
    IF "ldouble" \in {a0, b0} THEN "ldouble" ELSE IF "double" \in {a0, b0} THEN "double" ELSE IF "float" \in {a0, b0} THEN "float"
    ELSE LET a == Promote(a0) b == Promote(b0) IN
         IF a = b THEN a
         ELSE IF Unsigned(a) = Unsigned(b) THEN (IF Rank[a] < Rank[b] THEN b ELSE a)
         ELSE LET u == IF Unsigned(a) THEN a ELSE b
                  s == IF Unsigned(a) THEN b ELSE a
              IN IF Rank[u] >= Rank[s] THEN u ELSE IF Bits[s] > Bits[u] THEN s ELSE ToU[s]
Cv(x, c, v) == LET y == IF v THEN AddV(x) ELSE x IN IF c THEN AddC(y) ELSE y
None == <<"none">>
Common(f, x) ==
    LET a == Decay(f) b == Decay(x) IN
    IF a = b THEN a
    ELSE IF IsVoid(a) \/ IsVoid(b) THEN None
    ELSE IF (IsArith(a) \/ a = <<"E">>) /\ (IsArith(b) \/ b = <<"E">>) THEN <<Usual(a[1], b[1])>>
    ELSE IF Is(a, {"p"}) /\ Is(b, {"p"}) THEN
        LET p == Tail(a) q == Tail(b)
            c == IsConst(p) \/ IsConst(q)
            v == IsVol(p) \/ IsVol(q)
        IN IF IsFn(p) \/ IsFn(q) THEN None
           ELSE IF U(p) = U(q) \/ DerivedFrom(U(p), U(q)) \/ IsVoid(q) THEN <<"p">> \o Cv(U(q), c, v)
           ELSE IF DerivedFrom(U(q), U(p)) \/ IsVoid(p) THEN <<"p">> \o Cv(U(p), c, v)
           ELSE None
    ELSE IF DerivedFrom(a, b) THEN b ELSE IF DerivedFrom(b, a) THEN a
    ELSE LET m == Value(a, b) > 0 n == Value(b, a) > 0
         IN IF (IsCls(a) \/ IsCls(b)) /\ m # n THEN (IF m THEN b ELSE a) ELSE None
\* composite pointer types below one level, and member pointers, are not specified here
RECURSIVE Flat(_)
Flat(x) == LET y == Decay(x) IN ~Is(y, {"mo"}) /\ (Is(y, {"p"}) => ~Is(U(Tail(y)), {"p", "mo"} \cup Arrays))
Specified(f, x) == Flat(f) /\ Flat(x) /\ ~({Decay(f), Decay(x)} = {<<"ToI">>, <<"E">>})
PairRow(f, x) ==
    [same |-> f = x, conv |-> Conv(f, x) > 0, ctor |-> Direct(x, f) > 0, asg |-> Assign(x, f) > 0,
     ctorn |-> Direct(x, f) > 1, asgn |-> Assign(x, f) > 1,
     cond |-> <<f, x>>,
     common |-> IF Specified(f, x) THEN Common(f, x) ELSE <<"any">>]
\* ------------------------------------------------------------ what must hold of the definitions themselves
VARIABLE src
PInit == Init /\ src = t
PNext == \/ Next /\ UNCHANGED src
         \/ d = Depth /\ d' = 0 /\ src' = t /\ t' \in {<<b>> : b \in Roots} /\ ev' = ev
PSpec == PInit /\ [][PNext]_<<vars, src>>
PView == <<t, src>>
ReflexiveConv == ~(IsArray(t) \/ IsFn(t) \/ IsVoid(t)) => (Conv(t, t) > 0 <=> MoveC(t) > 0)
AgreesWithUnary == /\ IsObject(t) /\ ~IsArray(t) =>
                         /\ Direct(t, AddL(AddC(t))) = Lv(CopyC(t)) /\ Direct(t, AddR(t)) = Lv(MoveC(t))
                         /\ Assign(AddL(t), AddL(AddC(t))) = Lv(CopyA(t)) /\ Assign(AddL(t), AddR(t)) = Lv(MoveA(t))
ConvConstructs == Conv(src, t) > 0 /\ ~IsVoid(t) => Direct(t, src) >= Conv(src, t)
CommonSymmetric == Specified(src, t) => Common(src, t) = Common(t, src)
ToCommon == Specified(src, t) /\ Common(src, t) # None /\ ~IsVoid(src) /\ Common(src, t)[1] # "void" /\ MoveC(Common(src, t)) > 0 /\ Destructible(Common(src, t)) =>
                Conv(IF IsArray(src) \/ IsFn(src) THEN Decay(src) ELSE AddR(RemoveCV(Decay(src))), Common(src, t)) > 0
=============================================================================
