------------------------------- MODULE Types -------------------------------
(* C++ types as prefix terms, and what the standard says the type traits    *)
(* yield for them.  A type is a sequence of tokens ending in a base name:   *)
(*   c v  const, volatile (in this order; on an array they sit on the       *)
(*        element)     p  pointer     l r  lvalue, rvalue reference         *)
(*   a0 a2 a3  array of unknown bound, of 2, of 3                           *)
(*   f fi  function () and (int) returning what follows                     *)
(*   fc    function () const (only behind mo)     mo  pointer to member     *)
(* The state machine builds every type by applying constructors.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Depth, Roots          \* how many constructors; the bases to start from
VARIABLES t, d, ev
vars == <<t, d, ev>>
Integral == {"bool", "char", "schar", "uchar", "wchar", "c16", "c32", "short", "ushort", "int", "uint", "long", "ulong", "ll", "ull"}
SignedInt == {"char", "schar", "wchar", "short", "int", "long", "ll"}
Floating == {"float", "double", "ldouble"}
Enums == {"E", "EC"}
\* special members: 0 unusable, 1 may throw, 2 nothrow, 3 trivial
Cls(def, cpy, mov, cas, mas, dt, ab, fin, emp) ==
    [def |-> def, cpy |-> cpy, mov |-> mov, cas |-> cas, mas |-> mas, dt |-> dt, ab |-> ab, fin |-> fin, emp |-> emp, uni |-> FALSE]
Class == [Empty |-> Cls(3, 3, 3, 3, 3, TRUE, FALSE, FALSE, TRUE),
          Data  |-> Cls(3, 3, 3, 3, 3, TRUE, FALSE, FALSE, FALSE),
          Der   |-> Cls(3, 3, 3, 3, 3, TRUE, FALSE, FALSE, FALSE),
          Fin   |-> Cls(3, 3, 3, 3, 3, TRUE, FALSE, TRUE, TRUE),
          Uni   |-> [Cls(3, 3, 3, 3, 3, TRUE, FALSE, FALSE, FALSE) EXCEPT !.uni = TRUE],
          Abs   |-> Cls(0, 0, 0, 2, 2, TRUE, TRUE, FALSE, FALSE),
          Poly  |-> Cls(2, 2, 2, 2, 2, TRUE, FALSE, FALSE, FALSE),
          MovO  |-> Cls(1, 0, 2, 0, 2, TRUE, FALSE, FALSE, FALSE),
          FromI |-> Cls(0, 3, 3, 3, 3, TRUE, FALSE, FALSE, FALSE),
          Exp   |-> Cls(0, 3, 3, 3, 3, TRUE, FALSE, FALSE, FALSE),
          ToI   |-> Cls(3, 3, 3, 3, 3, TRUE, FALSE, FALSE, TRUE),
          Thr   |-> Cls(1, 1, 1, 1, 1, TRUE, FALSE, FALSE, TRUE),
          NoD   |-> Cls(0, 0, 0, 3, 3, FALSE, FALSE, FALSE, TRUE),
          CMem  |-> Cls(0, 3, 3, 0, 0, TRUE, FALSE, FALSE, FALSE),
          Inc   |-> Cls(0, 0, 0, 0, 0, FALSE, FALSE, FALSE, FALSE)]      \* incomplete: only behind pointers and references
Classes == DOMAIN Class
Arrays == {"a0", "a2", "a3"}
Funcs == {"f", "fi", "fc"}
\* ------------------------------------------------------------ structure
Is(x, S) == x[1] \in S
RECURSIVE ElemOf(_)
ElemOf(x) == IF Is(x, Arrays) THEN ElemOf(Tail(x)) ELSE x
RECURSIVE OnElem(_, _)          \* apply a cv operation below the array constructors
OnElem(F(_), x) == IF Is(x, Arrays) THEN <<x[1]>> \o OnElem(F, Tail(x)) ELSE F(x)
C1(x) == Is(x, {"c"})
V1(x) == IF C1(x) THEN Is(Tail(x), {"v"}) ELSE Is(x, {"v"})
IsConst(x) == C1(ElemOf(x))
IsVol(x) == V1(ElemOf(x))
DropC(x) == IF C1(x) THEN Tail(x) ELSE x
DropV(x) == IF Is(x, {"v"}) THEN Tail(x) ELSE IF C1(x) /\ Is(Tail(x), {"v"}) THEN <<"c">> \o Tail(Tail(x)) ELSE x
PutC(x) == IF C1(x) THEN x ELSE <<"c">> \o x
PutV(x) == IF V1(x) THEN x ELSE IF C1(x) THEN <<"c", "v">> \o Tail(x) ELSE <<"v">> \o x
IsRef(x) == Is(x, {"l", "r"})
IsFn(x) == Is(x, Funcs)
RemoveC(x) == OnElem(DropC, x)
RemoveV(x) == OnElem(DropV, x)
RemoveCV(x) == RemoveC(RemoveV(x))
AddC(x) == IF IsRef(x) \/ IsFn(x) THEN x ELSE OnElem(PutC, x)
AddV(x) == IF IsRef(x) \/ IsFn(x) THEN x ELSE OnElem(PutV, x)
RemoveRef(x) == IF IsRef(x) THEN Tail(x) ELSE x
U(x) == RemoveCV(x)
IsVoid(x) == U(x) = <<"void">>
NoRefTo(x) == IsVoid(x) \/ Is(x, {"fc"})
AddL(x) == IF NoRefTo(x) \/ Is(x, {"l"}) THEN x ELSE <<"l">> \o RemoveRef(x)
AddR(x) == IF NoRefTo(x) \/ IsRef(x) THEN x ELSE <<"r">> \o x
AddP(x) == IF Is(x, {"fc"}) THEN x ELSE <<"p">> \o RemoveRef(x)
RemoveExt(x) == IF Is(x, Arrays) THEN Tail(x) ELSE x
RemoveAllExt(x) == ElemOf(x)
Decay(x) == LET y == RemoveRef(x) IN IF Is(y, Arrays) THEN <<"p">> \o Tail(y) ELSE IF Is(y, {"f", "fi"}) THEN <<"p">> \o y ELSE U(y)
\* ------------------------------------------------------------ classification
In(x, S) == Is(U(x), S)
IsIntegral(x) == In(x, Integral)
IsFloating(x) == In(x, Floating)
IsArith(x) == IsIntegral(x) \/ IsFloating(x)
IsArray(x) == Is(x, Arrays)
IsPtr(x) == In(x, {"p"})
IsMem(x) == In(x, {"mo"})
IsMemFn(x) == IsMem(x) /\ IsFn(Tail(U(x)))
IsEnum(x) == In(x, Enums)
IsUnion(x) == In(x, Classes) /\ ~IsArray(x) /\ Class[U(x)[1]].uni
IsClass(x) == In(x, Classes) /\ ~IsArray(x) /\ ~IsUnion(x)
CU(x) == IsClass(x) \/ IsUnion(x)
IsScalar(x) == IsArith(x) \/ IsEnum(x) \/ IsPtr(x) \/ IsMem(x)
IsObject(x) == ~(IsFn(x) \/ IsRef(x) \/ IsVoid(x))
K(x) == Class[U(x)[1]]
\* ------------------------------------------------------------ special members
Default(x) == LET e == ElemOf(x) IN
    IF IsVoid(x) \/ IsFn(x) \/ IsRef(x) \/ "a0" \in {x[i] : i \in 1..(Len(x) - Len(e))} THEN 0
    ELSE IF IsScalar(e) THEN 3 ELSE K(e).def
Destructible(x) == IF IsVoid(x) \/ IsFn(x) THEN FALSE ELSE IF IsRef(x) THEN TRUE
                   ELSE LET e == ElemOf(x) IN ~(\E i \in 1..(Len(x) - Len(e)) : x[i] = "a0") /\ (CU(e) => K(e).dt)
\* construction from const x& and from x&&
CopyC(x) == IF IsVoid(x) \/ IsFn(x) \/ IsArray(x) THEN 0
            ELSE IF Is(x, {"l"}) THEN 3 ELSE IF Is(x, {"r"}) THEN (IF IsFn(Tail(x)) THEN 3 ELSE 0)
            ELSE IF IsScalar(x) THEN 3 ELSE IF IsVol(x) THEN 0 ELSE K(x).cpy
MoveC(x) == IF IsVoid(x) \/ IsFn(x) \/ IsArray(x) THEN 0
            ELSE IF IsRef(x) THEN 3
            ELSE IF IsScalar(x) THEN 3 ELSE IF IsVol(x) THEN 0 ELSE IF IsConst(x) THEN K(x).cpy ELSE K(x).mov
\* assignment to an lvalue x from a lvalue or an rvalue of its type
FromL(x) == IF IsVoid(x) \/ IsFn(x) \/ IsArray(x) \/ IsConst(x) THEN 0 ELSE IF IsScalar(x) THEN 3 ELSE IF IsVol(x) THEN 0 ELSE K(x).cas
FromR(x) == IF IsVoid(x) \/ IsFn(x) \/ IsArray(x) \/ IsConst(x) THEN 0 ELSE IF IsScalar(x) THEN 3 ELSE IF IsVol(x) THEN 0 ELSE K(x).mas
CopyA(x) == FromL(RemoveRef(x))
MoveA(x) == IF Is(x, {"l"}) THEN FromL(Tail(x)) ELSE FromR(RemoveRef(x))
\* ------------------------------------------------------------ everything about one type
Row(x) == [is_void |-> IsVoid(x), is_integral |-> IsIntegral(x), is_floating_point |-> IsFloating(x), is_arithmetic |-> IsArith(x),
           is_array |-> IsArray(x), is_pointer |-> IsPtr(x), is_lvalue_reference |-> Is(x, {"l"}), is_rvalue_reference |-> Is(x, {"r"}),
           is_reference |-> IsRef(x), is_const |-> IsConst(x), is_function |-> IsFn(x), is_member_pointer |-> IsMem(x),
           is_member_function_pointer |-> IsMemFn(x), is_enum |-> IsEnum(x), is_union |-> IsUnion(x), is_class |-> IsClass(x),
           is_scalar |-> IsScalar(x), is_object |-> IsObject(x),
           is_signed |-> In(x, SignedInt \cup Floating), is_unsigned |-> IsIntegral(x) /\ ~In(x, SignedInt),
           is_abstract |-> CU(x) /\ K(x).ab, is_final |-> CU(x) /\ K(x).fin, is_empty |-> CU(x) /\ K(x).emp,
           is_destructible |-> Destructible(x),
           is_default_constructible |-> Default(x) > 0, is_copy_constructible |-> CopyC(x) > 0, is_move_constructible |-> MoveC(x) > 0,
           is_copy_assignable |-> CopyA(x) > 0, is_move_assignable |-> MoveA(x) > 0,
           is_nothrow_default_constructible |-> Default(x) > 1, is_nothrow_copy_constructible |-> CopyC(x) > 1,
           is_nothrow_move_constructible |-> MoveC(x) > 1, is_nothrow_copy_assignable |-> CopyA(x) > 1, is_nothrow_move_assignable |-> MoveA(x) > 1,
           is_trivially_default_constructible |-> Default(x) > 2, is_trivially_copy_constructible |-> CopyC(x) > 2,
           is_trivially_move_constructible |-> MoveC(x) > 2,
           remove_const |-> RemoveC(x), remove_volatile |-> RemoveV(x), remove_cv |-> RemoveCV(x), remove_reference |-> RemoveRef(x),
           remove_extent |-> RemoveExt(x), remove_all_extents |-> RemoveAllExt(x), add_const |-> AddC(x), add_pointer |-> AddP(x),
           add_lvalue_reference |-> AddL(x), add_rvalue_reference |-> AddR(x), decay |-> Decay(x)]
\* ------------------------------------------------------------ aligned_storage<n, k>; k = 0 stands for the default
Alignments == {1, 2, 4, 8, 16}      \* of the scalar types, each as large as it is aligned
DefaultAlign(n) == CHOOSE a \in Alignments : a <= n /\ \A b \in Alignments : b <= n => b <= a
StoreOK(n, k, size, align) == align = (IF k = 0 THEN DefaultAlign(n) ELSE k) /\ size >= n /\ size % align = 0
\* ------------------------------------------------------------ building types
Complete(x) == U(x) # <<"Inc">>
Can(k, x) ==
    CASE k \in {"c", "v"} -> ~IsRef(x) /\ ~IsFn(x) /\ (k = "c" => ~IsConst(x)) /\ (k = "v" => ~IsVol(x))
      [] k = "p"  -> ~IsRef(x)
      [] k \in {"l", "r"} -> ~IsRef(x) /\ ~IsVoid(x)
      [] k \in {"a0", "a2", "a3"} -> ~IsVoid(x) /\ ~IsRef(x) /\ ~IsFn(x) /\ ~Is(x, {"a0"}) /\ Complete(ElemOf(x)) /\ (CU(ElemOf(x)) => ~K(ElemOf(x)).ab /\ K(ElemOf(x)).dt)
      [] k \in {"f", "fi"} -> ~IsArray(x) /\ ~IsFn(x) /\ ~IsConst(x) /\ ~IsVol(x) /\ ~CU(x)
      [] k = "mo" -> ~IsVoid(x) /\ ~IsRef(x)
      [] k = "mc" -> ~IsArray(x) /\ ~IsFn(x) /\ ~IsConst(x) /\ ~IsVol(x) /\ ~CU(x)
Apply(k, x) == CASE k = "c" -> AddC(x) [] k = "v" -> AddV(x) [] k = "mc" -> <<"mo", "fc">> \o x [] OTHER -> <<k>> \o x
Constructors == {"c", "v", "p", "l", "r", "a0", "a2", "a3", "f", "fi", "mo", "mc"}
Init == t \in {<<b>> : b \in Roots} /\ d = 0 /\ ev = [op |-> "base"]
Next == \/ \E k \in Constructors : d < Depth /\ Can(k, t) /\ t' = Apply(k, t) /\ d' = d + 1 /\ ev' = [op |-> k]
Spec == Init /\ [][Next]_vars
View == t
\* ------------------------------------------------------------ what must hold of the definitions themselves
B(x) == IF x THEN 1 ELSE 0
\* every type is in exactly one primary category
OneCategory == B(IsVoid(t)) + B(IsIntegral(t)) + B(IsFloating(t)) + B(IsArray(t)) + B(IsPtr(t)) + B(Is(t, {"l"})) + B(Is(t, {"r"})) + B(IsFn(t))
               + B(IsMem(t)) + B(IsEnum(t)) + B(IsUnion(t)) + B(IsClass(t)) = 1
Composite == IsObject(t) <=> (IsScalar(t) \/ IsArray(t) \/ IsUnion(t) \/ IsClass(t))
Idempotent == /\ RemoveCV(RemoveCV(t)) = RemoveCV(t) /\ Decay(Decay(t)) = Decay(t) /\ RemoveRef(RemoveRef(t)) = RemoveRef(t)
              /\ AddC(AddC(t)) = AddC(t) /\ AddL(AddL(t)) = AddL(t) /\ AddR(AddR(t)) = AddR(t)
Undoing == /\ ~IsRef(t) => RemoveRef(AddL(t)) = t /\ RemoveRef(AddR(t)) = t
           /\ ~IsRef(t) => Tail(AddP(t)) = t \/ Is(t, {"fc"})
           /\ RemoveC(AddC(t)) = RemoveC(t) /\ ~(IsConst(RemoveCV(t)) \/ IsVol(RemoveCV(t)))
CollapsesReferences == Is(AddL(AddR(t)), {"l"}) \/ NoRefTo(t)
Decayed == LET y == Decay(t) IN ~(IsRef(y) \/ IsArray(y) \/ (IsFn(y) /\ ~Is(y, {"fc"})) \/ IsConst(y) \/ IsVol(y))
Ordered == /\ CopyC(t) > 0 => MoveC(t) > 0
           /\ Default(t) > 0 => Destructible(t)
           /\ (CopyC(t) > 0 \/ MoveC(t) > 0) => Destructible(t)
Emit == PrintT(ToJson([to |-> t', res |-> Row(t')]))
EmitAll == PrintT(ToJson([to |-> t, res |-> Row(t)]))
=============================================================================
