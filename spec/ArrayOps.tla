------------------------------ MODULE ArrayOps ------------------------------
(* Array.prototype's methods (ECMA-262 23.1.3), Array.from and Array.of as algorithms over the      *)
(* internal methods of Objects.tla: every [[Get]], [[HasProperty]], [[Set]], [[Delete]] and          *)
(* [[DefineOwnProperty]] they make is seen by proxies and accessors.                                 *)
(* Further values: <<"i", int>> (an integer argument), <<"c", id>> (a constructor returning object   *)
(* id), <<"vd", int, op>> (an object whose valueOf performs op and returns int), <<"vt">> (whose     *)
(* valueOf throws).  Lengths above Top are outside the model: the outcome is then throw "skip" and   *)
(* the rest of the history is not compared.                                                          *)
EXTENDS Objects

Top == 32
K(i) == SmallIdx[i]
O(i) == <<"o", i>>
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Bind(a, F(_, _)) == IF Bad(a) THEN a ELSE F(a.s, a.r[2])
Skip(s) == Thr(s, "skip")
NumV(i) == IF i >= 0 THEN N(i) ELSE <<"x", ToString(i)>>
Norm(v) == IF v[1] = "i" THEN NumV(v[2]) ELSE v
Arg(x, i) == IF i <= Len(x.a) THEN x.a[i] ELSE U
IsObjV(v) == v[1] \in {"o", "f", "c", "v"}

(* ------------------------------------------------------------ conversions *)
XInt == ("Infinity" :> 100000) @@ ("-Infinity" :> -100000) @@ ("NaN" :> 0) @@ ("1.5" :> 1) @@ ("-1.5" :> -1) @@ ("-1" :> -1)
        @@ ("-0" :> 0) @@ ("-2" :> -2) @@ ("-3" :> -3) @@ ("-4" :> -4) @@ ("-5" :> -5) @@ ("-7" :> -7) @@ ("4294967296" :> 100000)
NSmall(n) == IF n > MinV + 100000 THEN 100000 ELSE n - MinV
ToInt(s, v) ==
    CASE v[1] = "i" -> Ok(s, v[2])
      [] v[1] \in {"u", "l"} -> Ok(s, 0)
      [] v[1] = "b" -> Ok(s, IF v[2] THEN 1 ELSE 0)
      [] v[1] = "x" -> IF v[2] \in DOMAIN XInt THEN Ok(s, XInt[v[2]]) ELSE Skip(s)
      [] v[1] = "n" -> Ok(s, NSmall(v[2]))
      [] v[1] = "s" -> IF v[2] \in SmallSet THEN Ok(s, SmallOf[v[2]])
                       ELSE IF v[2] \in {"", "a", "b", "c", "x", "aa", "ab"} THEN Ok(s, 0) ELSE Skip(s)
      [] v[1] = "v" -> Ok(Log(s, <<"valueOf">>), NSmall(v[2]))
      [] v[1] = "vd" -> LET a == Do([Log(s, <<"valueOf">>) EXCEPT !.dp = @ + 1], v[3])
                        IN IF Bad(a) THEN [a EXCEPT !.s.dp = s.dp] ELSE Ok([a.s EXCEPT !.dp = s.dp], v[2])
      [] v[1] = "vt" -> Thr(Log(s, <<"valueOf">>), "vt")
      [] v[1] = "y" -> Thr(s, "TypeError")
      [] OTHER -> Skip(s)
\* a relative index clamped to 0..len
Rel(n, len) == IF n < 0 THEN MaxI(len + n, 0) ELSE MinI(n, len)
RelArg(s, v, len, dflt) == IF v = U THEN Ok(s, dflt) ELSE Bind(ToInt(s, v), LAMBDA s1, n : Ok(s1, Rel(n, len)))
ToStr(s, v) ==
    CASE v[1] \in {"u", "l"} -> Ok(s, "")
      [] v[1] = "n" -> IF v[2] > MinV + 100000 THEN Skip(s) ELSE Ok(s, ToString(v[2] - MinV))
      [] v[1] = "x" -> Ok(s, IF v[2] = "-0" THEN "0" ELSE v[2])
      [] v[1] = "s" -> Ok(s, v[2])
      [] v[1] = "b" -> Ok(s, IF v[2] THEN "true" ELSE "false")
      [] v[1] = "y" -> Thr(s, "TypeError")
      [] v[1] = "v" -> Ok(s, "[object Object]")
      [] OTHER -> Skip(s)
IsNaNV(v) == v = <<"x", "NaN">>
Z(v) == IF v = <<"x", "-0">> THEN N(0) ELSE v
StrictEq(a, b) == ~IsNaNV(a) /\ Z(a) = Z(b)
SameZero(a, b) == Z(a) = Z(b)

(* ------------------------------------------------------------ properties *)
GetI(s, o, i) == GetP(s, o, K(i), O(o))
HasI(s, o, i) == HasP(s, o, K(i))
PutP(s, o, key, v) == MustR(SetP(s, o, key, v, O(o)), U)
PutI(s, o, i, v) == IF i > 40 THEN Skip(s) ELSE PutP(s, o, K(i), v)
DelI(s, o, i) == MustR(Delete(s, o, K(i)), U)
CreateI(s, o, i, v) == IF i > 40 THEN Skip(s) ELSE MustR(DefOwn(s, o, K(i), DataPd(v)), U)
PutLen(s, o, n) == PutP(s, o, "length", N(n))
LenOf(s, o) == Bind(GetP(s, o, "length", O(o)),
                    LAMBDA s1, v : Bind(ToInt(s1, v), LAMBDA s2, n : IF n > Top THEN Skip(s2) ELSE Ok(s2, MaxI(n, 0))))
RECURSIVE IsArr(_, _)
IsArr(s, o) == IF s.h[o].k = "arr" THEN Ok(s, TRUE) ELSE IF s.h[o].k # "proxy" THEN Ok(s, FALSE)
               ELSE IF s.h[o].rv THEN Thr(s, "TypeError") ELSE IsArr(s, s.h[o].t)
IsArrV(s, v) == IF v[1] = "o" THEN IsArr(s, v[2]) ELSE Ok(s, FALSE)
NewArr(s, n) == LET a == NewObj("arr", 0)
                IN Ok([s EXCEPT !.h = Append(@, [a EXCEPT !.ps["length"] = Data(N(n), TRUE, FALSE, FALSE)])], Len(s.h) + 1)
Construct(s, c, args) == Ok(Log(s, <<"construct", c[2]>> \o args), c[2])
Species(s, o, n) ==
    Bind(IsArr(s, o), LAMBDA s1, a :
      IF ~a THEN NewArr(s1, n)
      ELSE Bind(GetP(s1, o, "constructor", O(o)), LAMBDA s2, c0 :
             Bind(CASE c0[1] = "o" -> GetP(s2, c0[2], "@@species", c0)
                    [] c0[1] \in {"c", "f", "v"} -> Ok(s2, U)
                    [] OTHER -> Ok(s2, IF c0[1] = "l" THEN <<"bad">> ELSE c0),
                  LAMBDA s3, c :
                    IF c[1] \in {"u", "l"} THEN NewArr(s3, n)
                    ELSE IF c[1] = "c" THEN Construct(s3, c, <<N(n)>>)
                    ELSE Thr(s3, "TypeError"))))

(* ------------------------------------------------------------ callbacks *)
\* x.cb = [b: values returned in turn, t: throws at that call, d: performs op at that call, op, th: thisArg, bad: no function]
CB(s, x, th, args) ==
    LET s1 == Log([s EXCEPT !.cn = @ + 1], <<"cb", th>> \o args)
    IN IF s1.cn = x.cb.t THEN Thr(s1, "cb")
       ELSE LET a == IF s1.cn = x.cb.d THEN Do([s1 EXCEPT !.dp = @ + 1], x.cb.op) ELSE Ok(s1, U)
                s2 == [a.s EXCEPT !.dp = s.dp]
            IN IF Bad(a) THEN [a EXCEPT !.s = s2] ELSE Ok(s2, x.cb.b[((s1.cn - 1) % Len(x.cb.b)) + 1])

Down == {"findLast", "findLastIndex", "reduceRight"}
Finds == {"find", "findIndex", "findLast", "findLastIndex"}
Reduces == {"reduce", "reduceRight"}
RECURSIVE Each(_, _, _, _, _)
EachEnd(s, x, acc) ==
    CASE x.m \in {"forEach", "find", "findLast"} -> Ok(s, U)
      [] x.m = "every" -> Ok(s, B(TRUE))
      [] x.m = "some" -> Ok(s, B(FALSE))
      [] x.m \in {"findIndex", "findLastIndex"} -> Ok(s, NumV(-1))
      [] x.m = "map" -> Ok(s, O(acc))
      [] x.m = "filter" -> Ok(s, O(acc[1]))
      [] x.m \in Reduces -> IF acc = <<>> THEN Thr(s, "TypeError") ELSE Ok(s, acc[1])
EachStep(s, x, p, i, len, acc, v) ==
    Bind(CB(s, x, IF x.m \in Reduces THEN U ELSE x.cb.th, (IF x.m \in Reduces THEN acc ELSE <<>>) \o <<v, N(i), O(x.o)>>),
         LAMBDA s1, r :
           CASE x.m = "every" -> IF Truthy(r) THEN Each(s1, x, p + 1, len, acc) ELSE Ok(s1, B(FALSE))
             [] x.m = "some" -> IF Truthy(r) THEN Ok(s1, B(TRUE)) ELSE Each(s1, x, p + 1, len, acc)
             [] x.m = "forEach" -> Each(s1, x, p + 1, len, acc)
             [] x.m \in {"find", "findLast"} -> IF Truthy(r) THEN Ok(s1, v) ELSE Each(s1, x, p + 1, len, acc)
             [] x.m \in {"findIndex", "findLastIndex"} -> IF Truthy(r) THEN Ok(s1, N(i)) ELSE Each(s1, x, p + 1, len, acc)
             [] x.m = "map" -> Bind(CreateI(s1, acc, i, r), LAMBDA s2, y : Each(s2, x, p + 1, len, acc))
             [] x.m = "filter" -> IF ~Truthy(r) THEN Each(s1, x, p + 1, len, acc)
                                  ELSE Bind(CreateI(s1, acc[1], acc[2], v), LAMBDA s2, y : Each(s2, x, p + 1, len, <<acc[1], acc[2] + 1>>))
             [] x.m \in Reduces -> Each(s1, x, p + 1, len, <<r>>))
Each(s, x, p, len, acc) ==
    IF p >= len THEN EachEnd(s, x, acc)
    ELSE LET i == IF x.m \in Down THEN len - 1 - p ELSE p
         IN Bind(IF x.m \in Finds THEN Ok(s, TRUE) ELSE HasI(s, x.o, i),
                 LAMBDA s1, h : IF ~h THEN Each(s1, x, p + 1, len, acc)
                                ELSE Bind(GetI(s1, x.o, i), LAMBDA s2, v :
                                       IF x.m \in Reduces /\ acc = <<>> THEN Each(s2, x, p + 1, len, <<v>>)
                                       ELSE EachStep(s2, x, p, i, len, acc, v)))
EachM(s, x) ==
    Bind(LenOf(s, x.o), LAMBDA s1, len :
      IF x.cb.bad THEN Thr(s1, "TypeError")
      ELSE IF x.m = "map" THEN Bind(Species(s1, x.o, len), LAMBDA s2, a : Each(s2, x, 0, len, a))
      ELSE IF x.m = "filter" THEN Bind(Species(s1, x.o, 0), LAMBDA s2, a : Each(s2, x, 0, len, <<a, 0>>))
      ELSE Each(s1, x, 0, len, IF x.m \in Reduces THEN [j \in 1..Len(x.a) |-> Norm(x.a[j])] ELSE <<>>))

(* ------------------------------------------------------------ moving elements *)
\* move one element: [[Has]](from) then Get and Set, else Delete
Move(s, o, from, to) ==
    IF to > 40 \/ from > 40 THEN Skip(s)
    ELSE Bind(HasI(s, o, from), LAMBDA s1, h :
           IF h THEN Bind(GetI(s1, o, from), LAMBDA s2, v : PutI(s2, o, to, v)) ELSE DelI(s1, o, to))
RECURSIVE Moves(_, _, _, _, _, _), Dels(_, _, _, _), Sets(_, _, _, _), Fill(_, _, _, _, _), CopyTo(_, _, _, _, _, _), CopyAll(_, _, _, _, _),
          Rev(_, _, _, _), Find(_, _, _, _, _), Joins(_, _, _, _, _, _), Cat(_, _, _, _), CatEls(_, _, _, _, _, _),
          Flat(_, _, _, _, _, _, _, _), Collect(_, _, _, _, _, _), FromLike(_, _, _, _, _), OfEls(_, _, _, _)
\* n moves starting at from/to, stepping d
Moves(s, o, from, to, n, d) == IF n <= 0 THEN Ok(s, U) ELSE Bind(Move(s, o, from, to), LAMBDA s1, y : Moves(s1, o, from + d, to + d, n - 1, d))
\* delete indices from-1 down to `to`
Dels(s, o, from, to) == IF from <= to THEN Ok(s, U) ELSE Bind(DelI(s, o, from - 1), LAMBDA s1, y : Dels(s1, o, from - 1, to))
Sets(s, o, i, vs) == IF vs = <<>> THEN Ok(s, U) ELSE Bind(PutI(s, o, i, Norm(vs[1])), LAMBDA s1, y : Sets(s1, o, i + 1, Tail(vs)))
Fill(s, o, i, to, v) == IF i >= to THEN Ok(s, U) ELSE Bind(PutI(s, o, i, v), LAMBDA s1, y : Fill(s1, o, i + 1, to, v))
\* copy n existing elements of o from i to a at j (holes stay holes)
CopyTo(s, o, i, a, j, n) ==
    IF n <= 0 THEN Ok(s, U)
    ELSE Bind(HasI(s, o, i), LAMBDA s1, h :
           IF ~h THEN CopyTo(s1, o, i + 1, a, j + 1, n - 1)
           ELSE Bind(GetI(s1, o, i), LAMBDA s2, v : Bind(CreateI(s2, a, j, v), LAMBDA s3, y : CopyTo(s3, o, i + 1, a, j + 1, n - 1))))
\* the values of the listed indices, holes read through
CopyAll(s, o, idxs, a, j) ==
    IF idxs = <<>> THEN Ok(s, O(a))
    ELSE Bind(GetI(s, o, idxs[1]), LAMBDA s1, v : Bind(CreateI(s1, a, j, v), LAMBDA s2, y : CopyAll(s2, o, Tail(idxs), a, j + 1)))
Rev(s, o, lo, len) ==
    LET hi == len - 1 - lo
    IN IF lo >= len \div 2 THEN Ok(s, O(o))
       ELSE Bind(HasI(s, o, lo), LAMBDA s1, hl :
            Bind(IF hl THEN GetI(s1, o, lo) ELSE Ok(s1, U), LAMBDA s2, vl :
            Bind(HasI(s2, o, hi), LAMBDA s3, hh :
            Bind(IF hh THEN GetI(s3, o, hi) ELSE Ok(s3, U), LAMBDA s4, vh :
            Bind(CASE hl /\ hh -> Bind(PutI(s4, o, lo, vh), LAMBDA s5, y : PutI(s5, o, hi, vl))
                   [] ~hl /\ hh -> Bind(PutI(s4, o, lo, vh), LAMBDA s5, y : DelI(s5, o, hi))
                   [] hl /\ ~hh -> Bind(DelI(s4, o, lo), LAMBDA s5, y : PutI(s5, o, hi, vl))
                   [] OTHER -> Ok(s4, U),
                 LAMBDA s6, y : Rev(s6, o, lo + 1, len))))))
\* includes / indexOf / lastIndexOf over the listed indices
Find(s, o, m, v, idxs) ==
    IF idxs = <<>> THEN Ok(s, IF m = "includes" THEN B(FALSE) ELSE NumV(-1))
    ELSE Bind(IF m = "includes" THEN Ok(s, TRUE) ELSE HasI(s, o, idxs[1]), LAMBDA s1, h :
           IF ~h THEN Find(s1, o, m, v, Tail(idxs))
           ELSE Bind(GetI(s1, o, idxs[1]), LAMBDA s2, e :
                  IF m = "includes" /\ SameZero(e, v) THEN Ok(s2, B(TRUE))
                  ELSE IF m # "includes" /\ StrictEq(e, v) THEN Ok(s2, N(idxs[1]))
                  ELSE Find(s2, o, m, v, Tail(idxs))))
Joins(s, o, i, len, sep, acc) ==
    IF i >= len THEN Ok(s, <<"s", acc>>)
    ELSE Bind(GetI(s, o, i), LAMBDA s1, v : Bind(ToStr(s1, v), LAMBDA s2, t : Joins(s2, o, i + 1, len, sep, acc \o (IF i > 0 THEN sep ELSE "") \o t)))
CatEls(s, e, i, len, a, n) ==
    IF i >= len THEN Ok(s, n + len)
    ELSE Bind(HasI(s, e, i), LAMBDA s1, h :
           IF ~h THEN CatEls(s1, e, i + 1, len, a, n)
           ELSE Bind(GetI(s1, e, i), LAMBDA s2, v : Bind(CreateI(s2, a, n + i, v), LAMBDA s3, y : CatEls(s3, e, i + 1, len, a, n))))
Spreadable(s, v) == IF v[1] # "o" THEN Ok(s, FALSE)
                    ELSE Bind(GetP(s, v[2], "@@isConcatSpreadable", v), LAMBDA s1, f : IF f # U THEN Ok(s1, Truthy(f)) ELSE IsArr(s1, v[2]))
Cat(s, items, a, n) ==
    IF items = <<>> THEN (IF n > 40 THEN Skip(s) ELSE Bind(PutLen(s, a, n), LAMBDA s1, y : Ok(s1, O(a))))
    ELSE Bind(Spreadable(s, items[1]), LAMBDA s1, sp :
           IF sp THEN Bind(LenOf(s1, items[1][2]), LAMBDA s2, len :
                        IF n + len > 40 THEN Skip(s2)
                        ELSE Bind(CatEls(s2, items[1][2], 0, len, a, n), LAMBDA s3, n2 : Cat(s3, Tail(items), a, n2)))
           ELSE Bind(CreateI(s1, a, n, Norm(items[1])), LAMBDA s2, y : Cat(s2, Tail(items), a, n + 1)))
\* FlattenIntoArray: t target id, o source, mp: use the callback
Flat(s, x, t, o, i, len, tgt, depth) ==      \* tgt: next target index; returns it
    IF i >= len THEN Ok(s, tgt)
    ELSE Bind(HasI(s, o, i), LAMBDA s1, h :
           IF ~h THEN Flat(s1, x, t, o, i + 1, len, tgt, depth)
           ELSE Bind(GetI(s1, o, i), LAMBDA s2, v0 :
                Bind(IF depth = -1 THEN CB(s2, x, x.cb.th, <<v0, N(i), O(o)>>) ELSE Ok(s2, v0), LAMBDA s3, v :
                Bind(IF depth = 0 THEN Ok(s3, FALSE) ELSE IsArrV(s3, v), LAMBDA s4, fl :
                  IF fl THEN Bind(LenOf(s4, v[2]), LAMBDA s5, l2 :
                               Bind(Flat(s5, x, t, v[2], 0, l2, tgt, IF depth = -1 THEN 0 ELSE depth - 1),
                                    LAMBDA s6, t2 : Flat(s6, x, t, o, i + 1, len, t2, depth)))
                  ELSE Bind(CreateI(s4, t, tgt, v), LAMBDA s5, y : Flat(s5, x, t, o, i + 1, len, tgt + 1, depth))))))
\* the values to sort
Collect(s, o, i, len, holes, acc) ==
    IF i >= len THEN Ok(s, acc)
    ELSE Bind(IF holes THEN Ok(s, TRUE) ELSE HasI(s, o, i), LAMBDA s1, h :
           IF ~h THEN Collect(s1, o, i + 1, len, holes, acc)
           ELSE Bind(GetI(s1, o, i), LAMBDA s2, v : Collect(s2, o, i + 1, len, holes, Append(acc, v))))
FromLike(s, x, o, a, i) ==       \* i: <<index, len>>
    IF i[1] >= i[2] THEN Bind(PutLen(s, a, i[2]), LAMBDA s1, y : Ok(s1, O(a)))
    ELSE Bind(GetI(s, o, i[1]), LAMBDA s1, v :
         Bind(IF x.map THEN CB(s1, x, x.cb.th, <<v, N(i[1])>>) ELSE Ok(s1, v), LAMBDA s2, w :
         Bind(CreateI(s2, a, i[1], w), LAMBDA s3, y : FromLike(s3, x, o, a, <<i[1] + 1, i[2]>>))))
OfEls(s, a, i, vs) == IF i > Len(vs) THEN Bind(PutLen(s, a, Len(vs)), LAMBDA s1, y : Ok(s1, O(a)))
                      ELSE Bind(CreateI(s, a, i - 1, Norm(vs[i])), LAMBDA s1, y : OfEls(s1, a, i + 1, vs))

(* ------------------------------------------------------------ sorting *)
Chars == "-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ[]abcdefghijklmnopqrstuvwxyz "
CharAt(t, i) == SubSeq(t, i, i)
CharRank == [c \in {CharAt(Chars, i) : i \in 1..Len(Chars)} |-> IF c = " " THEN 0 ELSE CHOOSE i \in 1..Len(Chars) : CharAt(Chars, i) = c]
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                 ELSE IF CharAt(a, i) = CharAt(b, i) THEN Less(a, b, i + 1)
                 ELSE CharRank[CharAt(a, i)] < CharRank[CharAt(b, i)]
\* what the comparators of the driver compare
Weight(v, div) ==
    CASE v[1] = "n" -> (NSmall(v[2])) \div div
      [] v[1] = "s" -> Len(v[2])
      [] v[1] = "b" -> IF v[2] THEN 1 ELSE 0
      [] v[1] = "o" -> v[2]
      [] v[1] = "x" -> 5
      [] OTHER -> 0
Seqn(n) == [i \in 1..n |-> i]
\* x.cmp = <<kind, div, sign>>; kind: "none" (default order) "num" "throw" "bad"
SortVals(s, x, vs) ==
    LET def == SelectSeq(vs, LAMBDA v : v # U)
        und == SelectSeq(vs, LAMBDA v : v = U)
        k == x.cmp[1]
        strs == [i \in 1..Len(def) |-> ToStr(s, IF def[i][1] = "l" THEN <<"s", "null">> ELSE def[i])]
        ord == SetToSortSeq(1..Len(def), LAMBDA i, j :
                  IF k = "none" THEN Less(Val(strs[i]), Val(strs[j]), 1) \/ (Val(strs[i]) = Val(strs[j]) /\ i < j)
                  ELSE LET wi == Weight(def[i], x.cmp[2]) * x.cmp[3]
                           wj == Weight(def[j], x.cmp[2]) * x.cmp[3]
                       IN wi < wj \/ (wi = wj /\ i < j))
    IN IF Len(def) > 1 /\ k = "throw" THEN Thr(s, "cb")
       ELSE IF k = "none" /\ \E i \in 1..Len(def) : Bad(strs[i]) /\ strs[i].r[2] = "skip" THEN Skip(s)
       ELSE IF k = "none" /\ Len(def) > 1 /\ \E i \in 1..Len(def) : Bad(strs[i]) THEN Thr(s, "TypeError")
       ELSE IF Len(def) < 2 THEN Ok(s, def \o und)
       ELSE Ok(s, [i \in 1..Len(def) |-> def[ord[i]]] \o und)
RECURSIVE DelRest(_, _, _, _)
DelRest(s, o, i, len) == IF i >= len THEN Ok(s, O(o)) ELSE Bind(DelI(s, o, i), LAMBDA s1, y : DelRest(s1, o, i + 1, len))

(* ------------------------------------------------------------ the methods *)
Upto(a, b) == [j \in 1..MaxI(b - a, 0) |-> a + j - 1]             \* a .. b-1
DownFrom(a) == [j \in 1..MaxI(a + 1, 0) |-> a - j + 1]            \* a .. 0
Pos(s, v, len) == Bind(ToInt(s, v), LAMBDA s1, n : Ok(s1, IF n >= 0 THEN n ELSE len + n))
WithLen(s, x, F(_, _)) == Bind(LenOf(s, x.o), F)
Clamp(n, hi) == MinI(MaxI(n, 0), hi)

AtM(s, x) == WithLen(s, x, LAMBDA s1, len : Bind(Pos(s1, Arg(x, 1), len), LAMBDA s2, k : IF k < 0 \/ k >= len THEN Ok(s2, U) ELSE GetI(s2, x.o, k)))
CopyWithinM(s, x) ==
    WithLen(s, x, LAMBDA s1, len :
      Bind(RelArg(s1, Arg(x, 1), len, 0), LAMBDA s2, to :
      Bind(RelArg(s2, Arg(x, 2), len, 0), LAMBDA s3, from :
      Bind(RelArg(s3, Arg(x, 3), len, len), LAMBDA s4, fin :
        LET n == MinI(fin - from, len - to)
        IN Bind(IF from < to /\ to < from + n THEN Moves(s4, x.o, from + n - 1, to + n - 1, n, -1) ELSE Moves(s4, x.o, from, to, n, 1),
                LAMBDA s5, y : Ok(s5, O(x.o)))))))
FillM(s, x) ==
    WithLen(s, x, LAMBDA s1, len :
      Bind(RelArg(s1, Arg(x, 2), len, 0), LAMBDA s2, k :
      Bind(RelArg(s2, Arg(x, 3), len, len), LAMBDA s3, fin :
      Bind(Fill(s3, x.o, k, fin, Norm(Arg(x, 1))), LAMBDA s4, y : Ok(s4, O(x.o))))))
FindM(s, x) ==
    WithLen(s, x, LAMBDA s1, len :
      IF len = 0 THEN Ok(s1, IF x.m = "includes" THEN B(FALSE) ELSE NumV(-1))
      ELSE IF x.m = "lastIndexOf"
           THEN Bind(IF Len(x.a) > 1 THEN ToInt(s1, x.a[2]) ELSE Ok(s1, len - 1), LAMBDA s2, n :
                  Find(s2, x.o, x.m, Norm(Arg(x, 1)), DownFrom(IF n >= 0 THEN MinI(n, len - 1) ELSE len + n)))
      ELSE Bind(RelArg(s1, Arg(x, 2), len, 0), LAMBDA s2, k : Find(s2, x.o, x.m, Norm(Arg(x, 1)), Upto(k, len))))
JoinM(s, x) == WithLen(s, x, LAMBDA s1, len :
                 Bind(IF Arg(x, 1) = U THEN Ok(s1, ",") ELSE ToStr(s1, IF Arg(x, 1)[1] = "l" THEN <<"s", "null">> ELSE Norm(Arg(x, 1))),
                      LAMBDA s2, sep : Joins(s2, x.o, 0, len, sep, "")))
PushM(s, x) == WithLen(s, x, LAMBDA s1, len :
                 Bind(Sets(s1, x.o, len, x.a), LAMBDA s2, y : Bind(PutLen(s2, x.o, len + Len(x.a)), LAMBDA s3, z : Ok(s3, N(len + Len(x.a))))))
PopM(s, x) == WithLen(s, x, LAMBDA s1, len :
                IF len = 0 THEN Bind(PutLen(s1, x.o, 0), LAMBDA s2, y : Ok(s2, U))
                ELSE Bind(GetI(s1, x.o, len - 1), LAMBDA s2, v :
                     Bind(DelI(s2, x.o, len - 1), LAMBDA s3, y : Bind(PutLen(s3, x.o, len - 1), LAMBDA s4, z : Ok(s4, v)))))
ShiftM(s, x) == WithLen(s, x, LAMBDA s1, len :
                  IF len = 0 THEN Bind(PutLen(s1, x.o, 0), LAMBDA s2, y : Ok(s2, U))
                  ELSE Bind(GetI(s1, x.o, 0), LAMBDA s2, v :
                       Bind(Moves(s2, x.o, 1, 0, len - 1, 1), LAMBDA s3, y :
                       Bind(DelI(s3, x.o, len - 1), LAMBDA s4, w : Bind(PutLen(s4, x.o, len - 1), LAMBDA s5, z : Ok(s5, v))))))
UnshiftM(s, x) == WithLen(s, x, LAMBDA s1, len :
                    LET c == Len(x.a)
                    IN Bind(IF c = 0 THEN Ok(s1, U)
                            ELSE Bind(Moves(s1, x.o, len - 1, len + c - 1, len, -1), LAMBDA s2, y : Sets(s2, x.o, 0, x.a)),
                            LAMBDA s3, y : Bind(PutLen(s3, x.o, len + c), LAMBDA s4, z : Ok(s4, N(len + c)))))
SliceM(s, x) ==
    WithLen(s, x, LAMBDA s1, len :
      Bind(RelArg(s1, Arg(x, 1), len, 0), LAMBDA s2, k :
      Bind(RelArg(s2, Arg(x, 2), len, len), LAMBDA s3, fin :
        LET n == MaxI(fin - k, 0)
        IN Bind(Species(s3, x.o, n), LAMBDA s4, a :
           Bind(CopyTo(s4, x.o, k, a, 0, n), LAMBDA s5, y : Bind(PutLen(s5, a, n), LAMBDA s6, z : Ok(s6, O(a))))))))
SpliceArgs(s, x, len, k) == CASE Len(x.a) = 0 -> Ok(s, 0) [] Len(x.a) = 1 -> Ok(s, len - k)
                              [] OTHER -> Bind(ToInt(s, x.a[2]), LAMBDA s1, n : Ok(s1, Clamp(n, len - k)))
Items(x) == IF Len(x.a) < 3 THEN <<>> ELSE SubSeq(x.a, 3, Len(x.a))
SpliceM(s, x) ==
    WithLen(s, x, LAMBDA s1, len :
      Bind(RelArg(s1, Arg(x, 1), len, 0), LAMBDA s2, k :
      Bind(SpliceArgs(s2, x, len, k), LAMBDA s3, dc :
      Bind(Species(s3, x.o, dc), LAMBDA s4, a :
      Bind(CopyTo(s4, x.o, k, a, 0, dc), LAMBDA s5, y5 :
      Bind(PutLen(s5, a, dc), LAMBDA s6, y6 :
        LET ic == Len(Items(x))
        IN Bind(CASE ic < dc -> Bind(Moves(s6, x.o, k + dc, k + ic, len - dc - k, 1), LAMBDA s7, y : Dels(s7, x.o, len, len - dc + ic))
                  [] ic > dc -> Moves(s6, x.o, len - 1, len - 1 - dc + ic, len - dc - k, -1)
                  [] OTHER -> Ok(s6, U),
                LAMBDA s8, y8 : Bind(Sets(s8, x.o, k, Items(x)), LAMBDA s9, y9 :
                                Bind(PutLen(s9, x.o, len - dc + ic), LAMBDA s10, z : Ok(s10, O(a)))))))))))
ToSplicedM(s, x) ==
    WithLen(s, x, LAMBDA s1, len :
      Bind(RelArg(s1, Arg(x, 1), len, 0), LAMBDA s2, k :
      Bind(SpliceArgs(s2, x, len, k), LAMBDA s3, dc :
        LET it == Items(x)
            n == len - dc + Len(it)
        IN IF n > 40 THEN Skip(s3)
           ELSE Bind(NewArr(s3, n), LAMBDA s4, a :
                Bind(CopyAll(s4, x.o, Upto(0, k), a, 0), LAMBDA s5, y :
                Bind(Sets(s5, a, k, it), LAMBDA s6, z :
                CopyAll(s6, x.o, Upto(k + dc, len), a, k + Len(it)))))))) 
ToReversedM(s, x) == WithLen(s, x, LAMBDA s1, len : Bind(NewArr(s1, len), LAMBDA s2, a : CopyAll(s2, x.o, DownFrom(len - 1), a, 0)))
WithM(s, x) ==
    WithLen(s, x, LAMBDA s1, len :
      Bind(Pos(s1, Arg(x, 1), len), LAMBDA s2, k :
        IF k < 0 \/ k >= len THEN Thr(s2, "RangeError")
        ELSE Bind(NewArr(s2, len), LAMBDA s3, a :
             Bind(CopyAll(s3, x.o, Upto(0, k), a, 0), LAMBDA s4, y :
             Bind(CreateI(s4, a, k, Norm(Arg(x, 2))), LAMBDA s5, z :
             CopyAll(s5, x.o, Upto(k + 1, len), a, k + 1))))))
ConcatM(s, x) == Bind(Species(s, x.o, 0), LAMBDA s1, a : Cat(s1, <<O(x.o)>> \o x.a, a, 0))
FlatM(s, x) ==
    WithLen(s, x, LAMBDA s1, len :
      IF x.m = "flatMap"
      THEN (IF x.cb.bad THEN Thr(s1, "TypeError")
            ELSE Bind(Species(s1, x.o, 0), LAMBDA s2, a : Bind(Flat(s2, x, a, x.o, 0, len, 0, -1), LAMBDA s3, y : Ok(s3, O(a)))))
      ELSE Bind(IF Arg(x, 1) = U THEN Ok(s1, 1) ELSE ToInt(s1, x.a[1]), LAMBDA s2, d :
           Bind(Species(s2, x.o, 0), LAMBDA s3, a : Bind(Flat(s3, x, a, x.o, 0, len, 0, MaxI(d, 0)), LAMBDA s4, y : Ok(s4, O(a))))))
SortM(s, x) ==
    IF x.cmp[1] = "bad" THEN Thr(s, "TypeError")
    ELSE WithLen(s, x, LAMBDA s1, len :
           IF x.m = "toSorted"
           THEN Bind(NewArr(s1, len), LAMBDA s2, a : Bind(Collect(s2, x.o, 0, len, TRUE, <<>>), LAMBDA s3, vs :
                Bind(SortVals(s3, x, vs), LAMBDA s4, ws : Bind(Sets(s4, a, 0, ws), LAMBDA s5, y : Ok(s5, O(a))))))
           ELSE Bind(Collect(s1, x.o, 0, len, FALSE, <<>>), LAMBDA s2, vs :
                Bind(SortVals(s2, x, vs), LAMBDA s3, ws :
                Bind(Sets(s3, x.o, 0, ws), LAMBDA s4, y : DelRest(s4, x.o, Len(ws), len)))))
FromM(s, x) ==       \* Array.from.call(x.c, o, callback?)
    IF x.map /\ x.cb.bad THEN Thr(s, "TypeError")
    ELSE Bind(GetP(s, x.o, "@@iterator", O(x.o)), LAMBDA s0, itf :
           IF itf[1] \notin {"u", "l"} THEN Skip(s0)
           ELSE WithLen(s0, x, LAMBDA s1, len :
                  Bind(IF x.c[1] = "c" THEN Construct(s1, x.c, <<N(len)>>) ELSE NewArr(s1, len), LAMBDA s2, a : FromLike(s2, x, x.o, a, <<0, len>>))))
OfM(s, x) == Bind(IF x.c[1] = "c" THEN Construct(s, x.c, <<N(Len(x.a))>>) ELSE NewArr(s, Len(x.a)), LAMBDA s1, a : OfEls(s1, a, 1, x.a))
RevM(s, x) == WithLen(s, x, LAMBDA s1, len : Rev(s1, x.o, 0, len))
IterNext(s, x) ==
    IF x.j > Len(s.it) THEN Ok(s, <<"none">>)
    ELSE LET it == s.it[x.j]
         IN IF it[1] = 0 THEN Ok(s, <<"done">>)
            ELSE Bind(LenOf(s, it[1]), LAMBDA s1, len :
                   IF it[3] >= len THEN Ok([s1 EXCEPT !.it[x.j][1] = 0], <<"done">>)
                   ELSE LET s2 == [s1 EXCEPT !.it[x.j][3] = @ + 1]
                        IN IF it[2] = "keys" THEN Ok(s2, <<"next", N(it[3])>>)
                           ELSE Bind(GetI(s2, it[1], it[3]), LAMBDA s3, v :
                                  Ok(s3, IF it[2] = "values" THEN <<"next", v>> ELSE <<"next", N(it[3]), v>>)))
Method(s, x) ==
    CASE x.m \in {"every", "some", "forEach", "find", "findIndex", "findLast", "findLastIndex", "map", "filter", "reduce", "reduceRight"} -> EachM(s, x)
      [] x.m = "at" -> AtM(s, x)
      [] x.m = "copyWithin" -> CopyWithinM(s, x)
      [] x.m = "fill" -> FillM(s, x)
      [] x.m \in {"includes", "indexOf", "lastIndexOf"} -> FindM(s, x)
      [] x.m = "join" -> JoinM(s, x)
      [] x.m = "push" -> PushM(s, x)
      [] x.m = "pop" -> PopM(s, x)
      [] x.m = "shift" -> ShiftM(s, x)
      [] x.m = "unshift" -> UnshiftM(s, x)
      [] x.m = "slice" -> SliceM(s, x)
      [] x.m = "splice" -> SpliceM(s, x)
      [] x.m = "toSpliced" -> ToSplicedM(s, x)
      [] x.m = "toReversed" -> ToReversedM(s, x)
      [] x.m = "reverse" -> RevM(s, x)
      [] x.m = "with" -> WithM(s, x)
      [] x.m = "concat" -> ConcatM(s, x)
      [] x.m \in {"flat", "flatMap"} -> FlatM(s, x)
      [] x.m \in {"sort", "toSorted"} -> SortM(s, x)
      [] x.m = "from" -> FromM(s, x)
      [] x.m = "of" -> OfM(s, x)
      [] x.m = "isArray" -> BoolR(IsArr(s, x.o))
      [] x.m = "iter" -> Ok([s EXCEPT !.it = Append(@, <<x.o, x.k, 0>>)], U)
      [] x.m = "next" -> IterNext(s, x)
(* ------------------------------------------------------------ sorting many elements; sorting typed arrays *)
BigVals(x) == [i \in 1..x.len |-> (x.p[1] * i * i + x.p[2] * i + x.p[3]) % x.p[4]]
InL(i, k) == k > 0 /\ i % k = 0                \* every k-th element
\* the original indices (0-based) in sorted order: compared elements, then undefined ones; holes are counted
SortBig(x) ==
    LET v == BigVals(x)
        hole == {i \in 1..x.len : InL(i, x.hole)}
        und == {i \in 1..x.len : InL(i, x.und)} \ hole
        w == [i \in 1..x.len |-> (v[i] \div x.div) * x.sg]
        low(i, j) == IF x.str THEN Less(ToString(v[i]), ToString(v[j]), 1) \/ (v[i] = v[j] /\ i < j) ELSE w[i] < w[j] \/ (w[i] = w[j] /\ i < j)
        def == SetToSortSeq((1..x.len) \ (hole \cup und), low)
    IN <<[i \in 1..Len(def) |-> IF x.str THEN v[def[i]] ELSE def[i] - 1], Cardinality(und), Cardinality(hole)>>
TaRank(v) == IF v = <<"x", "NaN">> THEN 3000003 ELSE IF v = <<"x", "Infinity">> THEN 3000002 ELSE IF v = <<"x", "-Infinity">> THEN -3000002
             ELSE IF v = <<"x", "-0">> THEN -1 ELSE IF v[2] >= 0 THEN 2 * v[2] ELSE 2 * v[2] - 1
TaSort(x) == LET r(i) == IF x.div = 0 THEN TaRank(x.a[i]) ELSE (x.a[i][2] \div x.div) * x.sg
                 ord == SetToSortSeq(1..Len(x.a), LAMBDA i, j : r(i) < r(j) \/ (r(i) = r(j) /\ i < j))
             IN [i \in 1..Len(x.a) |-> x.a[ord[i]]]
\* a comparator without any consistency: the outcome is some permutation of the elements that were there
SortAny(x) == <<"permutation", x.len>>

\* own enumerable properties and lengths of every object that is no proxy, as seen without running any code
DumpObj(ob) == IF ob.k = "proxy" THEN <<>>
               ELSE LET ks == SelectSeq(OrdKeys(ob), LAMBDA key : ~IsSym(key))
                    IN [i \in 1..Len(ks) |-> <<ks[i], IF ob.ps[ks[i]][1] = "d" THEN ob.ps[ks[i]][2] ELSE <<"acc">>>>]
DumpAll(s) == Ok(s, [i \in 1..Len(s.h) |-> DumpObj(s.h[i])])
AApply(x, s0) ==
    LET s == [s0 EXCEPT !.log = <<>>, !.dp = 0, !.cn = 0]
        a == IF x.n = "am" THEN Method(s, x) ELSE IF x.n = "dump" THEN DumpAll(s)
             ELSE IF x.n = "sortbig" THEN Ok(s, SortBig(x)) ELSE IF x.n = "tasort" THEN Ok(s, TaSort(x)) ELSE IF x.n = "sortany" THEN Ok(s, SortAny(x))
             ELSE Do(s, x)
        t == IF Bad(a) THEN [a.s EXCEPT !.h = SubSeq(@, 1, Len(s.h))] ELSE a.s
    IN [s |-> [t EXCEPT !.log = <<>>, !.dp = 0], r |-> [v |-> a.r, l |-> a.s.log]]

(* ------------------------------------------------------------ starting heaps: <<kind, proto, host, <<key, value>>...>> *)
RECURSIVE FillObj(_, _, _)
FillObj(s, o, kv) == IF kv = <<>> THEN s ELSE FillObj(DefOwn(s, o, kv[1][1], IF s.h[o].k = "arr" /\ kv[1][1] = "length" THEN ValPd(kv[1][2]) ELSE DataPd(kv[1][2])).s, o, Tail(kv))
RECURSIVE FillAll(_, _, _)
FillAll(s, c, i) == IF i > Len(c) THEN s ELSE FillAll(IF Len(c[i]) > 3 THEN FillObj(s, i, c[i][4]) ELSE s, c, i + 1)
AHeap(c) == LET s == Heap(c) IN FillAll([h |-> s.h, log |-> <<>>, dp |-> 0, cn |-> 0, it |-> <<>>], c, 1)
===========================================================================
