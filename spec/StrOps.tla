------------------------------- MODULE StrOps -------------------------------
(* String values as sequences of UTF-16 code units and String.prototype's methods on them           *)
(* (ECMA-262 6.1.4, 22.1).  A state is a list of strings made so far; each operation takes strings   *)
(* out of it and adds the strings it makes, so that every string has been built in some way.         *)
(* Arguments: <<"i", int>> <<"u">> <<"x", "Infinity" | "-Infinity" | "NaN" | "1.5" | "-1.5" | "-0">>. *)
EXTENDS Drv, Integers, FiniteSets, SequencesExt

Big == 100000000
XInt == ("Infinity" :> Big) @@ ("-Infinity" :> -Big) @@ ("NaN" :> 0) @@ ("1.5" :> 1) @@ ("-1.5" :> -1) @@ ("-0" :> 0)
I(v) == IF v[1] = "i" THEN v[2] ELSE IF v[1] = "x" THEN XInt[v[2]] ELSE 0
Has(x, i) == i <= Len(x.a) /\ x.a[i][1] # "u"
Arg(x, i) == IF i <= Len(x.a) THEN x.a[i] ELSE <<"u">>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(n, lo, hi) == Max2(lo, Min2(n, hi))
Sub(s, from, to) == IF to <= from THEN <<>> ELSE SubSeq(s, from + 1, to)      \* [from, to)
At(s, i) == s[i + 1]
S(s) == <<"s", s>>
Num(n) == <<"i", n>>
Bool(b) == <<"b", b>>
U == <<"u">>

MatchAt(s, t, p) == p >= 0 /\ p + Len(t) <= Len(s) /\ \A j \in 1..Len(t) : s[p + j] = t[j]
RECURSIVE IndexOf(_, _, _)
IndexOf(s, t, p) == IF p + Len(t) > Len(s) THEN -1 ELSE IF MatchAt(s, t, p) THEN p ELSE IndexOf(s, t, p + 1)
RECURSIVE LastIndexOf(_, _, _)
LastIndexOf(s, t, p) == IF p < 0 THEN -1 ELSE IF MatchAt(s, t, p) THEN p ELSE LastIndexOf(s, t, p - 1)
RECURSIVE LessS(_, _, _)
LessS(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                  ELSE IF a[i] = b[i] THEN LessS(a, b, i + 1) ELSE a[i] < b[i]
Hi(c) == c >= 55296 /\ c <= 56319
Lo(c) == c >= 56320 /\ c <= 57343
Pair(s, p) == p + 1 < Len(s) /\ Hi(At(s, p)) /\ Lo(At(s, p + 1))
CP(s, p) == IF Pair(s, p) THEN (At(s, p) - 55296) * 1024 + (At(s, p + 1) - 56320) + 65536 ELSE At(s, p)
RECURSIVE Points(_, _)
Points(s, p) == IF p >= Len(s) THEN <<>> ELSE IF Pair(s, p) THEN <<Sub(s, p, p + 2)>> \o Points(s, p + 2) ELSE <<Sub(s, p, p + 1)>> \o Points(s, p + 1)
Enc(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Lone(s, p) == (Hi(At(s, p)) /\ ~Pair(s, p)) \/ (Lo(At(s, p)) /\ ~(p > 0 /\ Pair(s, p - 1)))
White == {9, 10, 11, 12, 13, 32, 160, 5760, 8232, 8233, 8239, 8287, 12288, 65279} \cup (8192..8202)
RECURSIVE TrimL(_), TrimR(_), Rep(_, _), Pad(_, _), Split(_, _, _, _), Subst(_, _, _, _, _), RepAll(_, _, _, _, _)
TrimL(s) == IF s = <<>> THEN s ELSE IF s[1] \in White THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] \in White THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Pad(f, n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> f[((i - 1) % Len(f)) + 1]]
PadLen(x, s) == Max2(I(Arg(x, 1)) - Len(s), 0)
\* split at every occurrence of t (not empty), from p
Split(s, t, p, q) == LET k == IndexOf(s, t, p) IN IF k < 0 THEN <<Sub(s, p, Len(s))>> ELSE <<Sub(s, p, k)>> \o Split(s, t, k + Len(t), q)
Lim(l, n) == SubSeq(l, 1, Min2(Len(l), n))
Dollar == 36
\* GetSubstitution without captures: r is the template, match t at p of s
Subst(r, i, s, t, p) ==
    IF i > Len(r) THEN <<>>
    ELSE IF r[i] # Dollar \/ i = Len(r) THEN <<r[i]>> \o Subst(r, i + 1, s, t, p)
    ELSE CASE r[i + 1] = 36 -> <<36>> \o Subst(r, i + 2, s, t, p)
           [] r[i + 1] = 38 -> t \o Subst(r, i + 2, s, t, p)
           [] r[i + 1] = 96 -> Sub(s, 0, p) \o Subst(r, i + 2, s, t, p)
           [] r[i + 1] = 39 -> Sub(s, p + Len(t), Len(s)) \o Subst(r, i + 2, s, t, p)
           [] OTHER -> <<36>> \o Subst(r, i + 1, s, t, p)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>> ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
\* the replacement: a template or a function of match and position ("[" match position "]")
Repl(x, r, s, t, p) == IF x.fn THEN <<91>> \o t \o Digits(p) \o <<93>> ELSE Subst(r, 1, s, t, p)
\* replaceAll: e end of the last match, p next search position
RepAll(x, s, t, r, pe) ==
    LET k == IF pe[2] > Len(s) THEN -1 ELSE IndexOf(s, t, pe[2])
    IN IF k < 0 THEN Sub(s, pe[1], Len(s))
       ELSE Sub(s, pe[1], k) \o Repl(x, r, s, t, k) \o RepAll(x, s, t, r, <<k + Len(t), k + Max2(1, Len(t))>>)
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upp(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Ascii(s) == \A i \in 1..Len(s) : s[i] < 128
\* canonical array index?
IsIdxS(s) == Len(s) > 0 /\ Len(s) < 4 /\ (\A i \in 1..Len(s) : s[i] >= 48 /\ s[i] <= 57) /\ (Len(s) > 1 => s[1] # 48)
RECURSIVE ToIdx(_, _)
ToIdx(s, n) == IF s = <<>> THEN n ELSE ToIdx(Tail(s), n * 10 + s[1] - 48)
LengthU == <<108, 101, 110, 103, 116, 104>>

Str(st0, i) == st0.r[((i - 1) % Len(st0.r)) + 1]
Made(st0, s) == [s |-> IF Len(s) > 120 THEN st0 ELSE [st0 EXCEPT !.r = Append(@, s)], r |-> S(s)]
Seen(st0, v) == [s |-> st0, r |-> v]
RangeErr(st0) == Seen(st0, <<"throw", "RangeError">>)
SApply(x, t0) ==
    LET s == IF x.n = "lit" THEN x.u ELSE Str(t0, x.s)
        n == Len(s)
        t == IF "t" \in DOMAIN x THEN Str(t0, x.t) ELSE <<>>
        r == IF "v" \in DOMAIN x THEN Str(t0, x.v) ELSE <<>>
        rel(v) == IF I(v) < 0 THEN Max2(n + I(v), 0) ELSE Min2(I(v), n)
        p1 == Clamp(I(Arg(x, 1)), 0, n)
        from == rel(Arg(x, 1))
        fin == IF Has(x, 2) THEN rel(Arg(x, 2)) ELSE n
        e1 == IF Has(x, 2) THEN Clamp(I(Arg(x, 2)), 0, n) ELSE n
    IN CASE x.n = "lit" -> Made(t0, s)
         [] x.n \in {"plus", "concat", "tmpl", "join"} -> Made(t0, s \o t)
         [] x.n = "concat3" -> Made(t0, s \o t \o r)
         [] x.n = "slice" -> Made(t0, Sub(s, from, fin))
         [] x.n = "substring" -> Made(t0, Sub(s, Min2(p1, e1), Max2(p1, e1)))
         [] x.n = "substr" -> Made(t0, Sub(s, from, Min2(n, from + (IF Has(x, 2) THEN Clamp(I(Arg(x, 2)), 0, n) ELSE n))))
         [] x.n = "at" -> LET k == IF I(Arg(x, 1)) < 0 THEN n + I(Arg(x, 1)) ELSE I(Arg(x, 1))
                          IN IF k < 0 \/ k >= n THEN Seen(t0, U) ELSE Made(t0, Sub(s, k, k + 1))
         [] x.n = "charAt" -> LET k == I(Arg(x, 1)) IN Made(t0, IF k < 0 \/ k >= n THEN <<>> ELSE Sub(s, k, k + 1))
         [] x.n = "charCodeAt" -> LET k == I(Arg(x, 1)) IN Seen(t0, IF k < 0 \/ k >= n THEN <<"x", "NaN">> ELSE Num(At(s, k)))
         [] x.n = "codePointAt" -> LET k == I(Arg(x, 1)) IN Seen(t0, IF k < 0 \/ k >= n THEN U ELSE Num(CP(s, k)))
         [] x.n = "index" -> LET k == I(Arg(x, 1)) IN Seen(t0, IF k < 0 \/ k >= n THEN U ELSE S(Sub(s, k, k + 1)))
         [] x.n = "length" -> Seen(t0, Num(n))
         [] x.n = "indexOf" -> Seen(t0, Num(IndexOf(s, t, p1)))
         [] x.n = "lastIndexOf" -> LET k == IF Len(x.a) = 0 \/ Arg(x, 1) = U \/ Arg(x, 1) = <<"x", "NaN">> THEN Big ELSE I(Arg(x, 1))
                                   IN Seen(t0, Num(LastIndexOf(s, t, Clamp(k, 0, n - Len(t)))))
         [] x.n = "includes" -> Seen(t0, Bool(IndexOf(s, t, p1) >= 0))
         [] x.n = "startsWith" -> Seen(t0, Bool(MatchAt(s, t, p1)))
         [] x.n = "endsWith" -> Seen(t0, Bool(MatchAt(s, t, (IF Has(x, 1) THEN p1 ELSE n) - Len(t))))
         [] x.n \in {"padStart", "padEnd"} ->
              LET f == IF "t" \in DOMAIN x THEN t ELSE <<32>>
                  pd == IF f = <<>> THEN <<>> ELSE Pad(f, PadLen(x, s))
              IN Made(t0, IF x.n = "padStart" THEN pd \o s ELSE s \o pd)
         [] x.n = "repeat" -> IF I(Arg(x, 1)) < 0 \/ I(Arg(x, 1)) = Big THEN RangeErr(t0) ELSE Made(t0, Rep(s, I(Arg(x, 1))))
         [] x.n = "split" -> LET lim == IF ~Has(x, 1) THEN Big ELSE IF Arg(x, 1)[1] = "x" THEN (IF Arg(x, 1)[2] = "1.5" THEN 1 ELSE IF Arg(x, 1)[2] = "-1.5" THEN Big ELSE 0)
                                        ELSE IF I(Arg(x, 1)) < 0 THEN Big ELSE I(Arg(x, 1))
                                 all == IF "t" \notin DOMAIN x THEN <<s>>
                                        ELSE IF t = <<>> THEN [i \in 1..n |-> <<s[i]>>]
                                        ELSE IF s = <<>> THEN <<s>> ELSE Split(s, t, 0, 0)
                             IN Seen(t0, <<"l", Lim(all, lim)>>)
         [] x.n = "replace" -> LET k == IndexOf(s, t, 0)
                               IN Made(t0, IF k < 0 THEN s ELSE Sub(s, 0, k) \o Repl(x, r, s, t, k) \o Sub(s, k + Len(t), n))
         [] x.n = "replaceAll" -> Made(t0, RepAll(x, s, t, r, <<0, 0>>))
         [] x.n = "trim" -> Made(t0, TrimL(TrimR(s)))
         [] x.n = "trimStart" -> Made(t0, TrimL(s))
         [] x.n = "trimEnd" -> Made(t0, TrimR(s))
         [] x.n = "fromCodePoint" -> IF \E i \in 1..Len(x.u) : x.u[i] < 0 \/ x.u[i] > 1114111 THEN RangeErr(t0) ELSE Made(t0, FlattenSeq([i \in 1..Len(x.u) |-> Enc(x.u[i])]))
         [] x.n = "fromCharCode" -> Made(t0, [i \in 1..Len(x.u) |-> x.u[i] % 65536])
         [] x.n = "iter" -> Seen(t0, <<"l", Points(s, 0)>>)
         [] x.n = "isWellFormed" -> Seen(t0, Bool(\A p \in 0..(n - 1) : ~Lone(s, p)))
         [] x.n = "toWellFormed" -> Made(t0, [i \in 1..n |-> IF Lone(s, i - 1) THEN 65533 ELSE s[i]])
         [] x.n = "lower" -> Made(t0, IF Ascii(s) THEN [i \in 1..n |-> Low(s[i])] ELSE s)
         [] x.n = "upper" -> Made(t0, IF Ascii(s) THEN [i \in 1..n |-> Upp(s[i])] ELSE s)
         [] x.n = "cmp" -> Seen(t0, <<"l", <<Bool(LessS(s, t, 1)), Bool(LessS(t, s, 1)), Bool(~LessS(t, s, 1)), Bool(~LessS(s, t, 1)), Bool(s = t), Bool(s = t), Bool(s = t)>>>>)
         [] x.n = "own" -> Seen(t0, Bool(t = LengthU \/ (IsIdxS(t) /\ ToIdx(t, 0) < n)))
         [] x.n = "setkey" -> [s |-> [t0 EXCEPT !.m = [k \in (DOMAIN @) \cup {s} |-> IF k = s THEN x.k ELSE @[k]]], r |-> U]
         [] x.n = "getkey" -> Seen(t0, IF s \in DOMAIN t0.m THEN Num(t0.m[s]) ELSE U)
         [] x.n = "same" -> Seen(t0, S(s))                     \* an old string is unchanged
SStart(c) == [r |-> c, m |-> [k \in {} |-> 0]]
NoOps(s) == {}
NoInit == {}
\* strings are immutable: what was made stays
Immutable == [][\A i \in 1..Len(st.r) : st'.r[i] = st.r[i]]_st
Units == \A i \in 1..Len(st.r) : \A j \in 1..Len(st.r[i]) : st.r[i][j] \in 0..65535
===========================================================================
