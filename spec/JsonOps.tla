------------------------------ MODULE JsonOps ------------------------------
(* JSON.parse and JSON.stringify (ECMA-262 25.5) over a heap of objects.                              *)
(* Strings and property keys are sequences of UTF-16 code units.  Values: <<"u">> <<"z">> (null)       *)
(* <<"b", bool>> <<"i", int>> <<"h", int>> (int + 1/2) <<"x", "NaN" | "Infinity" | "-Infinity" | "-0">>   *)
(* <<"s", units>> <<"y">> (symbol) <<"g", int>> (BigInt) <<"fn", F>> <<"r", index in the heap>>.            *)
(* A property may hold <<"get", F>>, an accessor.  F is a scripted callback: each call is logged as          *)
(* <<id, this, key, value>>, then the action listed for the key (or the default action F.d) is taken.         *)
EXTENDS Drv, Integers, SequencesExt

U == <<"u">>
Null == <<"z">>
Sv(u) == <<"s", u>>
ToJSONKey == <<116, 111, 74, 83, 79, 78>>
Undef == <<117, 110, 100>>
NullU == <<110, 117, 108, 108>>
TrueU == <<116, 114, 117, 101>>
FalseU == <<102, 97, 108, 115, 101>>
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE DigitsM(_)
DigitsM(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsM(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o DigitsM(-n) ELSE DigitsM(n)
\* n + 1/2
HalfText(n) == (IF n >= 0 THEN DigitsM(n) ELSE <<45>> \o DigitsM(-n - 1)) \o <<46, 53>>
IsDigit(c) == c >= 48 /\ c <= 57
\* the array index a key denotes, or -1
IndexOf(k) == IF k = <<>> \/ Len(k) > 8 \/ (\E i \in 1..Len(k) : ~IsDigit(k[i])) \/ (k[1] = 48 /\ Len(k) > 1) THEN -1
              ELSE FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, k)

(* ------------------------------------------------ objects ------------------------------------------------ *)
\* [k: "o" | "a" | "w" | "p", ps: <<key, value, enumerable>>s in property order, len, pr: prototype (0: none), x: primitive or target, fz]
New(k, pr, x) == [k |-> k, ps |-> <<>>, len |-> 0, pr |-> pr, x |-> x, fz |-> FALSE]
Before(a, b) == LET i == IndexOf(a)
                    j == IndexOf(b) IN i >= 0 /\ (j < 0 \/ i < j)
Find(ps, k) == LET S == {i \in 1..Len(ps) : ps[i][1] = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
PutPs(ps, k, v, e) ==
    LET f == Find(ps, k)
        n == IF IndexOf(k) < 0 THEN Len(ps) ELSE Len(SelectSeq(ps, LAMBDA q : Before(q[1], k)))
    IN IF f > 0 THEN [ps EXCEPT ![f] = <<k, v, e>>] ELSE SubSeq(ps, 1, n) \o <<<<k, v, e>>>> \o SubSeq(ps, n + 1, Len(ps))
DelPs(ps, k) == SelectSeq(ps, LAMBDA q : q[1] # k)
\* the object behind proxies
RECURSIVE Tgt(_, _)
Tgt(h, i) == IF h[i].k = "p" THEN Tgt(h, h[i].x[2]) ELSE i
ObjOf(h, i) == h[Tgt(h, i)]
IsArr(h, i) == ObjOf(h, i).k = "a"
PutH(h, i, k, v, e) ==
    LET t == Tgt(h, i)
        o == h[t]
        n == IndexOf(k)
    IN IF o.fz THEN h
       ELSE [h EXCEPT ![t] = [o EXCEPT !.ps = PutPs(o.ps, k, v, e), !.len = IF o.k = "a" /\ n >= o.len THEN n + 1 ELSE o.len]]
DelH(h, i, k) == LET t == Tgt(h, i) IN IF h[t].fz THEN h ELSE [h EXCEPT ![t].ps = DelPs(h[t].ps, k)]
LenH(h, i, n) == LET t == Tgt(h, i)
                     o == h[t]
                 IN IF o.k # "a" \/ o.fz THEN h
                    ELSE [h EXCEPT ![t] = [o EXCEPT !.len = n, !.ps = SelectSeq(o.ps, LAMBDA q : IndexOf(q[1]) < n)]]
FrzH(h, i) == [h EXCEPT ![Tgt(h, i)].fz = TRUE]
Keys(h, i) == LET ps == SelectSeq(ObjOf(h, i).ps, LAMBDA q : q[3]) IN [j \in 1..Len(ps) |-> ps[j][1]]
RECURSIVE Lookup(_, _, _)
Lookup(h, i, k) == LET o == ObjOf(h, i)
                       f == Find(o.ps, k)
                   IN IF f > 0 THEN o.ps[f][2] ELSE IF o.pr > 0 THEN Lookup(h, o.pr, k) ELSE U
LenOf(h, i) == ObjOf(h, i).len
\* what a log shows of a value: objects 1..b of the heap by number, the others by content
RECURSIVE Image(_, _, _)
Image(h, b, v) ==
    IF v[1] \in {"fn", "get"} THEN <<v[1]>> ELSE IF v[1] # "r" \/ v[2] <= b THEN v
    ELSE LET o == h[v[2]]
             es == [i \in 1..Len(o.ps) |-> <<o.ps[i][1], Image(h, b, o.ps[i][2])>>]
         IN IF o.k = "a" THEN <<"a", o.len, es>> ELSE <<"o", es>>
Dump(h) == [i \in 1..Len(h) |-> IF h[i].k \in {"w", "p"} THEN <<>> ELSE <<h[i].len, [j \in 1..Len(h[i].ps) |-> <<h[i].ps[j][1], Image(h, 1000, h[i].ps[j][2])>>]>>]

(* ---------------------------------------------- evaluation ---------------------------------------------- *)
\* S: [h, log, b]; result [s, v], v = <<"throw", name>> when abrupt
Rv(s, v) == [s |-> s, v |-> v]
Th(n) == <<"throw", n>>
IsTh(v) == v[1] = "throw"
ActOf(F, key) == LET A == SelectSeq(F.a, LAMBDA q : q[1] = key) IN IF A = <<>> THEN F.d ELSE A[1][2]
Call(s, F, this, key, val) ==
    LET act == ActOf(F, key)
        t == Append(s.log, <<F.id, Image(s.h, s.b, this), key, Image(s.h, s.b, val)>>)
        w == IF act[1] \in {"del", "put", "len", "frz"} THEN (CASE act[2] = <<"h">> -> this [] act[2] = <<"v">> -> val [] OTHER -> act[2]) ELSE U
        on == w[1] = "r"
        g == CASE ~on -> s.h
               [] act[1] = "del" -> DelH(s.h, w[2], act[3])
               [] act[1] = "put" -> PutH(s.h, w[2], act[3], act[4], TRUE)
               [] act[1] = "len" -> LenH(s.h, w[2], act[3])
               [] act[1] = "frz" -> FrzH(s.h, w[2])
    IN Rv([s EXCEPT !.log = t, !.h = g], CASE act[1] = "ret" -> act[2] [] act[1] = "thr" -> Th("Mine") [] OTHER -> val)
Get(s, i, k) == LET v == Lookup(s.h, i, k) IN IF v[1] = "get" THEN Call(s, v[2], <<"r", i>>, <<>>, U) ELSE Rv(s, v)

(* ------------------------------------------------- parse ------------------------------------------------- *)
\* tree values: <<"a", 0, <<values>>>> <<"o", 0, <<<<key, value>>>>>>, others as values
Ws == {9, 10, 13, 32}
Fail == [ok |-> FALSE, v |-> U, p |-> 0]
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Ch(t, p) == IF p <= Len(t) THEN t[p] ELSE -1
RECURSIVE Skip(_, _), Hex4(_, _, _), PStr(_, _, _), DigEnd(_, _), PVal(_, _), PArr(_, _, _), PObj(_, _, _), PutTree(_, _, _), P10(_)
Skip(t, p) == IF Ch(t, p) \in Ws THEN Skip(t, p + 1) ELSE p
HexV(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
Hex4(t, p, n) == IF n = 0 THEN 0
                 ELSE LET r == Hex4(t, p, n - 1)
                          d == HexV(Ch(t, p + n - 1)) IN IF r < 0 \/ d < 0 THEN -1 ELSE r * 16 + d
Esc == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
\* p: after the opening quote; acc: units so far
PStr(t, p, acc) ==
    LET c == Ch(t, p)
    IN IF c < 32 THEN Fail                       \* also the end of the text
       ELSE IF c = 34 THEN Ok(acc, p + 1)
       ELSE IF c # 92 THEN PStr(t, p + 1, Append(acc, c))
       ELSE LET e == Ch(t, p + 1)
            IN IF e \in DOMAIN Esc THEN PStr(t, p + 2, Append(acc, Esc[e]))
               ELSE IF e = 117 THEN LET x == Hex4(t, p + 2, 4) IN IF x < 0 THEN Fail ELSE PStr(t, p + 6, Append(acc, x))
               ELSE Fail
DigEnd(t, p) == IF IsDigit(Ch(t, p)) THEN DigEnd(t, p + 1) ELSE p
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
IntOf(u) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, u)
RECURSIVE Strip(_), StripEnd(_)
Strip(u) == IF u # <<>> /\ u[1] = 48 THEN Strip(Tail(u)) ELSE u
StripEnd(u) == IF u # <<>> /\ u[Len(u)] = 48 THEN StripEnd(SubSeq(u, 1, Len(u) - 1)) ELSE u
\* digits ip.fp * 10^e; "any" when the value is not an integer or half within the range used here
NumVal(neg, ip, fp, e) ==
    LET all == Strip(ip \o fp)
        ds == StripEnd(all)
        k == e - Len(fp) + (Len(all) - Len(ds))
    IN IF ds = <<>> THEN (IF neg THEN <<"x", "-0">> ELSE <<"i", 0>>)
       ELSE IF Len(ds) > 9 THEN <<"any">>
       ELSE IF k >= 0 THEN (IF Len(ds) + k > 9 THEN (IF k > 400 THEN <<"x", IF neg THEN "-Infinity" ELSE "Infinity">> ELSE <<"any">>)
                            ELSE LET m == IntOf(ds) * P10(k) IN <<"i", IF neg THEN -m ELSE m>>)
       ELSE IF k = -1 /\ ds[Len(ds)] = 53 THEN LET m == IntOf(ds) \div 10 IN <<"h", IF neg THEN -m - 1 ELSE m>>
       ELSE IF k < -400 THEN (IF neg THEN <<"x", "-0">> ELSE <<"i", 0>>)
       ELSE <<"any">>
PNum(t, p) ==
    LET neg == Ch(t, p) = 45
        a == IF neg THEN p + 1 ELSE p
        b == IF Ch(t, a) = 48 THEN a + 1 ELSE DigEnd(t, a)
        dot == Ch(t, b) = 46
        c == IF dot THEN DigEnd(t, b + 1) ELSE b
        ex == Ch(t, c) \in {69, 101}
        sg == ex /\ Ch(t, c + 1) \in {43, 45}
        d == IF sg THEN c + 2 ELSE c + 1
        f == IF ex THEN DigEnd(t, d) ELSE c
        ev0 == IF ex THEN Strip(SubSeq(t, d, f - 1)) ELSE <<>>
        ev1 == IF Len(ev0) > 4 THEN 9999 ELSE IntOf(ev0)
    IN IF b = a \/ (dot /\ c = b + 1) \/ (ex /\ f = d) THEN Fail
       ELSE Ok(NumVal(neg, SubSeq(t, a, b - 1), IF dot THEN SubSeq(t, b + 1, c - 1) ELSE <<>>, IF ex /\ Ch(t, c + 1) = 45 THEN -ev1 ELSE ev1), f)
Word(t, p, w, v) == IF SubSeq(t, p, MinI(Len(t), p + Len(w) - 1)) = w THEN Ok(v, p + Len(w)) ELSE Fail
PVal(t, q) ==
    LET p == Skip(t, q)
        c == Ch(t, p)
    IN CASE c = 34 -> LET r == PStr(t, p + 1, <<>>) IN IF r.ok THEN Ok(Sv(r.v), r.p) ELSE Fail
         [] c = 45 \/ IsDigit(c) -> PNum(t, p)
         [] c = 110 -> Word(t, p, NullU, Null)
         [] c = 116 -> Word(t, p, TrueU, <<"b", TRUE>>)
         [] c = 102 -> Word(t, p, FalseU, <<"b", FALSE>>)
         [] c = 91 -> LET n == Skip(t, p + 1) IN IF Ch(t, n) = 93 THEN Ok(<<"a", 0, <<>>>>, n + 1) ELSE PArr(t, n, <<>>)
         [] c = 123 -> LET n == Skip(t, p + 1) IN IF Ch(t, n) = 125 THEN Ok(<<"o", 0, <<>>>>, n + 1) ELSE PObj(t, n, <<>>)
         [] OTHER -> Fail
PArr(t, p, acc) ==
    LET r == PVal(t, p)
        n == Skip(t, r.p)
    IN IF ~r.ok THEN Fail
       ELSE IF Ch(t, n) = 44 THEN PArr(t, n + 1, Append(acc, r.v))
       ELSE IF Ch(t, n) = 93 THEN Ok(<<"a", 0, Append(acc, r.v)>>, n + 1) ELSE Fail
PutTree(es, k, v) == LET f == Find(es, k)
                         n == IF IndexOf(k) < 0 THEN Len(es) ELSE Len(SelectSeq(es, LAMBDA q : Before(q[1], k)))
                     IN IF f > 0 THEN [es EXCEPT ![f] = <<k, v>>] ELSE SubSeq(es, 1, n) \o <<<<k, v>>>> \o SubSeq(es, n + 1, Len(es))
PObj(t, q, acc) ==
    LET p == Skip(t, q)
        s == PStr(t, p + 1, <<>>)
        m == Skip(t, s.p)
        r == PVal(t, m + 1)
        n == Skip(t, r.p)
    IN IF Ch(t, p) # 34 THEN Fail ELSE IF ~s.ok THEN Fail ELSE IF Ch(t, m) # 58 THEN Fail ELSE IF ~r.ok THEN Fail
       ELSE IF Ch(t, n) = 44 THEN PObj(t, n + 1, PutTree(acc, s.v, r.v))
       ELSE IF Ch(t, n) = 125 THEN Ok(<<"o", 0, PutTree(acc, s.v, r.v)>>, n + 1) ELSE Fail
Parse(t) == LET r == PVal(t, 1) IN IF r.ok /\ Skip(t, r.p) > Len(t) THEN r ELSE Fail
\* The engine's parser also reads JSON5's relaxations (comments, other quotes, numerals and white space, identifiers, trailing commas).
\* Reject(t): t is in neither grammar.  Tokens that only JSON5 may have make the verdict open ("odd").
IdCh(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ IsDigit(c) \/ c \in {36, 95, 46, 92} \/ c > 127
RECURSIVE Toks(_, _, _)
\* <<"odd">>, <<"err">> (unterminated) or <<"ok", tokens>>: the structural characters, 115 string, 118 other value
Toks(t, q, acc) ==
    LET p == Skip(t, q)
        c == Ch(t, p)
        r == IF c = 34 THEN PStr(t, p + 1, <<>>) ELSE PVal(t, p)
    IN IF p > Len(t) THEN <<"ok", acc>>
       ELSE IF c \in {44, 58, 91, 93, 123, 125} THEN Toks(t, p + 1, Append(acc, c))
       ELSE IF c = 34 /\ ~r.ok THEN (IF \A i \in p + 1..Len(t) : t[i] >= 32 /\ t[i] \notin {34, 92} THEN <<"err">> ELSE <<"odd">>)
       ELSE IF c = 34 THEN Toks(t, r.p, Append(acc, 115))
       ELSE IF ~(c = 45 \/ IsDigit(c) \/ c \in {102, 110, 116}) THEN <<"odd">>
       ELSE IF ~r.ok \/ IdCh(Ch(t, r.p)) THEN <<"odd">>
       ELSE Toks(t, r.p, Append(acc, 118))
RECURSIVE TVal(_, _), TList(_, _, _)
\* the tokens a value takes from p (trailing commas allowed): position after it, or 0
TVal(k, p) == IF p > Len(k) THEN 0 ELSE IF k[p] \in {115, 118} THEN p + 1
              ELSE IF k[p] = 91 THEN TList(k, p + 1, 93) ELSE IF k[p] = 123 THEN TList(k, p + 1, 125) ELSE 0
TList(k, p, e) ==
    LET named == e = 93 \/ (p + 1 <= Len(k) /\ k[p] = 115 /\ k[p + 1] = 58)
        n == IF named THEN TVal(k, IF e = 93 THEN p ELSE p + 2) ELSE 0
    IN IF p > Len(k) THEN 0 ELSE IF k[p] = e THEN p + 1
       ELSE IF n = 0 \/ n > Len(k) THEN 0 ELSE IF k[n] = e THEN n + 1 ELSE IF k[n] = 44 THEN TList(k, n + 1, e) ELSE 0
NotJSON5 == {33, 35, 37, 38, 40, 41, 59, 60, 61, 62, 63, 64, 94, 124, 126}
Reject(t) == LET k == Toks(t, 1, <<>>)
             IN IF k[1] = "err" THEN TRUE
                ELSE IF k[1] = "ok" THEN TVal(k[2], 1) # Len(k[2]) + 1
                ELSE (\A i \in 1..Len(t) : t[i] \notin {34, 39, 96, 47}) /\ (\E i \in 1..Len(t) : t[i] \in NotJSON5)
\* put a tree into the heap, objects numbered in depth-first order; result [h, v]
RECURSIVE Build(_, _), BuildL(_, _, _, _)
Build(h, v) ==
    IF v[1] \notin {"a", "o"} THEN [h |-> h, v |-> v]
    ELSE LET n == Len(h) + 1
             es == IF v[1] = "o" THEN v[3] ELSE [i \in 1..Len(v[3]) |-> <<IntText(i - 1), v[3][i]>>]
         IN [h |-> BuildL(Append(h, [New(v[1], 0, U) EXCEPT !.len = IF v[1] = "a" THEN Len(es) ELSE 0]), n, es, 1), v |-> <<"r", n>>]
BuildL(h, n, es, i) == IF i > Len(es) THEN h
                       ELSE LET r == Build(h, es[i][2]) IN BuildL([r.h EXCEPT ![n].ps = Append(r.h[n].ps, <<es[i][1], r.v, TRUE>>)], n, es, i + 1)
\* InternalizeJSONProperty
RECURSIVE Revive(_, _, _, _), ReviveL(_, _, _, _, _)
Revive(s, F, o, k) ==
    LET g == Get(s, o, k)
        v == g.v
        ks == IF IsArr(g.s.h, v[2]) THEN [i \in 1..LenOf(g.s.h, v[2]) |-> IntText(i - 1)] ELSE Keys(g.s.h, v[2])
        w == IF v[1] = "r" THEN ReviveL(g.s, F, v[2], ks, 1) ELSE Rv(g.s, U)
    IN IF IsTh(g.v) THEN g ELSE IF IsTh(w.v) THEN w ELSE Call(w.s, F, <<"r", o>>, k, v)
ReviveL(s, F, o, ks, i) ==
    IF i > Len(ks) THEN Rv(s, U)
    ELSE LET r == Revive(s, F, o, ks[i])
         IN IF IsTh(r.v) THEN r
            ELSE ReviveL([r.s EXCEPT !.h = IF r.v = U THEN DelH(r.s.h, o, ks[i]) ELSE PutH(r.s.h, o, ks[i], r.v, TRUE)], F, o, ks, i + 1)

(* ----------------------------------------------- stringify ----------------------------------------------- *)
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
UEsc(c) == <<92, 117, HexD(c \div 4096), HexD((c \div 256) % 16), HexD((c \div 16) % 16), HexD(c % 16)>>
Hi(c) == c >= 55296 /\ c <= 56319
Lo(c) == c >= 56320 /\ c <= 57343
QuoteC(s, i) == LET c == s[i]
                IN CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
                     [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
                     [] c < 32 -> UEsc(c)
                     [] Hi(c) /\ ~(i < Len(s) /\ Lo(s[MinI(i + 1, Len(s))])) -> UEsc(c)
                     [] Lo(c) /\ ~(i > 1 /\ Hi(s[MaxI(i - 1, 1)])) -> UEsc(c)
                     [] OTHER -> <<c>>
Quote(s) == <<34>> \o FlattenSeq([i \in 1..Len(s) |-> QuoteC(s, i)]) \o <<34>>
Unwrap(h, v) == IF v[1] = "r" /\ h[v[2]].k = "w" THEN h[v[2]].x ELSE v
RECURSIVE Join(_, _)
Join(l, sep) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)
\* E: [rf: function or U, pl: property list or <<"u">>, gap]; ind: indentation now; stk: objects being written
\* result v: Undef marker <<"u">> or <<"s", text>>
RECURSIVE SProp(_, _, _, _, _, _), SObj(_, _, _, _, _, _, _), SArr(_, _, _, _, _, _, _)
Wrap(parts, o, c, ind, step, gap) ==
    IF parts = <<>> THEN <<o, c>>
    ELSE IF gap = <<>> THEN <<o>> \o Join(parts, <<44>>) \o <<c>>
    ELSE <<o, 10>> \o step \o Join(parts, <<44, 10>> \o step) \o <<10>> \o ind \o <<c>>
SVal(s, E, v, ind, stk) ==
    LET w == Unwrap(s.h, v)
        i == w[2]
        ks == IF E.pl[1] = "l" THEN E.pl[2] ELSE Keys(s.h, i)
        step == ind \o E.gap
    IN CASE w = Null -> Rv(s, Sv(NullU))
         [] w[1] = "b" -> Rv(s, Sv(IF w[2] THEN TrueU ELSE FalseU))
         [] w[1] = "s" -> Rv(s, Sv(Quote(w[2])))
         [] w[1] = "i" -> Rv(s, Sv(IntText(w[2])))
         [] w[1] = "h" -> Rv(s, Sv(HalfText(w[2])))
         [] w[1] = "x" -> Rv(s, Sv(IF w[2] = "-0" THEN <<48>> ELSE NullU))
         [] w[1] = "g" -> Rv(s, Th("TypeError"))
         [] w[1] = "r" -> IF Contains(stk, i) THEN Rv(s, Th("TypeError"))
                          ELSE IF IsArr(s.h, i) THEN SArr(s, E, i, LenOf(s.h, i), <<>>, ind, Append(stk, i))
                          ELSE SObj(s, E, i, ks, <<>>, ind, Append(stk, i))
         [] OTHER -> Rv(s, U)
SProp(s, E, o, k, ind, stk) ==
    LET g == Get(s, o, k)
        t == IF IsTh(g.v) \/ g.v[1] # "r" THEN Rv(g.s, U) ELSE Get(g.s, g.v[2], ToJSONKey)
        a == IF ~IsTh(t.v) /\ t.v[1] = "fn" THEN Call(t.s, t.v[2], g.v, k, g.v) ELSE IF IsTh(t.v) THEN t ELSE Rv(t.s, g.v)
        r == IF IsTh(a.v) \/ E.rf[1] # "fn" THEN a ELSE Call(a.s, E.rf[2], <<"r", o>>, k, a.v)
    IN IF IsTh(g.v) THEN g ELSE IF IsTh(r.v) THEN r ELSE SVal(r.s, E, r.v, ind, stk)
SObj(s, E, o, ks, acc, ind, stk) ==
    IF ks = <<>> THEN Rv(s, Sv(Wrap(acc, 123, 125, ind, ind \o E.gap, E.gap)))
    ELSE LET r == SProp(s, E, o, ks[1], ind \o E.gap, stk)
         IN IF IsTh(r.v) THEN r
            ELSE SObj(r.s, E, o, Tail(ks), IF r.v = U THEN acc ELSE Append(acc, Quote(ks[1]) \o <<58>> \o (IF E.gap = <<>> THEN <<>> ELSE <<32>>) \o r.v[2]), ind, stk)
SArr(s, E, o, n, acc, ind, stk) ==
    IF Len(acc) = n THEN Rv(s, Sv(Wrap(acc, 91, 93, ind, ind \o E.gap, E.gap)))
    ELSE LET r == SProp(s, E, o, IntText(Len(acc)), ind \o E.gap, stk)
         IN IF IsTh(r.v) THEN r ELSE SArr(r.s, E, o, n, Append(acc, IF r.v = U THEN NullU ELSE r.v[2]), ind, stk)
XInt == ("Infinity" :> 1000) @@ ("-Infinity" :> -1000) @@ ("NaN" :> 0) @@ ("-0" :> 0)
Spaces(n) == [i \in 1..MaxI(0, MinI(10, n)) |-> 32]
GapOf(h, v) == LET w == Unwrap(h, v)
               IN CASE w[1] = "i" -> Spaces(w[2])
                    [] w[1] = "h" -> Spaces(w[2])
                    [] w[1] = "x" -> Spaces(XInt[w[2]])
                    [] w[1] = "s" -> SubSeq(w[2], 1, MinI(10, Len(w[2])))
                    [] OTHER -> <<>>
NumTextOf(w) == CASE w[1] = "i" -> IntText(w[2]) [] w[1] = "h" -> HalfText(w[2])
                  [] w = <<"x", "NaN">> -> <<78, 97, 78>> [] w = <<"x", "-0">> -> <<48>>
                  [] w = <<"x", "Infinity">> -> <<73, 110, 102, 105, 110, 105, 116, 121>>
                  [] w = <<"x", "-Infinity">> -> <<45, 73, 110, 102, 105, 110, 105, 116, 121>> [] w[1] = "s" -> w[2]
RECURSIVE PList(_, _, _)
PList(h, l, acc) == IF l = <<>> THEN acc
                    ELSE LET w == Unwrap(h, l[1])
                         IN PList(h, Tail(l), IF w[1] \notin {"s", "i", "h", "x"} \/ Contains(acc, NumTextOf(w)) THEN acc ELSE Append(acc, NumTextOf(w)))
\* the elements of the array object o, the replacer
RECURSIVE ListOf(_, _, _, _)
ListOf(s, o, n, acc) == IF Len(acc) = n THEN Rv(s, <<"l", acc>>)
                        ELSE LET g == Get(s, o, IntText(Len(acc))) IN IF IsTh(g.v) THEN g ELSE ListOf(g.s, o, n, Append(acc, g.v))

(* ------------------------------------------------ operations ------------------------------------------------ *)
J(h, r, log) == [s |-> h, r |-> <<r, log, Dump(h)>>]
JApply(x, h) ==
    CASE x.n = "new" -> J(Append(h, New(x.k, x.pr, x.x)), <<"r", Len(h) + 1>>, <<>>)
      [] x.n = "put" -> J(PutH(h, x.o, x.key, x.v, x.e), U, <<>>)
      [] x.n = "del" -> J(DelH(h, x.o, x.key), U, <<>>)
      [] x.n = "len" -> J(LenH(h, x.o, x.len), U, <<>>)
      [] x.n = "frz" -> J(FrzH(h, x.o), U, <<>>)
      [] x.n = "parse" ->
            LET t == Parse(x.t)
                r == Build(h, t.v)
            IN IF ~t.ok THEN (IF Reject(x.t) THEN J(h, Th("SyntaxError"), <<>>) ELSE J(h, <<"any">>, <<"any">>))
               ELSE IF x.rv[1] = "fn"
               THEN LET w == Append(r.h, [New("o", 0, U) EXCEPT !.ps = <<<<<<>>, r.v, TRUE>>>>])
                        a == Revive([h |-> w, log |-> <<>>, b |-> Len(h)], x.rv[2], Len(w), <<>>)
                    IN J(h, Image(a.s.h, Len(h), a.v), a.s.log)
               ELSE J(IF x.drop THEN h ELSE r.h, Image(r.h, Len(h), r.v), <<>>)
      [] x.n = "str" ->
            LET s0 == [h |-> h, log |-> <<>>, b |-> Len(h)]
                l == IF x.rp[1] = "r" /\ IsArr(h, x.rp[2]) THEN ListOf(s0, x.rp[2], LenOf(h, x.rp[2]), <<>>) ELSE Rv(s0, U)
                E == [rf |-> IF x.rp[1] = "fn" THEN x.rp ELSE U,
                      pl |-> IF l.v[1] = "l" THEN <<"l", PList(l.s.h, l.v[2], <<>>)>> ELSE U,
                      gap |-> GapOf(h, x.sp)]
                w == Append(l.s.h, [New("o", 0, U) EXCEPT !.ps = <<<<<<>>, x.v, TRUE>>>>])
                a == IF IsTh(l.v) THEN l ELSE SProp([l.s EXCEPT !.h = w], E, Len(w), <<>>, <<>>, <<>>)
            IN J(SubSeq(a.s.h, 1, Len(h)), a.v, a.s.log)
JStart(c) == <<>>
NoOps(s) == {}
NoInit == {}
\* property order and lengths are consistent everywhere
Ordered == \A i \in 1..Len(st) : LET o == st[i]
                                 IN \A a, b \in 1..Len(o.ps) : a < b => o.ps[a][1] # o.ps[b][1] /\ ~Before(o.ps[b][1], o.ps[a][1])
Lengths == \A i \in 1..Len(st) : LET o == st[i] IN \A a \in 1..Len(o.ps) : o.k = "a" => IndexOf(o.ps[a][1]) < o.len
\* a text written without callbacks parses back, and writing the parsed value gives the same text again
Trip == (ev # <<>> /\ ev[1].n = "str" /\ ev[2][1][1] = "s") =>
            LET t == Parse(ev[2][1][2])
                r == Build(<<>>, t.v)
                w == Append(r.h, [New("o", 0, U) EXCEPT !.ps = <<<<<<>>, r.v, TRUE>>>>])
            IN (\A i \in 1..Len(GapOf(st, ev[1].sp)) : GapOf(st, ev[1].sp)[i] \in Ws) =>
                  /\ t.ok
                  /\ (Head(ev[1].rp) # "r" => SProp([h |-> w, log |-> <<>>, b |-> 0], [rf |-> U, pl |-> U, gap |-> GapOf(st, ev[1].sp)], Len(w), <<>>, <<>>, <<>>).v = ev[2][1])
===========================================================================
