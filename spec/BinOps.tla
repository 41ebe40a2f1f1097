------------------------------- MODULE BinOps -------------------------------
(* Array buffers, typed arrays and DataViews (ECMA-262 10.4.5, 23.2, 25.1-25.3) over byte sequences. *)
(* Numbers: <<"f", negative, m, e>> = m * 2^e with m odd (m = <<>>: zero), <<"x", "NaN" | "Infinity"   *)
(* | "-Infinity">>; BigInts <<"n", integer>>; <<"u">> undefined; <<"d", v, b>>: an object whose valueOf *)
(* detaches buffer b and gives v.  Index arguments: <<"i", int>>, <<"x", ...>>, <<"u">>, <<"d", ...>>.  *)
EXTENDS Drv, Big, FiniteSets
BigIx == 1000000000
\* --- numbers and bytes
RECURSIVE Norm(_, _, _)
Norm(n, m, e) == IF m = <<>> THEN <<"f", n, <<>>, 0>>
                 ELSE IF m[1] = 0 THEN Norm(n, Tail(m), e + 12)
                 ELSE IF m[1] % 2 = 0 THEN Norm(n, DivM(m, <<2>>).q, e + 1)
                 ELSE <<"f", n, m, e>>
NaN == <<"x", "NaN">>
InfV(n) == <<"x", IF n THEN "-Infinity" ELSE "Infinity">>
FromB(a) == Norm(a.n, a.m, 0)
RECURSIVE BytesM(_, _)
BytesM(m, k) == IF k = 0 THEN <<>>
                ELSE LET d == DivM(m, <<256>>) IN <<IF d.r = <<>> THEN 0 ELSE d.r[1]>> \o BytesM(d.q, k - 1)
RECURSIVE UnBytes(_)
UnBytes(b) == IF b = <<>> THEN <<>> ELSE AddM(MulL(UnBytes(Tail(b)), 256, 1, 0), <<b[1]>>, 1, 0)
ToBig(b) == Bg(FALSE, Trim(UnBytes(b)))
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
\* m / 2^k rounded half to even
RoundSh(m, k) == LET x == DivP(m, k)
                     c == CmpM(x.r, Pow2(k - 1), Len(x.r))
                 IN IF k = 0 THEN m ELSE IF c > 0 \/ (c = 0 /\ x.q # <<>> /\ x.q[1] % 2 = 1) THEN Add(Bg(FALSE, x.q), One).m ELSE x.q
ShlM(m, k) == Shl(Bg(FALSE, m), k).m
Flt(v, p, w) ==   \* the w-bit encoding with p bits of precision, as an integer
    LET bias == 2 ^ (w - p - 1) - 1
        emin == 1 - bias
        infb == ShlM(Small(2 * bias + 1), p - 1)
        sign == ShlM(<<1>>, w - 1)
        fin(m, e) == LET ee == e + BitLen(Bg(FALSE, m)) - 1
                         q == IF ee < emin THEN emin - (p - 1) ELSE ee - (p - 1)
                         sg == IF e >= q THEN ShlM(m, e - q) ELSE RoundSh(m, q - e)
                     IN IF m = <<>> THEN <<>>
                        ELSE IF ee > bias THEN infb
                        ELSE Add(Bg(FALSE, ShlM(Small(q + (p - 1) + bias - 1), p - 1)), Bg(FALSE, sg)).m
        mag == IF v[1] = "x" THEN (IF v = NaN THEN Add(Bg(FALSE, infb), Bg(FALSE, ShlM(<<1>>, p - 2))).m ELSE infb) ELSE fin(v[3], v[4])
        neg == IF v[1] = "x" THEN v[2] = "-Infinity" ELSE v[2]
    IN IF neg THEN Add(Bg(FALSE, mag), Bg(FALSE, sign)).m ELSE mag
UnFlt(m, p, w) ==
    LET bias == 2 ^ (w - p - 1) - 1
        top == DivP(m, w - 1)
        ex == DivP(top.r, p - 1)
        exn == IF ex.q = <<>> THEN 0 ELSE ex.q[1]
        neg == top.q # <<>>
    IN IF exn = 2 * bias + 1 THEN (IF ex.r = <<>> THEN InfV(neg) ELSE NaN)
       ELSE IF exn = 0 THEN Norm(neg, ex.r, 1 - bias - (p - 1))
       ELSE Norm(neg, Add(Bg(FALSE, ex.r), Bg(FALSE, ShlM(<<1>>, p - 1))).m, exn - bias - (p - 1))
IntMod(v, k) == IF v[1] # "f" \/ v[3] = <<>> \/ v[4] >= 64 THEN Zero                  \* modulo 2^k
                ELSE AsU(k, Bg(v[2], IF v[4] >= 0 THEN ShlM(v[3], v[4]) ELSE DivP(v[3], -v[4]).q))
Clamp8(v) == IF v = NaN THEN <<>> ELSE IF v[1] = "x" THEN (IF v[2] = "Infinity" THEN <<255>> ELSE <<>>)
             ELSE IF v[2] \/ v[3] = <<>> THEN <<>>
             ELSE IF v[4] + BitLen(Bg(FALSE, v[3])) > 8 THEN <<255>>
             ELSE LET m == IF v[4] >= 0 THEN ShlM(v[3], v[4]) ELSE RoundSh(v[3], -v[4])
                  IN IF CmpM(m, <<255>>, Len(m)) > 0 THEN <<255>> ELSE m
Size == [I8 |-> 1, U8 |-> 1, C8 |-> 1, I16 |-> 2, U16 |-> 2, I32 |-> 4, U32 |-> 4, B64 |-> 8, V64 |-> 8, F32 |-> 4, F64 |-> 8]
IsBig(k) == k \in {"B64", "V64"}
Enc(k, v) == BytesM(CASE k = "F32" -> Flt(v, 24, 32) [] k = "F64" -> Flt(v, 53, 64) [] k = "C8" -> Clamp8(v)
                      [] IsBig(k) -> AsU(64, v[2]).m [] OTHER -> IntMod(v, 8 * Size[k]).m, Size[k])
Dec(k, b) == LET a == ToBig(b)
             IN CASE k = "F32" -> UnFlt(a.m, 24, 32) [] k = "F64" -> UnFlt(a.m, 53, 64)
                  [] k = "B64" -> <<"n", AsI(64, a)>> [] k = "V64" -> <<"n", a>>
                  [] k \in {"I8", "I16", "I32"} -> FromB(AsI(8 * Size[k], a)) [] OTHER -> FromB(a)
\* --- state: [b: buffers [d: bytes, det, sh], v: views [k, b, o, l] ]; k = "DV" for a DataView (l in bytes)
Th(e) == <<"throw", e>>
U == <<"u">>
MaxB == 5
MaxV == 9
Alloc(bytes, sh) == [d |-> bytes, det |-> FALSE, sh |-> sh]
Zeros(n) == [i \in 1..n |-> 0]
\* when there are MaxB buffers the last one is forgotten, with its views (which become view 1)
LastB(s) == Len(s.b)
AddV(s, v, slot) == IF Len(s.v) < MaxV THEN [s EXCEPT !.v = Append(@, v)] ELSE [s EXCEPT !.v[(slot % (MaxV - 1)) + 2] = v]
AddB2(s, b) == IF Len(s.b) < MaxB THEN [s EXCEPT !.b = Append(@, b)]
               ELSE [s EXCEPT !.b[MaxB] = b, !.v = [i \in 1..Len(@) |-> IF @[i].b = MaxB THEN @[1] ELSE @[i]]]
Detach(s, i) == LET b == (i % Len(s.b)) + 1 IN IF s.b[b].sh THEN s ELSE [s EXCEPT !.b[b].det = TRUE, !.b[b].d = <<>>]
View(s, x) == s.v[(x % Len(s.v)) + 1]
Bufi(s, x) == (x % Len(s.b)) + 1
Det(s, v) == s.b[v.b].det
LenV(s, v) == IF Det(s, v) THEN 0 ELSE v.l
Buf(s, v) == s.b[v.b].d
GetE(s, v, i) == Dec(v.k, SubSeq(Buf(s, v), v.o + i * Size[v.k] + 1, v.o + (i + 1) * Size[v.k]))
WriteAt(s, b, o, bytes) == [s EXCEPT !.b[b].d = [j \in 1..Len(@) |-> IF j > o /\ j <= o + Len(bytes) THEN bytes[j - o] ELSE @[j]]]
PutE(s, v, i, val) == WriteAt(s, v.b, v.o + i * Size[v.k], Enc(v.k, val))
Elems(s, v) == [i \in 1..LenV(s, v) |-> GetE(s, v, i - 1)]
\* conversions; values: [s, ok, v]
Val(s, a, big) == LET t == IF a[1] = "d" THEN Detach(s, a[3]) ELSE s
                      w == IF a[1] = "d" THEN a[2] ELSE a
                      y == IF w = U THEN NaN ELSE w
                  IN [s |-> t, ok |-> IF big THEN w[1] = "n" ELSE w[1] # "n", v |-> y]
IxS(s, a) == IF a[1] = "d" THEN Detach(s, a[3]) ELSE s
XInt == ("Infinity" :> BigIx) @@ ("-Infinity" :> -BigIx) @@ ("NaN" :> 0) @@ ("1.5" :> 1) @@ ("-1.5" :> -1) @@ ("-0.5" :> 0)
IxV(a) == LET w == IF a[1] = "d" THEN a[2] ELSE a IN IF w[1] = "i" THEN w[2] ELSE IF w[1] = "x" THEN XInt[w[2]] ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Rel(k, len) == IF k < 0 THEN Max2(len + k, 0) ELSE Min2(k, len)
R(s, r) == [s |-> s, r |-> r]
\* --- the operations
Valid(s, v, key) == key[1] = "i" /\ key[2] >= 0 /\ key[2] < LenV(s, v)
SetEl(s, v, key, c) == IF ~c.ok THEN s ELSE IF Valid(s, v, key) THEN PutE(s, v, key[2], c.v) ELSE s
MakeView(s, k, b, o, l, slot) == LET t == AddV(s, [k |-> k, b |-> b, o |-> o, l |-> l], slot) IN R(t, <<"view", l, o>>)
\* a fresh buffer with these bytes and a view of it
Fresh(s, k, bytes, slot) ==
    LET t == AddB2(s, Alloc(bytes, FALSE))
    IN MakeView(t, k, LastB(t), 0, Len(bytes) \div Size[k], slot)
RECURSIVE EncAll(_, _), FillE(_, _, _, _, _), SetList(_, _, _, _, _), IndexOfE(_, _, _, _, _)
EncAll(k, vs) == IF vs = <<>> THEN <<>> ELSE Enc(k, vs[1]) \o EncAll(k, Tail(vs))
FillE(s, v, i, j, val) == IF i >= j THEN s ELSE FillE(PutE(s, v, i, val), v, i + 1, j, val)
\* element by element from a list of values, each converted when it is stored
SetList(s, v, off, vs, i) == IF i > Len(vs) THEN R(s, U)
                             ELSE LET c == Val(s, vs[i], IsBig(v.k))
                                      t == SetEl(c.s, v, <<"i", off + i - 1>>, c)
                                  IN IF ~c.ok THEN R(c.s, Th("TypeError")) ELSE SetList(t, v, off, vs, i + 1)
EqS(a, b) == a # NaN /\ (a = b \/ (a[1] = "f" /\ b[1] = "f" /\ a[3] = <<>> /\ b[3] = <<>>))
EqZ(a, b) == a = b \/ EqS(a, b)
\* how: 1 forward strict, -1 backward strict, 2 forward SameValueZero
IndexOfE(s, v, i, val, how) ==
    IF i < 0 \/ i >= v.l THEN -1
    ELSE LET here == IF Det(s, v) THEN how = 2 /\ val = U ELSE IF val = U THEN FALSE ELSE IF how = 2 THEN EqZ(GetE(s, v, i), val) ELSE EqS(GetE(s, v, i), val)
         IN IF here THEN i ELSE IndexOfE(s, v, IF how = -1 THEN i - 1 ELSE i + 1, val, how)
CtorView(s, x) ==   \* typed array or DataView on a buffer
    LET b == Bufi(s, x.b)
        dv == x.k = "DV"
        sz == IF dv THEN 1 ELSE Size[x.k]
        s1 == IxS(s, x.o)
        o == IxV(x.o)
        hasL == x.l[1] # "u"
        s2 == IF hasL THEN IxS(s1, x.l) ELSE s1
        l == IxV(x.l)
        bl == Len(s2.b[b].d)
    IN IF dv
       THEN IF o < 0 \/ o >= BigIx THEN R(s1, Th("RangeError"))
            ELSE IF s1.b[b].det THEN R(s1, Th("TypeError"))
            ELSE LET bl1 == Len(s1.b[b].d)
                 IN IF o > bl1 THEN R(s1, Th("RangeError"))
                    ELSE IF hasL /\ (l < 0 \/ l >= BigIx \/ o + l > bl1) THEN R(s2, Th("RangeError"))
                    ELSE IF s2.b[b].det THEN R(s2, Th("TypeError"))
                    ELSE MakeView(s2, "DV", b, o, IF hasL THEN l ELSE bl1 - o, x.slot)
       ELSE IF o < 0 \/ o >= BigIx \/ o % sz # 0 THEN R(s1, Th("RangeError"))
       ELSE IF hasL /\ (l < 0 \/ l >= BigIx) THEN R(s2, Th("RangeError"))
       ELSE IF s2.b[b].det THEN R(s2, Th("TypeError"))
       ELSE IF ~hasL THEN (IF bl % sz # 0 \/ o > bl THEN R(s2, Th("RangeError")) ELSE MakeView(s2, x.k, b, o, (bl - o) \div sz, x.slot))
       ELSE IF o + l * sz > bl THEN R(s2, Th("RangeError")) ELSE MakeView(s2, x.k, b, o, l, x.slot)
FromView(s, x) ==   \* new kind(typed array)
    LET v == View(s, x.v)
    IN IF v.k = "DV" THEN Fresh(s, x.k, <<>>, x.slot)                  \* an object without length
       ELSE IF Det(s, v) THEN R(s, Th("TypeError"))
       ELSE IF IsBig(v.k) # IsBig(x.k) THEN R(s, Th("TypeError"))
       ELSE Fresh(s, x.k, EncAll(x.k, Elems(s, v)), x.slot)
RECURSIVE ConvAll(_, _, _, _)
ConvAll(s, vs, big, acc) == IF vs = <<>> THEN [s |-> s, ok |-> TRUE, v |-> acc]
                            ELSE LET c == Val(s, vs[1], big) IN IF ~c.ok THEN [s |-> c.s, ok |-> FALSE, v |-> acc] ELSE ConvAll(c.s, Tail(vs), big, Append(acc, c.v))
FromList(s, x) == LET c == ConvAll(s, x.vs, IsBig(x.k), <<>>)
                  IN IF ~c.ok THEN R(c.s, Th("TypeError")) ELSE Fresh(c.s, x.k, EncAll(x.k, c.v), x.slot)
DVGet(s, v, x) ==
    LET o == IxV(x.o)
        t == IxS(s, x.o)
    IN IF o < 0 \/ o >= BigIx THEN R(t, Th("RangeError"))
       ELSE IF Det(t, v) THEN R(t, Th("TypeError"))
       ELSE IF o + Size[x.k] > v.l THEN R(t, Th("RangeError"))
       ELSE LET bs == SubSeq(Buf(t, v), v.o + o + 1, v.o + o + Size[x.k]) IN R(t, Dec(x.k, IF x.le THEN bs ELSE Rev(bs)))
DVSet(s, v, x) ==
    LET o == IxV(x.o)
        t == IxS(s, x.o)
        c == Val(t, x.val, IsBig(x.k))
        bs == Enc(x.k, c.v)
    IN IF o < 0 \/ o >= BigIx THEN R(t, Th("RangeError"))
       ELSE IF ~c.ok THEN R(c.s, Th("TypeError"))
       ELSE IF Det(c.s, v) THEN R(c.s, Th("TypeError"))
       ELSE IF o + Size[x.k] > v.l THEN R(c.s, Th("RangeError"))
       ELSE R(WriteAt(c.s, v.b, v.o + o, IF x.le THEN bs ELSE Rev(bs)), U)
SetFrom(s, v, x) ==
    LET o == IxV(x.o)
        t == IxS(s, x.o)
        w == View(t, x.w)
        es == Elems(t, w)
    IN IF o < 0 THEN R(t, Th("RangeError"))
       ELSE IF Det(t, v) THEN R(t, Th("TypeError"))
       ELSE IF x.n = "setl"
       THEN IF o + Len(x.vs) > v.l THEN R(t, Th("RangeError")) ELSE SetList(t, v, o, x.vs, 1)
       ELSE IF w.k = "DV" THEN (IF o > v.l THEN R(t, Th("RangeError")) ELSE R(t, U))
       ELSE IF Det(t, w) THEN R(t, Th("TypeError"))
       ELSE IF o + w.l > v.l THEN R(t, Th("RangeError"))
       ELSE IF IsBig(v.k) # IsBig(w.k) THEN R(t, Th("TypeError"))
       ELSE R(WriteAt(t, v.b, v.o + o * Size[v.k], EncAll(v.k, es)), U)
\* a typed array's methods; s: state in which it is known to be attached
Method(s, v, x) ==
    LET a1 == IxV(x.p)
        hasE == x.q[1] # "u"
        len == v.l
        s1 == IxS(s, x.p)
        s2 == IF hasE THEN IxS(s1, x.q) ELSE s1
        from == Rel(a1, len)
        to == IF hasE THEN Rel(IxV(x.q), len) ELSE len
        c == Val(s, x.val, IsBig(v.k))
    IN CASE x.n = "slice" ->
              LET cnt == Max2(to - from, 0)
              IN IF cnt = 0 THEN Fresh(s2, v.k, <<>>, x.slot)
                 ELSE IF Det(s2, v) THEN R(s2, Th("TypeError"))
                 ELSE Fresh(s2, v.k, SubSeq(Buf(s2, v), v.o + from * Size[v.k] + 1, v.o + to * Size[v.k]), x.slot)
         [] x.n = "copyWithin" ->   \* x.p target, x.q start, x.z end
              LET st0 == Rel(IxV(x.q), len)
                  hasZ == x.z[1] # "u"
                  s3 == IxS(IxS(s1, x.q), x.z)
                  fin == IF hasZ THEN Rel(IxV(x.z), len) ELSE len
                  cnt == Min2(fin - st0, len - from)
              IN IF cnt <= 0 THEN R(s3, U)
                 ELSE IF Det(s3, v) THEN R(s3, Th("TypeError"))
                 ELSE R(WriteAt(s3, v.b, v.o + from * Size[v.k], SubSeq(Buf(s3, v), v.o + st0 * Size[v.k] + 1, v.o + (st0 + cnt) * Size[v.k])), U)
         [] x.n = "fill" ->
              IF ~c.ok THEN R(c.s, Th("TypeError"))
              ELSE LET t1 == IxS(c.s, x.p)
                       t2 == IF hasE THEN IxS(t1, x.q) ELSE t1
                   IN IF Det(t2, v) THEN R(t2, Th("TypeError")) ELSE R(FillE(t2, v, from, to, c.v), U)
         [] x.n = "reverse" -> R(WriteAt(s, v.b, v.o, EncAll(v.k, Rev(Elems(s, v)))), U)
         [] x.n = "toReversed" -> Fresh(s, v.k, EncAll(v.k, Rev(Elems(s, v))), x.slot)
         [] x.n = "indexOf" -> IF len = 0 THEN R(s, <<"i", -1>>) ELSE R(s1, <<"i", IndexOfE(s1, v, from, x.val, 1)>>)
         [] x.n = "includes" -> IF len = 0 THEN R(s, <<"b", FALSE>>) ELSE R(s1, <<"b", IndexOfE(s1, v, from, x.val, 2) # -1>>)
         [] x.n = "lastIndexOf" -> IF len = 0 THEN R(s, <<"i", -1>>)
                                   ELSE LET k == IF x.p[1] = "u" THEN len - 1 ELSE IF a1 < 0 THEN len + a1 ELSE Min2(a1, len - 1)
                                        IN R(s1, <<"i", IndexOfE(s1, v, k, x.val, -1)>>)
         [] x.n = "at" -> LET k == IF a1 < 0 THEN len + a1 ELSE a1
                          IN R(s1, IF k < 0 \/ k >= len \/ Det(s1, v) THEN U ELSE GetE(s1, v, k))
         [] x.n = "with" -> LET k == IF a1 < 0 THEN len + a1 ELSE a1
                                d == Val(s1, x.val, IsBig(v.k))
                            IN IF ~d.ok THEN R(d.s, Th("TypeError"))
                               ELSE IF k < 0 \/ k >= len \/ Det(d.s, v) THEN R(d.s, Th("RangeError"))
                               ELSE Fresh(d.s, v.k, EncAll(v.k, [Elems(d.s, v) EXCEPT ![k + 1] = d.v]), x.slot)
         [] x.n = "map" -> Fresh(s, v.k, EncAll(v.k, Elems(s, v)), x.slot)
\* NaNs have many encodings: operations that would copy one through a conversion are left out
HasNaN(s, v) == v.k \in {"F32", "F64"} /\ \E i \in 1..LenV(s, v) : GetE(s, v, i - 1) = NaN
Conv(s, x) == (x.n \in {"ofview", "reverse", "toReversed", "with", "map"} /\ View(s, x.v).k # "DV" /\ HasNaN(s, View(s, x.v)))
              \/ (x.n = "setv" /\ View(s, x.w).k # "DV" /\ HasNaN(s, View(s, x.w)))
Methods == {"slice", "copyWithin", "fill", "reverse", "toReversed", "indexOf", "includes", "lastIndexOf", "at", "with", "map"}
BApply0(x, s) ==
    LET v == View(s, x.v)
        dv == v.k = "DV"
        c == IF dv THEN [s |-> s, ok |-> FALSE, v |-> U] ELSE Val(s, x.val, IsBig(v.k))
    IN CASE Conv(s, x) -> R(s, <<"skip">>)
         [] x.n = "buf" -> LET t == AddB2(s, Alloc(Zeros(x.len), x.sh)) IN R(t, U)
         [] x.n = "view" -> CtorView(s, x)
         [] x.n = "ofview" -> FromView(s, x)
         [] x.n = "oflist" -> FromList(s, x)
         [] x.n = "ofLen" -> Fresh(s, x.k, Zeros(x.len * Size[x.k]), x.slot)
         [] x.n = "detach" -> R(Detach(s, x.b), U)
         [] x.n = "bslice" -> LET b == Bufi(s, x.b)
                                  len == Len(s.b[b].d)
                                  t == IxS(IxS(s, x.p), x.q)
                                  from == Rel(IxV(x.p), len)
                                  to == IF x.q[1] = "u" THEN len ELSE Rel(IxV(x.q), len)
                              IN IF s.b[b].det THEN R(s, Th("TypeError"))
                                 ELSE IF t.b[b].det THEN R(t, Th("TypeError"))
                                 ELSE R(AddB2(t, Alloc(IF to > from THEN SubSeq(s.b[b].d, from + 1, to) ELSE <<>>, s.b[b].sh)), U)
         [] x.n = "dvget" -> IF dv THEN DVGet(s, v, x) ELSE R(s, Th("TypeError"))
         [] x.n = "dvset" -> IF dv THEN DVSet(s, v, x) ELSE R(s, Th("TypeError"))
         [] x.n = "lens" -> IF dv THEN (IF Det(s, v) THEN R(s, Th("TypeError")) ELSE R(s, <<"l", <<v.l, v.o>>>>))
                            ELSE R(s, <<"l", IF Det(s, v) THEN <<0, 0, 0>> ELSE <<v.l * Size[v.k], v.o, v.l>>>>)
         [] dv -> R(s, <<"dv">>)                                           \* the remaining operations are those of typed arrays
         [] x.n = "get" -> R(s, IF Valid(s, v, x.key) THEN GetE(s, v, x.key[2]) ELSE U)
         [] x.n = "set" -> R(SetEl(c.s, v, x.key, c), IF c.ok THEN <<"b", TRUE>> ELSE Th("TypeError"))
         [] x.n = "has" -> R(s, <<"b", Valid(s, v, x.key)>>)
         [] x.n = "del" -> R(s, <<"b", ~Valid(s, v, x.key)>>)
         [] x.n = "desc" -> R(s, IF Valid(s, v, x.key) THEN <<"desc", GetE(s, v, x.key[2])>> ELSE U)
         [] x.n = "def" -> IF ~Valid(s, v, x.key) \/ x.bad THEN R(s, <<"b", FALSE>>)
                           ELSE IF x.val = U THEN R(s, <<"b", TRUE>>)
                           ELSE R(SetEl(c.s, v, x.key, c), IF c.ok THEN <<"b", TRUE>> ELSE Th("TypeError"))
         [] x.n = "keys" -> R(s, <<"i", LenV(s, v)>>)
         [] x.n = "subarray" -> LET t == IxS(IxS(s, x.p), x.q)
                                    len == LenV(s, v)
                                    from == Rel(IxV(x.p), len)
                                    to == IF x.q[1] = "u" THEN len ELSE Rel(IxV(x.q), len)
                                IN IF Det(t, v) THEN R(t, Th("TypeError"))
                                   ELSE MakeView(t, v.k, v.b, v.o + from * Size[v.k], Max2(to - from, 0), x.slot)
         [] x.n \in {"setv", "setl"} -> SetFrom(s, v, x)
         [] x.n \in Methods -> IF Det(s, v) THEN R(s, Th("TypeError")) ELSE Method(s, v, x)
BApply(x, s) == LET a == BApply0(x, s) IN [s |-> a.s, r |-> <<a.r, [i \in 1..Len(a.s.b) |-> a.s.b[i].d]>>]
BStart(c) == [b |-> <<Alloc(Zeros(c.len), FALSE)>>, v |-> <<[k |-> "U8", b |-> 1, o |-> 0, l |-> c.len]>>]
NoOps(s) == {}
NoInit == {}
\* every view of an attached buffer lies within it, aligned; detached buffers have no bytes; bytes are bytes
Inside == /\ \A i \in 1..Len(st.v) : LET v == st.v[i]
                                         sz == IF v.k = "DV" THEN 1 ELSE Size[v.k]
                                     IN st.b[v.b].det \/ (v.o % sz = 0 /\ v.o + v.l * sz <= Len(st.b[v.b].d))
          /\ \A i \in 1..Len(st.b) : (st.b[i].det => st.b[i].d = <<>>) /\ \A j \in 1..Len(st.b[i].d) : st.b[i].d[j] \in 0..255
\* reading back what was written gives the value again (round trip of the two conversions)
Trip == \A i \in 1..Len(st.v) : LET v == st.v[i]
                                IN v.k # "DV" => \A j \in 1..LenV(st, v) : LET w == GetE(st, v, j - 1)
                                                                           IN w = NaN \/ Enc(v.k, w) = SubSeq(Buf(st, v), v.o + (j - 1) * Size[v.k] + 1, v.o + j * Size[v.k])
===========================================================================
