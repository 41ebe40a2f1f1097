------------------------------- MODULE NumOps -------------------------------
(* Integer behaviour of Numbers (ECMA-262 6.1.6.1, 7.1): values <<"z", integer>>, <<"h", neg, m>>     *)
(* (m + 1/2 in magnitude), <<"x", "NaN" | "Infinity" | "-Infinity" | "-0">>.  <<"any">>: not decided. *)
EXTENDS Drv, Big
NaN == <<"x", "NaN">>
Inf(n) == <<"x", IF n THEN "-Infinity" ELSE "Infinity">>
MZ == <<"x", "-0">>
Z(a) == <<"z", a>>
PZ == Z(Zero)
Zs(neg, a) == IF a.m = <<>> THEN (IF neg THEN MZ ELSE PZ) ELSE Z(a)
Undecided == <<"any">>
IsInf(v) == v[1] = "x" /\ v[2] \in {"Infinity", "-Infinity"}
IsZ(v) == v = MZ \/ v = PZ
IsNeg(v) == CASE v[1] = "x" -> v[2] \in {"-Infinity", "-0"} [] v[1] = "z" -> v[2].n [] OTHER -> v[2]
I(v) == CASE v[1] = "z" -> v[2] [] v[1] = "h" -> Bg(v[2], v[3]) [] OTHER -> Zero          \* truncated
Frac(v) == v[1] = "h"
I32(v) == AsI(32, I(v))
U32(v) == AsU(32, I(v))
LowInt(a) == (IF Len(a.m) > 0 THEN a.m[1] ELSE 0) % 32
Dbl(v) == CASE v[1] = "z" -> Add(v[2], v[2]) [] v[1] = "h" -> Bg(v[2], AddM(AddM(v[3], v[3], 1, 0), <<1>>, 1, 0)) [] OTHER -> Zero
CmpV(a, b) == IF IsInf(a) \/ IsInf(b)
              THEN (IF a = b THEN 0 ELSE IF a = Inf(FALSE) \/ b = Inf(TRUE) THEN 1 ELSE -1)
              ELSE Cmp(Dbl(a), Dbl(b))
Fit(a) == BitLen(a) <= 53
Half(a) == Bg(a.n, DivM(a.m, <<2>>).q)
IsOdd(a) == a.m # <<>> /\ a.m[1] % 2 = 1
\* the Number nearest to d / 2
FromD(ng, d) == LET w == Round53(d) IN IF IsOdd(w) THEN <<"h", w.n, Half(w).m>> ELSE Zs(ng, Half(w))
NegV(v) == CASE v = NaN -> NaN [] IsInf(v) -> Inf(~IsNeg(v)) [] v = MZ -> PZ [] v = PZ -> MZ [] v[1] = "z" -> Z(Neg(v[2])) [] OTHER -> <<"h", ~v[2], v[3]>>
AddV(a, b) == IF a = NaN \/ b = NaN THEN NaN
              ELSE IF IsInf(a) THEN (IF IsInf(b) /\ a # b THEN NaN ELSE a)
              ELSE IF IsInf(b) THEN b
              ELSE IF a = MZ /\ b = MZ THEN MZ
              ELSE FromD(FALSE, Add(Dbl(a), Dbl(b)))
MulV(a, b) == LET ng == IsNeg(a) # IsNeg(b)
              IN IF a = NaN \/ b = NaN THEN NaN
                 ELSE IF IsInf(a) \/ IsInf(b) THEN (IF IsZ(a) \/ IsZ(b) THEN NaN ELSE Inf(ng))
                 ELSE LET p == Mul(Dbl(a), Dbl(b)) IN IF IsOdd(p) THEN Undecided ELSE FromD(ng, Half(p))
DivV(a, b) == LET ng == IsNeg(a) # IsNeg(b)
              IN IF a = NaN \/ b = NaN THEN NaN
                 ELSE IF IsInf(a) THEN (IF IsInf(b) THEN NaN ELSE Inf(ng))
                 ELSE IF IsInf(b) THEN Zs(ng, Zero)
                 ELSE IF IsZ(b) THEN (IF IsZ(a) THEN NaN ELSE Inf(ng))
                 ELSE IF IsZ(a) THEN Zs(ng, Zero)
                 ELSE LET x == DivM(Add(Dbl(a), Dbl(a)).m, Dbl(b).m) IN IF x.r = <<>> THEN FromD(ng, Bg(ng, x.q)) ELSE Undecided
ModV(a, b) == IF a = NaN \/ b = NaN \/ IsInf(a) \/ IsZ(b) THEN NaN
              ELSE IF IsInf(b) \/ IsZ(a) THEN a
              ELSE FromD(IsNeg(a), Rem(Dbl(a), Dbl(b)))
Odd(v) == v[1] = "z" /\ IsOdd(v[2])
PowV(a, b) == IF b = NaN THEN NaN
              ELSE IF IsZ(b) THEN Z(One)
              ELSE IF a = NaN THEN NaN
              ELSE IF IsInf(a) THEN (LET ng == IsNeg(a) /\ Odd(b) IN IF IsNeg(b) THEN Zs(ng, Zero) ELSE Inf(ng))
              ELSE IF IsInf(b) THEN (LET c == Cmp(Bg(FALSE, Dbl(a).m), Bg(FALSE, <<2>>))
                                     IN IF c = 0 THEN NaN ELSE IF (c > 0) = ~IsNeg(b) THEN Inf(FALSE) ELSE PZ)
              ELSE IF IsZ(a) THEN (LET ng == a = MZ /\ Odd(b) IN IF IsNeg(b) THEN Inf(ng) ELSE Zs(ng, Zero))
              ELSE IF Frac(b) THEN (IF IsNeg(a) THEN NaN ELSE Undecided)
              ELSE IF Frac(a) THEN Undecided
              ELSE IF I(a).m = <<1>> THEN Z(Bg(IsNeg(a) /\ Odd(b), <<1>>))
              ELSE IF IsNeg(b) \/ BitLen(I(b)) > 6 THEN Undecided
              ELSE LET k == I(b).m[1]
                   IN IF k * (BitLen(I(a)) - 1) > 53 THEN Undecided ELSE LET p == Pow(I(a), k) IN IF Fit(p) THEN Z(p) ELSE Undecided
TruncV(v) == IF Frac(v) THEN Zs(IsNeg(v), I(v)) ELSE v
Max53 == Minus(Bg(FALSE, Pow2(53)), One)
ToLen(v) == IF v = NaN \/ IsNeg(v) \/ v = MZ THEN PZ ELSE IF IsInf(v) THEN Z(Max53) ELSE IF Cmp(I(v), Max53) > 0 THEN Z(Max53) ELSE Z(I(v))
IndexOk(v) == ~IsInf(v) /\ (v = NaN \/ (~I(v).n /\ Cmp(I(v), Max53) <= 0))
RECURSIVE Clz(_, _)
Clz(a, k) == IF k = 0 THEN 32 ELSE 32 - BitLen(a)
Bools(v) == <<"l", v>>
RECURSIVE Lead(_, _)
Lead(ds, rx) == IF ds = <<>> THEN ds ELSE IF ds[1] >= rx THEN <<>> ELSE <<ds[1]>> \o Lead(Tail(ds), rx)
NApply(x, t0) ==
    LET a == x.a
        b == x.b
        r == CASE x.n = "not" -> Z(BNot(I32(a)))
               [] x.n \in {"and", "or", "xor"} -> Z(Bits(x.n, I32(a), I32(b)))
               [] x.n = "shl" -> Z(AsI(32, Shl(I32(a), LowInt(U32(b)))))
               [] x.n = "shr" -> Z(Shr(I32(a), LowInt(U32(b))))
               [] x.n = "ushr" -> Z(Shr(U32(a), LowInt(U32(b))))
               [] x.n = "add" -> AddV(a, b)
               [] x.n = "sub" -> AddV(a, NegV(b))
               [] x.n = "mul" -> MulV(a, b)
               [] x.n = "div" -> DivV(a, b)
               [] x.n = "mod" -> ModV(a, b)
               [] x.n = "pow" -> PowV(a, b)
               [] x.n = "neg" -> NegV(a)
               [] x.n = "plus" -> a
               [] x.n = "inc" -> AddV(a, Z(One))
               [] x.n = "dec" -> AddV(a, Z(FromInt(-1)))
               [] x.n = "cmp" -> IF a = NaN \/ b = NaN THEN Bools(<<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, a = b>>)
                                 ELSE LET c == CmpV(a, b) IN Bools(<<c < 0, c > 0, c <= 0, c >= 0, c = 0, c = 0, a = b>>)
               [] x.n = "trunc" -> TruncV(a)
               [] x.n = "clz" -> Z(FromInt(Clz(U32(a), 1)))
               [] x.n = "imul" -> Z(AsI(32, Mul(U32(a), U32(b))))
               [] x.n = "tolen" -> ToLen(a)
               [] x.n = "toidx" -> <<"b", IndexOk(a)>>
               [] x.n = "at" -> IF IsInf(a) THEN <<"none">>
                                ELSE LET k == IF I(a).n THEN Add(I(a), FromInt(10)) ELSE I(a)
                                     IN IF k.n \/ Cmp(k, FromInt(10)) >= 0 THEN <<"none">> ELSE Z(k)
               [] x.n = "isint" -> Bools(<<a[1] = "z" \/ a = MZ, (a[1] = "z" /\ Cmp(Bg(FALSE, a[2].m), Max53) <= 0) \/ a = MZ, a[1] # "x" \/ a = MZ, a = NaN>>)
               [] x.n = "text" -> IF a[1] = "z" THEN (IF Fit(a[2]) THEN <<"s", Text(a[2], x.k)>> ELSE Undecided)
                                  ELSE IF a[1] = "x" THEN <<"s", IF a = MZ THEN "0" ELSE a[2]>> ELSE Undecided
               [] x.n = "parseInt" -> LET rx == IF x.k = 0 THEN (IF x.hex THEN 16 ELSE 10) ELSE x.k
                                          hex == x.hex /\ rx = 16
                                          ds == IF x.hex /\ ~hex THEN <<0>> \o Lead(<<33>> \o x.ds, rx) ELSE Lead(x.ds, rx)
                                      IN IF x.k # 0 /\ (x.k < 2 \/ x.k > 36) THEN NaN
                                         ELSE IF ds = <<>> THEN NaN
                                         ELSE LET w == Value(ds, rx) IN IF ~Fit(w) THEN Undecided ELSE Zs(x.sg, IF x.sg THEN Neg(w) ELSE w)
               [] x.n = "tonum" -> IF x.bad THEN NaN
                                   ELSE IF x.ds = <<>> THEN PZ
                                   ELSE LET w == Round53(Mul(Value(x.ds, x.rx), Pow(FromInt(10), x.ex))) IN Zs(x.sg, IF x.sg THEN Neg(w) ELSE w)
    IN [s |-> t0, r |-> r]
NoStart(c) == 0
NoOps(s) == {}
NoInit == {}
\* what an operator yields is a Number: its significand fits, wrapped results are in range
Rng == (di > 1 /\ ev[2][1] = "z") =>
         LET w == ev[2][2]
             n == ev[1].n
         IN /\ Fit(w) \/ Round53(w) = w
            /\ n \in {"not", "and", "or", "xor", "shl", "shr", "imul"} => AsI(32, w) = w
            /\ n = "ushr" => AsU(32, w) = w
===========================================================================
