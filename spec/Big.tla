-------------------------------- MODULE Big --------------------------------
(* Integers of any size: [n: negative, m: limbs of 12 bits, least significant first, no leading zero]. *)
EXTENDS Integers, Sequences
LB == 4096
Nib == [a \in 0..15 |-> [b \in 0..15 |->
          ((a % 2) * (b % 2)) + 2 * (((a \div 2) % 2) * ((b \div 2) % 2)) + 4 * (((a \div 4) % 2) * ((b \div 4) % 2)) + 8 * ((a \div 8) * (b \div 8))]]
And12(a, b) == Nib[a % 16][b % 16] + 16 * Nib[(a \div 16) % 16][(b \div 16) % 16] + 256 * Nib[a \div 256][b \div 256]
Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxL(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE Trim(_), CmpM(_, _, _), AddM(_, _, _, _), SubM(_, _, _, _), MulL(_, _, _, _), MulM(_, _, _), Digit(_, _, _, _), DivStep(_, _, _, _), Pow2(_)
Trim(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
\* -1, 0, 1
CmpM(a, b, i) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                 ELSE IF i = 0 THEN 0 ELSE IF a[i] = b[i] THEN CmpM(a, b, i - 1) ELSE IF a[i] < b[i] THEN -1 ELSE 1
Cmpm(a, b) == CmpM(a, b, Len(a))
AddM(a, b, i, c) == IF i > MaxL(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET t == Limb(a, i) + Limb(b, i) + c IN <<t % LB>> \o AddM(a, b, i + 1, t \div LB)
SubM(a, b, i, c) == IF i > Len(a) THEN <<>>                         \* a >= b
                    ELSE LET t == a[i] - Limb(b, i) - c IN <<IF t < 0 THEN t + LB ELSE t>> \o SubM(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
MulL(a, d, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET t == a[i] * d + c IN <<t % LB>> \o MulL(a, d, i + 1, t \div LB)
MulM(a, b, i) == IF i > Len(b) THEN <<>>
                 ELSE AddM(MulL(a, b[i], 1, 0), LET r == MulM(a, b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r, 1, 0)
Mulm(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulM(a, b, 1))
\* the largest d in lo..hi with d * b <= r
Digit(r, b, lo, hi) == IF lo = hi THEN lo
                       ELSE LET mid == (lo + hi + 1) \div 2
                            IN IF Cmpm(Trim(MulL(b, mid, 1, 0)), r) <= 0 THEN Digit(r, b, mid, hi) ELSE Digit(r, b, lo, mid - 1)
\* long division from the top limb: [q, r]
DivStep(a, b, i, r) == IF i = 0 THEN [q |-> <<>>, r |-> r]
                       ELSE LET r1 == Trim(<<a[i]>> \o r)
                                L == Len(b)
                                top == Limb(r1, L + 1) * LB + Limb(r1, L)
                                hi == top \div b[L]
                                lo == top \div (b[L] + 1)
                                d == IF Len(r1) < L THEN 0 ELSE Digit(r1, b, lo, IF hi >= LB THEN LB - 1 ELSE hi)
                                r2 == Trim(SubM(r1, MulL(b, d, 1, 0), 1, 0))
                                rest == DivStep(a, b, i - 1, r2)
                            IN [q |-> Append(rest.q, d), r |-> rest.r]
\* divide by one limb, from the top
RECURSIVE DivS(_, _, _, _)
DivS(a, d, i, r) == IF i = 0 THEN [q |-> <<>>, r |-> IF r = 0 THEN <<>> ELSE <<r>>]
                    ELSE LET t == r * LB + a[i]
                             rest == DivS(a, d, i - 1, t % d)
                         IN [q |-> Append(rest.q, t \div d), r |-> rest.r]
DivM(a, b) == LET x == IF Len(b) = 1 THEN DivS(a, b[1], Len(a), 0)
                       ELSE IF Cmpm(a, b) < 0 THEN [q |-> <<>>, r |-> a] ELSE DivStep(a, b, Len(a), <<>>)
              IN [q |-> Trim(x.q), r |-> x.r]
Pow2(k) == IF k < 12 THEN <<2 ^ k>> ELSE <<0>> \o Pow2(k - 12)

Bg(n, m) == [n |-> n /\ m # <<>>, m |-> m]
Zero == Bg(FALSE, <<>>)
One == Bg(FALSE, <<1>>)
RECURSIVE Small(_)
Small(i) == IF i = 0 THEN <<>> ELSE <<i % LB>> \o Small(i \div LB)
FromInt(i) == IF i < 0 THEN Bg(TRUE, Small(-i)) ELSE Bg(FALSE, Small(i))
Neg(a) == Bg(~a.n, a.m)
Cmp(a, b) == IF a.n # b.n THEN (IF a.n THEN -1 ELSE 1) ELSE IF a.n THEN Cmpm(b.m, a.m) ELSE Cmpm(a.m, b.m)
Add(a, b) == IF a.n = b.n THEN Bg(a.n, AddM(a.m, b.m, 1, 0))
             ELSE IF Cmpm(a.m, b.m) >= 0 THEN Bg(a.n, Trim(SubM(a.m, b.m, 1, 0))) ELSE Bg(b.n, Trim(SubM(b.m, a.m, 1, 0)))
Minus(a, b) == Add(a, Neg(b))
Mul(a, b) == Bg(a.n # b.n, Mulm(a.m, b.m))
Quo(a, b) == Bg(a.n # b.n, DivM(a.m, b.m).q)                  \* truncated
Rem(a, b) == Bg(a.n, DivM(a.m, b.m).r)
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN One ELSE LET h == Pow(a, k \div 2) IN IF k % 2 = 0 THEN Mul(h, h) ELSE Mul(a, Mul(h, h))
\* floor division by 2^k
\* magnitude divided by 2^k, and the remainder
DivP(m, k) == LET w == k \div 12
                  x == DivM(SubSeq(m, w + 1, Len(m)), <<2 ^ (k % 12)>>)
              IN IF w >= Len(m) THEN [q |-> <<>>, r |-> m]
                 ELSE [q |-> x.q, r |-> Trim(SubSeq(m, 1, w) \o x.r)]
Shr(a, k) == LET x == DivP(a.m, k) IN IF a.n /\ x.r # <<>> THEN Minus(Bg(TRUE, x.q), One) ELSE Bg(a.n, x.q)
Shl(a, k) == IF a.m = <<>> THEN a ELSE Bg(a.n, [i \in 1..(k \div 12) |-> 0] \o MulL(a.m, 2 ^ (k % 12), 1, 0))
\* two's complement limbs, L of them, and back
Twos(a, L) == IF ~a.n THEN [i \in 1..L |-> Limb(a.m, i)]
              ELSE LET z == [i \in 1..L |-> 0] \o <<1>> IN LET d == SubM(z, a.m, 1, 0) IN [i \in 1..L |-> d[i]]
FromTwos(t) == LET L == Len(t)
               IN IF t[L] < LB \div 2 THEN Bg(FALSE, Trim(t))
                  ELSE Bg(TRUE, Trim(SubM([i \in 1..L |-> 0] \o <<1>>, t, 1, 0)))
Bits(op, a, b) == LET L == MaxL(a.m, b.m) + 1
                      x == Twos(a, L)
                      y == Twos(b, L)
                  IN FromTwos([i \in 1..L |-> LET c == And12(x[i], y[i])
                                              IN CASE op = "and" -> c [] op = "or" -> x[i] + y[i] - c [] op = "xor" -> x[i] + y[i] - 2 * c])
BNot(a) == Minus(Neg(a), One)
\* a modulo 2^k, in 0..2^k-1 and in -2^(k-1)..2^(k-1)-1
AsU(k, a) == LET p == Bg(FALSE, Pow2(k))
                 r == Bg(a.n, DivP(a.m, k).r)
             IN IF r.n THEN Add(r, p) ELSE r
AsI(k, a) == IF k = 0 THEN Zero ELSE LET u == AsU(k, a) IN IF Cmp(u, Bg(FALSE, Pow2(k - 1))) >= 0 THEN Minus(u, Bg(FALSE, Pow2(k))) ELSE u
\* text in a radix
DigitOf == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q",
             "r", "s", "t", "u", "v", "w", "x", "y", "z">>
RECURSIVE TextM(_, _), ValM(_, _, _)
TextM(m, rx) == IF m = <<>> THEN "" ELSE LET d == DivM(m, Small(rx)) IN TextM(d.q, rx) \o DigitOf[(IF d.r = <<>> THEN 0 ELSE d.r[1]) + 1]
Text(a, rx) == IF a.m = <<>> THEN "0" ELSE (IF a.n THEN "-" ELSE "") \o TextM(a.m, rx)
\* the value of a sequence of digits
ValM(ds, rx, acc) == IF ds = <<>> THEN acc ELSE ValM(Tail(ds), rx, AddM(MulL(acc, rx, 1, 0), Small(ds[1]), 1, 0))
Value(ds, rx) == Bg(FALSE, Trim(ValM(ds, rx, <<>>)))
RECURSIVE BitLenL(_)
BitLenL(x) == IF x = 0 THEN 0 ELSE 1 + BitLenL(x \div 2)
BitLen(a) == IF a.m = <<>> THEN 0 ELSE 12 * (Len(a.m) - 1) + BitLenL(a.m[Len(a.m)])
\* round to 53 significant bits, ties to even
Round53(a) == LET k == BitLen(a) - 53
                  ab == Bg(FALSE, a.m)
              IN IF k <= 0 THEN a
                 ELSE LET x == DivP(ab.m, k)
                          q == Bg(FALSE, x.q)
                          r == Bg(FALSE, x.r)
                          h == Cmp(r, Bg(FALSE, Pow2(k - 1)))
                          up == h > 0 \/ (h = 0 /\ q.m # <<>> /\ q.m[1] % 2 = 1)
                      IN Bg(a.n, Shl(IF up THEN Add(q, One) ELSE q, k).m)
============================================================================
