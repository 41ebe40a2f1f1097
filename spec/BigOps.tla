------------------------------- MODULE BigOps -------------------------------
(* BigInt operators (ECMA-262 6.1.6.2, 21.2) as exact integer arithmetic. *)
EXTENDS Drv, Big
R(a) == <<"n", a>>
Bo(b) == <<"b", b>>
Th(e) == <<"throw", e>>
Bit(c) == c = 0
\* mixed comparison with a Number <<"z", big>> <<"h", neg, limbs>> (limbs + 1/2) <<"x", name>>: twice its value
Dbl(v) == IF v[1] = "z" THEN Add(v[2], v[2]) ELSE IF v[1] = "h" THEN LET d == Add(Add(Bg(FALSE, v[3]), Bg(FALSE, v[3])), One) IN (IF v[2] THEN Neg(d) ELSE d) ELSE Zero
CmpN(a, v) == CASE v = <<"x", "Infinity">> -> -1 [] v = <<"x", "-Infinity">> -> 1 [] OTHER -> Cmp(Add(a, a), Dbl(v))
Six(c) == <<"l", <<c < 0, c > 0, c <= 0, c >= 0, c = 0, c # 0>>>>
\* digits of a text: <<negative, radix, digits, ok>>
BApply(x, t0) ==
    LET a == x.a
        b == x.b
        k == x.k
        r == CASE x.n = "add" -> R(Add(a, b))
               [] x.n = "sub" -> R(Minus(a, b))
               [] x.n = "mul" -> R(Mul(a, b))
               [] x.n = "div" -> IF b.m = <<>> THEN Th("RangeError") ELSE R(Quo(a, b))
               [] x.n = "mod" -> IF b.m = <<>> THEN Th("RangeError") ELSE R(Rem(a, b))
               [] x.n = "divmod" -> IF b.m = <<>> THEN Th("RangeError") ELSE R(Add(Mul(Quo(a, b), b), Rem(a, b)))
               [] x.n = "pow" -> IF k < 0 THEN Th("RangeError") ELSE R(Pow(a, k))
               [] x.n = "neg" -> R(Neg(a))
               [] x.n = "not" -> R(BNot(a))
               [] x.n = "inc" -> R(Add(a, One))
               [] x.n = "dec" -> R(Minus(a, One))
               [] x.n \in {"and", "or", "xor"} -> R(Bits(x.n, a, b))
               [] x.n = "shl" -> R(IF k >= 0 THEN Shl(a, k) ELSE Shr(a, -k))
               [] x.n = "shr" -> R(IF k >= 0 THEN Shr(a, k) ELSE Shl(a, -k))
               [] x.n = "cmp" -> Six(Cmp(a, b))
               [] x.n = "cmpn" -> IF x.v = <<"x", "NaN">> THEN <<"l", <<FALSE, FALSE, FALSE, FALSE, FALSE, TRUE>>>> ELSE Six(CmpN(a, x.v))
               [] x.n = "asInt" -> R(AsI(k, a))
               [] x.n = "asUint" -> R(AsU(k, a))
               [] x.n = "text" -> <<"s", Text(a, k)>>
               [] x.n = "parse" -> IF x.bad THEN Th("SyntaxError") ELSE R(LET w == Value(x.ds, k) IN IF x.sg THEN Neg(w) ELSE w)
               [] x.n = "tonum" -> R(Round53(a))
               [] x.n = "ofnum" -> IF x.v[1] = "z" THEN R(x.v[2]) ELSE IF x.v = <<"x", "-0">> THEN R(Zero) ELSE Th("RangeError")
               [] x.n = "mix" -> Th("TypeError")                  \* BigInt and Number operands
               [] x.n = "bool" -> Bo(a.m # <<>>)
    IN [s |-> t0, r |-> r]
NoStart(c) == 0
NoOps(s) == {}
NoInit == {}
\* algebraic laws, checked by TLC on every pair of operands it is given
Laws == (di > 1 /\ di <= Len(Programs[dk].ops) + 1) =>
          LET x == Programs[dk].ops[di - 1]
          IN ("a" \in DOMAIN x /\ "b" \in DOMAIN x) =>
               /\ Minus(Add(x.a, x.b), x.b) = x.a
               /\ Mul(x.a, x.b) = Mul(x.b, x.a)
               /\ x.b.m # <<>> => Add(Mul(Quo(x.a, x.b), x.b), Rem(x.a, x.b)) = x.a /\ Cmpm(Rem(x.a, x.b).m, x.b.m) < 0
               /\ Add(Bits("and", x.a, x.b), Bits("or", x.a, x.b)) = Add(x.a, x.b)
               /\ Bits("xor", x.a, x.b) = Minus(Bits("or", x.a, x.b), Bits("and", x.a, x.b))
===========================================================================
