------------------------------- MODULE Regex -------------------------------
(* Regular expressions: a pattern tree is matched by backtracking over an explicit continuation (a list of work *)
(* items), in both directions; on top of it exec, test, search, match, matchAll, replace and split with the    *)
(* lastIndex protocol.  Strings are sequences of code units.                                                    *)
EXTENDS Drv, Integers, SequencesExt, FiniteSets

R(s, v) == [s |-> s, r |-> v]
MinI(a, b) == IF a < b THEN a ELSE b
\* ---- characters ----
HiS(u) == u \in 55296..56319
LoS(u) == u \in 56320..57343
\* the characters of a string: <<character, first unit, last unit>>
RECURSIVE Chars(_, _, _)
Chars(s, i, uni) == IF i > Len(s) THEN <<>>
                    ELSE IF uni /\ HiS(s[i]) /\ i < Len(s) /\ LoS(s[i + 1])
                    THEN <<<<65536 + (s[i] - 55296) * 1024 + s[i + 1] - 56320, i - 1, i + 1>>>> \o Chars(s, i + 2, uni)
                    ELSE <<<<s[i], i - 1, i>>>> \o Chars(s, i + 1, uni)
UpperA == 65..90
LowerA == 97..122
Digit == 48..57
\* case folding of the alphabet used: é 233, É 201, ſ 383, K 8490, ß 223, Cherokee and Deseret pairs
Canon(c, x) == IF ~ c.i THEN x
               ELSE IF x \in LowerA THEN x - 32
               ELSE IF x = 233 THEN 201
               ELSE IF x = 1103 THEN 1071
               ELSE IF c.u /\ x = 383 THEN 83
               ELSE IF c.u /\ x = 8490 THEN 75
               ELSE IF c.u /\ x = 66600 THEN 66560
               ELSE x
FoldChars == LowerA \cup UpperA \cup {233, 201, 1103, 1071, 383, 8490, 66600, 66560}
Equiv(c, x) == IF c.i THEN {x} \cup {a \in FoldChars : Canon(c, a) = Canon(c, x)} ELSE {x}
WordB == UpperA \cup LowerA \cup Digit \cup {95}
IsWord(c, x) == x \in WordB \/ (c.u /\ c.i /\ x \in {383, 8490})
IsSpace(x) == x \in {9, 10, 11, 12, 13, 32, 160, 8232, 8233, 65279, 5760, 8239, 8287, 12288} \/ x \in 8192..8202
IsLine(x) == x \in {10, 13, 8232, 8233}
InEsc(c, e, x) == CASE e = "d" -> x \in Digit [] e = "D" -> x \notin Digit
                    [] e = "s" -> IsSpace(x) [] e = "S" -> ~ IsSpace(x)
                    [] e = "w" -> IsWord(c, x) [] e = "W" -> ~ IsWord(c, x)
InItem(c, it, x) == CASE it[1] = "c" -> x = it[2] [] it[1] = "r" -> x >= it[2] /\ x <= it[3] [] it[1] = "e" -> InEsc(c, it[2], x)
Matches(c, n, x) == CASE n[1] = "c" -> Canon(c, n[2]) = Canon(c, x)
                      [] n[1] = "any" -> c.s \/ ~ IsLine(x)
                      [] n[1] = "esc" -> \E a \in Equiv(c, x) : InEsc(c, n[2], a)
                      [] n[1] = "set" -> (\E a \in Equiv(c, x) : \E i \in 1..Len(n[3]) : InItem(c, n[3][i], a)) # n[2]
\* ---- the matcher: c the context (flags, characters), k the work that is left, x the state [e, caps] ----
N(n, d) == [t |-> "n", n |-> n, d |-> d]
Fail == [ok |-> FALSE]
WordAt(c, e) == e >= 1 /\ e <= Len(c.in) /\ IsWord(c, c.in[e][1])
RECURSIVE M(_, _, _)
M(c, k, x) ==
    IF k = <<>> THEN [ok |-> TRUE, x |-> x]
    ELSE LET it == k[1]
             rest == Tail(k)
         IN
    CASE it.t = "cap" ->
            M(c, rest, [x EXCEPT !.caps[it.i] = IF it.d = 1 THEN <<it.from, x.e>> ELSE <<x.e, it.from>>])
      [] it.t = "rep" ->
            (LET q == it.q     \* <<"q", node, min, max, greedy, first capture, captures>>
                 body == M(c, <<N(q[2], it.d), [t |-> "chk", from |-> x.e, min |-> it.min,
                                                nx |-> [it EXCEPT !.min = IF it.min = 0 THEN 0 ELSE it.min - 1, !.max = IF it.max < 0 THEN it.max ELSE it.max - 1]]>> \o rest,
                           [x EXCEPT !.caps = [i \in 1..Len(x.caps) |-> IF i >= q[6] /\ i < q[6] + q[7] THEN <<>> ELSE x.caps[i]]])
                 out == M(c, rest, x)
             IN IF it.max = 0 THEN out
                ELSE IF it.min > 0 THEN body
                ELSE IF q[5] THEN (IF body.ok THEN body ELSE out)
                ELSE (IF out.ok THEN out ELSE body))
      [] it.t = "chk" -> IF it.min = 0 /\ x.e = it.from THEN Fail ELSE M(c, <<it.nx>> \o rest, x)
      [] it.t = "n" ->
            (LET n == it.n
                 d == it.d
             IN
             CASE n[1] = "seq" -> M(c, [i \in 1..Len(n[2]) |-> N(IF d = 1 THEN n[2][i] ELSE n[2][Len(n[2]) + 1 - i], d)] \o rest, x)
               [] n[1] = "alt" -> (LET a == M(c, <<N(n[2][1], d)>> \o rest, x)
                                   IN IF a.ok \/ Len(n[2]) = 1 THEN a ELSE M(c, <<N(<<"alt", Tail(n[2])>>, d)>> \o rest, x))
               [] n[1] \in {"c", "any", "esc", "set"} ->
                    (LET f == x.e + d
                     IN IF f < 0 \/ f > Len(c.in) THEN Fail
                        ELSE IF Matches(c, n, c.in[IF d = 1 THEN f ELSE x.e][1]) THEN M(c, rest, [x EXCEPT !.e = f]) ELSE Fail)
               [] n[1] = "ncg" -> M(c, <<N(n[2], d)>> \o rest, x)
               [] n[1] = "grp" -> M(c, <<N(n[3], d), [t |-> "cap", i |-> n[2], from |-> x.e, d |-> d]>> \o rest, x)
               [] n[1] = "q" -> M(c, <<[t |-> "rep", q |-> n, min |-> n[3], max |-> n[4], d |-> d]>> \o rest, x)
               [] n[1] = "bol" -> IF x.e = 0 \/ (c.m /\ IsLine(c.in[x.e][1])) THEN M(c, rest, x) ELSE Fail
               [] n[1] = "eol" -> IF x.e = Len(c.in) \/ (c.m /\ IsLine(c.in[x.e + 1][1])) THEN M(c, rest, x) ELSE Fail
               [] n[1] = "wb" -> IF WordAt(c, x.e) # WordAt(c, x.e + 1) THEN M(c, rest, x) ELSE Fail
               [] n[1] = "nwb" -> IF WordAt(c, x.e) = WordAt(c, x.e + 1) THEN M(c, rest, x) ELSE Fail
               [] n[1] = "look" ->          \* <<"look", direction, negative, node>>
                    (LET a == M(c, <<N(n[4], n[2])>>, x)
                     IN IF n[3] THEN (IF a.ok THEN Fail ELSE M(c, rest, x))
                        ELSE IF a.ok THEN M(c, rest, [x EXCEPT !.caps = a.x.caps]) ELSE Fail)
               [] n[1] = "ref" ->
                    (LET p == x.caps[n[2]]
                         l == p[2] - p[1]
                         f == x.e + d * l
                         g == MinI(x.e, f)
                     IN IF p = <<>> THEN M(c, rest, x)
                        ELSE IF f < 0 \/ f > Len(c.in) THEN Fail
                        ELSE IF \A i \in 1..l : Canon(c, c.in[p[1] + i][1]) = Canon(c, c.in[g + i][1]) THEN M(c, rest, [x EXCEPT !.e = f]) ELSE Fail))
\* ---- exec on the string s from the unit index li; the state of a regexp: [p: tree, nc: captures, names, f: flags, li] ----
Has(re, f) == \E i \in 1..Len(re.f) : re.f[i] = f
UnitOf(cs, s, e) == IF e < Len(cs) THEN cs[e + 1][2] ELSE Len(s)
Advance(s, i, uni) == IF uni /\ i + 2 <= Len(s) /\ HiS(s[i + 1]) /\ LoS(s[i + 2]) THEN i + 2 ELSE i + 1
\* <<>> or <<captures as unit ranges, the whole match first>>
RECURSIVE Search(_, _, _, _, _)
Search(c, re, s, e, sticky) ==
    IF e > Len(c.in) THEN <<>>
    ELSE LET a == M(c, <<N(re.p, 1)>>, [e |-> e, caps |-> [i \in 1..re.nc |-> <<>>]])
             U(y) == UnitOf(c.in, s, y)
         IN IF a.ok THEN <<<<U(e), U(a.x.e)>>>> \o [i \in 1..re.nc |-> IF a.x.caps[i] = <<>> THEN <<>> ELSE <<U(a.x.caps[i][1]), U(a.x.caps[i][2])>>]
            ELSE IF sticky THEN <<>> ELSE Search(c, re, s, e + 1, sticky)
\* the outcome and the next lastIndex
Exec(re, s, li) ==
    LET uni == Has(re, "u")
        cs == Chars(s, 1, uni)
        c == [i |-> Has(re, "i"), m |-> Has(re, "m"), s |-> Has(re, "s"), u |-> uni, in |-> cs]
        gy == Has(re, "g") \/ Has(re, "y")
        from == IF gy THEN li ELSE 0
        e == IF from = Len(s) THEN Len(cs) ELSE CHOOSE j \in 0..(Len(cs) - 1) : cs[j + 1][2] <= from /\ cs[j + 1][3] > from
        m == Search(c, re, s, e, Has(re, "y"))
    IN IF gy /\ li > Len(s) THEN <<<<>>, 0>>
       ELSE <<m, IF ~ gy THEN li ELSE IF m = <<>> THEN 0 ELSE m[1][2]>>
Sub(s, p) == SubSeq(s, p[1] + 1, p[2])
Cap(s, p) == IF p = <<>> THEN <<"u">> ELSE <<"s", Sub(s, p)>>
\* names: <<name, capture>> pairs
Result(re, s, m) ==
    IF m = <<>> THEN <<"null">>
    ELSE <<"m", m[1][1], [i \in 1..Len(m) |-> Cap(s, m[i])],
           IF re.names = <<>> THEN <<"u">> ELSE <<"g", [i \in 1..Len(re.names) |-> <<re.names[i][1], Cap(s, m[re.names[i][2] + 1])>>]>>,
           IF Has(re, "d") THEN <<"i", m, [i \in 1..Len(re.names) |-> m[re.names[i][2] + 1]]>> ELSE <<"u">>>>
\* every match of a global expression from li on
RECURSIVE All(_, _, _)
All(re, s, li) == LET a == Exec(re, s, li)
                      m == a[1]
                  IN IF m = <<>> THEN <<>>
                     ELSE <<m>> \o All(re, s, IF m[1][1] = m[1][2] THEN Advance(s, a[2], Has(re, "u")) ELSE a[2])
\* ---- replacement templates ----
Is(t, i, u) == i <= Len(t) /\ t[i] = u
RECURSIVE Subst(_, _, _, _, _)
Subst(re, s, m, t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] # 36 \/ i = Len(t) THEN <<t[i]>> \o Subst(re, s, m, t, i + 1)
    ELSE LET n == t[i + 1]
             two == i + 2 <= Len(t) /\ n \in Digit /\ t[i + 2] \in Digit
             v == IF two THEN (n - 48) * 10 + t[i + 2] - 48 ELSE n - 48
             close == {j \in (i + 2)..Len(t) : t[j] = 62}
             e == CHOOSE j \in close : \A k \in close : j <= k
             name == SubSeq(t, i + 2, e - 1)
             J == {j \in 1..Len(re.names) : re.names[j][1] = name}
             val(p) == IF p = <<>> THEN <<>> ELSE Sub(s, p)
         IN IF n = 36 THEN <<36>> \o Subst(re, s, m, t, i + 2)
            ELSE IF n = 38 THEN Sub(s, m[1]) \o Subst(re, s, m, t, i + 2)
            ELSE IF n = 96 THEN SubSeq(s, 1, m[1][1]) \o Subst(re, s, m, t, i + 2)
            ELSE IF n = 39 THEN SubSeq(s, m[1][2] + 1, Len(s)) \o Subst(re, s, m, t, i + 2)
            ELSE IF n \in Digit
                 THEN (IF v >= 1 /\ v < Len(m) THEN val(m[v + 1]) \o Subst(re, s, m, t, i + (IF two THEN 3 ELSE 2))
                       ELSE <<36>> \o Subst(re, s, m, t, i + 1))
            ELSE IF n = 60 /\ re.names # <<>> /\ close # {}
                 THEN (IF J = {} THEN <<>> ELSE val(m[re.names[CHOOSE j \in J : TRUE][2] + 1])) \o Subst(re, s, m, t, e + 1)
            ELSE <<36>> \o Subst(re, s, m, t, i + 1)
RECURSIVE Glue(_, _, _, _, _)
Glue(s, ms, reps, i, at) == IF i > Len(ms) THEN SubSeq(s, at + 1, Len(s))
                            ELSE SubSeq(s, at + 1, ms[i][1][1]) \o reps[i] \o Glue(s, ms, reps, i + 1, ms[i][1][2])
\* the arguments a replacing function gets, and what the driver's function returns: [first capture or match]
FnArgs(re, s, m) == <<[i \in 1..Len(m) |-> Cap(s, m[i])], m[1][1],
                      IF re.names = <<>> THEN <<"u">> ELSE <<"g", [i \in 1..Len(re.names) |-> <<re.names[i][1], Cap(s, m[re.names[i][2] + 1])>>]>>>>
FnRep(s, m) == <<91>> \o (IF m[Len(m)] = <<>> THEN <<>> ELSE Sub(s, m[Len(m)])) \o <<93>>
\* ---- split ----
RECURSIVE SplitF(_, _, _, _, _, _)
SplitF(re, s, p, q, acc, lim) ==
    IF Len(acc) >= lim THEN SubSeq(acc, 1, lim)
    ELSE IF q >= Len(s) THEN Append(acc, <<"s", SubSeq(s, p + 1, Len(s))>>)
    ELSE LET a == Exec([re EXCEPT !.f = Append(re.f, "y")], s, q)
             m == a[1]
             e == IF m = <<>> THEN 0 ELSE MinI(m[1][2], Len(s))
         IN IF m = <<>> \/ e = p THEN SplitF(re, s, p, Advance(s, q, Has(re, "u")), acc, lim)
            ELSE SplitF(re, s, e, e, acc \o <<<<"s", SubSeq(s, p + 1, q)>>>> \o [i \in 1..re.nc |-> Cap(s, m[i + 1])], lim)
Split(re, s, lim) ==
    IF lim = 0 THEN <<>>
    ELSE IF s = <<>> THEN (IF Exec([re EXCEPT !.f = Append(re.f, "y")], s, 0)[1] # <<>> THEN <<>> ELSE <<<<"s", s>>>>)
    ELSE SplitF(re, s, 0, 0, <<>>, lim)
\* ---- operations: the state is the sequence of expressions made ----
RApply(x, st0) ==
    IF x.n = "make" THEN R(Append(st0, [p |-> x.p, nc |-> x.nc, names |-> x.names, f |-> x.f, li |-> 0]), <<"u">>)
    ELSE IF x.r > Len(st0) THEN R(st0, <<"none">>)
    ELSE
    LET re == st0[x.r]
        s == x.s
        g == Has(re, "g")
        one == Exec(re, s, re.li)
        Set(li) == [st0 EXCEPT ![x.r].li = li]
        ms == IF g THEN All(re, s, 0) ELSE IF one[1] = <<>> THEN <<>> ELSE <<one[1]>>
        after == IF g THEN 0 ELSE one[2]
    IN CASE x.n = "set" -> R(Set(x.v), <<"u">>)
         [] x.n = "exec" -> R(Set(one[2]), <<Result(re, s, one[1]), one[2]>>)
         [] x.n = "test" -> R(Set(one[2]), <<one[1] # <<>>, one[2]>>)
         [] x.n = "search" -> R(st0, (LET a == Exec(re, s, 0) IN <<IF a[1] = <<>> THEN 0 - 1 ELSE a[1][1][1], re.li>>))
         [] x.n = "match" -> IF g THEN R(Set(0), <<IF ms = <<>> THEN <<"null">> ELSE <<"l", [i \in 1..Len(ms) |-> Sub(s, ms[i][1])]>>, 0>>)
                             ELSE R(Set(one[2]), <<Result(re, s, one[1]), one[2]>>)
         [] x.n = "matchAll" -> IF ~ g THEN R(st0, <<<<"TypeError">>, re.li>>)
                                ELSE R(st0, (LET l == All(re, s, re.li) IN <<[i \in 1..Len(l) |-> Result(re, s, l[i])], re.li>>))
         [] x.n = "replace" -> IF x.all /\ ~ g THEN R(st0, <<<<"TypeError">>, re.li>>)
                               ELSE R(Set(after), <<<<"s", Glue(s, ms, [i \in 1..Len(ms) |-> Subst(re, s, ms[i], x.t, 1)], 1, 0)>>, after>>)
         [] x.n = "replaceFn" -> (LET last == IF x.touch /\ ms # <<>> THEN 1 ELSE after       \* the function may move lastIndex: all matches are found before it is called
                                  IN R(Set(last), <<<<"s", Glue(s, ms, [i \in 1..Len(ms) |-> FnRep(s, ms[i])], 1, 0)>>, last,
                                                    [i \in 1..Len(ms) |-> Append(FnArgs(re, s, ms[i]), IF x.touch /\ i > 1 THEN 1 ELSE after)]>>))
         [] x.n = "split" -> R(st0, <<Split(re, s, x.lim), re.li>>)
NoOps(s) == {}
NoInit == {}
RStart(c) == <<>>
\* ---- what must hold ----
HasRes == ev # <<>> /\ ev[1].n \in {"exec"} /\ ev[2] # <<"none">> /\ ev[2][1] # <<"null">>
\* a match lies in the string and its text is the string's text there; without g and y nothing is remembered
InBounds == HasRes => LET m == ev[2][1] IN m[2] >= 0 /\ m[2] + Len(m[3][1][2]) <= Len(ev[1].s) /\ m[3][1][2] = SubSeq(ev[1].s, m[2] + 1, m[2] + Len(m[3][1][2]))
LastIndex == [][(ev' # <<>> /\ ev'[1].n \in {"exec", "test"} /\ ev'[2] # <<"none">> /\ ~ (Has(st[ev'[1].r], "g") \/ Has(st[ev'[1].r], "y"))) => st' = st]_<<st, ev>>
\* the pieces of a split without captures joined by their separators have the length of the string at most
SplitLen == (ev # <<>> /\ ev[1].n = "split" /\ ev[2] # <<"none">> /\ st[ev[1].r].nc = 0) => FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(ev[2][1]) |-> Len(ev[2][1][i][2])]) <= Len(ev[1].s)
===========================================================================
