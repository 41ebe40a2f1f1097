------------------------------ MODULE SymTpl ------------------------------
(* Symbols and the global symbol registry (ECMA-262 20.4), template values and template objects         *)
(* (12.9.6, 13.2.8), over any number of realms.  Identities are numbers in the order of appearance.       *)
EXTENDS Drv, Integers, SequencesExt

(* --------------------------- template strings --------------------------- *)
CU(r, i) == IF i <= Len(r) THEN r[i] ELSE 0
Digit(c) == c >= 48 /\ c <= 57
HexOk(c) == Digit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexV(c) == IF Digit(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Utf16(v) == IF v < 65536 THEN <<v>> ELSE <<55296 + ((v - 65536) \div 1024), 56320 + ((v - 65536) % 1024)>>
Bad == <<"u">>
RECURSIVE Cook(_, _, _), Braced(_, _, _, _), Raw(_, _, _)
\* hexadecimal digits from i up to }, value so far v, n digits
Braced(r, i, v, n) == IF CU(r, i) = 125 /\ n > 0 /\ v <= 1114111 THEN <<i, v>>
                      ELSE IF HexOk(CU(r, i)) THEN Braced(r, i + 1, LET w == v * 16 + HexV(r[i]) IN IF w > 1114111 THEN 1114112 ELSE w, n + 1)
                      ELSE <<>>
Simple == <<<<110, 10>>, <<116, 9>>, <<114, 13>>, <<98, 8>>, <<118, 11>>, <<102, 12>>>>
Cook(r, i, acc) ==
    LET c == CU(r, i)
        d == CU(r, i + 1)
        x == i + 2
    IN IF i > Len(r) THEN <<"s", acc>>
       ELSE IF c = 13 THEN Cook(r, IF d = 10 THEN i + 2 ELSE i + 1, Append(acc, 10))
       ELSE IF c # 92 THEN Cook(r, i + 1, Append(acc, c))
       ELSE IF d = 13 THEN Cook(r, IF CU(r, i + 2) = 10 THEN i + 3 ELSE i + 2, acc)
       ELSE IF d = 10 THEN Cook(r, i + 2, acc)
       ELSE IF \E k \in 1..6 : Simple[k][1] = d THEN Cook(r, i + 2, Append(acc, (CHOOSE p \in ToSet(Simple) : p[1] = d)[2]))
       ELSE IF d = 48 /\ ~Digit(CU(r, x)) THEN Cook(r, i + 2, Append(acc, 0))
       ELSE IF Digit(d) THEN Bad
       ELSE IF d = 120 THEN (IF HexOk(CU(r, x)) /\ HexOk(CU(r, x + 1)) THEN Cook(r, x + 2, Append(acc, HexV(r[x]) * 16 + HexV(r[x + 1]))) ELSE Bad)
       ELSE IF d = 117
            THEN (IF CU(r, x) = 123 THEN LET b == Braced(r, x + 1, 0, 0) IN IF b = <<>> THEN Bad ELSE Cook(r, b[1] + 1, acc \o Utf16(b[2]))
                  ELSE IF \A k \in 0..3 : HexOk(CU(r, x + k))
                       THEN Cook(r, x + 4, Append(acc, HexV(r[x]) * 4096 + HexV(r[x + 1]) * 256 + HexV(r[x + 2]) * 16 + HexV(r[x + 3]))) ELSE Bad)
       ELSE Cook(r, i + 2, Append(acc, d))
Raw(r, i, acc) == IF i > Len(r) THEN acc ELSE IF r[i] = 13 THEN Raw(r, IF CU(r, i + 1) = 10 THEN i + 2 ELSE i + 1, Append(acc, 10)) ELSE Raw(r, i + 1, Append(acc, r[i]))
Cooked(r) == Cook(r, 1, <<>>)

(* -------------------------------- symbols -------------------------------- *)
\* a symbol: <<"own", description>> (description <<>> for none, <<d>>), <<"reg", key>>, <<"well", name>>
Find(s, x) == LET q == SelectInSeq(s.syms, LAMBDA e : e = x) IN q
Intern(s, x) == IF Find(s, x) # 0 THEN <<s, Find(s, x)>> ELSE <<[s EXCEPT !.syms = Append(@, x)], Len(s.syms) + 1>>
Descr(e) == IF e[1] = "own" THEN e[2] ELSE IF e[1] = "reg" THEN <<e[2]>> ELSE <<"Symbol." \o e[2]>>
R(s, v) == [s |-> s, r |-> v]
Opt(d) == IF d = <<>> THEN <<"u">> ELSE <<"t", d[1]>>

(* ------------------------------- templates ------------------------------- *)
TplIndex(s, f, k) == SelectInSeq(s.tpls, LAMBDA e : e = <<f, k>>)
Image(site) == [j \in 1..Len(site) |-> <<Cooked(site[j]), Raw(site[j], 1, <<>>)>>]
SApply(x, s) ==
    CASE x.n = "symbol" -> R([s EXCEPT !.syms = Append(@, <<"own", x.d>>)], <<"y", Len(s.syms) + 1>>)
      [] x.n = "for" -> LET i == Intern(s, <<"reg", x.k>>) IN R(i[1], <<"y", i[2]>>)
      [] x.n = "well" -> LET i == Intern(s, <<"well", x.k>>) IN R(i[1], <<"y", i[2]>>)
      [] x.n \in {"keyFor", "descr", "str", "put", "get", "del"} /\ (x.i > Len(s.syms) \/ x.i = 0) -> R(s, <<"none">>)
      [] x.n = "keyFor" -> R(s, IF s.syms[x.i][1] = "reg" THEN <<"t", s.syms[x.i][2]>> ELSE <<"u">>)
      [] x.n = "descr" -> R(s, Opt(Descr(s.syms[x.i])))
      [] x.n = "str" -> R(s, <<"t", "Symbol(" \o (IF Descr(s.syms[x.i]) = <<>> THEN "" ELSE Descr(s.syms[x.i])[1]) \o ")">>)
      [] x.n = "put" -> LET at == SelectInSeq(s.props, LAMBDA e : e[1] = x.i)
                        IN R([s EXCEPT !.props = IF at = 0 THEN Append(@, <<x.i, x.v>>) ELSE [@ EXCEPT ![at] = <<x.i, x.v>>]], <<"u">>)
      [] x.n = "get" -> LET at == SelectInSeq(s.props, LAMBDA e : e[1] = x.i) IN R(s, IF at = 0 THEN <<"u">> ELSE <<"i", s.props[at][2]>>)
      [] x.n = "del" -> R([s EXCEPT !.props = SelectSeq(@, LAMBDA e : e[1] # x.i)], <<"u">>)
      [] x.n = "keys" -> R(s, <<"l", [j \in 1..Len(s.props) |-> s.props[j][1]]>>)
      [] x.n = "gc" -> R(s, <<"u">>)
      \* functions with template sites; one more closure of one of them
      [] x.n = "fun" -> R([s EXCEPT !.fns = Append(@, x.sites)], <<"i", Len(s.fns) + 1>>)
      [] x.n \in {"closure", "call"} /\ (x.f > Len(s.fns) \/ x.f = 0) -> R(s, <<"none">>)
      [] x.n = "closure" -> R(s, <<"u">>)
      [] x.n = "call" /\ x.k > Len(s.fns[x.f]) -> R(s, <<"none">>)
      \* evaluating site k gives its object, the same both times, frozen, with cooked and raw strings; then the substitutions in order
      [] x.n = "call" -> LET at == TplIndex(s, x.f, x.k)
                             site == s.fns[x.f][x.k]
                             id == IF at = 0 THEN Len(s.tpls) + 1 ELSE at
                         IN R(IF at = 0 THEN [s EXCEPT !.tpls = Append(@, <<x.f, x.k>>)] ELSE s,
                              <<"T", id, id, Image(site), [j \in 1..(Len(site) - 1) |-> j]>>)
      \* the value of a template without a tag
      [] x.n = "plain" -> R(s, IF \E j \in 1..Len(x.site) : Cooked(x.site[j]) = Bad THEN <<"throw", "SyntaxError">>
                               ELSE <<"s", FoldLeft(LAMBDA a, j : a \o (IF j > 1 THEN <<48 + j - 1>> ELSE <<>>) \o Cooked(x.site[j])[2], <<>>, [j \in 1..Len(x.site) |-> j])>>)
GStart(c) == [syms |-> <<>>, props |-> <<>>, fns |-> <<>>, tpls |-> <<>>]
NoOps(s) == {}
NoInit == {}
\* every registered key has one symbol; every site has one object
RegistryFunction == \A i, j \in 1..Len(st.syms) : (i # j /\ st.syms[i][1] # "own") => st.syms[i] # st.syms[j]
SiteFunction == \A i, j \in 1..Len(st.tpls) : i # j => st.tpls[i] # st.tpls[j]
\* identities never change
Stable == [][ev' # <<>> => \A i \in 1..Len(st.syms) : st'.syms[i] = st.syms[i]]_st
===========================================================================
