------------------------------ MODULE Modules ------------------------------
(* The contracts of module/option.js, json-pointer.js, json-manager.js and json-schema.js.                *)
(* JSON values: <<"z">> null, <<"b", bool>>, <<"h", n>> n halves, <<"s", code points>>, <<"a", values>>,     *)
(* <<"o", <<key, value>> pairs>> (keys are sequences of code points).                                        *)
EXTENDS Drv, Integers, SequencesExt, FiniteSets

R(s, v) == [s |-> s, r |-> v]
Chr(s, i) == SubSeq(s, i, i)
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) = c THEN i ELSE Find(s, c, i + 1)
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Low == "abcdefghijklmnopqrstuvwxyz"
MapChr(s, from, to) == LET RECURSIVE F(_)
                           F(i) == IF i > Len(s) THEN "" ELSE LET k == Find(from, Chr(s, i), 1) IN (IF k = 0 THEN Chr(s, i) ELSE Chr(to, k)) \o F(i + 1)
                       IN F(1)
Lower(s) == MapChr(s, Up, Low)
Upper(s) == MapChr(s, Low, Up)
(* numbers: [-]digits[.digit]; the value in tenths; <<>> when it is not one *)
Digit(c) == Find("0123456789", c, 1)
RECURSIVE Digits(_, _, _)
Digits(s, i, acc) == IF i > Len(s) \/ Digit(Chr(s, i)) = 0 THEN <<i, acc>> ELSE Digits(s, i + 1, acc * 10 + Digit(Chr(s, i)) - 1)
Tenths(s) == LET neg == Len(s) > 0 /\ Chr(s, 1) = "-"
                 b == IF neg THEN 2 ELSE 1
                 d == Digits(s, b, 0)
                 v == IF d[1] = b THEN <<>>
                      ELSE IF d[1] > Len(s) THEN <<d[2] * 10>>
                      ELSE IF Chr(s, d[1]) = "." /\ d[1] = Len(s) - 1 /\ Digit(Chr(s, Len(s))) > 0 THEN <<d[2] * 10 + Digit(Chr(s, Len(s))) - 1>>
                      ELSE <<>>
             IN IF v = <<>> THEN <<>> ELSE <<IF neg THEN 0 - v[1] ELSE v[1]>>
(* ---- options ---- *)
U == <<"u">>
\* the argument string a of an option whose description is d, converted; U: it is not a valid one
Convert(d, a) ==
    CASE d.arg[1] = "boolean" -> (LET l == Lower(a) IN CASE l \in {"true", "yes", "1"} -> <<"b", TRUE>>
                                                       [] l \in {"false", "no", "0"} -> <<"b", FALSE>>
                                                       [] OTHER -> U)
      [] d.arg[1] = "string" -> <<"s", a>>
      [] d.arg[1] = "number" -> (LET t == Tenths(a) IN IF t = <<>> THEN U ELSE <<"n", t[1]>>)
      [] d.arg[1] = "integer" -> (LET t == Tenths(a) IN IF t = <<>> THEN U ELSE <<"n", t[1]>>)
      [] d.arg[1] = "list" -> IF \E i \in 1..Len(d.arg[2]) : d.arg[2][i] = a THEN <<"s", a>> ELSE U
      [] d.arg[1] = "map" -> (LET k == {i \in 1..Len(d.arg[2]) : d.arg[2][i][1] = Upper(a)} IN IF k = {} THEN U ELSE <<"n", d.arg[2][CHOOSE i \in k : TRUE][2]>>)
\* the option a name given on the command line stands for: an exact name or abbreviation, else the only name it begins
Lookup(T, n) == LET ex == {i \in 1..Len(T) : (T[i].name # "" /\ T[i].name = n) \/ (T[i].abbr # "" /\ T[i].abbr = n)}
                    pre == {i \in 1..Len(T) : T[i].name # "" /\ Prefix(n, T[i].name)}
                IN IF ex # {} THEN CHOOSE i \in ex : TRUE ELSE IF Cardinality(pre) = 1 THEN CHOOSE i \in pre : TRUE ELSE 0
\* what a command line word is: <<"pos">>, <<"bad">> or <<"opt", name, attached argument (<<>> or <<text>>)>>
Word(w) == IF Prefix("--", w)
           THEN LET e == Find(w, "=", 1) IN
                IF Len(w) = 2 \/ e = 3 \/ (e > 0 /\ e = Len(w)) THEN <<"bad">>
                ELSE IF e = 0 THEN <<"opt", SubSeq(w, 3, Len(w)), <<>>>>
                ELSE <<"opt", SubSeq(w, 3, e - 1), <<SubSeq(w, e + 1, Len(w))>>>>
           ELSE IF Len(w) >= 2 /\ Chr(w, 1) = "-" THEN <<"opt", Chr(w, 2), IF Len(w) = 2 THEN <<>> ELSE <<SubSeq(w, 3, Len(w))>>>>
           ELSE <<"pos">>
\* parsing from word i on, with the calls made so far; the callback returns false at its stop-th call
RECURSIVE Parse(_, _, _, _, _)
Parse(T, W, i, stop, calls) ==
    IF i > Len(W) THEN <<calls, "true">>
    ELSE LET w == Word(W[i])
             Call(n, v, nx) == IF Len(calls) + 1 = stop THEN <<Append(calls, <<n, v>>), "false">> ELSE Parse(T, W, nx, stop, Append(calls, <<n, v>>))
             bad == <<calls, "TypeError">>
         IN IF w[1] = "pos" THEN Call("", <<"s", W[i]>>, i + 1)
            ELSE IF w[1] = "bad" THEN bad
            ELSE LET k == Lookup(T, w[2]) IN
                 IF k = 0 THEN bad
                 ELSE LET d == T[k]
                          n == IF d.name # "" THEN d.name ELSE d.abbr
                          fall == IF d.def # U THEN Call(n, d.def, i + 1) ELSE IF d.arg[1] = "boolean" THEN Call(n, <<"b", TRUE>>, i + 1) ELSE bad
                      IN IF d.arg[1] = "none" THEN (IF w[3] # <<>> THEN bad ELSE Call(n, U, i + 1))
                         ELSE IF w[3] # <<>> THEN (LET c == Convert(d, w[3][1]) IN IF c = U THEN bad ELSE Call(n, c, i + 1))
                         ELSE IF i = Len(W) THEN fall
                         ELSE LET c == Convert(d, W[i + 1]) IN IF c = U THEN fall ELSE Call(n, c, i + 2)
(* ---- JSON pointers ---- *)
RECURSIVE SplitAt(_, _, _)
\* the reference tokens of the characters after the first slash
SplitAt(p, i, cur) == IF i > Len(p) THEN <<cur>> ELSE IF p[i] = 47 THEN <<cur>> \o SplitAt(p, i + 1, <<>>) ELSE SplitAt(p, i + 1, Append(cur, p[i]))
RECURSIVE Unescape(_)
Unescape(t) == IF t = <<>> THEN <<>>
               ELSE IF t[1] = 126 /\ Len(t) > 1 /\ t[2] \in {48, 49} THEN <<IF t[2] = 48 THEN 126 ELSE 47>> \o Unescape(SubSeq(t, 3, Len(t)))
               ELSE <<t[1]>> \o Unescape(Tail(t))
Tokens(p) == IF p = <<>> THEN <<>> ELSE [i \in 1..Len(SplitAt(p, 2, <<>>)) |-> Unescape(SplitAt(p, 2, <<>>)[i])]
IsIndex(t) == t # <<>> /\ Len(t) < 6 /\ (\A i \in 1..Len(t) : t[i] \in 48..57) /\ (Len(t) > 1 => t[1] # 48)
RECURSIVE IndexOf(_, _)
IndexOf(t, acc) == IF t = <<>> THEN acc ELSE IndexOf(Tail(t), acc * 10 + t[1] - 48)
Get(o, key) == LET k == {i \in 1..Len(o) : o[i][1] = key} IN IF k = {} THEN <<>> ELSE <<o[CHOOSE i \in k : TRUE][2]>>
RECURSIVE Follow(_, _)
Follow(v, ts) == IF ts = <<>> THEN <<v>>
                 ELSE LET n == CASE v[1] = "a" -> IF IsIndex(ts[1]) /\ IndexOf(ts[1], 0) < Len(v[2]) THEN <<v[2][IndexOf(ts[1], 0) + 1]>> ELSE <<>>
                                 [] v[1] = "o" -> Get(v[2], ts[1])
                                 [] OTHER -> <<>>
                      IN IF n = <<>> THEN <<>> ELSE Follow(n[1], Tail(ts))
Resolve(doc, p, throw) == LET f == Follow(doc, Tokens(p)) IN IF f # <<>> THEN <<"found", f[1]>> ELSE IF throw THEN <<"TypeError">> ELSE <<"none">>
(* ---- JSON schema ---- *)
RECURSIVE Equal(_, _)
Equal(a, b) == IF a[1] # b[1] THEN FALSE
               ELSE CASE a[1] = "z" -> TRUE
                      [] a[1] = "a" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : Equal(a[2][i], b[2][i])
                      [] a[1] = "o" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : (LET g == Get(b[2], a[2][i][1]) IN g # <<>> /\ Equal(a[2][i][2], g[1]))
                      [] OTHER -> a[2] = b[2]
Type(v) == CASE v[1] = "z" -> "null" [] v[1] = "b" -> "boolean" [] v[1] = "h" -> "number" [] v[1] = "s" -> "string" [] v[1] = "a" -> "array" [] v[1] = "o" -> "object"
TypeOK(t, v) == t = Type(v) \/ (t = "integer" /\ v[1] = "h" /\ v[2] % 2 = 0)
\* a pattern: a sequence of [c |-> characters, st |-> starred]; it describes the whole string
RECURSIVE Match(_, _)
Match(p, s) == IF p = <<>> THEN s = <<>>
               ELSE LET hit == s # <<>> /\ (\E i \in 1..Len(p[1].c) : p[1].c[i] = s[1]) IN
                    IF p[1].st THEN Match(Tail(p), s) \/ (hit /\ Match(p, Tail(s))) ELSE hit /\ Match(Tail(p), Tail(s))
\* a schema: <<"bool", b>> or <<"kw", <<keyword, argument>> pairs>>
Has(S, k) == \E i \in 1..Len(S[2]) : S[2][i][1] = k
Arg(S, k) == S[2][CHOOSE i \in 1..Len(S[2]) : S[2][i][1] = k][2]
Keys(v) == {v[2][i][1] : i \in 1..Len(v[2])}
Named(S, key) == Has(S, "properties") /\ Get(Arg(S, "properties"), key) # <<>>
Patterned(S, key) == Has(S, "patternProperties") /\ \E i \in 1..Len(Arg(S, "patternProperties")) : Match(Arg(S, "patternProperties")[i][1], key)
RECURSIVE Valid(_, _), KwOK(_, _, _, _)
Valid(S, v) == IF S[1] = "bool" THEN S[2] ELSE \A i \in 1..Len(S[2]) : KwOK(S, S[2][i][1], S[2][i][2], v)
KwOK(S, k, x, v) ==
    LET T == Type(v)
        pre == IF Has(S, "prefixItems") THEN Len(Arg(S, "prefixItems")) ELSE 0
        hits == Cardinality({i \in 1..Len(v[2]) : Valid(Arg(S, "contains"), v[2][i])})
    IN CASE k = "type" -> \E i \in 1..Len(x) : TypeOK(x[i], v)
         [] k = "enum" -> \E i \in 1..Len(x) : Equal(x[i], v)
         [] k = "const" -> Equal(x, v)
         [] k = "allOf" -> \A i \in 1..Len(x) : Valid(x[i], v)
         [] k = "anyOf" -> \E i \in 1..Len(x) : Valid(x[i], v)
         [] k = "oneOf" -> Cardinality({i \in 1..Len(x) : Valid(x[i], v)}) = 1
         [] k = "not" -> ~Valid(x, v)
         [] k = "if" -> IF Valid(x, v) THEN (Has(S, "then") => Valid(Arg(S, "then"), v)) ELSE (Has(S, "else") => Valid(Arg(S, "else"), v))
         [] k = "multipleOf" -> T = "number" => v[2] % x = 0
         [] k = "maximum" -> T = "number" => v[2] <= x
         [] k = "exclusiveMaximum" -> T = "number" => v[2] < x
         [] k = "minimum" -> T = "number" => v[2] >= x
         [] k = "exclusiveMinimum" -> T = "number" => v[2] > x
         [] k = "maxLength" -> T = "string" => Len(v[2]) <= x
         [] k = "minLength" -> T = "string" => Len(v[2]) >= x
         [] k = "pattern" -> T = "string" => Match(x, v[2])
         [] k = "prefixItems" -> T = "array" => \A i \in 1..Len(x) : i <= Len(v[2]) => Valid(x[i], v[2][i])
         [] k = "items" -> T = "array" => \A i \in 1..Len(v[2]) : i > pre => Valid(x, v[2][i])
         [] k = "unevaluatedItems" -> (T = "array" /\ ~Has(S, "items")) => \A i \in 1..Len(v[2]) : i > pre => Valid(x, v[2][i])
         [] k = "maxItems" -> T = "array" => Len(v[2]) <= x
         [] k = "minItems" -> T = "array" => Len(v[2]) >= x
         [] k = "uniqueItems" -> (T = "array" /\ x) => \A i, j \in 1..Len(v[2]) : i < j => ~Equal(v[2][i], v[2][j])
         [] k = "contains" -> T = "array" => (hits >= (IF Has(S, "minContains") THEN Arg(S, "minContains") ELSE 1) /\ (Has(S, "maxContains") => hits <= Arg(S, "maxContains")))
         [] k = "properties" -> T = "object" => \A i \in 1..Len(v[2]) : Named(S, v[2][i][1]) => Valid(Get(x, v[2][i][1])[1], v[2][i][2])
         [] k = "patternProperties" -> T = "object" => \A i \in 1..Len(v[2]), j \in 1..Len(x) : Match(x[j][1], v[2][i][1]) => Valid(x[j][2], v[2][i][2])
         [] k = "additionalProperties" -> T = "object" => \A i \in 1..Len(v[2]) : (Named(S, v[2][i][1]) \/ Patterned(S, v[2][i][1])) \/ Valid(x, v[2][i][2])
         [] k = "unevaluatedProperties" -> (T = "object" /\ ~Has(S, "additionalProperties")) => \A i \in 1..Len(v[2]) : (Named(S, v[2][i][1]) \/ Patterned(S, v[2][i][1])) \/ Valid(x, v[2][i][2])
         [] k = "propertyNames" -> T = "object" => \A i \in 1..Len(v[2]) : Valid(x, <<"s", v[2][i][1]>>)
         [] k = "maxProperties" -> T = "object" => Len(v[2]) <= x
         [] k = "minProperties" -> T = "object" => Len(v[2]) >= x
         [] k = "required" -> T = "object" => \A i \in 1..Len(x) : x[i] \in Keys(v)
         [] k = "dependentRequired" -> T = "object" => \A i \in 1..Len(x) : x[i][1] \in Keys(v) => \A j \in 1..Len(x[i][2]) : x[i][2][j] \in Keys(v)
         [] k = "dependentSchemas" -> T = "object" => \A i \in 1..Len(x) : x[i][1] \in Keys(v) => Valid(x[i][2], v)
         [] OTHER -> TRUE          \* then, else, minContains, maxContains
(* ---- operations; the state: options, directories in search order, files <<directory, name, document>> ---- *)
MApply(x, s) ==
    CASE x.n = "table" -> R([s EXCEPT !.t = x.t], <<"u">>)
      [] x.n = "parse" -> R(s, Parse(s.t, x.w, 1, x.stop, <<>>))
      [] x.n = "ptr" -> R(s, Resolve(x.doc, x.p, x.throw))
      [] x.n = "dir" -> R([s EXCEPT !.d = IF \E i \in 1..Len(s.d) : s.d[i] = x.d THEN s.d ELSE Append(s.d, x.d)], <<"u">>)
      [] x.n = "file" -> R([s EXCEPT !.f = <<<<x.d, x.name, x.doc>>>> \o s.f], <<"u">>)
      [] x.n = "fptr" -> (LET I == {i \in 1..Len(s.d) : \E j \in 1..Len(s.f) : s.f[j][1] = s.d[i] /\ s.f[j][2] = x.name}
                              i0 == CHOOSE i \in I : \A j \in I : i <= j
                              J == {j \in 1..Len(s.f) : s.f[j][1] = s.d[i0] /\ s.f[j][2] = x.name}
                              j0 == CHOOSE j \in J : \A k \in J : j <= k
                          IN R(s, IF I = {} THEN <<"TypeError">> ELSE Resolve(s.f[j0][3], x.p, x.throw)))
      [] x.n = "schema" -> R(s, [i \in 1..Len(x.v) |-> Valid(x.s, x.v[i])])
MStart(c) == [t |-> <<>>, d |-> <<>>, f |-> <<>>]
NoOps(s) == {}
NoInit == {}
\* callbacks get canonical names only, in order: as many calls as the words allow
Canonical == (ev # <<>> /\ ev[1].n = "parse") => \A i \in 1..Len(ev[2][1]) :
                 ev[2][1][i][1] = "" \/ \E k \in 1..Len(st.t) : ev[2][1][i][1] = (IF st.t[k].name # "" THEN st.t[k].name ELSE st.t[k].abbr)
CallBound == (ev # <<>> /\ ev[1].n = "parse") => Len(ev[2][1]) <= Len(ev[1].w)
\* a schema and its negation disagree; a schema equals the conjunction of its keywords one by one where they do not refer to each other
Negation == (ev # <<>> /\ ev[1].n = "schema") => \A i \in 1..Len(ev[1].v) : Valid(<<"kw", <<<<"not", ev[1].s>>>>>>, ev[1].v[i]) # ev[2][i]
EqualRefl == (ev # <<>> /\ ev[1].n = "schema") => \A i, j \in 1..Len(ev[1].v) : Equal(ev[1].v[i], ev[1].v[i]) /\ (Equal(ev[1].v[i], ev[1].v[j]) = Equal(ev[1].v[j], ev[1].v[i]))
Keeps == [][(ev' # <<>> /\ ev'[1].n \in {"parse", "ptr", "fptr", "schema"}) => st' = st]_st
===========================================================================
