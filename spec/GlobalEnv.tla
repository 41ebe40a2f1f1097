----------------------------- MODULE GlobalEnv -----------------------------
(* The global environment of a realm (ECMA-262 9.1.1.4, 16.1.7, 19.2.1.3): scripts and evals that        *)
(* declare names, one after the other, and what else may happen to the global object in between.           *)
(* Values: <<"u">> <<"i", n>> <<"f", n>> (function) <<"c", n>> (class) and the built-in ones by name.        *)
EXTENDS Drv, Integers, FiniteSets, SequencesExt

Names == <<"x", "y", "z", "toString", "NaN", "Array">>
NameSet == {Names[i] : i \in 1..Len(Names)}
U == <<"u">>
None == <<>>
Th(n) == <<"throw", n>>
\* property descriptors: <<"d", value, w, e, c>> or <<"a", id, has setter, e, c>>; bindings: <<"tdz", kind>> <<kind, value>>
Data(v, w, e, c) == <<"d", v, w, e, c>>
Own(s, n) == s.obj[n] # None
Inherited(n) == n = "toString"
HasProp(s, n) == Own(s, n) \/ Inherited(n)
Log(s, x) == [s EXCEPT !.log = Append(s.log, x)]
SetObj(s, n, d) == [s EXCEPT !.obj[n] = d]
R(s, v) == [s |-> s, v |-> v]
Ok(s) == R(s, U)
\* [[Get]] of the global object; runs getters
ObjGet(s, n) == LET d == s.obj[n] IN IF d = None THEN R(s, IF Inherited(n) THEN <<"inh">> ELSE U)
                                     ELSE IF d[1] = "d" THEN R(s, d[2]) ELSE R(Log(s, <<"get", d[2]>>), <<"i", d[2]>>)
\* [[Set]]: v TRUE when it succeeded
ObjSet(s, n, v) == LET d == s.obj[n]
                   IN IF d = None THEN (IF s.ext THEN R(SetObj(s, n, Data(v, TRUE, TRUE, TRUE)), TRUE) ELSE R(s, FALSE))
                      ELSE IF d[1] = "d" THEN (IF d[3] THEN R(SetObj(s, n, [d EXCEPT ![2] = v]), TRUE) ELSE R(s, FALSE))
                      ELSE IF d[3] THEN R(Log(s, <<"set", d[2], v>>), TRUE) ELSE R(s, FALSE)
ObjDelete(s, n) == IF ~Own(s, n) THEN R(s, TRUE) ELSE IF s.obj[n][5] THEN R(SetObj(s, n, None), TRUE) ELSE R(s, FALSE)
ObjDefine(s, n, d) ==
    LET o == s.obj[n]
    IN IF o = None THEN (IF s.ext THEN R(SetObj(s, n, d), TRUE) ELSE R(s, FALSE))
       ELSE IF o[5] THEN R(SetObj(s, n, d), TRUE)
       ELSE IF d[5] \/ d[4] # o[4] \/ d[1] # o[1] \/ d[1] = "a" THEN R(s, FALSE)      \* a new accessor never has the same functions
       ELSE IF o[3] \/ (~d[3] /\ d[2] = o[2]) THEN R(SetObj(s, n, d), TRUE) ELSE R(s, FALSE)

(* ------------------------------- names ------------------------------- *)
\* loc: the lexical bindings of an eval (name -> binding or None)
NoLoc == [n \in NameSet |-> None]
BGet(s, b) == IF b[1] = "tdz" THEN R(s, Th("ReferenceError")) ELSE R(s, b[2])
Read(s, n, loc) == IF s.loc[n] # None /\ loc THEN BGet(s, s.loc[n])
                   ELSE IF s.lex[n] # None THEN BGet(s, s.lex[n])
                   ELSE IF HasProp(s, n) THEN ObjGet(s, n) ELSE R(s, Th("ReferenceError"))
TypeText(v) == CASE v = U -> "undefined" [] v[1] \in {"i", "NaN"} -> "number" [] OTHER -> "function"
TypeOf(s, n, loc) == LET r == Read(s, n, loc)
                         known == (s.loc[n] # None /\ loc) \/ s.lex[n] # None
                     IN IF r.v[1] = "throw" THEN (IF known THEN r ELSE R(s, <<"t", "undefined">>)) ELSE R(r.s, <<"t", TypeText(r.v)>>)
Write(s, n, v, loc, strict) ==
    LET l == s.loc[n] # None /\ loc
        b == IF l THEN s.loc[n] ELSE s.lex[n]
        w == ObjSet(s, n, v)
    IN IF b # None
       THEN (CASE b[1] = "tdz" -> R(s, Th("ReferenceError"))
               [] b[1] = "const" -> R(s, Th("TypeError"))
               [] OTHER -> Ok(IF l THEN [s EXCEPT !.loc[n] = <<b[1], v>>] ELSE [s EXCEPT !.lex[n] = <<b[1], v>>]))
       ELSE IF ~HasProp(s, n) /\ strict THEN R(s, Th("ReferenceError"))
       ELSE IF ~w.v /\ strict THEN R(w.s, Th("TypeError")) ELSE Ok(w.s)
DeleteName(s, n, loc) == IF (s.loc[n] # None /\ loc) \/ s.lex[n] # None THEN R(s, <<"t", FALSE>>)
                         ELSE IF ~Own(s, n) THEN R(s, <<"t", TRUE>>)
                         ELSE LET d == ObjDelete(s, n) IN IF d.v THEN R([d.s EXCEPT !.vn = @ \ {n}], <<"t", TRUE>>) ELSE R(s, <<"t", FALSE>>)

(* ---------------------------- declarations ---------------------------- *)
Of(b, ks) == SelectSeq(b, LAMBDA q : q[1] \in ks)
NamesOf(l) == {l[i][2] : i \in 1..Len(l)}
Lexical == {"let", "const", "class"}
Restricted(s, n) == Own(s, n) /\ ~s.obj[n][5]
CanFun(s, n) == LET d == s.obj[n] IN IF d = None THEN s.ext ELSE d[5] \/ (d[1] = "d" /\ d[3] /\ d[4])
CanVar(s, n) == Own(s, n) \/ s.ext
MakeFun(s, n, v, del) == LET d == s.obj[n]
                             t == SetObj(s, n, IF d = None \/ d[5] THEN Data(v, TRUE, TRUE, del) ELSE [d EXCEPT ![2] = v])
                         IN [t EXCEPT !.vn = @ \cup {n}]
MakeVar(s, n, del) == LET t == IF ~Own(s, n) /\ s.ext THEN SetObj(s, n, Data(U, TRUE, TRUE, del)) ELSE s IN [t EXCEPT !.vn = @ \cup {n}]
Funs(s, fs, del) == FoldLeft(LAMBDA a, f : MakeFun(a, f[2], <<"f", f[3]>>, del), s, fs)       \* the last of each name stays
Vars(s, vs, del) == FoldLeft(LAMBDA a, v : MakeVar(a, v[2], del), s, vs)
\* the error a declaration of these names must raise, or ""
Conflict(s, lx, fs, vs, script) ==
    LET VN == NamesOf(fs) \cup NamesOf(vs)
    IN IF script /\ \E n \in NamesOf(lx) : n \in s.vn \/ s.lex[n] # None \/ Restricted(s, n) THEN "SyntaxError"
       ELSE IF \E n \in VN : s.lex[n] # None THEN "SyntaxError"
       ELSE IF (\E n \in NamesOf(fs) : ~CanFun(s, n)) \/ (\E n \in NamesOf(vs) \ NamesOf(fs) : ~CanVar(s, n)) THEN "TypeError" ELSE ""
Tdz(l, n) == LET q == SelectSeq(l, LAMBDA a : a[2] = n) IN IF q = <<>> THEN None ELSE <<"tdz", q[1][1]>>
RECURSIVE Run(_, _, _, _), Eval(_, _, _)
\* run statements b; loc: inside an eval (whose bindings are s.loc)
Stmt(s, q, loc, strict) ==
    LET n == q[2]
        bind(v) == IF loc THEN [s EXCEPT !.loc[n] = <<q[1], v>>] ELSE [s EXCEPT !.lex[n] = <<q[1], v>>]
        r == CASE q[1] = "get" -> Read(s, n, loc)
               [] q[1] = "type" -> TypeOf(s, n, loc)
               [] q[1] = "del" -> DeleteName(s, n, loc)
    IN CASE q[1] = "fun" -> Ok(s)
         [] q[1] = "var" -> IF q[3] = None THEN Ok(s) ELSE Write(s, n, q[3], loc, strict)
         [] q[1] \in Lexical -> Ok(bind(IF q[1] = "class" THEN <<"c", q[3]>> ELSE IF q[3] = None THEN U ELSE q[3]))
         [] q[1] = "set" -> Write(s, n, q[3], loc, strict)
         [] q[1] \in {"get", "type", "del"} -> IF r.v[1] = "throw" THEN r ELSE Ok(Log(r.s, r.v))
         [] q[1] = "throw" -> R(s, Th("Mine"))
         [] q[1] = "eval" -> Eval(s, q[3], strict)
         [] q[1] = "ieval" -> Eval(s, q[3], FALSE)
Run(s, b, loc, strict) == IF b = <<>> THEN Ok(s)
                          ELSE LET r == Stmt(s, b[1], loc, strict) IN IF r.v[1] = "throw" THEN r ELSE Run(r.s, Tail(b), loc, strict)
Eval(s0, b, strict) ==
    LET lx == Of(b, Lexical)
        fs == Of(b, {"fun"})
        vs == Of(b, {"var"})
        bad == IF strict THEN "" ELSE Conflict(s0, lx, fs, vs, FALSE)
        inner == [n \in NameSet |-> IF n \in NamesOf(lx) THEN Tdz(lx, n)
                                    ELSE IF ~strict THEN None
                                    ELSE IF n \in NamesOf(fs) THEN <<"var", FoldLeft(LAMBDA a, f : IF f[2] = n THEN <<"f", f[3]>> ELSE a, U, fs)>>
                                    ELSE IF n \in NamesOf(vs) THEN <<"var", U>> ELSE None]
        t == IF strict THEN s0 ELSE Vars(Funs(s0, fs, TRUE), vs, TRUE)
        r == Run([t EXCEPT !.loc = inner], b, TRUE, strict)
    IN IF bad # "" THEN R(s0, Th(bad)) ELSE R([r.s EXCEPT !.loc = s0.loc], r.v)
Script(s, b, strict) ==
    LET lx == Of(b, Lexical)
        fs == Of(b, {"fun"})
        vs == Of(b, {"var"})
        bad == Conflict(s, lx, fs, vs, TRUE)
        t == [s EXCEPT !.lex = [n \in NameSet |-> IF n \in NamesOf(lx) THEN Tdz(lx, n) ELSE s.lex[n]]]
    IN IF bad # "" THEN R(s, Th(bad)) ELSE Run(Vars(Funs(t, fs, FALSE), vs, FALSE), b, FALSE, strict)

(* ------------------------------ operations ------------------------------ *)
Dump(s) == [i \in 1..Len(Names) |-> LET r == Read(s, Names[i], FALSE) IN <<r.v, s.obj[Names[i]]>>]
Bool(r) == R(r.s, <<"b", r.v>>)
GApply(x, s0) ==
    LET s == [s0 EXCEPT !.log = <<>>]
        r == CASE x.n = "script" -> Script(s, x.b, x.strict)
               [] x.n = "define" -> Bool(ObjDefine(s, x.name, x.d))
               [] x.n = "delete" -> Bool(ObjDelete(s, x.name))
               [] x.n = "set" -> Bool(ObjSet(s, x.name, x.v))
               [] x.n = "prevent" -> R([s EXCEPT !.ext = FALSE], <<"b", TRUE>>)
    IN [s |-> r.s, r |-> <<IF r.v = U THEN <<"ok">> ELSE r.v, r.s.log, Dump(r.s)>>]
Start == [obj |-> [n \in NameSet |-> CASE n = "NaN" -> Data(<<"NaN">>, FALSE, FALSE, FALSE) [] n = "Array" -> Data(<<"Array">>, TRUE, FALSE, TRUE) [] OTHER -> None],
          lex |-> NoLoc, loc |-> NoLoc, vn |-> {}, ext |-> TRUE, log |-> <<>>]
GStart(c) == Start
NoOps(s) == {}
NoInit == {}
\* a name is never both lexically declared and a var name; a declared var name that was not removed behind the environment's back is a property
Disjoint == \A n \in NameSet : st.lex[n] # None => n \notin st.vn
NoLeak == st.loc = NoLoc
\* a rejected script changes nothing: action property
Atomic == [][(ev' # <<>> /\ ev'[1].n = "script" /\ ev'[2][1][1] = "throw" /\ Conflict(st, Of(ev'[1].b, Lexical), Of(ev'[1].b, {"fun"}), Of(ev'[1].b, {"var"}), TRUE) # "")
             => /\ st'.obj = st.obj /\ st'.lex = st.lex /\ st'.vn = st.vn]_dvars
===========================================================================
