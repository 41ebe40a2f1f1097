------------------------------ MODULE JSCore ------------------------------
(* The core of ECMAScript 2023 as an explicit abstract machine.                                  *)
(*                                                                                               *)
(* A program is a table of syntax nodes (read from IOEnv.IN, one program per line; produced with *)
(* its source text by lib/jsast.py).  A machine state is                                         *)
(*   c   control: <<"E",n>> evaluate expression n, <<"F",n>> evaluate reference n, <<"S",n>>      *)
(*       execute statement n, or a completion: <<"V",v>> normal, <<"T",v>> throw, <<"R",v>>       *)
(*       return, <<"B",l>> break, <<"C",l>> continue, <<"K">> short-circuit of an optional chain  *)
(*   k   stack of continuation frames <<name, environment, ...>>; a generator or async activation *)
(*       is the slice of the stack above its boundary frame, saved in its object when suspended   *)
(*   env current environment, e environment records, h heap, j job queue, o log of observations  *)
(* Step is the small-step transition relation, a function: the language is deterministic.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

Programs == ndJsonDeserialize(IOEnv.IN)
MaxSteps == IF "MAXSTEPS" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXSTEPS) ELSE 3000
N(m, n) == Programs[m.p].t[n]

(* ------------------------------------------------------------------ values *)
U == <<"u">>
NL == <<"l">>
NaN == <<"x", "NaN">>
Num(i) == <<"n", i>>
Str(s) == <<"s", s>>
Bool(b) == <<"b", b>>
O(i) == <<"o", i>>
IsObj(v) == v[1] = "o"
Nullish(v) == v[1] \in {"u", "l"}
NoF == [x \in {} |-> 0]
Same(a, b) ==    \* strict equality
    IF a[1] # b[1] THEN FALSE
    ELSE IF a[1] = "x" THEN FALSE
    ELSE IF Len(a) = 1 THEN TRUE ELSE a[2] = b[2]
Truthy(v) == CASE v[1] = "n" -> v[2] # 0
               [] v[1] = "s" -> v[2] # ""
               [] v[1] = "b" -> v[2]
               [] v[1] \in {"u", "l", "x"} -> FALSE
               [] OTHER -> TRUE
IdxNames == [i \in 0..60 |-> ToString(i)]
IdxSet == {IdxNames[i] : i \in 0..60}
IdxOf == [s \in IdxSet |-> CHOOSE i \in 0..60 : IdxNames[i] = s]
IsIdx(s) == s \in IdxSet
SymKeys == {"@@iterator", "@@asyncIterator", "@@hasInstance", "@@toPrimitive", "@@toStringTag", "@@species",
            "@@unscopables", "@@sA", "@@sB"}
TypeOf(m, v) == CASE v[1] = "u" -> "undefined" [] v[1] = "l" -> "object" [] v[1] \in {"n", "x"} -> "number"
                  [] v[1] = "s" -> "string" [] v[1] = "b" -> "boolean" [] v[1] = "y" -> "symbol"
                  [] v[1] = "o" -> IF m.h[v[2]].k \in {"fn", "nat", "bound"} THEN "function" ELSE "object"
Callable(m, v) == IsObj(v) /\ m.h[v[2]].k \in {"fn", "nat", "bound"}
PrimStr(v) == CASE v[1] = "u" -> "undefined" [] v[1] = "l" -> "null" [] v[1] = "n" -> ToString(v[2])
                [] v[1] = "x" -> v[2] [] v[1] = "s" -> v[2] [] v[1] = "b" -> (IF v[2] THEN "true" ELSE "false")
Digits == [i \in 0..9 |-> ToString(i)]
DigitSet == {Digits[i] : i \in 0..9}
DigitOf == [s \in DigitSet |-> CHOOSE i \in 0..9 : Digits[i] = s]
BIG == <<"big">>          \* a number this specification does not represent: the program is abandoned
Bail(m) == [m EXCEPT !.c = <<"BAIL">>, !.k = <<>>]
RECURSIVE DecNum(_, _)
DecNum(s, acc) == IF s = "" THEN Num(acc)
                  ELSE IF SubSeq(s, 1, 1) \in DigitSet /\ acc < 1000000 THEN DecNum(SubSeq(s, 2, Len(s)), acc * 10 + DigitOf[SubSeq(s, 1, 1)])
                  ELSE IF SubSeq(s, 1, 1) \in DigitSet THEN BIG ELSE NaN
StrNum(s) ==      \* StringToNumber on the strings programs use: decimal integers, and strings that are no number
    IF s = "" THEN Num(0)
    ELSE IF SubSeq(s, 1, 1) = "-" /\ Len(s) > 1
         THEN LET v == DecNum(SubSeq(s, 2, Len(s)), 0) IN IF v[1] = "n" THEN Num(-v[2]) ELSE v
    ELSE DecNum(s, 0)
PrimNum(v) == CASE v[1] = "n" -> v [] v[1] = "b" -> (IF v[2] THEN Num(1) ELSE Num(0)) [] v[1] = "l" -> Num(0)
                [] v[1] = "s" -> StrNum(v[2])
                [] OTHER -> NaN

(* ------------------------------------------------------------------ heap *)
NONE == <<"none">>
Data(v) == <<"d", v, TRUE, TRUE, TRUE>>
Hid(v) == <<"d", v, TRUE, FALSE, TRUE>>
RECURSIVE OnChain(_, _, _)
OnChain(m, v, x) == IF ~IsObj(v) THEN FALSE ELSE v = x \/ OnChain(m, m.h[v[2]].pr, x)
Obj0(kind, proto) == [k |-> kind, pr |-> proto, ex |-> TRUE, ks |-> <<>>, ps |-> NoF, pv |-> NoF, d |-> <<>>]
oObjectP == 1  oFunctionP == 2  oArrayP == 3  oIterP == 4  oArrIterP == 5  oGenP == 6  oAIterP == 7  oAGenP == 8
oPromP == 9  oPromise == 10  oErrP == 11  oStrP == 12  oNumP == 13  oGlobal == 14  oObject == 15  oSymbol == 16
oReflect == 17  oAFSP == 18  oBoolP == 19  oSymP == 20  oArray == 21  oMapP == 22  oSetP == 23  oWeakMapP == 24  oWeakSetP == 25
oMap == 26  oSet == 27  oWeakMap == 28  oWeakSet == 29  oThrower == 30

ProtoIdOf(b) == CASE b[1] = "s" -> oStrP [] b[1] \in {"n", "x"} -> oNumP [] b[1] = "b" -> oBoolP [] b[1] = "y" -> oSymP
                  [] OTHER -> b[2]
PutRaw(o, key, d) == IF key \in DOMAIN o.ps THEN [o EXCEPT !.ps[key] = d]
                     ELSE [o EXCEPT !.ks = Append(@, key), !.ps = (key :> d) @@ @]
DelRaw(o, key) == [o EXCEPT !.ks = SelectSeq(@, LAMBDA x : x # key),
                            !.ps = [x \in (DOMAIN o.ps) \ {key} |-> o.ps[x]]]
Alloc(m, o) == [m EXCEPT !.h = Append(@, o)]
New(m) == Len(m.h) + 1     \* the id the next Alloc returns
KeyVal(key) == IF key \in SymKeys THEN <<"y", SubSeq(key, 3, Len(key))>> ELSE Str(key)
\* the object a primitive stands for when its properties are listed (not visible to the program itself)
Wrapper(v) == LET o == [k |-> "obj", pr |-> O(ProtoIdOf(v)), ex |-> TRUE, ks |-> <<>>, ps |-> NoF, pv |-> NoF, d |-> <<>>]
              IN IF v[1] # "s" THEN o
                 ELSE LET n == Len(v[2])
                      IN [o EXCEPT !.ks = [i \in 1..n |-> IdxNames[i - 1]] \o <<"length">>,
                                   !.ps = ("length" :> <<"d", Num(n), FALSE, FALSE, FALSE>>)
                                          @@ [x \in {IdxNames[i - 1] : i \in 1..n} |-> <<"d", Str(SubSeq(v[2], IdxOf[x] + 1, IdxOf[x] + 1)), FALSE, TRUE, FALSE>>]]
ObjOf(m, v) == IF IsObj(v) THEN v ELSE O(New(m))
WithObj(m, v) == IF IsObj(v) THEN m ELSE Alloc(m, Wrapper(v))
OwnKeys(o) ==
    LET ints == SortSeq(SelectSeq(o.ks, IsIdx), LAMBDA a, b : IdxOf[a] < IdxOf[b])
        strs == SelectSeq(o.ks, LAMBDA x : ~IsIdx(x) /\ x \notin SymKeys)
        syms == SelectSeq(o.ks, LAMBDA x : x \in SymKeys)
    IN ints \o strs \o syms
\* own property; a mapped arguments element reads its parameter
Own(m, id, key) ==
    LET o == m.h[id]
    IN IF key \notin DOMAIN o.ps THEN NONE
       ELSE IF o.k = "args" /\ key \in DOMAIN o.d.map /\ o.ps[key][1] = "d"
            THEN [o.ps[key] EXCEPT ![2] = m.e[o.d.env].b[o.d.map[key]].v]
       ELSE o.ps[key]
RECURSIVE Find(_, _, _)
Find(m, id, key) ==
    LET d == Own(m, id, key)
    IN IF d[1] # "none" THEN d
       ELSE IF m.h[id].pr[1] = "l" THEN NONE ELSE Find(m, m.h[id].pr[2], key)
RECURSIVE InChain(_, _, _)
InChain(m, v, target) ==   \* is target in the prototype chain of v
    LET p == m.h[v[2]].pr
    IN IF p[1] = "l" THEN FALSE ELSE IF p[2] = target[2] THEN TRUE ELSE InChain(m, p, target)
\* define an own property, keeping array length and mapped arguments in step
Def(m, id, key, d) ==
    LET o == m.h[id]
        o1 == PutRaw(o, key, d)
        o2 == IF o.k = "arr" /\ IsIdx(key) /\ IdxOf[key] >= o.ps["length"][2][2]
              THEN [o1 EXCEPT !.ps["length"][2] = Num(IdxOf[key] + 1)] ELSE o1
        mapped == o.k = "args" /\ key \in DOMAIN o.d.map
        m1 == IF mapped /\ d[1] = "d"
              THEN [m EXCEPT !.e[o.d.env].b[o.d.map[key]].v = d[2]] ELSE m
        o3 == IF mapped /\ (d[1] = "a" \/ ~d[3])
              THEN [o2 EXCEPT !.d.map = [x \in (DOMAIN o.d.map) \ {key} |-> o.d.map[x]]] ELSE o2
    IN [m1 EXCEPT !.h[id] = o3]
\* ArraySetLength: elements go from the end, and the first one that cannot be deleted stops it
SetLen(m, id, n0) ==
    LET o == m.h[id]
        stuck == {IdxOf[x] : x \in {y \in DOMAIN o.ps : IsIdx(y) /\ IdxOf[y] >= n0 /\ ~o.ps[y][5]}}
        n == IF stuck = {} THEN n0 ELSE (CHOOSE i \in stuck : \A j \in stuck : j <= i) + 1
        keep(x) == ~(IsIdx(x) /\ IdxOf[x] >= n)
    IN [m EXCEPT !.h[id].ks = SelectSeq(@, keep),
                 !.h[id].ps = [x \in {y \in DOMAIN o.ps : keep(y)} |->
                                 IF x = "length" THEN [o.ps[x] EXCEPT ![2] = Num(n)] ELSE o.ps[x]]]
SetLenOk(m, id, n0) == m.h[id].ps["length"][2] = Num(n0)
MkArr(vals) ==
    [Obj0("arr", O(oArrayP)) EXCEPT
        !.ks = <<"length">> \o [i \in 1..Len(vals) |-> IdxNames[i - 1]],
        !.ps = ("length" :> <<"d", Num(Len(vals)), TRUE, FALSE, FALSE>>)
               @@ [x \in {IdxNames[i - 1] : i \in 1..Len(vals)} |-> Data(vals[IdxOf[x] + 1])]]
MkIterRes(v, d) == [Obj0("obj", O(oObjectP)) EXCEPT !.ks = <<"value", "done">>,
                       !.ps = ("value" :> Data(v)) @@ ("done" :> Data(Bool(d)))]
MkWrap(v) ==    \* the object ToObject makes of a primitive
    LET n == Len(v[2])
        o == [Obj0("wrap", O(ProtoIdOf(v))) EXCEPT !.d = v]
    IN IF v[1] # "s" THEN o
       ELSE [o EXCEPT !.ks = [i \in 1..n |-> IdxNames[i - 1]] \o <<"length">>,
                      !.ps = ("length" :> <<"d", Num(n), FALSE, FALSE, FALSE>>)
                             @@ [x \in {IdxNames[i - 1] : i \in 1..n} |-> <<"d", Str(SubSeq(v[2], IdxOf[x] + 1, IdxOf[x] + 1)), FALSE, TRUE, FALSE>>]]
MkProm == [Obj0("prom", O(oPromP)) EXCEPT !.d = [st |-> "p", v |-> U, fr |-> <<>>, rr |-> <<>>]]
MkNat(name, a) == [Obj0("nat", O(oFunctionP)) EXCEPT !.d = [n |-> name, a |-> a]]

(* ------------------------------------------------------------------ observations *)
RECURSIVE Show(_, _, _), ShowEls(_, _, _, _), ShowProps(_, _, _, _, _)
Show(m, v, dep) ==
    CASE v[1] = "s" -> "'" \o v[2] \o "'"
      [] v[1] = "y" -> "sym:" \o v[2]
      [] v[1] = "o" -> LET o == m.h[v[2]]
                       IN CASE o.k \in {"fn", "nat", "bound"} -> "fn"
                            [] o.k = "err" -> "!" \o o.d
                            [] v[2] = oGlobal -> "global"
                            [] o.k = "arr" -> IF dep = 0 THEN "[.]"
                                              ELSE "[" \o ShowEls(m, v[2], 0, dep) \o "]"
                            [] OTHER -> IF dep = 0 THEN "{.}"
                                        ELSE "{" \o ShowProps(m, v[2], OwnKeys(o), 1, dep) \o "}"
      [] OTHER -> PrimStr(v)
ShowEls(m, id, i, dep) ==
    LET n == m.h[id].ps["length"][2][2]
    IN IF i >= n THEN ""
       ELSE LET d == Own(m, id, IdxNames[i])
            IN (IF i > 0 THEN "," ELSE "")
               \o (IF d[1] = "none" THEN "_" ELSE IF d[1] = "a" THEN "acc" ELSE Show(m, d[2], dep - 1))
               \o ShowEls(m, id, i + 1, dep)
Flags(d) == IF d[1] = "d" /\ d[3] /\ d[4] /\ d[5] THEN ""
            ELSE IF d[1] = "a" /\ d[4] /\ d[5] THEN ""
            ELSE "~" \o (IF d[1] = "d" /\ d[3] THEN "w" ELSE "") \o (IF d[4] THEN "e" ELSE "")
                 \o (IF d[5] THEN "c" ELSE "")
ShowProps(m, id, keys, i, dep) ==
    IF i > Len(keys) THEN ""
    ELSE LET d == Own(m, id, keys[i])
         IN (IF i > 1 THEN "," ELSE "") \o keys[i] \o ":"
            \o (IF d[1] = "a" THEN "acc" ELSE Show(m, d[2], dep - 1)) \o Flags(d)
            \o ShowProps(m, id, keys, i + 1, dep)
RECURSIVE ShowAll(_, _, _)
ShowAll(m, vs, i) == IF i > Len(vs) THEN "" ELSE (IF i > 1 THEN " " ELSE "") \o Show(m, vs[i], 2) \o ShowAll(m, vs, i + 1)

(* ------------------------------------------------------------------ control *)
V(m, v) == [m EXCEPT !.c = <<"V", v>>]
Ctl(m, c) == [m EXCEPT !.c = c]
Thr(m, v) == [m EXCEPT !.c = <<"T", v>>]
Err(m, name) == [m EXCEPT !.h = Append(@, [Obj0("err", O(oErrP)) EXCEPT !.d = name]), !.c = <<"T", O(New(m))>>]
TypeErr(m) == Err(m, "TypeError")
RefErr(m) == Err(m, "ReferenceError")
Push(m, f) == [m EXCEPT !.k = Append(@, f)]
Ev(m, n, f) == [m EXCEPT !.k = Append(@, f), !.c = <<"E", n>>]
EvR(m, n, f) == [m EXCEPT !.k = Append(@, f), !.c = <<"F", n>>]
Ex(m, n, f) == [m EXCEPT !.k = Append(@, f), !.c = <<"S", n>>]
VAlloc(m, o) == [m EXCEPT !.h = Append(@, o), !.c = <<"V", O(New(m))>>]
Log(m, s) == [m EXCEPT !.o = Append(@, s)]

(* ------------------------------------------------------------------ environments *)
DeclEnv(outer, b) == [t |-> "d", b |-> b, o |-> outer, ob |-> 0]
Cell(kind, v) == [k |-> kind, v |-> v]
TDZ == <<"tdz">>
PushEnv(m, env) == [m EXCEPT !.e = Append(@, env), !.env = Len(m.e) + 1]
TdzCells(lex) == [x \in {lex[i][1] : i \in 1..Len(lex)} |->
                    LET i == CHOOSE i \in 1..Len(lex) : lex[i][1] = x IN Cell(lex[i][2], TDZ)]
\* @@unscopables of the object of a with statement (data properties)
Blocked(m, ob, n) ==
    LET u == Find(m, ob, "@@unscopables")
    IN u[1] = "d" /\ IsObj(u[2]) /\ LET d == Find(m, u[2][2], n) IN d[1] = "d" /\ Truthy(d[2])
RECURSIVE Resolve(_, _, _)
Resolve(m, env, n) ==
    IF env = 0 THEN 0
    ELSE LET e == m.e[env]
         IN IF e.t = "o" THEN (IF Find(m, e.ob, n)[1] # "none" /\ ~Blocked(m, e.ob, n) THEN env ELSE Resolve(m, e.o, n))
            ELSE IF n \in DOMAIN e.b THEN env ELSE Resolve(m, e.o, n)
RECURSIVE ThisEnv(_, _)
ThisEnv(m, env) == IF m.e[env].t = "f" /\ m.e[env].th[1] # "lex" THEN env ELSE ThisEnv(m, m.e[env].o)
RECURSIVE PrivOf(_, _, _)
PrivOf(m, env, n) == IF m.e[env].t = "p" /\ n \in DOMAIN m.e[env].b THEN m.e[env].b[n] ELSE PrivOf(m, m.e[env].o, n)
InitBind(m, n, v) == [m EXCEPT !.e[Resolve(m, m.env, n)].b[n].v = v]

RECURSIVE Unwrap(_, _), EvNamed(_, _, _, _), Call(_, _, _, _), Construct(_, _, _, _), Native(_, _, _, _, _), GetV(_, _, _),
          NextParam(_, _, _, _), ToPrim(_, _, _), Drain(_, _)

GetV(m, b, key) ==
    IF Nullish(b) THEN TypeErr(m)
    ELSE IF b[1] = "s" /\ key = "length" THEN V(m, Num(Len(b[2])))
    ELSE IF b[1] = "s" /\ IsIdx(key) /\ IdxOf[key] < Len(b[2]) THEN V(m, Str(SubSeq(b[2], IdxOf[key] + 1, IdxOf[key] + 1)))
    ELSE LET d == Find(m, ProtoIdOf(b), key)
         IN IF d[1] = "none" THEN V(m, U)
            ELSE IF d[1] = "d" THEN V(m, d[2])
            ELSE IF d[2] = U THEN V(m, U)
            ELSE Call(m, d[2], b, <<>>)

(* CreateDataProperty; the caller has to test with CanCreate *)
CanCreate(m, id, key) == LET d == Own(m, id, key)
                         IN IF d[1] = "none" THEN m.h[id].ex
                            ELSE d[5] \/ (d[1] = "d" /\ d[3] /\ d[4])
(* [[Set]] and the strict-mode failure; delivers v *)
SetFail(m, v, st) == IF st THEN TypeErr(m) ELSE V(m, v)
SetOnReceiver(m, recv, key, v, st) ==
    IF ~IsObj(recv) THEN SetFail(m, v, st)
    ELSE LET r == Own(m, recv[2], key)
         IN IF r[1] = "none" THEN (IF m.h[recv[2]].ex THEN V(Def(m, recv[2], key, Data(v)), v) ELSE SetFail(m, v, st))
            ELSE IF r[1] = "a" \/ ~r[3] THEN SetFail(m, v, st)
            ELSE IF m.h[recv[2]].k = "arr" /\ key = "length"
                 THEN LET m1 == SetLen(m, recv[2], v[2])
                      IN IF SetLenOk(m1, recv[2], v[2]) THEN V(m1, v) ELSE SetFail(m1, v, st)
            ELSE V(Def(m, recv[2], key, [r EXCEPT ![2] = v]), v)
SetRecv(m, b, key, v, recv, st) ==
    IF Nullish(b) THEN TypeErr(m)
    ELSE LET d == Find(m, ProtoIdOf(b), key)
         IN IF d[1] = "a"
            THEN (IF d[3] = U THEN SetFail(m, v, st)
                  ELSE Call(Push(m, <<"const", m.env, v>>), d[3], recv, <<v>>))
            ELSE IF d[1] = "d" /\ ~d[3] THEN SetFail(m, v, st)
            ELSE SetOnReceiver(m, recv, key, v, st)
SetV(m, b, key, v, st) == SetRecv(m, b, key, v, b, st)
(* whether [[Set]] reports success (unless a setter throws) *)
SetOk(m, b, key, v, recv) ==
    LET d == Find(m, ProtoIdOf(b), key)
        r == IF IsObj(recv) THEN Own(m, recv[2], key) ELSE NONE
    IN IF d[1] = "a" THEN d[3] # U
       ELSE IF d[1] = "d" /\ ~d[3] THEN FALSE
       ELSE IF ~IsObj(recv) THEN FALSE
       ELSE IF r[1] = "none" THEN m.h[recv[2]].ex
       ELSE IF r[1] = "a" \/ ~r[3] THEN FALSE
       ELSE IF m.h[recv[2]].k = "arr" /\ key = "length" THEN SetLenOk(SetLen(m, recv[2], v[2]), recv[2], v[2])
       ELSE TRUE

(* ------------------------------------------------------------------ references *)
PrivGet(m, b, id) ==
    IF ~IsObj(b) \/ id \notin DOMAIN m.h[b[2]].pv THEN TypeErr(m)
    ELSE LET d == m.h[b[2]].pv[id]
         IN IF d[1] \in {"f", "m"} THEN V(m, d[2])
            ELSE IF d[2] = U THEN TypeErr(m) ELSE Call(m, d[2], b, <<>>)
PrivSet(m, b, id, v) ==
    IF ~IsObj(b) \/ id \notin DOMAIN m.h[b[2]].pv THEN TypeErr(m)
    ELSE LET d == m.h[b[2]].pv[id]
         IN IF d[1] = "m" THEN TypeErr(m)
            ELSE IF d[1] = "f" THEN V([m EXCEPT !.h[b[2]].pv[id] = <<"f", v>>], v)
            ELSE IF d[3] = U THEN TypeErr(m) ELSE Call(Push(m, <<"const", m.env, v>>), d[3], b, <<v>>)
(* <<"rid", env, name, strict>>  <<"rmem", base, key, strict>>  <<"rsup", base, key, this, strict>> *)
(* <<"rpriv", base, private name>> *)
GetRef(m, r) ==
    CASE r[1] = "rid" ->
           IF r[2] = 0 THEN RefErr(m)
           ELSE IF m.e[r[2]].t = "o"
                THEN (IF Find(m, m.e[r[2]].ob, r[3])[1] = "none" THEN (IF r[4] THEN RefErr(m) ELSE V(m, U))
                      ELSE GetV(m, O(m.e[r[2]].ob), r[3]))
           ELSE LET c == m.e[r[2]].b[r[3]] IN IF c.v[1] = "tdz" THEN RefErr(m) ELSE V(m, c.v)
      [] r[1] = "rmem" -> GetV(m, r[2], r[3])
      [] r[1] = "rsup" -> LET d == IF r[2][1] = "l" THEN NONE ELSE Find(m, r[2][2], r[3])
                          IN IF r[2][1] = "l" THEN TypeErr(m)
                             ELSE IF d[1] = "none" THEN V(m, U)
                             ELSE IF d[1] = "d" THEN V(m, d[2])
                             ELSE IF d[2] = U THEN V(m, U) ELSE Call(m, d[2], r[4], <<>>)
      [] r[1] = "rpriv" -> PrivGet(m, r[2], r[3])
PutRef(m, r, v) ==
    CASE r[1] = "rid" ->
           IF r[2] = 0 THEN (IF r[4] THEN RefErr(m) ELSE SetV(m, O(oGlobal), r[3], v, FALSE))
           ELSE IF m.e[r[2]].t = "o"
                THEN (IF Find(m, m.e[r[2]].ob, r[3])[1] = "none" /\ r[4] THEN RefErr(m)
                      ELSE SetV(m, O(m.e[r[2]].ob), r[3], v, r[4]))
           ELSE IF r[3] \notin DOMAIN m.e[r[2]].b THEN (IF r[4] THEN RefErr(m) ELSE Bail(m))   \* deleted meanwhile
           ELSE LET c == m.e[r[2]].b[r[3]]
                IN IF c.v[1] = "tdz" THEN RefErr(m)
                   ELSE IF c.k = "const" THEN TypeErr(m)
                   ELSE IF c.k = "fname" THEN (IF r[4] THEN TypeErr(m) ELSE V(m, v))
                   ELSE V([m EXCEPT !.e[r[2]].b[r[3]].v = v], v)
      [] r[1] = "rmem" -> SetV(m, r[2], r[3], v, r[4])
      [] r[1] = "rsup" -> SetRecv(m, r[2], r[3], v, r[4], r[5])
      [] r[1] = "rpriv" -> PrivSet(m, r[2], r[3], v)

(* ------------------------------------------------------------------ conversions (frames tp1..) *)
ToPrim(m, v, hint) ==
    IF ~IsObj(v) THEN V(m, v) ELSE GetV(Push(m, <<"tp1", m.env, v, hint>>), v, "@@toPrimitive")
OrdPrim(m, v, names) ==
    IF names = <<>> THEN TypeErr(m)
    ELSE GetV(Push(m, <<"tp3", m.env, v, Tail(names)>>), v, Head(names))
KeyOf(v) == IF v[1] = "y" THEN "@@" \o v[2] ELSE PrimStr(v)
\* keys that look like array indices past those this specification represents: abandon the program
OddKey(s) == s \notin IdxSet /\ Len(s) > 0 /\ SubSeq(s, 1, 1) \in DigitSet
ToKey(m, v) == IF ~IsObj(v) THEN (IF OddKey(KeyOf(v)) THEN Bail(m) ELSE V(m, <<"k", KeyOf(v)>>)) ELSE ToPrim(Push(m, <<"tk", m.env>>), v, "string")
ToStr(m, v) == IF v[1] = "y" THEN TypeErr(m)
               ELSE IF ~IsObj(v) THEN V(m, Str(PrimStr(v))) ELSE ToPrim(Push(m, <<"ts", m.env>>), v, "string")
ToNum(m, v) == IF v[1] = "y" THEN TypeErr(m)
               ELSE IF ~IsObj(v) THEN (IF PrimNum(v) = BIG THEN Bail(m) ELSE V(m, PrimNum(v))) ELSE ToPrim(Push(m, <<"tn", m.env>>), v, "number")

AjNext(m, o, i, n, acc) == IF i >= n THEN V(m, Str(acc))
    ELSE GetV(Push(m, <<"aj1", m.env, o, i, n, IF i = 0 THEN acc ELSE acc \o ",">>), o, IdxNames[i])

(* ------------------------------------------------------------------ iterators *)
GetIter(m, v) == GetV(Push(m, <<"gi1", m.env, v>>), v, "@@iterator")
GetAIter(m, v) == GetV(Push(m, <<"ga1", m.env, v>>), v, "@@asyncIterator")
IterStep(m, it) == Call(Push(m, <<"is1", m.env>>), it[3], it[2], <<>>)
IterSkip(m, it) == Call(Push(m, <<"is1e", m.env>>), it[3], it[2], <<>>)     \* a hole in a pattern: value is not read
CloseIter(m, it, c) == GetV(Push(m, <<"cl1", m.env, it, c>>), it[2], "return")
ACloseIter(m, it, c) == GetV(Push(m, <<"ac1", m.env, it, c>>), it[2], "return")
DONE == <<"done">>

(* ------------------------------------------------------------------ promises and jobs *)
AddJob(m, j) == [m EXCEPT !.j = Append(@, j)]
Settle(m, p, st, v) ==   \* st "f" or "r"
    LET d == m.h[p].d
        rs == IF st = "f" THEN d.fr ELSE d.rr
    IN [m EXCEPT !.h[p].d = [st |-> st, v |-> v, fr |-> <<>>, rr |-> <<>>],
                 !.j = @ \o [i \in 1..Len(rs) |-> <<"re", st, rs[i][1], v, rs[i][2]>>]]
(* resolve p with v; delivers undefined *)
ResolveP(m, p, v) ==
    IF IsObj(v) /\ v[2] = p
    THEN LET m1 == Alloc(m, [Obj0("err", O(oErrP)) EXCEPT !.d = "TypeError"]) IN V(Settle(m1, p, "r", O(New(m))), U)
    ELSE IF ~IsObj(v) THEN V(Settle(m, p, "f", v), U)
    ELSE GetV(Push(m, <<"rp1", m.env, p, v>>), v, "then")
(* a capability is <<"p", promise>> or <<"none">> or <<"c", promise, resolve, reject>> *)
CapResolve(m, cap, v) == CASE cap[1] = "none" -> V(m, U) [] cap[1] = "p" -> ResolveP(m, cap[2], v)
                           [] cap[1] = "c" -> Call(m, cap[3], U, <<v>>)
CapReject(m, cap, v) == CASE cap[1] = "none" -> V(m, U) [] cap[1] = "p" -> V(Settle(m, cap[2], "r", v), U)
                          [] cap[1] = "c" -> Call(m, cap[4], U, <<v>>)
CapProm(cap) == IF cap[1] = "p" THEN O(cap[2]) ELSE cap[2]
PerformThen(m, p, onf, onr, cap) ==
    LET d == m.h[p].d
    IN CASE d.st = "p" -> [m EXCEPT !.h[p].d.fr = Append(@, <<onf, cap>>), !.h[p].d.rr = Append(@, <<onr, cap>>)]
         [] d.st = "f" -> AddJob(m, <<"re", "f", onf, d.v, cap>>)
         [] d.st = "r" -> AddJob(m, <<"re", "r", onr, d.v, cap>>)
IsProm(m, v) == IsObj(v) /\ m.h[v[2]].k = "prom"
(* the two resolving functions of a promise share one "already resolved" cell *)
MkResolving(m, p) ==   \* allocates cell, resolve, reject: ids New(m)..New(m)+2
    LET c == New(m)
    IN Alloc(Alloc(Alloc(m, [Obj0("cell", NL) EXCEPT !.d = FALSE]), MkNat("resolveF", <<p, c>>)), MkNat("rejectF", <<p, c>>))

(* await: find the boundary, save the slice above it, leave *)
RECURSIVE TopFrame(_, _, _)
TopFrame(k, i, S) == IF i = 0 THEN 0 ELSE IF k[i][1] \in S THEN i ELSE TopFrame(k, i - 1, S)
Suspend(m, p) ==
    LET i == TopFrame(m.k, Len(m.k), {"asb", "agb"})
        co == m.k[i][3]
        m1 == PerformThen(m, p, <<"aw", co, "V">>, <<"aw", co, "T">>, NONE)
        first == m.k[i][1] = "asb" /\ m.h[co].d.first
    IN [m1 EXCEPT !.h[co].d.k = SubSeq(m.k, i + 1, Len(m.k)), !.h[co].d.env = m.env,
                  !.h[co].d.first = FALSE,
                  !.k = SubSeq(m.k, 1, i - 1), !.env = m.k[i][2],
                  !.c = <<"V", IF first THEN O(m.h[co].d.p) ELSE U>>]
Await(m, v) ==
    IF IsProm(m, v) THEN GetV(Push(m, <<"aw0", m.env, v>>), v, "constructor")
    ELSE LET p == New(m) IN ResolveP(Push(Alloc(m, MkProm), <<"aw1", m.env, p>>), p, v)

(* ------------------------------------------------------------------ functions *)
HasProtoProp(f) == ~f.arrow /\ ~f.meth /\ (~f.async \/ f.gen)
(* closure of definition node n; returns the machine, the function is object New(m) *)
MkFn(m, n, env, home, nm, kind) ==
    LET f == N(m, n)
        id == New(m)
        fo == [Obj0("fn", O(oFunctionP)) EXCEPT
                 !.ks = <<"length", "name">>,
                 !.ps = ("length" :> <<"d", Num(f.len), FALSE, FALSE, TRUE>>)
                        @@ ("name" :> <<"d", Str(nm), FALSE, FALSE, TRUE>>),
                 !.d = [f |-> n, env |-> env, ho |-> home, ct |-> kind, fl |-> <<>>, pm |-> <<>>]]
        m1 == Alloc(m, fo)
    IN IF HasProtoProp(f) /\ kind # "class"
       THEN LET po == IF f.gen THEN Obj0("obj", O(IF f.async THEN oAGenP ELSE oGenP))
                      ELSE PutRaw(Obj0("obj", O(oObjectP)), "constructor", Hid(O(id)))
                m2 == Alloc(m1, po)
            IN [m2 EXCEPT !.h[id] = PutRaw(@, "prototype", <<"d", O(id + 1), TRUE, FALSE, FALSE>>)]
       ELSE m1
FnKind(f) == IF f.arrow \/ f.meth \/ f.async \/ f.gen THEN "none" ELSE "base"
RECURSIVE InitFns(_, _, _)
InitFns(m, fns, i) ==
    IF i > Len(fns) THEN m
    ELSE LET f == N(m, fns[i][2])
             m1 == MkFn(m, fns[i][2], m.env, NL, fns[i][1], FnKind(f))
         IN InitFns([m1 EXCEPT !.e[m.env].b[fns[i][1]].v = O(New(m))], fns, i + 1)

BeginBody(m, f, fid) ==
    IF f.gen
    THEN LET pd == Own(m, fid, "prototype")
             pr == IF pd[1] = "d" /\ IsObj(pd[2]) THEN pd[2] ELSE O(IF f.async THEN oAGenP ELSE oGenP)
         IN [m EXCEPT !.h = Append(@, [Obj0(IF f.async THEN "agen" ELSE "gen", pr) EXCEPT
                              !.d = [st |-> "start", k |-> <<>>, env |-> m.env, body |-> f.body, q |-> <<>>, first |-> FALSE]]),
                      !.c = <<"R", O(New(m))>>]
    ELSE Ctl(m, <<"S", f.body>>)
(* after the parameters: variables, functions, lexical names *)
FDI2(m, f, fid) ==
    LET penv == m.env
        pb == m.e[penv].b
        varset == {f.vars[i] : i \in 1..Len(f.vars)} \cup {f.fns[i][1] : i \in 1..Len(f.fns)}
        pnames == {f.pn[i] : i \in 1..Len(f.pn)} \cup (IF f.args THEN {"arguments"} ELSE {})
        vcell(x) == IF x \in pnames THEN Cell("var", pb[x].v) ELSE Cell("var", U)
    IN IF ~f.pexp
       THEN LET m1 == [m EXCEPT !.e[penv].b = TdzCells(f.lex) @@ pb @@ [x \in varset |-> Cell("var", U)]]
            IN BeginBody(InitFns(m1, f.fns, 1), f, fid)
       ELSE LET m1 == PushEnv(m, [DeclEnv(penv, TdzCells(f.lex) @@ [x \in varset |-> vcell(x)]) EXCEPT !.t = "v"])
            IN BeginBody(InitFns(m1, f.fns, 1), f, fid)
MkArgs(m, f, fid, args, eid) ==
    LET n == Len(args)
        mapped == f.simple /\ ~f.st
        last(j) == \A j2 \in (j + 1)..Len(f.pn) : f.pn[j2] # f.pn[j]
        mp == IF mapped THEN [x \in {IdxNames[j - 1] : j \in {j \in 1..(IF n < Len(f.pn) THEN n ELSE Len(f.pn)) : last(j)}}
                                |-> f.pn[IdxOf[x] + 1]]
              ELSE NoF
        ks == [i \in 1..n |-> IdxNames[i - 1]] \o <<"length", "@@iterator", "callee">>
        ps == ("length" :> Hid(Num(n))) @@ ("@@iterator" :> Hid(Own(m, oArrayP, "values")[2]))
              @@ ("callee" :> (IF mapped THEN Hid(O(fid)) ELSE <<"a", O(oThrower), O(oThrower), FALSE, FALSE>>))
              @@ [x \in {IdxNames[i - 1] : i \in 1..n} |-> Data(args[IdxOf[x] + 1])]
    IN [Obj0("args", O(oObjectP)) EXCEPT !.ks = ks, !.ps = ps, !.d = [map |-> mp, env |-> eid]]
(* enter a closure: bf is its boundary frame *)
Enter(m, fid, th, args, nt, bf) ==
    LET d == m.h[fid].d
        f == N(m, d.f)
        eid == Len(m.e) + 1
        wrap == ~f.arrow /\ ~f.st /\ th[1] \in {"n", "x", "s", "b", "y"}
        mw == IF wrap THEN Alloc(m, MkWrap(th)) ELSE m
        thv == IF f.arrow THEN <<"lex">> ELSE IF wrap THEN O(New(m)) ELSE IF th[1] = "tdz" \/ f.st \/ ~Nullish(th) THEN th ELSE O(oGlobal)
        av(x, i) == IF i <= Len(args) THEN args[i] ELSE U
        lastOf(x) == CHOOSE i \in 1..Len(f.pn) : f.pn[i] = x /\ \A j \in (i + 1)..Len(f.pn) : f.pn[j] # x
        pset == {f.pn[i] : i \in 1..Len(f.pn)}
        b0 == [x \in pset |-> Cell("var", IF f.simple THEN av(x, lastOf(x)) ELSE TDZ)]
        \* an async function's promise and coroutine exist from the start
        m0 == IF f.async /\ ~f.gen
              THEN LET p == New(mw)
                       m1 == Alloc(Alloc(mw, MkProm), [Obj0("co", NL) EXCEPT
                                 !.d = [k |-> <<>>, env |-> 0, p |-> p, first |-> TRUE]])
                   IN Push(m1, <<"asb", m.env, p + 1>>)
              ELSE Push(mw, bf)
        m2 == [m0 EXCEPT !.e = Append(@, [t |-> "f", b |-> b0, o |-> d.env, ob |-> 0, th |-> thv, nt |-> nt, fn |-> fid]),
                         !.env = eid]
        m3 == IF f.args
              THEN LET a == New(m2)
                   IN [Alloc(m2, MkArgs(m2, f, fid, args, eid)) EXCEPT !.e[eid].b = ("arguments" :> Cell("var", O(a))) @@ @]
              ELSE m2
    IN IF f.simple THEN FDI2(m3, f, fid) ELSE NextParam(m3, <<"par", eid, fid, 0, args>>, f, 1)
NmOf(m, t) == IF N(m, t).k = "id" THEN N(m, t).n ELSE ""
(* parameters with patterns, defaults or rest: frame <<"par", env, fn, i, args>> *)
NextParam(m, fr, f, i) ==
    IF i > Len(f.params) THEN FDI2(m, f, fr[3])
    ELSE LET p == f.params[i]
             args == fr[5]
             v == IF i <= Len(args) THEN args[i] ELSE U
             m1 == Push(m, [fr EXCEPT ![4] = i])
         IN IF p.rest
            THEN LET a == New(m1)
                 IN [Alloc(m1, MkArr(IF i <= Len(args) THEN SubSeq(args, i, Len(args)) ELSE <<>>)) EXCEPT
                        !.c = <<"BP", p.t, O(a), "init">>]
            ELSE IF p.d # 0 /\ v = U THEN EvNamed(m1, p.d, NmOf(m, p.t), <<"pdef", m.env, p.t, "init">>)
            ELSE Ctl(m1, <<"BP", p.t, v, "init">>)

Call(m, f, th, args) ==
    IF ~Callable(m, f) THEN TypeErr(m)
    ELSE LET o == m.h[f[2]]
         IN CASE o.k = "fn" -> IF o.d.ct \in {"class", "derived"} THEN TypeErr(m)
                               ELSE Enter(m, f[2], th, args, U, <<"fnb", m.env>>)
              [] o.k = "bound" -> Call(m, o.d.f, o.d.th, o.d.args \o args)
              [] OTHER -> Native(m, f[2], th, args, U)
IsCtor(m, v) == Callable(m, v) /\ LET o == m.h[v[2]]
                                  IN CASE o.k = "fn" -> o.d.ct # "none"
                                       [] o.k = "bound" -> IsObj(o.d.f) /\ o.d.ct
                                       [] OTHER -> o.d.n \in {"Promise", "Object", "Array", "Map", "Set", "WeakMap", "WeakSet"}
Construct(m, f, args, nt) ==
    LET o == m.h[f[2]]
    IN CASE o.k = "fn" -> IF o.d.ct = "derived"
                          THEN LET m1 == Enter(m, f[2], TDZ, args, nt, <<"ctb", m.env, TDZ, Len(m.e) + 1>>) IN m1
                          ELSE GetV(Push(m, <<"cproto", m.env, f, args, nt>>), nt, "prototype")
         [] o.k = "bound" -> Construct(m, o.d.f, o.d.args \o args, IF Same(f, nt) THEN o.d.f ELSE nt)
         [] OTHER -> Native(m, f[2], U, args, nt)
(* private methods then fields of class constructor cid onto object o; delivers undefined *)
RECURSIVE AddPrivM(_, _, _, _)
AddPrivM(m, oid, pm, i) ==
    IF i > Len(pm) THEN m
    ELSE AddPrivM([m EXCEPT !.h[oid].pv = (pm[i][1] :> pm[i][2]) @@ @], oid, pm, i + 1)
InitFields(m, oid, cid) ==
    LET d == m.h[cid].d
    IN IF \E i \in 1..Len(d.pm) : d.pm[i][1] \in DOMAIN m.h[oid].pv THEN TypeErr(m)
       ELSE V(Push(AddPrivM(m, oid, d.pm, 1), <<"ifl", m.env, oid, d.fl, 1>>), U)

(* ------------------------------------------------------------------ operators *)
AsciiText == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharSet == {SubSeq(AsciiText, i, i) : i \in 1..Len(AsciiText)}
CharRank == [c \in CharSet |-> CHOOSE i \in 1..Len(AsciiText) : SubSeq(AsciiText, i, i) = c]
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                 ELSE LET x == CharRank[SubSeq(a, 1, 1)]  y == CharRank[SubSeq(b, 1, 1)]
                      IN IF x # y THEN x < y ELSE StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
\* bitwise operators on two's complement integers of any width
RECURSIVE BitAnd(_, _)
BitAnd(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF x = -1 THEN y ELSE IF y = -1 THEN x
                ELSE (x % 2) * (y % 2) + 2 * BitAnd(x \div 2, y \div 2)
BitOr(x, y) == -1 - BitAnd(-1 - x, -1 - y)
BitXor(x, y) == BitAnd(BitOr(x, y), -1 - BitAnd(x, y))
RECURSIVE ShiftR(_, _)
ShiftR(x, n) == IF n = 0 THEN x ELSE ShiftR(x \div 2, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Rel(op, x, y) == CASE op = "<" -> x < y [] op = ">" -> x > y [] op = "<=" -> x <= y [] OTHER -> x >= y
Arith(m, op, a, b) ==    \* on primitives
    IF op = "+" /\ (a[1] = "s" \/ b[1] = "s") THEN (IF a[1] = "y" \/ b[1] = "y" THEN TypeErr(m) ELSE V(m, Str(PrimStr(a) \o PrimStr(b))))
    ELSE IF op \in {"<", ">", "<=", ">="} /\ a[1] = "s" /\ b[1] = "s"
         THEN V(m, Bool(CASE op = "<" -> StrLess(a[2], b[2]) [] op = ">" -> StrLess(b[2], a[2])
                          [] op = "<=" -> ~StrLess(b[2], a[2]) [] OTHER -> ~StrLess(a[2], b[2])))
    ELSE IF a[1] = "y" \/ b[1] = "y" THEN TypeErr(m)
    ELSE LET x == PrimNum(a)
             y == PrimNum(b)
             nan == x[1] = "x" \/ y[1] = "x"
             xi == IF x[1] = "x" THEN 0 ELSE x[2]
             yi == IF y[1] = "x" THEN 0 ELSE y[2]
         IN IF x = BIG \/ y = BIG THEN Bail(m)
            ELSE IF Abs(xi) > 1000000000 \/ Abs(yi) > 1000000000 \/ (op = "*" /\ (Abs(xi) > 30000 \/ Abs(yi) > 30000)) THEN Bail(m)
            ELSE CASE op \in {"+", "-", "*", "%"} ->
                   IF nan THEN V(m, NaN)
                   ELSE (CASE op = "+" -> V(m, Num(xi + yi))
                          [] op = "-" -> V(m, Num(xi - yi))
                          [] op = "*" -> V(m, Num(xi * yi))
                          [] op = "%" -> IF yi = 0 THEN V(m, NaN)
                                         ELSE LET r == Abs(xi) % Abs(yi) IN V(m, Num(IF xi < 0 THEN -r ELSE r)))
              [] op \in {"<", ">", "<=", ">="} -> V(m, Bool(~nan /\ Rel(op, xi, yi)))
              [] op = "&" -> V(m, Num(BitAnd(xi, yi)))
              [] op = "|" -> V(m, Num(BitOr(xi, yi)))
              [] op = "^" -> V(m, Num(BitXor(xi, yi)))
              [] op = ">>" -> V(m, Num(ShiftR(xi, yi % 32)))
              [] OTHER -> Bail(m)
RECURSIVE LooseEq(_, _)
LooseEq(a, b) ==         \* neither is an object unless both are
    IF a[1] = b[1] THEN Same(a, b)
    ELSE IF Nullish(a) /\ Nullish(b) THEN TRUE
    ELSE IF Nullish(a) \/ Nullish(b) \/ a[1] = "y" \/ b[1] = "y" THEN FALSE
    ELSE LET x == PrimNum(a)  y == PrimNum(b) IN x[1] = "n" /\ y[1] = "n" /\ x[2] = y[2]
BinOp(m, op, a, b) ==
    CASE op = "===" -> V(m, Bool(Same(a, b)))
      [] op = "!==" -> V(m, Bool(~Same(a, b)))
      [] op \in {"==", "!="} ->
           IF IsObj(a) /\ ~IsObj(b) /\ ~Nullish(b) THEN ToPrim(Push(m, <<"eq", m.env, b, op>>), a, "default")
           ELSE IF IsObj(b) /\ ~IsObj(a) /\ ~Nullish(a) THEN ToPrim(Push(m, <<"eq", m.env, a, op>>), b, "default")
           ELSE IF IsObj(a) # IsObj(b) THEN V(m, Bool(op = "!="))
           ELSE V(m, Bool((op = "==") = LooseEq(a, b)))
      [] op = "in" -> IF ~IsObj(b) THEN TypeErr(m) ELSE ToKey(Push(m, <<"in", m.env, b>>), a)
      [] op = "instanceof" -> IF ~IsObj(b) THEN TypeErr(m)
                              ELSE GetV(Push(m, <<"io1", m.env, a, b>>), b, "@@hasInstance")
      [] op \notin {"+", "<", ">", "<=", ">="} -> ToNum(Push(m, <<"b3n", m.env, op, b>>), a)
      [] OTHER -> ToPrim(Push(m, <<"b3", m.env, op, b>>), a, IF op = "+" THEN "default" ELSE "number")
OrdHasInstance(m, c, o) ==
    IF ~Callable(m, c) \/ ~IsObj(o) THEN V(m, Bool(FALSE))
    ELSE IF m.h[c[2]].k = "bound" THEN BinOp(m, "instanceof", o, m.h[c[2]].d.f)
    ELSE GetV(Push(m, <<"io2", m.env, o>>), c, "prototype")

(* ------------------------------------------------------------------ evaluation of expressions *)
RECURSIVE EvArgs(_, _, _, _)
EvArgs(m, fr, args, i) ==    \* fr = <<"args", env, what, vals>>; what <<"call",f,th>>, <<"new",f>>, <<"super",f>>, <<"arr">>
    IF i > Len(args)
    THEN LET w == fr[3] vals == fr[4]
         IN CASE w[1] = "call" -> Call(m, w[2], w[3], vals)
              [] w[1] = "new" -> IF ~IsCtor(m, w[2]) THEN TypeErr(m) ELSE Construct(m, w[2], vals, w[2])
              [] w[1] = "super" -> IF ~IsCtor(m, w[2]) THEN TypeErr(m)
                                   ELSE Construct(Push(m, <<"sup", m.env>>), w[2], vals, m.e[ThisEnv(m, m.env)].nt)
              [] w[1] = "arr" -> VAlloc(m, LET a == MkArr(vals)
                                               holes == {j \in 1..Len(vals) : vals[j][1] = "hole"}
                                               hn == {IdxNames[j - 1] : j \in holes}
                                           IN IF holes = {} THEN a
                                              ELSE [a EXCEPT !.ks = SelectSeq(@, LAMBDA x : x \notin hn),
                                                             !.ps = [x \in (DOMAIN a.ps) \ hn |-> a.ps[x]]])
    ELSE IF args[i] = 0 THEN EvArgs(m, [fr EXCEPT ![4] = Append(@, <<"hole">>)], args, i + 1)
    ELSE LET a == N(m, args[i])
         IN IF a.k = "spr" THEN Ev(m, a.e, <<"args", fr[2], fr[3], fr[4], args, i, "spread", NONE>>)
            ELSE Ev(m, args[i], <<"args", fr[2], fr[3], fr[4], args, i, "plain", NONE>>)
MethName(nm, pre) == IF pre = "" THEN nm ELSE pre \o " " \o nm
SymName(key) == CASE key = "@@iterator" -> "[Symbol.iterator]" [] key = "@@asyncIterator" -> "[Symbol.asyncIterator]"
                  [] key = "@@hasInstance" -> "[Symbol.hasInstance]" [] key = "@@toPrimitive" -> "[Symbol.toPrimitive]"
                  [] key = "@@sA" -> "[sA]" [] key = "@@sB" -> "[sB]" [] key = "@@unscopables" -> "[Symbol.unscopables]"
                  [] OTHER -> key
NextProp(m, fr, node, i) ==   \* object literal: fr = <<"ol", env, node, i, obj>>
    IF i > Len(node.props) THEN V(m, fr[5])
    ELSE LET p == node.props[i]
             m1 == Push(m, [fr EXCEPT ![4] = i])
         IN IF p.t = "spread" THEN Ev(m1, p.v, <<"olspr", m.env, fr[5]>>)
            ELSE IF p.t = "proto" THEN Ev(m1, p.v, <<"olproto", m.env, fr[5]>>)
            ELSE IF p.ck # 0 THEN Ev(Push(m1, <<"olk", m.env, fr[3], i, fr[5]>>), p.ck, <<"tokey", m.env>>)
            ELSE V(Push(m1, <<"olk", m.env, fr[3], i, fr[5]>>), <<"k", p.key>>)
(* define method/getter/setter with closure of node fn on object oid *)
DefMethod(m, oid, key, t, fn, enum) ==
    LET id == New(m)
        nm == MethName(SymName(key), CASE t = "get" -> "get" [] t = "set" -> "set" [] OTHER -> "")
        m1 == MkFn(m, fn, m.env, O(oid), nm, "none")
        d0 == m1.h[oid]
        old == IF key \in DOMAIN d0.ps /\ d0.ps[key][1] = "a" THEN d0.ps[key] ELSE <<"a", U, U, enum, TRUE>>
    IN CASE t = "get" -> Def(m1, oid, key, <<"a", O(id), old[3], enum, TRUE>>)
         [] t = "set" -> Def(m1, oid, key, <<"a", old[2], O(id), enum, TRUE>>)
         [] OTHER -> Def(m1, oid, key, <<"d", O(id), TRUE, enum, TRUE>>)
(* evaluate node n, naming it if it is an anonymous function or class *)
EvNamed(m, n, nm, fr) ==
    IF N(m, n).k \in {"fn", "class"} /\ N(m, n).anon THEN [Push(m, fr) EXCEPT !.c = <<"EN", n, nm>>] ELSE Ev(m, n, fr)
DeleteId(m, nm) ==
    LET r == Resolve(m, m.env, nm)
    IN IF r = 0 THEN V(m, Bool(TRUE))
       ELSE IF m.e[r].t = "o"
            THEN LET b == m.e[r].ob IN IF Own(m, b, nm)[1] = "none" THEN V(m, Bool(TRUE))
                                       ELSE IF ~Own(m, b, nm)[5] THEN V(m, Bool(FALSE))
                                       ELSE V([m EXCEPT !.h[b] = DelRaw(@, nm)], Bool(TRUE))
       ELSE IF m.e[r].b[nm].k = "evar" THEN V([m EXCEPT !.e[r].b = [x \in (DOMAIN @) \ {nm} |-> @[x]]], Bool(TRUE))
       ELSE V(m, Bool(FALSE))
(* direct eval: node deval {vars, fns, lex, body (statements), e (final expression), st} *)
RECURSIVE VarEnvOf(_, _), LexBetween(_, _, _, _), AddVars(_, _, _, _)
VarEnvOf(m, env) == IF m.e[env].t \in {"f", "v"} THEN env ELSE VarEnvOf(m, m.e[env].o)
\* does a scope between env and the variable scope ve declare one of the names lexically (catch parameters excepted)
LexBetween(m, env, ve, names) ==
    LET lexical == {x \in DOMAIN m.e[env].b : m.e[env].b[x].k \in {"let", "const"}}
    IN \/ (m.e[env].t # "o" /\ lexical \cap names # {})
       \/ (env # ve /\ LexBetween(m, m.e[env].o, ve, names))
AddVars(m, ve, vars, i) ==
    IF i > Len(vars) THEN m
    ELSE AddVars(IF vars[i] \in DOMAIN m.e[ve].b THEN m ELSE [m EXCEPT !.e[ve].b = (vars[i] :> Cell("evar", U)) @@ @], ve, vars, i + 1)
RECURSIVE EvalFns(_, _, _, _)
EvalFns(m, ve, fns, i) ==
    IF i > Len(fns) THEN m
    ELSE LET m1 == MkFn(m, fns[i][2], m.env, NL, fns[i][1], FnKind(N(m, fns[i][2])))
         IN EvalFns([m1 EXCEPT !.e[ve].b[fns[i][1]].v = O(New(m))], ve, fns, i + 1)
DirectEval(m, n) ==
    LET x == N(m, n)
        names == x.vars \o [i \in 1..Len(x.fns) |-> x.fns[i][1]]
        lexenv(mm) == PushEnv(mm, DeclEnv(mm.env, TdzCells(x.lex)))
        finish(mm) == Push(mm, <<"ev1", mm.env, n>>)
    IN IF x.st
       THEN LET m1 == PushEnv(m, [DeclEnv(m.env, TdzCells(x.lex) @@ [y \in {names[i] : i \in 1..Len(names)} |-> Cell("var", U)]) EXCEPT !.t = "v"])
            IN Ctl(finish(InitFns(m1, x.fns, 1)), <<"S", x.body>>)
       ELSE LET ve == VarEnvOf(m, m.env)
            IN IF LexBetween(m, m.env, ve, {names[i] : i \in 1..Len(names)}) THEN Err(m, "SyntaxError")
               ELSE LET m1 == lexenv(AddVars(m, ve, names, 1))
                    IN Ctl(finish(EvalFns(m1, ve, x.fns, 1)), <<"S", x.body>>)
Eval(m, n, nm) ==
    LET x == N(m, n)
    IN CASE x.k = "lit" -> V(m, x.v)
         [] x.k = "id" -> GetRef(m, <<"rid", Resolve(m, m.env, x.n), x.n, x.st>>)
         [] x.k \in {"mem", "idx", "pmem", "smem", "sidx"} -> EvR(m, n, <<"get", m.env>>)
         [] x.k = "call" ->
              IF N(m, x.f).k \in {"id", "mem", "idx", "pmem", "smem", "sidx"} THEN EvR(m, x.f, <<"call1", m.env, n>>)
              ELSE Ev(m, x.f, <<"call2", m.env, n, U>>)
         [] x.k = "asg" ->
              IF x.op = "=" /\ N(m, x.t).k \in {"parr", "pobj"} THEN Ev(m, x.e, <<"asgp", m.env, x.t>>)
              ELSE EvR(m, x.t, <<"asg1", m.env, n>>)
         [] x.k = "bin" -> Ev(m, x.a, <<"b1", m.env, n>>)
         [] x.k = "lop" -> Ev(m, x.a, <<"lop", m.env, n>>)
         [] x.k = "un" ->
              CASE x.op = "typeof" /\ N(m, x.a).k = "id" /\ Resolve(m, m.env, N(m, x.a).n) = 0 -> V(m, Str("undefined"))
                [] x.op = "delete" /\ N(m, x.a).k = "id" -> DeleteId(m, N(m, x.a).n)
                [] x.op = "delete" -> EvR(m, x.a, <<"del", m.env>>)
                [] OTHER -> Ev(m, x.a, <<"un", m.env, x.op>>)
         [] x.k = "upd" -> EvR(m, x.t, <<"upd1", m.env, n>>)
         [] x.k = "cond" -> Ev(m, x.c, <<"cond", m.env, n>>)
         [] x.k = "seq" -> Ev(m, x.es[1], <<"seq", m.env, n, 1>>)
         [] x.k = "new" -> Ev(m, x.f, <<"new1", m.env, n>>)
         [] x.k = "fn" ->
              LET f == N(m, x.f)
                  name == IF x.anon THEN nm ELSE f.nm
              IN IF x.anon \/ x.plain
                 THEN V(MkFn(m, x.f, m.env, NL, name, FnKind(f)), O(New(m)))
                 ELSE \* a named function expression sees its own name
                      LET m1 == PushEnv(m, DeclEnv(m.env, f.nm :> Cell("fname", U)))
                          m2 == MkFn(m1, x.f, m1.env, NL, name, FnKind(f))
                      IN V([m2 EXCEPT !.e[m1.env].b[f.nm].v = O(New(m)), !.env = m.env], O(New(m)))
         [] x.k = "arr" -> EvArgs(m, <<"args", m.env, <<"arr">>, <<>>>>, x.els, 1)
         [] x.k = "obj" -> LET id == New(m)
                           IN NextProp(Alloc(m, Obj0("obj", O(oObjectP))), <<"ol", m.env, n, 0, O(id)>>, x, 1)
         [] x.k = "tmpl" -> V(Push(m, <<"tm", m.env, n, 0, x.q[1]>>), Str(""))
         [] x.k = "this" -> LET t == m.e[ThisEnv(m, m.env)].th IN IF t[1] = "tdz" THEN RefErr(m) ELSE V(m, t)
         [] x.k = "nt" -> V(m, m.e[ThisEnv(m, m.env)].nt)
         [] x.k = "och" -> Ev(m, x.e, <<"och", m.env>>)
         [] x.k = "yield" -> IF x.e = 0 THEN V(Push(m, <<"yld", m.env, x.async>>), U) ELSE Ev(m, x.e, <<"yld", m.env, x.async>>)
         [] x.k = "yields" -> Ev(m, x.e, <<"ys0", m.env, x.async>>)
         [] x.k = "await" -> Ev(m, x.e, <<"aw", m.env>>)
         [] x.k = "scall" -> LET te == ThisEnv(m, m.env)
                             IN EvArgs(m, <<"args", m.env, <<"super", m.h[m.e[te].fn].pr>>, <<>>>>, x.args, 1)
         [] x.k = "deval" -> DirectEval(m, n)
         [] x.k = "pin" -> Ev(m, x.e, <<"pin", m.env, PrivOf(m, m.env, x.n)>>)
         [] x.k = "class" ->
              LET m1 == PushEnv(m, DeclEnv(m.env, IF x.nm = "" THEN NoF ELSE x.nm :> Cell("const", TDZ)))
                  m2 == PushEnv(m1, [t |-> "p", b |-> [q \in {x.priv[i] : i \in 1..Len(x.priv)} |->
                                        m.pn + (CHOOSE i \in 1..Len(x.priv) : x.priv[i] = q)], o |-> m1.env, ob |-> 0])
                  m3 == [m2 EXCEPT !.pn = @ + Len(x.priv)]
                  fr == <<"cls1", m.env, n, IF x.anon THEN nm ELSE x.nm, m3.env>>
              IN IF x.h = 0 THEN V(Push(m3, fr), <<"noheritage">>)
                 ELSE Ev([m3 EXCEPT !.env = m3.env], x.h, fr)
HomeProto(m, te) == LET ho == m.h[m.e[te].fn].d.ho IN IF IsObj(ho) THEN m.h[ho[2]].pr ELSE NL
EvalRef(m, n) ==
    LET x == N(m, n)
    IN CASE x.k = "id" -> V(m, <<"rid", Resolve(m, m.env, x.n), x.n, x.st>>)
         [] x.k \in {"mem", "idx", "pmem"} -> Ev(m, x.o, <<"ref1", m.env, n>>)
         [] x.k \in {"smem", "sidx"} ->
              LET te == ThisEnv(m, m.env)
                  t == m.e[te].th
              IN IF t[1] = "tdz" THEN RefErr(m)
                 ELSE IF x.k = "smem" THEN V(m, <<"rsup", HomeProto(m, te), x.key, t, x.st>>)
                 ELSE Ev(Push(m, <<"srf", m.env, x.st>>), x.e, <<"tokey", m.env>>)
         [] OTHER -> Ev(m, n, <<"nop", m.env>>)

(* ------------------------------------------------------------------ statements *)
RECURSIVE BlockEnter(_, _, _)
BlockEnter(m, lex, fns) ==   \* new environment for a block's lexical names and functions
    IF lex = <<>> THEN m ELSE InitFns(PushEnv(m, DeclEnv(m.env, TdzCells(lex))), fns, 1)
NextStmt(m, fr, list, i) ==  \* fr = <<"sl", env, list, i>>
    IF i > Len(list) THEN V(m, U)
    ELSE IF i = Len(list) THEN Ctl(m, <<"S", list[i]>>)     \* env needs no restoring: the next frame does
    ELSE [m EXCEPT !.k = Append(@, [fr EXCEPT ![4] = i]), !.c = <<"S", list[i]>>]
RunList(m, list) == NextStmt(m, <<"sl", m.env, list, 0>>, list, 1)
NextDecl(m, fr, node, i) ==
    IF i > Len(node.decls) THEN V(m, U)
    ELSE LET d == node.decls[i]
             m1 == Push(m, [fr EXCEPT ![4] = i])
             mode == IF node.kind = "var" THEN "var" ELSE "init"
         IN IF d.e = 0
            THEN (IF mode = "var" THEN V(m1, U) ELSE Ctl(m1, <<"BP", d.t, U, mode>>))
            ELSE IF N(m, d.t).k = "id"
                 THEN EvNamed(m1, d.e, N(m, d.t).n, <<"pbind", m.env, d.t, mode>>)
                 ELSE Ev(m1, d.e, <<"pbind", m.env, d.t, mode>>)
(* one iteration environment copied from the previous one *)
CopyEnv(m, names) == IF names = <<>> THEN m ELSE PushEnv(m, m.e[m.env])
ForTest(m, fr, x) == IF x.test = 0 THEN V(Push(m, [fr EXCEPT ![2] = m.env, ![4] = "test"]), Bool(TRUE))
                     ELSE Ev(m, x.test, [fr EXCEPT ![2] = m.env, ![4] = "test"])
ForInNext(m, fr, x) ==   \* fr = <<"fi", env, node, cur object, keys left, visited>>
    LET cur == fr[4]  left == fr[5]
    IN IF cur[1] = "l" THEN <<"end">>
       ELSE IF left = <<>> THEN <<"up">>
       ELSE <<"key", Head(left)>>
RECURSIVE ForInScan(_, _)
ForInScan(m, fr) ==      \* find the next key to visit: <<key or "", new frame>>
    IF fr[5] = <<>>
    THEN LET p == m.h[fr[4]].pr
         IN IF p[1] = "l" THEN <<NONE, fr>>
            ELSE ForInScan(m, [fr EXCEPT ![4] = p[2],
                                         ![5] = SelectSeq(OwnKeys(m.h[p[2]]), LAMBDA y : y \notin SymKeys)])
    ELSE LET key == Head(fr[5])
             fr1 == [fr EXCEPT ![5] = Tail(@)]
             d == Own(m, fr[4], key)
         IN IF d[1] = "none" \/ key \in fr[6] THEN ForInScan(m, fr1)
            ELSE LET fr2 == [fr1 EXCEPT ![6] = @ \cup {key}]
                 IN IF d[4] THEN <<Str(key), fr2>> ELSE ForInScan(m, fr2)
(* bind the loop variable of for-in/of and then run the body *)
LoopBind(m, fr, x, v) ==
    LET m0 == [m EXCEPT !.env = fr[2]]
        m1 == Push(m0, fr)
        m2 == IF x.kind \in {"let", "const"} THEN PushEnv(m1, DeclEnv(m1.env, TdzCells(x.lex))) ELSE m1
        fb == Push(m2, <<"lbody", m2.env, x.body>>)
    IN IF x.kind = "asg" THEN Ctl(fb, <<"BP", x.t, v, "asg">>)
       ELSE Ctl(fb, <<"BP", x.t, v, IF x.kind = "var" THEN "var" ELSE "init">>)
ForHead(m, x, fr) ==     \* evaluate the head expression under the names' dead zone
    LET m1 == Push(m, fr)
    IN IF x.kind \in {"let", "const"} /\ x.lex # <<>>
       THEN [PushEnv(m1, DeclEnv(m.env, TdzCells(x.lex))) EXCEPT !.c = <<"E", x.e>>]
       ELSE Ctl(m1, <<"E", x.e>>)
Exec(m, n) ==
    LET x == N(m, n)
    IN CASE x.k = "expr" -> Ctl(m, <<"E", x.e>>)
         [] x.k = "blk" -> LET m1 == BlockEnter(Push(m, <<"env", m.env>>), x.lex, x.fns)
                           IN IF x.lex = <<>> THEN RunList(m, x.b) ELSE RunList(m1, x.b)
         [] x.k = "var" -> NextDecl(m, <<"decl", m.env, n, 0>>, x, 1)
         [] x.k = "if" -> Ev(m, x.c, <<"if", m.env, n>>)
         [] x.k = "while" -> Ev(m, x.c, <<"while", m.env, n, "test">>)
         [] x.k = "dowhile" -> Ex(m, x.b, <<"while", m.env, n, "body">>)
         [] x.k = "for" ->
              LET m1 == IF x.lex = <<>> THEN m
                        ELSE PushEnv(m, DeclEnv(m.env, TdzCells(x.lex)))
                  m2 == Push(m1, <<"env", m.env>>)
                  fr == <<"for", m1.env, n, "init">>
              IN IF x.init = 0 THEN V(Push(m2, fr), U)
                 ELSE IF x.initS THEN Ex(m2, x.init, fr) ELSE Ev(m2, x.init, fr)
         [] x.k = "forin" -> ForHead(m, x, <<"fi0", m.env, n>>)
         [] x.k = "forof" -> ForHead(m, x, <<"fo0", m.env, n>>)
         [] x.k = "switch" -> Ev(m, x.d, <<"sw0", m.env, n>>)
         [] x.k = "lab" -> Ex(m, x.s, <<"lab", m.env, x.l>>)
         [] x.k = "brk" -> Ctl(m, <<"B", x.l>>)
         [] x.k = "cnt" -> Ctl(m, <<"C", x.l>>)
         [] x.k = "ret" -> IF x.e = 0 THEN Ctl(m, <<"R", U>>)
                           ELSE Ev(m, x.e, <<IF x.agen THEN "retaw" ELSE "ret", m.env>>)
         [] x.k = "thr" -> Ev(m, x.e, <<"thr", m.env>>)
         [] x.k = "try" ->
              LET m1 == IF x.f = 0 THEN m ELSE Push(m, <<"fin", m.env, x.f>>)
                  m2 == IF x.h = 0 THEN m1 ELSE Push(m1, <<"try", m.env, n>>)
              IN Ctl(m2, <<"S", x.b>>)
         [] x.k = "fdecl" -> V(m, U)
         [] x.k = "empty" -> V(m, U)
         [] x.k = "cdecl" -> Ev(m, x.c, <<"cbind", m.env, x.n>>)
         [] x.k = "with" -> Ev(m, x.o, <<"with", m.env, x.b>>)

(* ------------------------------------------------------------------ patterns *)
(* <<"BP", target, value, mode>>: bind or assign value; mode "init", "var" or "asg" *)
NextEl(m, fr, x, i) ==   \* array pattern: fr = <<"ap", env, node, i, iterator, done, mode>>
    IF i > Len(x.els)
    THEN (IF fr[6] THEN V(m, U) ELSE CloseIter(m, fr[5], <<"V", U>>))
    ELSE LET el == x.els[i]
             \* the iterator counts as done while it is being stepped
             st(m1, done, f2) ==
                 IF done THEN V(Push(m1, f2), DONE) ELSE IterStep(Push(m1, f2), fr[5])
             frI == [fr EXCEPT ![4] = i]
         IN IF el.t = 0 THEN (LET m1 == Push(m, <<"aph", m.env, frI>>) IN IF fr[6] THEN V(m1, DONE) ELSE IterSkip(m1, fr[5]))
            ELSE IF fr[7] = "asg" /\ N(m, el.t).k \notin {"parr", "pobj"}
                 THEN EvR(Push(m, frI), el.t, <<"apr", m.env, el.rest>>)
                 ELSE IF el.rest THEN V(Push(m, <<"aprest", m.env, frI, NONE, <<>>>>), <<"go">>)
                 ELSE st(m, fr[6], <<"apv", m.env, frI, NONE>>)
NextPP(m, fr, x, i) ==   \* object pattern: fr = <<"op", env, node, i, value, seen keys, mode>>
    IF i > Len(x.props) THEN V(m, U)
    ELSE LET p == x.props[i]
             m1 == Push(m, [fr EXCEPT ![4] = i])
         IN IF p.rest
            THEN (IF fr[7] = "asg" THEN EvR(m1, p.t, <<"oprr", m.env>>) ELSE V(Push(m1, <<"oprr", m.env>>), NONE))
            ELSE IF p.ck # 0 THEN Ev(Push(m1, <<"opk", m.env>>), p.ck, <<"tokey", m.env>>)
            ELSE V(Push(m1, <<"opk", m.env>>), <<"k", p.key>>)
BindPat(m, t, v, mode) ==
    LET x == N(m, t)
    IN CASE x.k = "parr" -> GetIter(Push(m, <<"ap0", m.env, t, mode>>), v)
         [] x.k = "pobj" -> IF Nullish(v) THEN TypeErr(m) ELSE NextPP(m, <<"op", m.env, t, 0, v, {}, mode>>, x, 1)
         [] mode = "init" -> V(InitBind(m, x.n, v), U)
         [] mode = "var" -> PutRef(m, <<"rid", Resolve(m, m.env, x.n), x.n, x.st>>, v)
         [] mode = "asg" -> EvR(m, t, <<"putv", m.env, v>>)
(* store into an already evaluated reference, or bind *)
Store(m, ref, t, v, mode) == IF ref[1] # "none" THEN PutRef(m, ref, v) ELSE Ctl(m, <<"BP", t, v, mode>>)
(* copy the enumerable own properties of v (except seen) onto object oid: frame <<"cdp", env, oid, v, keys>> *)
CopyNext(m, oid, v, keys) ==
    IF keys = <<>> THEN V(m, O(oid))
    ELSE LET d == Own(m, v[2], Head(keys))
         IN IF d[1] = "none" \/ ~d[4] THEN V(Push(m, <<"cdp", m.env, oid, v, Tail(keys), "">>), U)
            ELSE GetV(Push(m, <<"cdp", m.env, oid, v, Tail(keys), Head(keys)>>), v, Head(keys))
CopyProps(m, oid, v, seen) ==
    IF Nullish(v) THEN V(m, O(oid))
    ELSE LET m1 == WithObj(m, v)  o == ObjOf(m, v)
         IN CopyNext(m1, oid, o, SelectSeq(OwnKeys(m1.h[o[2]]), LAMBDA y : y \notin seen))

(* ------------------------------------------------------------------ generators *)
GenResume(m, g, c) ==    \* g a sync generator in state start (normal only) or susp
    LET d == m.h[g].d
        m1 == [m EXCEPT !.h[g].d.st = "run", !.h[g].d.k = <<>>]
        m2 == [m1 EXCEPT !.k = (Append(@, <<"genb", m.env, g>>)) \o d.k, !.env = d.env]
    IN IF d.st = "start" THEN Ctl(m2, <<"S", d.body>>) ELSE Ctl(m2, c)
GenCall(m, th, c) ==
    IF ~IsObj(th) \/ m.h[th[2]].k # "gen" THEN TypeErr(m)
    ELSE LET g == th[2]  s == m.h[g].d.st
         IN CASE s = "run" -> TypeErr(m)
              [] s = "done" \/ (s = "start" /\ c[1] # "V") ->
                   LET m1 == [m EXCEPT !.h[g].d.st = "done"]
                   IN (CASE c[1] = "V" -> VAlloc(m1, MkIterRes(U, TRUE))
                        [] c[1] = "R" -> VAlloc(m1, MkIterRes(c[2], TRUE))
                        [] c[1] = "T" -> Thr(m1, c[2]))
              [] OTHER -> GenResume(m, g, c)
GenYield(m, res) ==      \* suspend the running generator, delivering the iterator result res (a value)
    LET i == TopFrame(m.k, Len(m.k), {"genb"})
        g == m.k[i][3]
    IN [m EXCEPT !.h[g].d.st = "susp", !.h[g].d.k = SubSeq(m.k, i + 1, Len(m.k)), !.h[g].d.env = m.env,
                 !.k = SubSeq(m.k, 1, i - 1), !.env = m.k[i][2], !.c = <<"V", res>>]

(* ------------------------------------------------------------------ async generators *)
(* requests in d.q: <<completion, promise>> *)
CompleteStep(m, g, c, done) ==     \* answer the first request
    LET rq == Head(m.h[g].d.q)
        m1 == [m EXCEPT !.h[g].d.q = Tail(@)]
    IN IF c[1] = "T" THEN Settle(m1, rq[2], "r", c[2])
       ELSE Settle(Alloc(m1, MkIterRes(c[2], done)), rq[2], "f", O(New(m1)))
AwaitReturn(m, g) ==               \* delivers undefined
    LET v == Head(m.h[g].d.q)[1][2]
        m0 == [m EXCEPT !.h[g].d.st = "awret"]
        hs(m1, p) == V(PerformThen(m1, p, <<"agr", g, "V">>, <<"agr", g, "T">>, NONE), U)
    IN IF IsProm(m, v) THEN hs(m0, v[2])
       ELSE LET p == New(m) IN ResolveP(Push(Alloc(m0, MkProm), <<"agr1", m.env, g, p>>), p, v)
Drain(m, g) ==                     \* the generator is completed
    IF m.h[g].d.q = <<>> THEN V(m, U)
    ELSE LET c == Head(m.h[g].d.q)[1]
         IN IF c[1] = "R" THEN AwaitReturn(m, g)
            ELSE Drain(CompleteStep(m, g, IF c[1] = "V" THEN <<"V", U>> ELSE c, TRUE), g)
AGResume(m, g, c) ==
    LET d == m.h[g].d
        m1 == [m EXCEPT !.h[g].d.st = "run", !.h[g].d.k = <<>>]
        m2 == [m1 EXCEPT !.k = (Append(@, <<"agb", m.env, g>>)) \o d.k, !.env = d.env]
    IN IF d.st = "start" THEN Ctl(m2, <<"S", d.body>>)
       ELSE Unwrap(m2, c)
Unwrap(m, c) == IF c[1] = "R" THEN Await(Push(m, <<"agunw", m.env>>), c[2]) ELSE Ctl(m, c)
AGYield(m, v) ==                   \* v already awaited
    LET i == TopFrame(m.k, Len(m.k), {"agb"})
        g == m.k[i][3]
        m1 == CompleteStep(m, g, <<"V", v>>, FALSE)
    IN IF m1.h[g].d.q # <<>> THEN Unwrap(m1, Head(m1.h[g].d.q)[1])
       ELSE [m1 EXCEPT !.h[g].d.st = "susp", !.h[g].d.k = SubSeq(m.k, i + 1, Len(m.k)), !.h[g].d.env = m.env,
                       !.k = SubSeq(m.k, 1, i - 1), !.env = m.k[i][2], !.c = <<"V", U>>]
AGCall(m, th, c) ==
    LET p == New(m)
        m1 == Alloc(m, MkProm)
    IN IF ~IsObj(th) \/ m.h[th[2]].k # "agen"
       THEN LET e == New(m1) IN V(Settle(Alloc(m1, [Obj0("err", O(oErrP)) EXCEPT !.d = "TypeError"]), p, "r", O(e)), O(p))
       ELSE LET g == th[2]
                s0 == m.h[g].d.st
                m2 == IF c[1] = "T" /\ s0 = "start" THEN [m1 EXCEPT !.h[g].d.st = "done"] ELSE m1
                s == m2.h[g].d.st
                enq == [m2 EXCEPT !.h[g].d.q = Append(@, <<c, p>>)]
                ret(mm) == Push(mm, <<"const", m.env, O(p)>>)
            IN IF s = "done" /\ c[1] = "V"
               THEN LET r == New(m2) IN V(Settle(Alloc(m2, MkIterRes(U, TRUE)), p, "f", O(r)), O(p))
               ELSE IF s = "done" /\ c[1] = "T" THEN V(Settle(m2, p, "r", c[2]), O(p))
               ELSE IF s \in {"start", "done"} /\ c[1] = "R" THEN AwaitReturn(ret(enq), g)
               ELSE IF s = "start" \/ s = "susp" THEN AGResume(ret(enq), g, c)
               ELSE V(enq, O(p))

(* ------------------------------------------------------------------ yield* *)
(* frame <<"ys", env, iterator, async>> waits for the next resumption of the outer generator *)
YsCall(m, fr, c) ==      \* pass completion c to the inner iterator
    LET it == fr[3]
    IN CASE c[1] = "V" -> Call(Push(m, <<"ysn", m.env, it, fr[4], "next">>), it[3], it[2], <<c[2]>>)
         [] c[1] = "T" -> GetV(Push(m, <<"yst", m.env, it, fr[4], c[2]>>), it[2], "throw")
         [] c[1] = "R" -> GetV(Push(m, <<"ysr", m.env, it, fr[4], c[2]>>), it[2], "return")

(* ------------------------------------------------------------------ natives *)
Arg(args, i) == IF i <= Len(args) THEN args[i] ELSE U
(* Object.values/entries: fr = <<"eop", env, object, keys left, current key, name, results>> *)
RECURSIVE EopNext(_, _)
EopNext(m, fr) ==
    IF fr[4] = <<>> THEN VAlloc(m, MkArr(fr[7]))
    ELSE LET key == Head(fr[4])
             d == Own(m, fr[3][2], key)
             f1 == [fr EXCEPT ![4] = Tail(@), ![5] = key]
         IN IF d[1] = "none" \/ ~d[4] THEN EopNext(m, f1) ELSE GetV(Push(m, f1), fr[3], key)
(* Object.assign: fr = <<"oas", env, target, sources left, keys left, current key ("" none), source>> *)
RECURSIVE OasNext(_, _)
OasNext(m, fr) ==
    IF fr[5] # <<>>
    THEN LET key == Head(fr[5])
             d == Own(m, fr[7][2], key)
             f1 == [fr EXCEPT ![5] = Tail(@), ![6] = key]
         IN IF d[1] = "none" \/ ~d[4] THEN OasNext(m, f1) ELSE GetV(Push(m, f1), fr[7], key)
    ELSE IF fr[4] = <<>> THEN V(m, fr[3])
    ELSE LET src == Head(fr[4])
         IN OasNext(IF Nullish(src) THEN m ELSE WithObj(m, src), [fr EXCEPT ![4] = Tail(@), ![7] = ObjOf(m, src), ![5] = IF Nullish(src) THEN <<>> ELSE OwnKeys(WithObj(m, src).h[ObjOf(m, src)[2]])])
(* ValidateAndApplyPropertyDescriptor: rec maps the fields that are present to values *)
DefOwn(m, id, key, rec) ==
    LET cur == Own(m, id, key)
        has(x) == x \in DOMAIN rec
        acc == has("get") \/ has("set")
        dat == has("value") \/ has("writable")
        tr(x) == has(x) /\ Truthy(rec[x])
        fld(x, dflt) == IF has(x) THEN rec[x] ELSE dflt
        bfld(x, dflt) == IF has(x) THEN Truthy(rec[x]) ELSE dflt
        isA == cur[1] = "a"
        bad == \/ (cur[1] = "none" /\ ~m.h[id].ex)
               \/ (cur[1] # "none" /\ ~cur[5] /\
                      \/ tr("configurable")
                      \/ (has("enumerable") /\ Truthy(rec["enumerable"]) # cur[4])
                      \/ (acc /\ ~isA) \/ (dat /\ isA)
                      \/ (isA /\ has("get") /\ ~Same(rec["get"], cur[2]))
                      \/ (isA /\ has("set") /\ ~Same(rec["set"], cur[3]))
                      \/ (cur[1] = "d" /\ ~cur[3] /\ (tr("writable") \/ (has("value") /\ ~Same(rec["value"], cur[2])))))
    IN IF bad THEN TypeErr(m)
       ELSE IF cur[1] = "none"
            THEN V(Def(m, id, key, IF acc THEN <<"a", fld("get", U), fld("set", U), bfld("enumerable", FALSE), bfld("configurable", FALSE)>>
                                   ELSE <<"d", fld("value", U), bfld("writable", FALSE), bfld("enumerable", FALSE), bfld("configurable", FALSE)>>), O(id))
       ELSE LET e == bfld("enumerable", cur[4])
                c == bfld("configurable", cur[5])
            IN V(Def(m, id, key, IF acc THEN <<"a", fld("get", IF isA THEN cur[2] ELSE U), fld("set", IF isA THEN cur[3] ELSE U), e, c>>
                                 ELSE IF isA /\ ~dat THEN <<"a", cur[2], cur[3], e, c>>
                                 ELSE <<"d", fld("value", IF isA THEN U ELSE cur[2]), bfld("writable", IF isA THEN FALSE ELSE cur[3]), e, c>>), O(id))
(* reading a property descriptor: fr = <<"dp1", env, object, key, descriptor, field names left, fields read>> *)
RECURSIVE DpNext(_, _)
DpNext(m, fr) ==
    IF fr[6] = <<>>
    THEN LET rec == fr[7]
             has(x) == x \in DOMAIN rec
         IN IF (has("get") \/ has("set")) /\ (has("value") \/ has("writable")) THEN TypeErr(m) ELSE DefOwn(m, fr[3][2], fr[4], rec)
    ELSE IF Find(m, fr[5][2], Head(fr[6]))[1] = "none" THEN DpNext(m, [fr EXCEPT ![6] = Tail(@)])
    ELSE GetV(Push(m, fr), fr[5], Head(fr[6]))
Native(m, fid, th, args, nt) ==
    LET d == m.h[fid].d
        n == d.n
    IN CASE n = "log" -> V(Log(m, ShowAll(m, args, 1)), IF args = <<>> THEN U ELSE args[Len(args)])
         [] n = "solve" -> V(Push(m, <<"sol", m.env, m.main>>), U)        \* solveJobs: run the jobs there are, wherever it is called
         [] n = "this" -> V(m, th)
         [] n = "gen.next" -> GenCall(m, th, <<"V", Arg(args, 1)>>)
         [] n = "gen.return" -> GenCall(m, th, <<"R", Arg(args, 1)>>)
         [] n = "gen.throw" -> GenCall(m, th, <<"T", Arg(args, 1)>>)
         [] n = "agen.next" -> AGCall(m, th, <<"V", Arg(args, 1)>>)
         [] n = "agen.return" -> AGCall(m, th, <<"R", Arg(args, 1)>>)
         [] n = "agen.throw" -> AGCall(m, th, <<"T", Arg(args, 1)>>)
         [] n = "arr.values" -> VAlloc(m, [Obj0("arrit", O(oArrIterP)) EXCEPT !.d = [a |-> th, i |-> 0, done |-> FALSE]])
         [] n = "str.iter" ->
              LET v == IF IsObj(th) THEN (IF m.h[th[2]].k = "wrap" THEN m.h[th[2]].d ELSE U) ELSE th
              IN IF v[1] # "s" THEN TypeErr(m) ELSE VAlloc(m, [Obj0("strit", O(oArrIterP)) EXCEPT !.d = [a |-> v[2], i |-> 0]])
         [] n = "arrit.next" ->
              IF IsObj(th) /\ m.h[th[2]].k = "strit"
              THEN LET a == m.h[th[2]].d
                   IN IF a.i >= Len(a.a) THEN VAlloc(m, MkIterRes(U, TRUE))
                      ELSE VAlloc([m EXCEPT !.h[th[2]].d.i = @ + 1], MkIterRes(Str(SubSeq(a.a, a.i + 1, a.i + 1)), FALSE))
              ELSE IF ~IsObj(th) \/ m.h[th[2]].k # "arrit" THEN TypeErr(m)
              ELSE LET a == m.h[th[2]].d
                   IN IF a.done THEN VAlloc(m, MkIterRes(U, TRUE))
                      ELSE GetV(Push(m, <<"ai1", m.env, th[2]>>), a.a, "length")
         [] n = "prim.valueOf" -> IF ~IsObj(th) THEN (IF Nullish(th) THEN TypeErr(m) ELSE V(m, th))
                                  ELSE IF m.h[th[2]].k = "wrap" THEN V(m, m.h[th[2]].d) ELSE TypeErr(m)
         [] n = "prim.toString" -> LET v == IF IsObj(th) THEN (IF m.h[th[2]].k = "wrap" THEN m.h[th[2]].d ELSE U) ELSE th
                                   IN IF Nullish(v) THEN TypeErr(m) ELSE V(m, Str(IF v[1] = "y" THEN "Symbol(" \o v[2] \o ")" ELSE PrimStr(v)))
         [] n = "Object.defineProperty" ->
              IF ~IsObj(Arg(args, 1)) THEN TypeErr(m) ELSE ToKey(Push(m, <<"dp0", m.env, args[1], Arg(args, 3)>>), Arg(args, 2))
         [] n \in {"Object.keys", "Object.values", "Object.entries", "Object.getOwnPropertyNames", "Object.getOwnPropertySymbols", "Reflect.ownKeys"} ->
              IF (IF n = "Reflect.ownKeys" THEN ~IsObj(Arg(args, 1)) ELSE Nullish(Arg(args, 1))) THEN TypeErr(m)
              ELSE LET m1 == WithObj(m, args[1])
                       o == ObjOf(m, args[1])
                       all == OwnKeys(m1.h[o[2]])
                       strs == SelectSeq(all, LAMBDA y : y \notin SymKeys)
                       toV(ks) == VAlloc(m1, MkArr([i \in 1..Len(ks) |-> KeyVal(ks[i])]))
                   IN CASE n = "Object.keys" -> toV(SelectSeq(strs, LAMBDA y : m1.h[o[2]].ps[y][4]))
                        [] n = "Object.getOwnPropertyNames" -> toV(strs)
                        [] n = "Object.getOwnPropertySymbols" -> toV(SelectSeq(all, LAMBDA y : y \in SymKeys))
                        [] n = "Reflect.ownKeys" -> toV(all)
                        [] OTHER -> EopNext(m1, <<"eop", m.env, o, strs, "", n, <<>>>>)
         [] n = "Object.assign" -> IF Nullish(Arg(args, 1)) THEN TypeErr(m) ELSE OasNext(m, <<"oas", m.env, args[1], Tail(args), <<>>, "", U>>)
         [] n \in {"obj.hasOwnProperty", "obj.propertyIsEnumerable", "Object.hasOwn"} ->
              IF n = "Object.hasOwn"
              THEN (IF Nullish(Arg(args, 1)) THEN TypeErr(m) ELSE ToKey(Push(m, <<"hop", m.env, args[1], n>>), Arg(args, 2)))
              ELSE ToKey(Push(m, <<"hop", m.env, th, n>>), Arg(args, 1))
         [] n = "ro" -> LET key == KeyOf(args[2])
                            p == Own(m, args[1][2], key)
                        IN IF p[1] # "d" THEN V(m, args[1]) ELSE V(Def(m, args[1][2], key, [p EXCEPT ![3] = FALSE]), args[1])
         \* consumers of iterators
         [] n \in {"Map", "WeakMap", "Set", "WeakSet"} ->
              IF nt = U THEN TypeErr(m)
              ELSE LET o == New(m)
                       m1 == Alloc(m, Obj0("coll", O(CASE n = "Map" -> oMapP [] n = "WeakMap" -> oWeakMapP [] n = "Set" -> oSetP [] OTHER -> oWeakSetP)))
                   IN IF Nullish(Arg(args, 1)) THEN V(m1, O(o))
                      ELSE GetV(Push(m1, <<"mc0", m.env, O(o), args[1], n \in {"Map", "WeakMap"}>>), O(o), IF n \in {"Map", "WeakMap"} THEN "set" ELSE "add")
         [] n \in {"coll.set", "coll.add"} -> V(m, th)
         [] n = "weak.set" -> IF IsObj(Arg(args, 1)) THEN V(m, th) ELSE TypeErr(m)
         [] n = "Object.fromEntries" ->
              IF Nullish(Arg(args, 1)) THEN TypeErr(m)
              ELSE LET o == New(m) IN GetIter(Push(Alloc(m, Obj0("obj", O(oObjectP))), <<"mc1", m.env, O(o), NL, TRUE>>), args[1])
         [] n = "Array.from" ->   \* with an iterable, on Array itself
              IF Len(args) > 1 /\ args[2] # U /\ ~Callable(m, args[2]) THEN TypeErr(m)
              ELSE GetV(Push(m, <<"afm", m.env, Arg(args, 2), Arg(args, 1)>>), Arg(args, 1), "@@iterator")
         [] n = "arr.toString" -> GetV(Push(m, <<"aj0", m.env, th>>), th, "length")     \* join is not overridden
         [] n = "obj.valueOf" -> V(m, th)
         [] n = "obj.toString" -> IF IsObj(th) /\ Callable(m, th) THEN Bail(m)     \* Function.prototype.toString: source text
              ELSE V(m, Str(IF th = U THEN "[object Undefined]"
                                           ELSE IF IsObj(th) /\ m.h[th[2]].k = "arr" THEN "[object Array]" ELSE "[object Object]"))
         [] n = "fn.hasInstance" -> OrdHasInstance(m, th, Arg(args, 1))
         [] n = "fn.call" -> Call(m, th, Arg(args, 1), IF args = <<>> THEN <<>> ELSE Tail(args))
         [] n = "fn.apply" -> IF ~Callable(m, th) THEN TypeErr(m)
                              ELSE IF Nullish(Arg(args, 2)) THEN Call(m, th, Arg(args, 1), <<>>)
                              ELSE IF ~IsObj(args[2]) THEN TypeErr(m)
                              ELSE GetV(Push(m, <<"al0", m.env, <<"call", th, args[1]>>, args[2]>>), args[2], "length")
         [] n = "fn.bind" -> IF ~Callable(m, th) THEN TypeErr(m)
                             ELSE LET id == New(m)
                                      m1 == Alloc(m, [Obj0("bound", m.h[th[2]].pr) EXCEPT
                                              !.d = [f |-> th, th |-> Arg(args, 1), ct |-> IsCtor(m, th),
                                                     args |-> IF args = <<>> THEN <<>> ELSE Tail(args)]])
                                      m2 == Push(m1, <<"bnd1", m.env, id, th, IF args = <<>> THEN 0 ELSE Len(args) - 1>>)
                                  IN IF Own(m, th[2], "length")[1] = "none" THEN V(m2, U) ELSE GetV(m2, th, "length")
         [] n = "Reflect.construct" ->
              LET t == Arg(args, 1)  ntv == IF Len(args) >= 3 THEN args[3] ELSE t
              IN IF ~IsCtor(m, t) \/ ~IsCtor(m, ntv) THEN TypeErr(m)
                 ELSE IF ~IsObj(Arg(args, 2)) THEN TypeErr(m)
                 ELSE GetV(Push(m, <<"al0", m.env, <<"cons", t, ntv>>, args[2]>>), args[2], "length")
         [] n = "Reflect.apply" ->
              IF ~Callable(m, Arg(args, 1)) THEN TypeErr(m)
              ELSE IF ~IsObj(Arg(args, 3)) THEN TypeErr(m)
              ELSE GetV(Push(m, <<"al0", m.env, <<"call", args[1], args[2]>>, args[3]>>), args[3], "length")
         [] n = "Reflect.set" ->
              IF ~IsObj(Arg(args, 1)) THEN TypeErr(m)
              ELSE IF IsObj(Arg(args, 2)) \/ OddKey(KeyOf(Arg(args, 2))) THEN Bail(m)
              ELSE LET recv == IF Len(args) >= 4 THEN args[4] ELSE args[1]
                   IN SetRecv(Push(m, <<"const", m.env, Bool(SetOk(m, args[1], KeyOf(args[2]), Arg(args, 3), recv))>>),
                              args[1], KeyOf(args[2]), Arg(args, 3), recv, FALSE)
         [] n = "Object.setPrototypeOf" ->
              IF Nullish(Arg(args, 1)) \/ ~(IsObj(Arg(args, 2)) \/ Arg(args, 2) = NL) THEN TypeErr(m)
              ELSE IF ~IsObj(args[1]) \/ m.h[args[1][2]].pr = args[2] THEN V(m, args[1])
              ELSE IF ~m.h[args[1][2]].ex \/ args[1][2] = 1 \/ OnChain(m, args[2], args[1]) THEN TypeErr(m)
              ELSE V([m EXCEPT !.h[args[1][2]].pr = args[2]], args[1])
         [] n = "Object.getPrototypeOf" -> IF Nullish(args[1]) THEN TypeErr(m) ELSE V(m, IF IsObj(args[1]) THEN m.h[args[1][2]].pr ELSE O(ProtoIdOf(args[1])))
         [] n = "Object.create" -> VAlloc(m, Obj0("obj", args[1]))
         [] n \in {"Object.seal", "Object.freeze", "Object.preventExtensions"} /\ ~IsObj(Arg(args, 1)) -> V(m, Arg(args, 1))
         [] n = "Object.seal" ->
              LET id == args[1][2]
              IN V([m EXCEPT !.h[id].ex = FALSE, !.h[id].ps = [x \in DOMAIN @ |-> [@[x] EXCEPT ![5] = FALSE]]], args[1])
         [] n \in {"Object.isExtensible", "Object.isSealed", "Object.isFrozen"} ->
              LET id == args[1][2]
                  sealed == ~m.h[id].ex /\ \A x \in DOMAIN m.h[id].ps : ~Own(m, id, x)[5]
              IN V(m, IF ~IsObj(Arg(args, 1)) THEN Bool(n # "Object.isExtensible")
                      ELSE Bool(CASE n = "Object.isExtensible" -> m.h[id].ex
                                  [] n = "Object.isSealed" -> sealed
                                  [] OTHER -> sealed /\ \A x \in DOMAIN m.h[id].ps : Own(m, id, x)[1] = "a" \/ ~Own(m, id, x)[3]))
         [] n = "Object.freeze" ->
              LET id == args[1][2]
                  m1 == [m EXCEPT !.h[id].ex = FALSE,
                                  !.h[id].ps = [x \in DOMAIN @ |-> IF @[x][1] = "d" THEN [Own(m, id, x) EXCEPT ![3] = FALSE, ![5] = FALSE]
                                                                   ELSE [@[x] EXCEPT ![5] = FALSE]]]
              IN V(IF m.h[id].k = "args" THEN [m1 EXCEPT !.h[id].d.map = NoF] ELSE m1, args[1])
         [] n = "thrower" -> TypeErr(m)
         [] n = "Object.getOwnPropertyDescriptor" -> IF Nullish(Arg(args, 1)) THEN TypeErr(m) ELSE ToKey(Push(m, <<"gpd", m.env, Arg(args, 1)>>), Arg(args, 2))
         [] n = "Object.preventExtensions" -> V([m EXCEPT !.h[args[1][2]].ex = FALSE], args[1])
         \* hide(o, key): make an own property non-enumerable; lock(o, key): read-only and non-configurable
         [] n = "hide" -> LET key == KeyOf(args[2])
                              p == Own(m, args[1][2], key)
                          IN IF p[1] = "none" THEN V(m, args[1]) ELSE IF p[4] /\ ~p[5] THEN TypeErr(m)
                             ELSE V(Def(m, args[1][2], key, [p EXCEPT ![4] = FALSE]), args[1])
         [] n = "lock" -> LET key == KeyOf(args[2])
                              p == Own(m, args[1][2], key)
                          IN IF p[1] = "none" THEN V(m, args[1]) ELSE V(Def(m, args[1][2], key, IF p[1] = "d" THEN [p EXCEPT ![3] = FALSE, ![5] = FALSE] ELSE [p EXCEPT ![5] = FALSE]), args[1])
         [] n = "Object" -> VAlloc(m, Obj0("obj", O(oObjectP)))
         [] n = "iter.self" -> V(m, th)
         [] n = "prom.species" -> V(m, th)
         \* ---- promises
         [] n = "Promise" ->
              IF nt = U THEN TypeErr(m) ELSE IF ~Callable(m, Arg(args, 1)) THEN TypeErr(m)
              ELSE GetV(Push(m, <<"pn0", m.env, args[1]>>), nt, "prototype")
         [] n = "resolveF" -> LET p == d.a[1]  c == d.a[2]
                              IN IF m.h[c].d THEN V(m, U)
                                 ELSE ResolveP(Push([m EXCEPT !.h[c].d = TRUE], <<"const", m.env, U>>), p, Arg(args, 1))
         [] n = "rejectF" -> LET p == d.a[1]  c == d.a[2]
                             IN IF m.h[c].d THEN V(m, U) ELSE V(Settle([m EXCEPT !.h[c].d = TRUE], p, "r", Arg(args, 1)), U)
         [] n = "Promise.resolve" ->
              IF ~IsObj(th) THEN TypeErr(m)
              ELSE IF IsProm(m, Arg(args, 1)) THEN GetV(Push(m, <<"pr0", m.env, th, args[1]>>), args[1], "constructor")
              ELSE [Push(m, <<"pr1", m.env, "res", Arg(args, 1)>>) EXCEPT !.c = <<"NC", th>>]
         [] n = "Promise.reject" ->
              IF ~IsObj(th) THEN TypeErr(m) ELSE [Push(m, <<"pr1", m.env, "rej", Arg(args, 1)>>) EXCEPT !.c = <<"NC", th>>]
         [] n = "prom.then" ->
              IF ~IsProm(m, th) THEN TypeErr(m)
              ELSE GetV(Push(Push(m, <<"pt1", m.env, th, Arg(args, 1), Arg(args, 2)>>), <<"sp1", m.env>>), th, "constructor")
         [] n = "prom.catch" -> GetV(Push(m, <<"inv", m.env, th, <<U, Arg(args, 1)>>>>), th, "then")
         [] n = "prom.finally" ->
              IF ~IsObj(th) THEN TypeErr(m)
              ELSE GetV(Push(Push(m, <<"pf1", m.env, th, Arg(args, 1)>>), <<"sp1", m.env>>), th, "constructor")
         [] n = "finF" -> Call(Push(m, <<"ff1", m.env, d.a[1], d.a[3], Arg(args, 1)>>), d.a[2], U, <<>>)
         [] n = "thunkV" -> V(m, d.a[1])
         [] n = "thunkT" -> Thr(m, d.a[1])
         [] n = "capF" ->       \* GetCapabilitiesExecutor
              LET c == d.a[1]
              IN IF m.h[c].d[1] # U \/ m.h[c].d[2] # U THEN TypeErr(m)
                 ELSE V([m EXCEPT !.h[c].d = <<Arg(args, 1), Arg(args, 2)>>], U)
         [] n \in {"Promise.all", "Promise.allSettled", "Promise.any", "Promise.race"} ->
              IF ~IsObj(th) THEN TypeErr(m)
              ELSE [Push(m, <<"pc0", m.env, n, th, Arg(args, 1)>>) EXCEPT !.c = <<"NC", th>>]
         [] n = "elF" ->        \* element function of a combinator: a = <<cell, index, called cell, kind, cap>>
              LET cell == d.a[1]  i == d.a[2]  called == d.a[3]  kind == d.a[4]  cap == d.a[5]
                  x == Arg(args, 1)
              IN IF m.h[called].d THEN V(m, U)
                 ELSE LET m0 == [m EXCEPT !.h[called].d = TRUE]
                          w == New(m0)
                          m1 == CASE kind = "f" -> Alloc(m0, PutRaw(PutRaw(Obj0("obj", O(oObjectP)), "status", Data(Str("fulfilled"))), "value", Data(x)))
                                  [] kind = "r" -> Alloc(m0, PutRaw(PutRaw(Obj0("obj", O(oObjectP)), "status", Data(Str("rejected"))), "reason", Data(x)))
                                  [] OTHER -> m0
                          xv == IF kind \in {"f", "r"} THEN O(w) ELSE x
                          m2 == [m1 EXCEPT !.h[cell].d.vals[i] = xv, !.h[cell].d.left = @ - 1]
                      IN IF m2.h[cell].d.left > 0 THEN V(m2, U)
                         ELSE IF kind = "any"
                              THEN LET e == New(m2) IN CapReject(Alloc(m2, [Obj0("err", O(oErrP)) EXCEPT !.d = "AggregateError"]), cap, O(e))
                              ELSE LET a == New(m2) IN CapResolve(Alloc(m2, MkArr(m2.h[cell].d.vals)), cap, O(a))
         \* ---- async-from-sync iterator: a = the sync iterator record
         [] n \in {"afs.next", "afs.return", "afs.throw"} ->
              LET it == m.h[th[2]].d
                  p == New(m)
                  m1 == Push(Alloc(m, MkProm), <<"afsC", m.env, p>>)
              IN (CASE n = "afs.next" -> Call(Push(m1, <<"afs1", m.env, p>>), it[3], it[2], args)
                   [] n = "afs.return" -> GetV(Push(m1, <<"afsr", m.env, p, it, args, "return">>), it[2], "return")
                   [] n = "afs.throw" -> GetV(Push(m1, <<"afsr", m.env, p, it, args, "throw">>), it[2], "throw"))
         [] n = "afsU" -> VAlloc(m, MkIterRes(Arg(args, 1), d.a[1]))
         [] n = "fnproto" -> V(m, U)
         [] OTHER -> TypeErr(m)

(* NewPromiseCapability(C): delivers <<"cap", capability>> *)
NewCap(m, C) ==
    IF IsObj(C) /\ C[2] = oPromise THEN V(Alloc(m, MkProm), <<"cap", <<"p", New(m)>>>>)
    ELSE IF ~IsCtor(m, C) THEN TypeErr(m)
    ELSE LET cell == New(m)
             m1 == Alloc(Alloc(m, [Obj0("cell", NL) EXCEPT !.d = <<U, U>>]), MkNat("capF", <<cell>>))
         IN Construct(Push(m1, <<"nc1", m.env, cell>>), C, <<O(cell + 1)>>, C)
===========================================================================
