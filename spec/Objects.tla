------------------------------ MODULE Objects ------------------------------
(* The essential internal methods of ordinary objects, arrays and proxies (ECMA-262 10.1, 10.4.2,   *)
(* 10.5), and the operations defined directly on them.  A state holds a heap of objects and the     *)
(* observations of the last operation (trap, getter and setter calls).                              *)
(* Numbers are stored minus 2^31, so that every array index and length fits TLC's integers.         *)
(* Values:  <<"u">> <<"l">> <<"b", bool>> <<"n", num>> <<"x", text>> (a number that is no valid     *)
(* length) <<"s", string>> <<"y", symbol>> <<"o", id>> <<"f", name>> (accessor function)            *)
(* <<"v", num>> (an object whose valueOf is observed and returns num).                              *)
EXTENDS Drv, Integers, FiniteSets, SequencesExt

MinV == -2147483647 - 1
MaxLen == 2147483647                       \* 2^32 - 1
N(i) == <<"n", MinV + i>>
U == <<"u">>
B(x) == <<"b", x>>
SmallIdx == [i \in 0..40 |-> ToString(i)]
SmallSet == {SmallIdx[i] : i \in 0..40}
SmallOf == [x \in SmallSet |-> CHOOSE i \in 0..40 : SmallIdx[i] = x]
BigKeys == ("1000" :> 1000) @@ ("65536" :> 65536) @@ ("2147483647" :> 2147483647)
HugeKeys == ("2147483648" :> 0) @@ ("4294967293" :> 2147483645) @@ ("4294967294" :> 2147483646)
IsIdx(key) == key \in SmallSet \cup DOMAIN BigKeys \cup DOMAIN HugeKeys
Num(key) == IF key \in SmallSet THEN MinV + SmallOf[key]
            ELSE IF key \in DOMAIN BigKeys THEN MinV + BigKeys[key] ELSE HugeKeys[key]
IsSym(key) == Len(key) > 2 /\ SubSeq(key, 1, 2) = "@@"

(* ------------------------------------------------------------ descriptors *)
None == <<"none">>
Data(v, w, e, c) == <<"d", v, w, e, c>>
Acc(g, s, e, c) == <<"a", g, s, e, c>>
\* partial descriptor: each field <<>> (absent) or <<x>>
Pd(v, w, g, s, e, c) == [v |-> v, w |-> w, g |-> g, s |-> s, e |-> e, c |-> c]
DataPd(v) == Pd(<<v>>, <<TRUE>>, <<>>, <<>>, <<TRUE>>, <<TRUE>>)
ValPd(v) == Pd(<<v>>, <<>>, <<>>, <<>>, <<>>, <<>>)
IsAccPd(d) == d.g # <<>> \/ d.s # <<>>
IsDataPd(d) == d.v # <<>> \/ d.w # <<>>
FullPd(d) == IF d[1] = "d" THEN Pd(<<d[2]>>, <<d[3]>>, <<>>, <<>>, <<d[4]>>, <<d[5]>>)
             ELSE Pd(<<>>, <<>>, <<d[2]>>, <<d[3]>>, <<d[4]>>, <<d[5]>>)
Or(f, x) == IF f = <<>> THEN x ELSE f[1]
Complete(d) == IF IsAccPd(d) THEN Acc(Or(d.g, U), Or(d.s, U), Or(d.e, FALSE), Or(d.c, FALSE))
               ELSE Data(Or(d.v, U), Or(d.w, FALSE), Or(d.e, FALSE), Or(d.c, FALSE))
Callable(v) == v[1] = "f"
\* ToPropertyDescriptor's complaints
BadPd(d) == \/ d.g # <<>> /\ d.g[1] # U /\ ~Callable(d.g[1])
            \/ d.s # <<>> /\ d.s[1] # U /\ ~Callable(d.s[1])
            \/ IsAccPd(d) /\ IsDataPd(d)
\* ValidateAndApplyPropertyDescriptor: [ok, d (the resulting descriptor)]
Validate(ext, d, cur) ==
    IF cur = None THEN [ok |-> ext, d |-> Complete(d)]
    ELSE LET bad == \/ ~cur[5] /\ (Or(d.c, FALSE) \/ (d.e # <<>> /\ d.e[1] # cur[4]))
                    \/ ~cur[5] /\ IsAccPd(d) /\ cur[1] = "d"
                    \/ ~cur[5] /\ IsDataPd(d) /\ cur[1] = "a"
                    \/ ~cur[5] /\ cur[1] = "a" /\ ((d.g # <<>> /\ d.g[1] # cur[2]) \/ (d.s # <<>> /\ d.s[1] # cur[3]))
                    \/ ~cur[5] /\ cur[1] = "d" /\ ~cur[3] /\ (Or(d.w, FALSE) \/ (d.v # <<>> /\ d.v[1] # cur[2]))
         IN [ok |-> ~bad,
             d |-> IF cur[1] = "d" /\ IsAccPd(d) THEN Acc(Or(d.g, U), Or(d.s, U), Or(d.e, cur[4]), Or(d.c, cur[5]))
                   ELSE IF cur[1] = "a" /\ IsDataPd(d) THEN Data(Or(d.v, U), Or(d.w, FALSE), Or(d.e, cur[4]), Or(d.c, cur[5]))
                   ELSE IF cur[1] = "d" THEN Data(Or(d.v, cur[2]), Or(d.w, cur[3]), Or(d.e, cur[4]), Or(d.c, cur[5]))
                   ELSE Acc(Or(d.g, cur[2]), Or(d.s, cur[3]), Or(d.e, cur[4]), Or(d.c, cur[5]))]

(* ------------------------------------------------------------ heap *)
Ok(s, x) == [s |-> s, r |-> <<"ok", x>>]
Thr(s, e) == [s |-> s, r |-> <<"throw", e>>]
Bad(a) == a.r[1] = "throw"
Val(a) == a.r[2]
Log(s, x) == [s EXCEPT !.log = Append(@, x)]
OwnD(ob, key) == IF key \in DOMAIN ob.ps THEN ob.ps[key] ELSE None
PutD(s, o, key, d) ==
    LET ob == s.h[o]
    IN [s EXCEPT !.h[o] = [ob EXCEPT !.ks = IF key \in DOMAIN ob.ps THEN @ ELSE Append(@, key),
                                     !.ps = [x \in (DOMAIN ob.ps) \cup {key} |-> IF x = key THEN d ELSE ob.ps[x]]]]
DelD(s, o, key) ==
    LET ob == s.h[o]
    IN [s EXCEPT !.h[o] = [ob EXCEPT !.ks = SelectSeq(@, LAMBDA x : x # key),
                                     !.ps = [x \in (DOMAIN ob.ps) \ {key} |-> ob.ps[x]]]]
OrdKeys(ob) ==
    LET idx == {key \in DOMAIN ob.ps : IsIdx(key)}
    IN SetToSortSeq(idx, LAMBDA a, b : Num(a) < Num(b))
       \o SelectSeq(ob.ks, LAMBDA x : ~IsIdx(x) /\ ~IsSym(x)) \o SelectSeq(ob.ks, IsSym)
ArrLen(ob) == ob.ps["length"][2][2]
KeyVal(key) == IF IsSym(key) THEN <<"y", key>> ELSE <<"s", key>>
Truthy(v) == ~(v[1] \in {"u", "l"} \/ v = B(FALSE) \/ v = <<"s", "">> \/ v = N(0) \/ v = <<"x", "NaN">> \/ v = <<"x", "-0">>)
\* ToNumber of a length value: [s, ok, n]
LenVal(s, v) ==
    CASE v[1] = "n" -> [s |-> s, ok |-> TRUE, n |-> v[2]]
      [] v[1] = "v" -> [s |-> Log(Log(s, <<"valueOf">>), <<"valueOf">>), ok |-> TRUE, n |-> v[2]]
      [] v[1] = "b" -> [s |-> s, ok |-> TRUE, n |-> IF v[2] THEN MinV + 1 ELSE MinV]
      [] v[1] = "l" -> [s |-> s, ok |-> TRUE, n |-> MinV]
      [] v[1] = "s" -> [s |-> s, ok |-> IsIdx(v[2]), n |-> IF IsIdx(v[2]) THEN Num(v[2]) ELSE MinV]
      [] OTHER -> [s |-> s, ok |-> FALSE, n |-> MinV]

(* ------------------------------------------------------------ calls out of the heap *)
RECURSIVE GetOwn(_, _, _), DefOwn(_, _, _, _), HasP(_, _, _), GetP(_, _, _, _), SetP(_, _, _, _, _),
          Delete(_, _, _), Keys(_, _), GetProto(_, _), SetProto(_, _, _), IsExt(_, _), PrevExt(_, _), Do(_, _),
          ShrinkFrom(_, _, _, _), Level(_, _, _, _, _), LevelTest(_, _, _, _, _)
CallGet(s, f, rc) == Ok(Log(s, <<"get", f, rc>>), <<"s", "val-" \o f>>)
CallSet(s, f, rc, v) == Ok(Log(s, <<"set", f, rc, v>>), U)

\* trap of a proxy: [s, t: "none" | "throw" | "call"; e, b]
Trap(s, o, name) ==
    LET p == s.h[o]
    IN IF p.rv THEN [t |-> "throw", b |-> <<"TypeError">>]
       ELSE LET b == IF name \in DOMAIN p.hd THEN p.hd[name] ELSE <<"none">>
            IN IF b[1] \in {"none", "null"} THEN [t |-> "none", b |-> b]
               ELSE IF b[1] = "bad" THEN [t |-> "throw", b |-> <<"TypeError">>]
               ELSE [t |-> "call", b |-> b]
\* call the trap: log it, perform its behaviour; fwd performs the target's own operation
RunTrap(s, o, name, args, b, fwd) ==
    LET s1 == Log(s, <<"trap", name, s.h[o].t>> \o args)
    IN CASE b[1] = "throw" -> Thr(s1, "trap")
         [] b[1] = "fwd" -> fwd
         [] b[1] = "ret" -> Ok(s1, b[2])
         [] b[1] = "do" -> LET a == Do([s1 EXCEPT !.dp = @ + 1], b[2])
                           IN IF Bad(a) THEN [a EXCEPT !.s.dp = s1.dp] ELSE Ok([a.s EXCEPT !.dp = s1.dp], b[3])
         [] OTHER -> Ok(s1, b)           \* "desc" and "keys": read by the caller
TLog(s, o, name, args) == Log(s, <<"trap", name, s.h[o].t>> \o args)

ShowPd(d) == (IF d.v # <<>> THEN <<<<"value", d.v[1]>>>> ELSE <<>>) \o (IF d.w # <<>> THEN <<<<"writable", B(d.w[1])>>>> ELSE <<>>)
             \o (IF d.g # <<>> THEN <<<<"get", d.g[1]>>>> ELSE <<>>) \o (IF d.s # <<>> THEN <<<<"set", d.s[1]>>>> ELSE <<>>)
             \o (IF d.e # <<>> THEN <<<<"enumerable", B(d.e[1])>>>> ELSE <<>>) \o (IF d.c # <<>> THEN <<<<"configurable", B(d.c[1])>>>> ELSE <<>>)

(* ------------------------------------------------------------ [[GetOwnProperty]] *)
GetOwn(s, o, key) ==
    IF s.h[o].k # "proxy" THEN Ok(s, OwnD(s.h[o], key))
    ELSE LET tr == Trap(s, o, "getOwnPropertyDescriptor")
             t == s.h[o].t
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN GetOwn(s, t, key)
            ELSE IF tr.b[1] = "throw" THEN Thr(TLog(s, o, "getOwnPropertyDescriptor", <<KeyVal(key)>>), "trap")
            ELSE LET nm == "getOwnPropertyDescriptor"
                     args == <<KeyVal(key)>>
                     \* result of the trap: [s, th, e, pd: <<>> (undefined) or <<partial>>, bad]
                     f == GetOwn(TLog(s, o, nm, args), t, key)
                     q == RunTrap(s, o, nm, args, tr.b, f)
                     res == CASE Bad(q) -> [s |-> q.s, e |-> q.r[2], pd |-> <<>>]
                              [] tr.b[1] = "fwd" -> [s |-> q.s, e |-> "", pd |-> IF Val(q) = None THEN <<>> ELSE <<FullPd(Val(q))>>]
                              [] tr.b[1] = "desc" -> [s |-> q.s, e |-> IF BadPd(tr.b[2]) THEN "later" ELSE "", pd |-> <<tr.b[2]>>]
                              [] OTHER -> IF Val(q) = U THEN [s |-> q.s, e |-> "", pd |-> <<>>]
                                          ELSE [s |-> q.s, e |-> "TypeError", pd |-> <<>>]
                 IN IF res.e \notin {"", "later"} THEN Thr(res.s, res.e)
                    ELSE LET td == GetOwn(res.s, t, key)
                         IN IF Bad(td) THEN td
                            ELSE IF res.pd = <<>>
                                 THEN (IF Val(td) = None THEN Ok(td.s, None)
                                       ELSE IF ~Val(td)[5] THEN Thr(td.s, "TypeError")
                                       ELSE LET x == IsExt(td.s, t)
                                            IN IF Bad(x) THEN x
                                               ELSE IF ~Val(x) THEN Thr(x.s, "TypeError") ELSE Ok(x.s, None))
                                 ELSE LET x == IsExt(td.s, t)
                                      IN IF Bad(x) THEN x
                                         ELSE IF res.e = "later" THEN Thr(x.s, "TypeError")
                                         ELSE LET rd == Complete(res.pd[1])
                                                  cur == Val(td)
                                              IN IF ~Validate(Val(x), FullPd(rd), cur).ok THEN Thr(x.s, "TypeError")
                                                 ELSE IF ~rd[5] /\ (cur = None \/ (cur # None /\ cur[5])) THEN Thr(x.s, "TypeError")
                                                 ELSE IF ~rd[5] /\ rd[1] = "d" /\ ~rd[3] /\ cur[3] = TRUE THEN Thr(x.s, "TypeError")
                                                 ELSE Ok(x.s, rd)

(* ------------------------------------------------------------ [[DefineOwnProperty]] *)
OrdDef(s, o, key, d) ==
    LET v == Validate(s.h[o].x, d, OwnD(s.h[o], key))
    IN IF ~v.ok THEN Ok(s, FALSE) ELSE Ok(PutD(s, o, key, v.d), TRUE)
\* delete the elements from the end down to n; stop at one that cannot be deleted
ShrinkFrom(s, o, n, todo) ==       \* todo: indices (as keys) >= n, descending
    IF todo = <<>> THEN [s |-> s, stop |-> -1, at |-> n]
    ELSE LET d == s.h[o].ps[todo[1]]
         IN IF d[5] THEN ShrinkFrom(DelD(s, o, todo[1]), o, n, Tail(todo))
            ELSE [s |-> s, stop |-> 1, at |-> Num(todo[1]) + 1]
SetLen(s, o, d) ==
    IF d.v = <<>> THEN OrdDef(s, o, "length", d)
    ELSE LET lv == LenVal(s, d.v[1])
         IN IF ~lv.ok THEN Thr(lv.s, "RangeError")
            ELSE LET s1 == lv.s
                     n == lv.n
                     cur == OwnD(s1.h[o], "length")
                     nd == [d EXCEPT !.v = <<<<"n", n>>>>]
                 IN IF n >= cur[2][2] THEN OrdDef(s1, o, "length", nd)
                    ELSE IF ~cur[3] THEN Ok(s1, FALSE)
                    ELSE LET a == OrdDef(s1, o, "length", [nd EXCEPT !.w = IF d.w # <<>> /\ ~d.w[1] THEN <<TRUE>> ELSE @])
                         IN IF ~Val(a) THEN a
                            ELSE LET idx == {key \in DOMAIN a.s.h[o].ps : IsIdx(key) /\ Num(key) >= n}
                                     q == ShrinkFrom(a.s, o, n, SetToSortSeq(idx, LAMBDA x, y : Num(x) > Num(y)))
                                     fin == [q.s EXCEPT !.h[o].ps["length"] =
                                               <<"d", <<"n", q.at>>, IF d.w # <<>> /\ ~d.w[1] THEN FALSE ELSE @[3], @[4], @[5]>>]
                                 IN Ok(fin, q.stop = -1)
ArrDef(s, o, key, d) ==
    IF key = "length" THEN SetLen(s, o, d)
    ELSE IF ~IsIdx(key) THEN OrdDef(s, o, key, d)
    ELSE LET ld == OwnD(s.h[o], "length")
         IN IF Num(key) >= ld[2][2] /\ ~ld[3] THEN Ok(s, FALSE)
            ELSE LET a == OrdDef(s, o, key, d)
                 IN IF ~Val(a) \/ Num(key) < ld[2][2] THEN a
                    ELSE Ok([a.s EXCEPT !.h[o].ps["length"] = <<"d", <<"n", Num(key) + 1>>, @[3], @[4], @[5]>>], TRUE)
DefOwn(s, o, key, d) ==
    IF s.h[o].k = "arr" THEN ArrDef(s, o, key, d)
    ELSE IF s.h[o].k # "proxy" THEN OrdDef(s, o, key, d)
    ELSE LET tr == Trap(s, o, "defineProperty")
             t == s.h[o].t
             args == <<KeyVal(key), ShowPd(d)>>
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN DefOwn(s, t, key, d)
            ELSE LET f == DefOwn(TLog(s, o, "defineProperty", args), t, key, d)
                     q == RunTrap(s, o, "defineProperty", args, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, B(Val(f))))
                 IN IF Bad(q) THEN q
                    ELSE IF ~Truthy(Val(q)) THEN Ok(q.s, FALSE)
                    ELSE LET td == GetOwn(q.s, t, key)
                         IN IF Bad(td) THEN td
                            ELSE LET x == IsExt(td.s, t)
                                     cur == Val(td)
                                     nc == d.c # <<>> /\ ~d.c[1]
                                 IN IF Bad(x) THEN x
                                    ELSE IF cur = None
                                         THEN (IF ~Val(x) \/ nc THEN Thr(x.s, "TypeError") ELSE Ok(x.s, TRUE))
                                    ELSE IF ~Validate(Val(x), d, cur).ok THEN Thr(x.s, "TypeError")
                                    ELSE IF nc /\ cur[5] THEN Thr(x.s, "TypeError")
                                    ELSE IF cur[1] = "d" /\ ~cur[5] /\ cur[3] /\ d.w # <<>> /\ ~d.w[1] THEN Thr(x.s, "TypeError")
                                    ELSE Ok(x.s, TRUE)

(* ------------------------------------------------------------ [[HasProperty]] [[Get]] [[Set]] [[Delete]] *)
HasP(s, o, key) ==
    IF s.h[o].k # "proxy"
    THEN LET d == OwnD(s.h[o], key)
         IN IF d # None THEN Ok(s, TRUE) ELSE IF s.h[o].p = 0 THEN Ok(s, FALSE) ELSE HasP(s, s.h[o].p, key)
    ELSE LET tr == Trap(s, o, "has")
             t == s.h[o].t
             args == <<KeyVal(key)>>
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN HasP(s, t, key)
            ELSE LET f == HasP(TLog(s, o, "has", args), t, key)
                     q == RunTrap(s, o, "has", args, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, B(Val(f))))
                 IN IF Bad(q) THEN q
                    ELSE IF Truthy(Val(q)) THEN Ok(q.s, TRUE)
                    ELSE LET td == GetOwn(q.s, t, key)
                         IN IF Bad(td) THEN td
                            ELSE IF Val(td) = None THEN Ok(td.s, FALSE)
                            ELSE IF ~Val(td)[5] THEN Thr(td.s, "TypeError")
                            ELSE LET x == IsExt(td.s, t)
                                 IN IF Bad(x) THEN x ELSE IF ~Val(x) THEN Thr(x.s, "TypeError") ELSE Ok(x.s, FALSE)
GetP(s, o, key, rc) ==
    IF s.h[o].k # "proxy"
    THEN LET d == OwnD(s.h[o], key)
         IN IF d = None THEN (IF s.h[o].p = 0 THEN Ok(s, U) ELSE GetP(s, s.h[o].p, key, rc))
            ELSE IF d[1] = "d" THEN Ok(s, d[2])
            ELSE IF d[2] = U THEN Ok(s, U) ELSE CallGet(s, d[2][2], rc)
    ELSE LET tr == Trap(s, o, "get")
             t == s.h[o].t
             args == <<KeyVal(key), rc>>
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN GetP(s, t, key, rc)
            ELSE LET f == GetP(TLog(s, o, "get", args), t, key, rc)
                     q == RunTrap(s, o, "get", args, tr.b, f)
                 IN IF Bad(q) THEN q
                    ELSE LET td == GetOwn(q.s, t, key)
                         IN IF Bad(td) THEN td
                            ELSE LET cur == Val(td)
                                 IN IF cur # None /\ cur[1] = "d" /\ ~cur[5] /\ ~cur[3] /\ cur[2] # Val(q) THEN Thr(td.s, "TypeError")
                                    ELSE IF cur # None /\ cur[1] = "a" /\ ~cur[5] /\ cur[2] = U /\ Val(q) # U THEN Thr(td.s, "TypeError")
                                    ELSE Ok(td.s, Val(q))
\* OrdinarySetWithOwnDescriptor
SetWith(s, o, key, v, rc, d0) ==
    IF d0 = None /\ s.h[o].p # 0 THEN SetP(s, s.h[o].p, key, v, rc)
    ELSE LET d == IF d0 = None THEN Data(U, TRUE, TRUE, TRUE) ELSE d0
         IN IF d[1] = "a" THEN (IF d[3] = U THEN Ok(s, FALSE)
                                ELSE LET q == CallSet(s, d[3][2], rc, v) IN Ok(q.s, TRUE))
            ELSE IF ~d[3] THEN Ok(s, FALSE)
            ELSE IF rc[1] # "o" THEN Ok(s, FALSE)
            ELSE LET e == GetOwn(s, rc[2], key)
                 IN IF Bad(e) THEN e
                    ELSE IF Val(e) = None THEN DefOwn(e.s, rc[2], key, DataPd(v))
                    ELSE IF Val(e)[1] = "a" THEN Ok(e.s, FALSE)
                    ELSE IF ~Val(e)[3] THEN Ok(e.s, FALSE)
                    ELSE DefOwn(e.s, rc[2], key, ValPd(v))
SetP(s, o, key, v, rc) ==
    IF s.h[o].k # "proxy" THEN SetWith(s, o, key, v, rc, OwnD(s.h[o], key))
    ELSE LET tr == Trap(s, o, "set")
             t == s.h[o].t
             args == <<KeyVal(key), v, rc>>
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN SetP(s, t, key, v, rc)
            ELSE LET f == SetP(TLog(s, o, "set", args), t, key, v, rc)
                     q == RunTrap(s, o, "set", args, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, B(Val(f))))
                 IN IF Bad(q) THEN q
                    ELSE IF ~Truthy(Val(q)) THEN Ok(q.s, FALSE)
                    ELSE LET td == GetOwn(q.s, t, key)
                         IN IF Bad(td) THEN td
                            ELSE LET cur == Val(td)
                                 IN IF cur # None /\ cur[1] = "d" /\ ~cur[5] /\ ~cur[3] /\ cur[2] # v THEN Thr(td.s, "TypeError")
                                    ELSE IF cur # None /\ cur[1] = "a" /\ ~cur[5] /\ cur[3] = U THEN Thr(td.s, "TypeError")
                                    ELSE Ok(td.s, TRUE)
Delete(s, o, key) ==
    IF s.h[o].k # "proxy"
    THEN LET d == OwnD(s.h[o], key)
         IN IF d = None THEN Ok(s, TRUE) ELSE IF d[5] THEN Ok(DelD(s, o, key), TRUE) ELSE Ok(s, FALSE)
    ELSE LET tr == Trap(s, o, "deleteProperty")
             t == s.h[o].t
             args == <<KeyVal(key)>>
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN Delete(s, t, key)
            ELSE LET f == Delete(TLog(s, o, "deleteProperty", args), t, key)
                     q == RunTrap(s, o, "deleteProperty", args, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, B(Val(f))))
                 IN IF Bad(q) THEN q
                    ELSE IF ~Truthy(Val(q)) THEN Ok(q.s, FALSE)
                    ELSE LET td == GetOwn(q.s, t, key)
                         IN IF Bad(td) THEN td
                            ELSE IF Val(td) = None THEN Ok(td.s, TRUE)
                            ELSE IF ~Val(td)[5] THEN Thr(td.s, "TypeError")
                            ELSE LET x == IsExt(td.s, t)
                                 IN IF Bad(x) THEN x ELSE IF ~Val(x) THEN Thr(x.s, "TypeError") ELSE Ok(x.s, TRUE)

(* ------------------------------------------------------------ [[OwnPropertyKeys]] *)
\* the target's own property descriptors, in key order, threading the state: [s, e, c, n]: configurable and non-configurable keys
RECURSIVE Split(_, _, _, _, _)
Split(s, t, ks, c, n) ==
    IF ks = <<>> THEN [s |-> s, e |-> "", c |-> c, n |-> n]
    ELSE LET d == GetOwn(s, t, ks[1])
         IN IF Bad(d) THEN [s |-> d.s, e |-> d.r[2], c |-> c, n |-> n]
            ELSE IF Val(d) # None /\ ~Val(d)[5] THEN Split(d.s, t, Tail(ks), c, Append(n, ks[1]))
            ELSE Split(d.s, t, Tail(ks), Append(c, ks[1]), n)
KeyOf(v) == v[2]
Keys(s, o) ==
    IF s.h[o].k # "proxy" THEN Ok(s, OrdKeys(s.h[o]))
    ELSE LET tr == Trap(s, o, "ownKeys")
             t == s.h[o].t
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN Keys(s, t)
            ELSE LET f == Keys(TLog(s, o, "ownKeys", <<>>), t)
                     q == RunTrap(s, o, "ownKeys", <<>>, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, <<"keys", [i \in 1..Len(Val(f)) |-> KeyVal(Val(f)[i])]>>))
                 IN IF Bad(q) THEN q
                    ELSE IF Val(q)[1] # "keys" THEN Thr(q.s, "TypeError")        \* not an object, or an empty array-like (see the driver)
                    ELSE LET vs == Val(q)[2]
                         IN IF \E i \in 1..Len(vs) : vs[i][1] \notin {"s", "y"} THEN Thr(q.s, "TypeError")
                            ELSE IF \E i, j \in 1..Len(vs) : i # j /\ vs[i][2] = vs[j][2] THEN Thr(q.s, "TypeError")
                            ELSE LET ks == [i \in 1..Len(vs) |-> vs[i][2]]
                                     x == IsExt(q.s, t)
                                 IN IF Bad(x) THEN x
                                    ELSE LET tk == Keys(x.s, t)
                                         IN IF Bad(tk) THEN tk
                                            ELSE LET sp == Split(tk.s, t, Val(tk), <<>>, <<>>)
                                                 IN IF sp.e # "" THEN Thr(sp.s, sp.e)
                                                    ELSE IF \E i \in 1..Len(sp.n) : \A j \in 1..Len(ks) : ks[j] # sp.n[i] THEN Thr(sp.s, "TypeError")
                                                    ELSE IF Val(x) THEN Ok(sp.s, ks)
                                                    ELSE IF \E i \in 1..Len(sp.c) : \A j \in 1..Len(ks) : ks[j] # sp.c[i] THEN Thr(sp.s, "TypeError")
                                                    ELSE IF Len(ks) # Len(Val(tk)) THEN Thr(sp.s, "TypeError")
                                                    ELSE Ok(sp.s, ks)

(* ------------------------------------------------------------ prototypes and extensibility *)
Ref(i) == IF i = 0 THEN <<"l">> ELSE <<"o", i>>
GetProto(s, o) ==
    IF s.h[o].k # "proxy" THEN Ok(s, s.h[o].p)
    ELSE LET tr == Trap(s, o, "getPrototypeOf")
             t == s.h[o].t
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN GetProto(s, t)
            ELSE LET f == GetProto(TLog(s, o, "getPrototypeOf", <<>>), t)
                     q == RunTrap(s, o, "getPrototypeOf", <<>>, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, Ref(Val(f))))
                 IN IF Bad(q) THEN q
                    ELSE IF Val(q)[1] \notin {"o", "l"} THEN Thr(q.s, "TypeError")
                    ELSE LET x == IsExt(q.s, t)
                             id == IF Val(q)[1] = "l" THEN 0 ELSE Val(q)[2]
                         IN IF Bad(x) THEN x
                            ELSE IF Val(x) THEN Ok(x.s, id)
                            ELSE LET tp == GetProto(x.s, t)
                                 IN IF Bad(tp) THEN tp
                                    ELSE IF Val(tp) # id THEN Thr(tp.s, "TypeError") ELSE Ok(tp.s, id)
RECURSIVE Reaches(_, _, _)
Reaches(s, p, o) == IF p = 0 THEN FALSE ELSE IF p = o THEN TRUE
                    ELSE IF s.h[p].k = "proxy" THEN FALSE ELSE Reaches(s, s.h[p].p, o)
SetProto(s, o, p) ==
    IF s.h[o].k # "proxy"
    THEN (IF s.h[o].p = p THEN Ok(s, TRUE)
          ELSE IF ~s.h[o].x \/ Reaches(s, p, o) THEN Ok(s, FALSE)
          ELSE Ok([s EXCEPT !.h[o].p = p], TRUE))
    ELSE LET tr == Trap(s, o, "setPrototypeOf")
             t == s.h[o].t
             args == <<Ref(p)>>
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN SetProto(s, t, p)
            ELSE LET f == SetProto(TLog(s, o, "setPrototypeOf", args), t, p)
                     q == RunTrap(s, o, "setPrototypeOf", args, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, B(Val(f))))
                 IN IF Bad(q) THEN q
                    ELSE IF ~Truthy(Val(q)) THEN Ok(q.s, FALSE)
                    ELSE LET x == IsExt(q.s, t)
                         IN IF Bad(x) THEN x
                            ELSE IF Val(x) THEN Ok(x.s, TRUE)
                            ELSE LET tp == GetProto(x.s, t)
                                 IN IF Bad(tp) THEN tp
                                    ELSE IF Val(tp) # p THEN Thr(tp.s, "TypeError") ELSE Ok(tp.s, TRUE)
IsExt(s, o) ==
    IF s.h[o].k # "proxy" THEN Ok(s, s.h[o].x)
    ELSE LET tr == Trap(s, o, "isExtensible")
             t == s.h[o].t
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN IsExt(s, t)
            ELSE LET f == IsExt(TLog(s, o, "isExtensible", <<>>), t)
                     q == RunTrap(s, o, "isExtensible", <<>>, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, B(Val(f))))
                 IN IF Bad(q) THEN q
                    ELSE LET x == IsExt(q.s, t)
                         IN IF Bad(x) THEN x
                            ELSE IF Val(x) # Truthy(Val(q)) THEN Thr(x.s, "TypeError") ELSE Ok(x.s, Val(x))
PrevExt(s, o) ==
    IF s.h[o].k # "proxy" THEN Ok([s EXCEPT !.h[o].x = FALSE], TRUE)
    ELSE LET tr == Trap(s, o, "preventExtensions")
             t == s.h[o].t
         IN IF tr.t = "throw" THEN Thr(s, tr.b[1])
            ELSE IF tr.t = "none" THEN PrevExt(s, t)
            ELSE LET f == PrevExt(TLog(s, o, "preventExtensions", <<>>), t)
                     q == RunTrap(s, o, "preventExtensions", <<>>, tr.b, IF Bad(f) THEN f ELSE Ok(f.s, B(Val(f))))
                 IN IF Bad(q) THEN q
                    ELSE IF ~Truthy(Val(q)) THEN Ok(q.s, FALSE)
                    ELSE LET x == IsExt(q.s, t)
                         IN IF Bad(x) THEN x ELSE IF Val(x) THEN Thr(x.s, "TypeError") ELSE Ok(x.s, TRUE)

(* ------------------------------------------------------------ SetIntegrityLevel, TestIntegrityLevel, key lists *)
Level(s, o, lv, ks, i) ==
    IF i > Len(ks) THEN Ok(s, TRUE)
    ELSE IF lv = "sealed"
         THEN LET a == DefOwn(s, o, ks[i], Pd(<<>>, <<>>, <<>>, <<>>, <<>>, <<FALSE>>))
              IN IF Bad(a) THEN a ELSE IF ~Val(a) THEN Thr(a.s, "TypeError") ELSE Level(a.s, o, lv, ks, i + 1)
    ELSE LET d == GetOwn(s, o, ks[i])
         IN IF Bad(d) THEN d
            ELSE IF Val(d) = None THEN Level(d.s, o, lv, ks, i + 1)
            ELSE LET a == DefOwn(d.s, o, ks[i], Pd(<<>>, IF Val(d)[1] = "a" THEN <<>> ELSE <<FALSE>>, <<>>, <<>>, <<>>, <<FALSE>>))
                 IN IF Bad(a) THEN a ELSE IF ~Val(a) THEN Thr(a.s, "TypeError") ELSE Level(a.s, o, lv, ks, i + 1)
SetLevel(s, o, lv) ==
    LET a == PrevExt(s, o)
    IN IF Bad(a) THEN a ELSE IF ~Val(a) THEN Thr(a.s, "TypeError")
       ELSE LET ks == Keys(a.s, o)
            IN IF Bad(ks) THEN ks ELSE Level(ks.s, o, lv, Val(ks), 1)
LevelTest(s, o, lv, ks, i) ==
    IF i > Len(ks) THEN Ok(s, TRUE)
    ELSE LET d == GetOwn(s, o, ks[i])
         IN IF Bad(d) THEN d
            ELSE IF Val(d) # None /\ (Val(d)[5] \/ (lv = "frozen" /\ Val(d)[1] = "d" /\ Val(d)[3])) THEN Ok(d.s, FALSE)
            ELSE LevelTest(d.s, o, lv, ks, i + 1)
TestLevel(s, o, lv) ==
    LET x == IsExt(s, o)
    IN IF Bad(x) THEN x ELSE IF Val(x) THEN Ok(x.s, FALSE)
       ELSE LET ks == Keys(x.s, o) IN IF Bad(ks) THEN ks ELSE LevelTest(ks.s, o, lv, Val(ks), 1)
\* EnumerableOwnProperties(o, key+value)
RECURSIVE Enum(_, _, _, _, _, _)
Enum(s, o, how, ks, i, acc) ==
    IF i > Len(ks) THEN Ok(s, acc)
    ELSE IF IsSym(ks[i]) THEN Enum(s, o, how, ks, i + 1, acc)
    ELSE LET d == GetOwn(s, o, ks[i])
         IN IF Bad(d) THEN d
            ELSE IF Val(d) = None \/ (Val(d) # None /\ ~Val(d)[4]) THEN Enum(d.s, o, how, ks, i + 1, acc)
            ELSE IF how = "keys" THEN Enum(d.s, o, how, ks, i + 1, Append(acc, KeyVal(ks[i])))
            ELSE LET g == GetP(d.s, o, ks[i], <<"o", o>>)
                 IN IF Bad(g) THEN g ELSE Enum(g.s, o, how, ks, i + 1, acc \o <<KeyVal(ks[i]), Val(g)>>)
EnumProps(s, o, how) == LET ks == Keys(s, o) IN IF Bad(ks) THEN ks ELSE Enum(ks.s, o, how, Val(ks), 1, <<>>)

(* ------------------------------------------------------------ operations *)
BoolR(a) == IF Bad(a) THEN a ELSE Ok(a.s, B(Val(a)))
MustR(a, x) == IF Bad(a) THEN a ELSE IF Val(a) THEN Ok(a.s, x) ELSE Thr(a.s, "TypeError")
DescR(a) == IF Bad(a) THEN a ELSE Ok(a.s, IF Val(a) = None THEN U ELSE ShowPd(FullPd(Val(a))))
Do1(s, x) ==
    CASE x.n = "get"  -> GetP(s, x.o, x.k, x.rc)
      [] x.n = "set"  -> BoolR(SetP(s, x.o, x.k, x.v, x.rc))
      [] x.n = "put"  -> MustR(SetP(s, x.o, x.k, x.v, <<"o", x.o>>), x.v)           \* o[k] = v, strict
      [] x.n = "puts" -> LET a == SetP(s, x.o, x.k, x.v, <<"o", x.o>>) IN IF Bad(a) THEN a ELSE Ok(a.s, x.v)
      [] x.n = "has"  -> BoolR(HasP(s, x.o, x.k))
      [] x.n = "del"  -> BoolR(Delete(s, x.o, x.k))
      [] x.n = "dels" -> MustR(Delete(s, x.o, x.k), B(TRUE))                        \* delete o[k], strict
      [] x.n = "def"  -> IF BadPd(x.d) THEN Thr(s, "TypeError") ELSE BoolR(DefOwn(s, x.o, x.k, x.d))
      [] x.n = "deft" -> IF BadPd(x.d) THEN Thr(s, "TypeError") ELSE MustR(DefOwn(s, x.o, x.k, x.d), <<"o", x.o>>)
      [] x.n = "gopd" -> DescR(GetOwn(s, x.o, x.k))
      [] x.n = "hop"  -> LET a == GetOwn(s, x.o, x.k) IN IF Bad(a) THEN a ELSE Ok(a.s, B(Val(a) # None))
      [] x.n = "pie"  -> LET a == GetOwn(s, x.o, x.k) IN IF Bad(a) THEN a ELSE Ok(a.s, B(IF Val(a) = None THEN FALSE ELSE Val(a)[4]))
      [] x.n = "keys" -> LET a == Keys(s, x.o) IN IF Bad(a) THEN a ELSE Ok(a.s, [i \in 1..Len(Val(a)) |-> KeyVal(Val(a)[i])])
      [] x.n = "okeys" -> EnumProps(s, x.o, "keys")
      [] x.n = "oents" -> EnumProps(s, x.o, "ents")
      [] x.n = "getp" -> LET a == GetProto(s, x.o) IN IF Bad(a) THEN a ELSE Ok(a.s, Ref(Val(a)))
      [] x.n = "setp" -> BoolR(SetProto(s, x.o, x.p))
      [] x.n = "setpt" -> MustR(SetProto(s, x.o, x.p), <<"o", x.o>>)
      [] x.n = "pe"   -> BoolR(PrevExt(s, x.o))
      [] x.n = "pet"  -> MustR(PrevExt(s, x.o), <<"o", x.o>>)
      [] x.n = "ie"   -> BoolR(IsExt(s, x.o))
      [] x.n = "freeze" -> LET a == SetLevel(s, x.o, "frozen") IN IF Bad(a) THEN a ELSE Ok(a.s, <<"o", x.o>>)
      [] x.n = "seal" -> LET a == SetLevel(s, x.o, "sealed") IN IF Bad(a) THEN a ELSE Ok(a.s, <<"o", x.o>>)
      [] x.n = "isfrozen" -> BoolR(TestLevel(s, x.o, "frozen"))
      [] x.n = "issealed" -> BoolR(TestLevel(s, x.o, "sealed"))
      [] x.n = "trap" -> Ok([s EXCEPT !.h[x.o].hd = [nm \in (DOMAIN @) \cup {x.t} |-> IF nm = x.t THEN x.b ELSE @[nm]]], U)
      [] x.n = "revoke" -> Ok([s EXCEPT !.h[x.o].rv = TRUE], U)
      [] x.n = "nop" -> Ok(s, U)
Do(s, x) == IF s.dp > 2 THEN Thr(s, "deep") ELSE Do1(s, x)
OApply(x, s) ==
    LET a == Do([s EXCEPT !.log = <<>>, !.dp = 0], x)
    IN [s |-> [a.s EXCEPT !.log = <<>>, !.dp = 0], r |-> [v |-> a.r, l |-> a.s.log]]

(* ------------------------------------------------------------ starting heaps *)
NewObj(k, p) == [k |-> k, p |-> p, x |-> TRUE, t |-> 0, rv |-> FALSE, hd |-> [y \in {} |-> <<"none">>],
                 ks |-> IF k = "arr" THEN <<"length">> ELSE <<>>,
                 ps |-> IF k = "arr" THEN ("length" :> Data(<<"n", MinV>>, TRUE, FALSE, FALSE)) ELSE [y \in {} |-> None]]
NewProxy(t) == [NewObj("proxy", 0) EXCEPT !.t = t]
Mk(c) == IF c[1] = "proxy" THEN NewProxy(c[2]) ELSE NewObj(c[1], c[2])
Heap(c) == [h |-> [i \in 1..Len(c) |-> Mk(c[i])], log |-> <<>>, dp |-> 0]

NoOps(s) == {}
NoInit == {}

(* ------------------------------------------------------------ invariants *)
ArraysOk == \A i \in 1..Len(st.h) : st.h[i].k = "arr" =>
              /\ st.h[i].ps["length"][1] = "d" /\ ~st.h[i].ps["length"][4] /\ ~st.h[i].ps["length"][5]
              /\ \A key \in DOMAIN st.h[i].ps : IsIdx(key) => Num(key) < ArrLen(st.h[i])
KeysOk == \A i \in 1..Len(st.h) : /\ {st.h[i].ks[j] : j \in 1..Len(st.h[i].ks)} = DOMAIN st.h[i].ps
                                  /\ Len(st.h[i].ks) = Cardinality(DOMAIN st.h[i].ps)
NoCycle == \A i \in 1..Len(st.h) : st.h[i].k # "proxy" => ~Reaches(st, st.h[i].p, i)
\* non-configurable properties only lose writability; non-extensible objects gain nothing and keep their prototype
Monotone == [][\A i \in 1..Len(st.h) :
                 LET a == st.h[i]
                     b == st'.h[i]
                 IN /\ \A key \in DOMAIN a.ps :
                         ~a.ps[key][5] =>
                           /\ key \in DOMAIN b.ps /\ ~b.ps[key][5] /\ b.ps[key][1] = a.ps[key][1] /\ b.ps[key][4] = a.ps[key][4]
                           /\ a.ps[key][1] = "a" => b.ps[key] = a.ps[key]
                           /\ (a.ps[key][1] = "d" /\ ~a.ps[key][3]) => (b.ps[key][2] = a.ps[key][2] /\ ~b.ps[key][3])
                    /\ ~a.x => (~b.x /\ DOMAIN b.ps \subseteq DOMAIN a.ps /\ b.p = a.p)]_st
===========================================================================
