----------------------------- MODULE JSMachine -----------------------------
(* The transition function of the abstract machine of JSCore, and the runs of the programs. *)
EXTENDS JSCore
VARIABLES pi, m

IsDone(v) == v[1] = "done"
PromResolve(mm, C, v) ==
    IF IsProm(mm, v) THEN GetV(Push(mm, <<"pr0", mm.env, C, v>>), v, "constructor")
    ELSE [Push(mm, <<"pr1", mm.env, "res", v>>) EXCEPT !.c = <<"NC", C>>]
Top(mm) == mm.k[Len(mm.k)]
PopF(mm) == [mm EXCEPT !.k = SubSeq(@, 1, Len(@) - 1)]
ThisOf(mm, r) == CASE r[1] = "rmem" -> r[2] [] r[1] = "rsup" -> r[4] [] r[1] = "rpriv" -> r[2]
                   [] r[1] = "rid" -> IF r[2] # 0 /\ mm.e[r[2]].t = "o" /\ r[2] # 1 THEN O(mm.e[r[2]].ob) ELSE U
                   [] OTHER -> U
FoStep(mm, fr) ==
    LET x == N(mm, fr[3])
        f2 == [fr EXCEPT ![5] = "step"]
        it == fr[4]
    IN IF x.await THEN Call(Push(Push(mm, f2), <<"isA", mm.env>>), it[3], it[2], <<>>)
       ELSE IterStep(Push(mm, f2), it)
ForInGo(mm, fr) == LET s == ForInScan(mm, fr)
                   IN IF s[1][1] = "none" THEN V(mm, U) ELSE LoopBind(mm, s[2], N(mm, fr[3]), s[1])
RECURSIVE FlatFrom(_, _)
FlatFrom(cases, j) == IF j > Len(cases) THEN <<>> ELSE cases[j].b \o FlatFrom(cases, j + 1)
RECURSIVE SwNext(_, _, _, _)
SwNext(mm, fr, x, i) ==    \* fr = <<"sw1", env, node, value, i>>
    IF i > Len(x.cases)
    THEN LET ds == {j \in 1..Len(x.cases) : x.cases[j].t = 0}
         IN IF ds = {} THEN V(mm, U) ELSE RunList(mm, FlatFrom(x.cases, CHOOSE j \in ds : TRUE))
    ELSE IF x.cases[i].t = 0 THEN SwNext(mm, fr, x, i + 1)
    ELSE Ev(mm, x.cases[i].t, [fr EXCEPT ![5] = i])
TmNext(mm, fr, x, i, acc) ==
    IF i > Len(x.e) THEN V(mm, Str(acc)) ELSE Ev(mm, x.e[i], <<"tm2", mm.env, fr[3], i, acc>>)

(* ------------------------------------------------------------------ classes *)
ClassBody(mm, outer, n, nm, penv, pp, cp) ==
    LET x == N(mm, n)
        P == New(mm)
        F == P + 1
        m1 == [Alloc(mm, Obj0("obj", pp)) EXCEPT !.env = penv]
        m2 == MkFn(m1, x.ctor, penv, O(P), nm, IF x.h = 0 THEN "class" ELSE "derived")
        m3 == [m2 EXCEPT !.h[F].pr = cp,
                         !.h[F] = PutRaw(@, "prototype", <<"d", O(P), FALSE, FALSE, FALSE>>),
                         !.h[P] = PutRaw(@, "constructor", Hid(O(F)))]
    IN V(Push(m3, <<"cls3", outer, n, 0, F, P, <<>>, <<>>, penv, <<>>, <<>>>>), U)
ClassInstall(m3, F, cp) == m3
AddPM(pms, id, t, f) ==   \* a private method or accessor half
    LET js == {j \in 1..Len(pms) : pms[j][1] = id}
    IN IF t = "meth" THEN Append(pms, <<id, <<"m", f>>>>)
       ELSE IF js = {} THEN Append(pms, <<id, IF t = "get" THEN <<"a", f, U>> ELSE <<"a", U, f>>>>)
       ELSE LET j == CHOOSE j \in js : TRUE IN [pms EXCEPT ![j][2] = IF t = "get" THEN [@ EXCEPT ![2] = f] ELSE [@ EXCEPT ![3] = f]]
(* fr = <<"cls3", env, node, i, F, P, fields, statics, penv, pms, spms>> *)
ClassEl(mm, fr, i, key) ==  \* element i with its key known
    LET x == N(mm, fr[3])
        el == x.els[i]
        tgt == IF el.static THEN fr[5] ELSE fr[6]
        me == [mm EXCEPT !.env = fr[9]]
        pid == IF el.priv THEN PrivOf(mm, fr[9], el.key) ELSE 0
        back(m1, f1) == V(Push(m1, [f1 EXCEPT ![4] = i]), U)
    IN CASE el.t = "sblock" ->
              LET f == New(me) IN back(MkFn(me, el.fn, fr[9], O(tgt), "", "none"), [fr EXCEPT ![8] = Append(@, <<"blk", 0, O(f)>>)])
         [] el.t = "field" ->
              LET f == New(me)
                  m1 == IF el.fn = 0 THEN me ELSE MkFn(me, el.fn, fr[9], O(tgt), "", "none")
                  rec == IF el.priv THEN <<"priv", pid, IF el.fn = 0 THEN U ELSE O(f)>>
                         ELSE <<"pub", key, IF el.fn = 0 THEN U ELSE O(f)>>
              IN back(m1, IF el.static THEN [fr EXCEPT ![8] = Append(@, rec)] ELSE [fr EXCEPT ![7] = Append(@, rec)])
         [] el.priv ->
              LET f == New(me)
                  m1 == MkFn(me, el.fn, fr[9], O(tgt), MethName(el.key, CASE el.t = "get" -> "get" [] el.t = "set" -> "set" [] OTHER -> ""), "none")
              IN back(m1, IF el.static THEN [fr EXCEPT ![11] = AddPM(@, pid, el.t, O(f))]
                          ELSE [fr EXCEPT ![10] = AddPM(@, pid, el.t, O(f))])
         [] OTHER -> IF ~CanCreate(me, tgt, key) THEN TypeErr(me)
                     ELSE back(DefMethod(me, tgt, key, el.t, el.fn, FALSE), fr)
ClassNext(mm, fr, i) ==
    LET x == N(mm, fr[3])
    IN IF i > Len(x.els)
       THEN LET F == fr[5]
                denv == mm.e[fr[9]].o
                m1 == [mm EXCEPT !.h[F].d.fl = fr[7], !.h[F].d.pm = fr[10]]
                m2 == IF x.nm = "" THEN m1 ELSE [m1 EXCEPT !.e[denv].b[x.nm].v = O(F)]
                m3 == AddPrivM(m2, F, fr[11], 1)
            IN V(Push(m3, <<"cls4", fr[2], fr[8], 1, F>>), U)
       ELSE IF x.els[i].ck # 0 THEN [Push(Push(mm, <<"clsk", fr[2], [fr EXCEPT ![4] = i]>>), <<"tokey", fr[9]>>) EXCEPT
                                        !.env = fr[9], !.c = <<"E", x.els[i].ck>>]
       ELSE ClassEl(mm, fr, i, x.els[i].key)

(* ------------------------------------------------------------------ promise combinators *)
(* fr = <<"pc3", env, name, C, cap, resolve function, iterator, cell, index>> *)
PcStep(mm, fr) == IterStep(Push(mm, [fr EXCEPT ![1] = "pc4"]), fr[7])
PcEnd(mm, fr) ==
    LET cell == fr[8]
        m1 == [mm EXCEPT !.h[cell].d.left = @ - 1]
        fin == m1.h[cell].d.left = 0
        mk == Push(m1, <<"const", mm.env, CapProm(fr[5])>>)
    IN IF fr[3] = "Promise.race" \/ ~fin THEN V(m1, CapProm(fr[5]))
       ELSE LET a == New(mk)
            IN IF fr[3] = "Promise.any"
               THEN CapReject(Alloc(mk, [Obj0("err", O(oErrP)) EXCEPT !.d = "AggregateError"]), fr[5], O(a))
               ELSE CapResolve(Alloc(mk, MkArr(m1.h[cell].d.vals)), fr[5], O(a))

(* Array.from an array-like: fr = <<"afk", env, map function, source, length, values>> *)
AfNext(mm, fr) == IF Len(fr[6]) = fr[5] THEN VAlloc(mm, MkArr(fr[6])) ELSE GetV(Push(mm, fr), fr[4], IdxNames[Len(fr[6])])

(* ------------------------------------------------------------------ continuation: a frame receives a value *)
Cont1(mm, fr, v) ==
    CASE fr[1] = "sl" -> NextStmt(mm, fr, fr[3], fr[4] + 1)
      [] fr[1] = "args" ->
           LET base == <<"args", fr[2], fr[3], fr[4]>>
           IN (CASE fr[7] = "plain" -> EvArgs(mm, [base EXCEPT ![4] = Append(@, v)], fr[5], fr[6] + 1)
                [] fr[7] = "spread" -> GetIter(Push(mm, [fr EXCEPT ![7] = "spit"]), v)
                [] fr[7] = "spit" -> IterStep(Push(mm, [fr EXCEPT ![7] = "spst", ![8] = v]), v)
                [] fr[7] = "spst" -> IF IsDone(v) THEN EvArgs(mm, base, fr[5], fr[6] + 1)
                                     ELSE IterStep(Push(mm, [fr EXCEPT ![4] = Append(@, v)]), fr[8]))
      [] fr[1] = "fnb" -> V(mm, U)
      [] fr[1] = "const" -> V(mm, fr[3])
      [] fr[1] = "nop" -> V(mm, v)
      [] fr[1] = "env" -> V(mm, v)
      [] fr[1] = "get" -> GetRef(mm, v)
      [] fr[1] = "call1" -> GetRef(Push(mm, <<"call2", mm.env, fr[3], ThisOf(mm, v)>>), v)
      [] fr[1] = "call2" -> LET x == N(mm, fr[3])
                            IN IF x.opt /\ Nullish(v) THEN Ctl(mm, <<"K">>)
                               ELSE EvArgs(mm, <<"args", mm.env, <<"call", v, fr[4]>>, <<>>>>, x.args, 1)
      [] fr[1] = "ref1" -> LET x == N(mm, fr[3])
                           IN IF x.opt /\ Nullish(v) THEN Ctl(mm, <<"K">>)
                              ELSE (CASE x.k = "mem" -> V(mm, <<"rmem", v, x.key, x.st>>)
                                     [] x.k = "idx" -> Ev(mm, x.e, <<"ref2", mm.env, fr[3], v>>)
                                     [] x.k = "pmem" -> V(mm, <<"rpriv", v, PrivOf(mm, mm.env, x.n)>>))
      [] fr[1] = "ref2" -> IF Nullish(fr[4]) /\ IsObj(v) THEN Bail(mm)     \* key conversion or base check first: editions differ
                           ELSE ToKey(Push(mm, <<"ref3", mm.env, fr[3], fr[4]>>), v)
      [] fr[1] = "ref3" -> V(mm, <<"rmem", fr[4], v[2], N(mm, fr[3]).st>>)
      [] fr[1] = "srf" -> LET te == ThisEnv(mm, mm.env) IN V(mm, <<"rsup", HomeProto(mm, te), v[2], mm.e[te].th, fr[3]>>)
      [] fr[1] = "b1" -> Ev(mm, N(mm, fr[3]).b, <<"b2", mm.env, fr[3], v>>)
      [] fr[1] = "b2" -> BinOp(mm, N(mm, fr[3]).op, fr[4], v)
      [] fr[1] = "b3" -> ToPrim(Push(mm, <<"b4", mm.env, fr[3], v>>), fr[4], IF fr[3] = "+" THEN "default" ELSE "number")
      [] fr[1] = "b4" -> Arith(mm, fr[3], fr[4], v)
      [] fr[1] = "b3n" -> ToNum(Push(mm, <<"b4", mm.env, fr[3], v>>), fr[4])
      [] fr[1] = "eq" -> BinOp(mm, fr[4], v, fr[3])
      [] fr[1] = "in" -> V(mm, Bool(Find(mm, fr[3][2], v[2])[1] # "none"))
      [] fr[1] = "io1" -> IF Nullish(v) THEN (IF ~Callable(mm, fr[4]) THEN TypeErr(mm) ELSE OrdHasInstance(mm, fr[4], fr[3]))
                          ELSE Call(Push(mm, <<"un", mm.env, "bool">>), v, fr[4], <<fr[3]>>)
      [] fr[1] = "io2" -> IF ~IsObj(v) THEN TypeErr(mm) ELSE V(mm, Bool(InChain(mm, fr[3], v)))
      [] fr[1] = "lop" ->
           LET x == N(mm, fr[3])
           IN IF (x.op = "&&" /\ ~Truthy(v)) \/ (x.op = "||" /\ Truthy(v)) \/ (x.op = "??" /\ ~Nullish(v)) THEN V(mm, v)
              ELSE Ctl(mm, <<"E", x.b>>)
      [] fr[1] = "un" ->
           (CASE fr[3] = "!" -> V(mm, Bool(~Truthy(v)))
             [] fr[3] = "bool" -> V(mm, Bool(Truthy(v)))
             [] fr[3] = "typeof" -> V(mm, Str(TypeOf(mm, v)))
             [] fr[3] = "void" -> V(mm, U)
             [] fr[3] = "+" -> ToNum(mm, v)
             [] fr[3] = "~" -> ToNum(Push(mm, <<"not", mm.env>>), v)
             [] fr[3] = "-" -> ToNum(Push(mm, <<"neg", mm.env>>), v))
      [] fr[1] = "not" -> V(mm, Num(IF v[1] = "n" THEN -1 - v[2] ELSE -1))
      [] fr[1] = "neg" -> V(mm, IF v[1] = "n" THEN Num(-v[2]) ELSE v)
      [] fr[1] = "upd1" -> GetRef(Push(mm, <<"upd2", mm.env, fr[3], v>>), v)
      [] fr[1] = "upd2" -> ToNum(Push(mm, <<"upd3", mm.env, fr[3], fr[4]>>), v)
      [] fr[1] = "upd3" -> LET x == N(mm, fr[3])
                               nv == IF v[1] # "n" THEN v ELSE Num(IF x.op = "++" THEN v[2] + 1 ELSE v[2] - 1)
                           IN PutRef(Push(mm, <<"const", mm.env, IF x.pre THEN nv ELSE v>>), fr[4], nv)
      [] fr[1] = "asg1" ->
           LET x == N(mm, fr[3])
           IN IF x.op = "=" THEN EvNamed(mm, x.e, NmOf(mm, x.t), <<"asg2", mm.env, v>>)
              ELSE GetRef(Push(mm, <<"asgc", mm.env, fr[3], v>>), v)
      [] fr[1] = "asg2" -> PutRef(mm, fr[3], v)
      [] fr[1] = "asgc" ->
           LET x == N(mm, fr[3])
           IN CASE x.op = "&&=" -> IF Truthy(v) THEN EvNamed(mm, x.e, NmOf(mm, x.t), <<"asg2", mm.env, fr[4]>>) ELSE V(mm, v)
                [] x.op = "||=" -> IF Truthy(v) THEN V(mm, v) ELSE EvNamed(mm, x.e, NmOf(mm, x.t), <<"asg2", mm.env, fr[4]>>)
                [] x.op = "??=" -> IF Nullish(v) THEN EvNamed(mm, x.e, NmOf(mm, x.t), <<"asg2", mm.env, fr[4]>>) ELSE V(mm, v)
                [] OTHER -> Ev(mm, x.e, <<"asgd", mm.env, x.op, fr[4], v>>)
      [] fr[1] = "asgd" -> BinOp(Push(mm, <<"asg2", mm.env, fr[4]>>),
                                 SubSeq(fr[3], 1, Len(fr[3]) - 1), fr[5], v)
      [] fr[1] = "asgp" -> Ctl(Push(mm, <<"const", mm.env, v>>), <<"BP", fr[3], v, "asg">>)
      [] fr[1] = "putv" -> PutRef(mm, v, fr[3])
      [] fr[1] = "del" ->
           IF v[1] = "rsup" THEN RefErr(mm)
           ELSE IF v[1] # "rmem" THEN V(mm, Bool(TRUE))
           ELSE IF Nullish(v[2]) THEN TypeErr(mm)
           ELSE IF ~IsObj(v[2])
                THEN (IF v[2][1] = "s" /\ (v[3] = "length" \/ (v[3] \in IdxSet /\ IdxOf[v[3]] < Len(v[2][2])))
                      THEN (IF v[4] THEN TypeErr(mm) ELSE V(mm, Bool(FALSE))) ELSE V(mm, Bool(TRUE)))
           ELSE LET d == Own(mm, v[2][2], v[3])
                    ob == mm.h[v[2][2]]
                IN IF d[1] = "none" THEN V(mm, Bool(TRUE))
                   ELSE IF ~d[5] THEN (IF v[4] THEN TypeErr(mm) ELSE V(mm, Bool(FALSE)))
                   ELSE V([mm EXCEPT !.h[v[2][2]] = LET o1 == DelRaw(ob, v[3])
                                                    IN IF ob.k = "args" /\ v[3] \in DOMAIN ob.d.map
                                                       THEN [o1 EXCEPT !.d.map = [q \in (DOMAIN ob.d.map) \ {v[3]} |-> ob.d.map[q]]]
                                                       ELSE o1], Bool(TRUE))
      [] fr[1] = "cond" -> Ctl(mm, <<"E", IF Truthy(v) THEN N(mm, fr[3]).a ELSE N(mm, fr[3]).b>>)
      [] fr[1] = "seq" -> LET x == N(mm, fr[3])
                          IN IF fr[4] = Len(x.es) THEN V(mm, v) ELSE Ev(mm, x.es[fr[4] + 1], [fr EXCEPT ![4] = @ + 1])
      [] fr[1] = "new1" -> EvArgs(mm, <<"args", mm.env, <<"new", v>>, <<>>>>, N(mm, fr[3]).args, 1)
      [] fr[1] = "sup" ->
           LET te == ThisEnv(mm, mm.env)
           IN IF mm.e[te].th[1] # "tdz" THEN RefErr(mm)
              ELSE InitFields(Push([mm EXCEPT !.e[te].th = v], <<"const", mm.env, v>>), v[2], mm.e[te].fn)
      [] fr[1] = "och" -> V(mm, v)
      [] fr[1] = "pin" -> IF ~IsObj(v) THEN TypeErr(mm) ELSE V(mm, Bool(fr[3] \in DOMAIN mm.h[v[2]].pv))
      [] fr[1] = "tokey" -> ToKey(mm, v)
      [] fr[1] = "ol" -> NextProp(mm, fr, N(mm, fr[3]), fr[4] + 1)
      [] fr[1] = "olk" ->
           LET p == N(mm, fr[3]).props[fr[4]]
           IN IF p.t = "init" THEN EvNamed(mm, p.v, SymName(v[2]), <<"olv", mm.env, fr[5], v[2]>>)
              ELSE V(DefMethod(mm, fr[5][2], v[2], p.t, p.v, TRUE), U)
      [] fr[1] = "olproto" -> V(IF IsObj(v) \/ v = NL THEN [mm EXCEPT !.h[fr[3][2]].pr = v] ELSE mm, v)
      [] fr[1] = "olv" -> V(Def(mm, fr[3][2], fr[4], Data(v)), v)
      [] fr[1] = "olspr" -> CopyProps(mm, fr[3][2], v, {})
      [] fr[1] = "cdp" -> IF fr[6] = "" THEN CopyNext(mm, fr[3], fr[4], fr[5])
                          ELSE CopyNext(Def(mm, fr[3], fr[6], Data(v)), fr[3], fr[4], fr[5])
      [] fr[1] = "tm" -> TmNext(mm, fr, N(mm, fr[3]), 1, fr[5])
      [] fr[1] = "tm2" -> ToStr(Push(mm, [fr EXCEPT ![1] = "tm3"]), v)
      [] fr[1] = "tm3" -> LET x == N(mm, fr[3]) IN TmNext(mm, fr, x, fr[4] + 1, fr[5] \o v[2] \o x.q[fr[4] + 1])
      [] fr[1] = "tp1" -> IF Nullish(v) THEN OrdPrim(mm, fr[3], IF fr[4] = "string" THEN <<"toString", "valueOf">> ELSE <<"valueOf", "toString">>)
                          ELSE Call(Push(mm, <<"tp2", mm.env>>), v, fr[3], <<Str(fr[4])>>)
      [] fr[1] = "tp2" -> IF IsObj(v) THEN TypeErr(mm) ELSE V(mm, v)
      [] fr[1] = "tp3" -> IF Callable(mm, v) THEN Call(Push(mm, <<"tp4", mm.env, fr[3], fr[4]>>), v, fr[3], <<>>)
                          ELSE OrdPrim(mm, fr[3], fr[4])
      [] fr[1] = "tp4" -> IF IsObj(v) THEN OrdPrim(mm, fr[3], fr[4]) ELSE V(mm, v)
      [] fr[1] = "tk" -> V(mm, <<"k", KeyOf(v)>>)
      [] fr[1] = "ts" -> ToStr(mm, v)
      [] fr[1] = "tn" -> ToNum(mm, v)
      [] fr[1] = "al0" -> IF v[1] # "n" \/ v[2] = 0
                          THEN (IF fr[3][1] = "call" THEN Call(mm, fr[3][2], fr[3][3], <<>>) ELSE Construct(mm, fr[3][2], <<>>, fr[3][3]))
                          ELSE GetV(Push(mm, <<"al1", mm.env, fr[3], fr[4], v[2], 1, <<>>>>), fr[4], "0")
      [] fr[1] = "al1" ->
           LET vals == Append(fr[7], v)
           IN IF fr[6] = fr[5]
              THEN (IF fr[3][1] = "call" THEN Call(mm, fr[3][2], fr[3][3], vals) ELSE Construct(mm, fr[3][2], vals, fr[3][3]))
              ELSE GetV(Push(mm, [fr EXCEPT ![6] = @ + 1, ![7] = vals]), fr[4], IdxNames[fr[6]])
      [] OTHER -> Assert(FALSE, <<"unknown frame", fr[1]>>)
Frames1 == {"sl", "args", "fnb", "const", "nop", "env", "get", "call1", "call2", "ref1", "ref2", "ref3", "srf", "b1", "b2",
            "b3", "b4", "b3n", "eq", "in", "io1", "io2", "lop", "un", "neg", "not", "upd1", "upd2", "upd3", "asg1", "asg2", "asgc",
            "asgd", "asgp", "putv", "del", "cond", "seq", "new1", "sup", "och", "pin", "tokey", "ol", "olk", "olv", "olproto", "olspr",
            "cdp", "tm", "tm2", "tm3", "tp1", "tp2", "tp3", "tp4", "tk", "ts", "tn", "al0", "al1"}
Cont2(mm, fr, v) ==
    CASE fr[1] = "decl" -> NextDecl(mm, fr, N(mm, fr[3]), fr[4] + 1)
      [] fr[1] = "pbind" -> Ctl(mm, <<"BP", fr[3], v, fr[4]>>)
      [] fr[1] = "pdef" -> Ctl(mm, <<"BP", fr[3], v, fr[4]>>)
      [] fr[1] = "par" -> NextParam(mm, fr, N(mm, mm.h[fr[3]].d.f), fr[4] + 1)
      [] fr[1] = "if" -> LET x == N(mm, fr[3])
                         IN IF Truthy(v) THEN Ctl(mm, <<"S", x.a>>) ELSE IF x.b = 0 THEN V(mm, U) ELSE Ctl(mm, <<"S", x.b>>)
      [] fr[1] = "while" -> LET x == N(mm, fr[3])
                            IN IF fr[4] = "body" THEN Ev(mm, x.c, [fr EXCEPT ![4] = "test"])
                               ELSE IF Truthy(v) THEN Ex(mm, x.b, [fr EXCEPT ![4] = "body"]) ELSE V(mm, U)
      [] fr[1] = "for" ->
           LET x == N(mm, fr[3])
           IN (CASE fr[4] = "init" -> ForTest(CopyEnv(mm, x.per), fr, x)
                [] fr[4] = "test" -> IF Truthy(v) THEN Ex(mm, x.b, [fr EXCEPT ![4] = "body"]) ELSE V(mm, U)
                [] fr[4] = "body" -> LET m1 == CopyEnv(mm, x.per)
                                     IN IF x.upd = 0 THEN ForTest(m1, fr, x)
                                        ELSE Ev(m1, x.upd, [fr EXCEPT ![2] = m1.env, ![4] = "upd"])
                [] fr[4] = "upd" -> ForTest(mm, fr, x))
      [] fr[1] = "fi0" -> IF Nullish(v) THEN V(mm, U)
                          ELSE LET m1 == WithObj(mm, v)  o == ObjOf(mm, v)
                               IN ForInGo(m1, <<"fi", mm.env, fr[3], o[2], SelectSeq(OwnKeys(m1.h[o[2]]), LAMBDA y : y \notin SymKeys), {}>>)
      [] fr[1] = "fi" -> ForInGo(mm, fr)
      [] fr[1] = "lbody" -> Ctl(mm, <<"S", fr[3]>>)
      [] fr[1] = "fo0" -> IF N(mm, fr[3]).await THEN GetAIter(Push(mm, <<"fo1", mm.env, fr[3]>>), v)
                          ELSE GetIter(Push(mm, <<"fo1", mm.env, fr[3]>>), v)
      [] fr[1] = "fo1" -> FoStep(mm, <<"fo", mm.env, fr[3], v, "step">>)
      [] fr[1] = "fo" -> IF fr[5] = "body" THEN FoStep(mm, fr)
                         ELSE IF IsDone(v) THEN V(mm, U)
                         ELSE LoopBind(mm, [fr EXCEPT ![5] = "body"], N(mm, fr[3]), v)
      [] fr[1] = "sw0" ->
           LET x == N(mm, fr[3])
               m1 == Push(Push(mm, <<"env", mm.env>>), <<"swb", mm.env>>)
               m2 == BlockEnter(m1, x.lex, x.fns)
           IN SwNext(m2, <<"sw1", m2.env, fr[3], v, 0>>, x, 1)
      [] fr[1] = "sw1" -> LET x == N(mm, fr[3])
                          IN IF Same(fr[4], v) THEN RunList(mm, FlatFrom(x.cases, fr[5])) ELSE SwNext(mm, fr, x, fr[5] + 1)
      [] fr[1] \in {"swb", "lab", "try"} -> V(mm, v)
      [] fr[1] = "ret" -> Ctl(mm, <<"R", v>>)
      [] fr[1] = "retaw" -> Await(Push(mm, <<"ret", mm.env>>), v)
      [] fr[1] = "thr" -> Thr(mm, v)
      [] fr[1] = "fin" -> Ex(mm, fr[3], <<"fin2", mm.env, <<"V", v>>>>)
      [] fr[1] = "fin2" -> Ctl(mm, fr[3])
      [] fr[1] = "cbind" -> V(InitBind(mm, fr[3], v), U)
      [] fr[1] = "with" -> IF Nullish(v) THEN TypeErr(mm)
                           ELSE Ctl(PushEnv(Push(mm, <<"env", mm.env>>), [t |-> "o", b |-> NoF, o |-> mm.env, ob |-> v[2]]), <<"S", fr[3]>>)
      \* ---- functions and classes
      [] fr[1] = "ctb" -> LET t == IF fr[3][1] = "tdz" THEN mm.e[fr[4]].th ELSE fr[3]
                          IN IF t[1] = "tdz" THEN RefErr(mm) ELSE V(mm, t)
      [] fr[1] = "cproto" ->
           LET oid == New(mm)
               m1 == Alloc(mm, Obj0("obj", IF IsObj(v) THEN v ELSE O(oObjectP)))
           IN InitFields(Push(m1, <<"cb2", mm.env, fr[3], fr[4], fr[5], oid>>), oid, fr[3][2])
      [] fr[1] = "cb2" -> Enter(mm, fr[3][2], O(fr[6]), fr[4], fr[5], <<"ctb", mm.env, O(fr[6]), 0>>)
      [] fr[1] = "ifl" -> IF fr[5] > Len(fr[4]) THEN V(mm, U)
                          ELSE LET fld == fr[4][fr[5]]
                                   m1 == Push(Push(mm, [fr EXCEPT ![5] = @ + 1]), <<"ifd", mm.env, fr[3], fld>>)
                               IN IF fld[3] = U THEN V(m1, U) ELSE Call(m1, fld[3], O(fr[3]), <<>>)
      [] fr[1] = "ifd" -> LET fld == fr[4]
                          IN IF fld[1] = "blk" THEN V(mm, U)
                             ELSE IF fld[1] = "pub" THEN (IF CanCreate(mm, fr[3], fld[2]) THEN V(Def(mm, fr[3], fld[2], Data(v)), U) ELSE TypeErr(mm))
                             ELSE IF fld[2] \in DOMAIN mm.h[fr[3]].pv THEN TypeErr(mm)
                             ELSE V([mm EXCEPT !.h[fr[3]].pv = (fld[2] :> <<"f", v>>) @@ @], U)
      [] fr[1] = "cls1" ->
           IF v[1] = "noheritage" THEN ClassBody(mm, fr[2], fr[3], fr[4], fr[5], O(oObjectP), O(oFunctionP))
           ELSE IF v[1] = "l" THEN ClassBody(mm, fr[2], fr[3], fr[4], fr[5], NL, O(oFunctionP))
           ELSE IF ~IsCtor(mm, v) THEN TypeErr(mm)
           ELSE GetV(Push(mm, <<"cls2", fr[2], fr[3], fr[4], fr[5], v>>), v, "prototype")
      [] fr[1] = "cls2" -> IF ~IsObj(v) /\ v[1] # "l" THEN TypeErr(mm)
                           ELSE ClassBody(mm, fr[2], fr[3], fr[4], fr[5], v, fr[6])
      [] fr[1] = "cls3" -> ClassNext(mm, fr, fr[4] + 1)
      [] fr[1] = "clsk" -> ClassEl(mm, fr[3], fr[3][4], v[2])
      [] fr[1] = "cls4" -> IF fr[4] > Len(fr[3]) THEN V(mm, O(fr[5]))
                           ELSE LET fld == fr[3][fr[4]]
                                    m1 == Push(Push(mm, [fr EXCEPT ![4] = @ + 1]), <<"ifd", mm.env, fr[5], fld>>)
                                IN IF fld[3] = U THEN V(m1, U) ELSE Call(m1, fld[3], O(fr[5]), <<>>)
      \* ---- iterators
      [] fr[1] = "gi1" -> IF ~Callable(mm, v) THEN TypeErr(mm) ELSE Call(Push(mm, <<"gi2", mm.env>>), v, fr[3], <<>>)
      [] fr[1] = "gi2" -> IF ~IsObj(v) THEN TypeErr(mm) ELSE GetV(Push(mm, <<"gi3", mm.env, v>>), v, "next")
      [] fr[1] = "gi3" -> V(mm, <<"it", fr[3], v>>)
      [] fr[1] = "ga1" -> IF Nullish(v) THEN GetIter(Push(mm, <<"ga2", mm.env>>), fr[3])
                          ELSE IF ~Callable(mm, v) THEN TypeErr(mm) ELSE Call(Push(mm, <<"gi2", mm.env>>), v, fr[3], <<>>)
      [] fr[1] = "ga2" -> V(Alloc(mm, [Obj0("afs", O(oAFSP)) EXCEPT !.d = v]), <<"it", O(New(mm)), Own(mm, oAFSP, "next")[2]>>)
      [] fr[1] = "isA" -> Await(Push(mm, <<"is1", mm.env>>), v)
      [] fr[1] = "is1" -> IF ~IsObj(v) THEN TypeErr(mm) ELSE GetV(Push(mm, <<"is2", mm.env, v>>), v, "done")
      [] fr[1] = "is1e" -> IF ~IsObj(v) THEN TypeErr(mm) ELSE GetV(Push(mm, <<"is2e", mm.env>>), v, "done")
      [] fr[1] = "is2e" -> IF Truthy(v) THEN V(mm, DONE) ELSE V(mm, U)
      [] fr[1] = "is2" -> IF Truthy(v) THEN V(mm, DONE) ELSE GetV(mm, fr[3], "value")
      [] fr[1] \in {"cl1", "ac1"} ->
           IF Nullish(v) THEN Ctl(mm, fr[4])
           ELSE IF ~Callable(mm, v) THEN (IF fr[4][1] = "T" THEN Ctl(mm, fr[4]) ELSE TypeErr(mm))
           ELSE Call(Push(mm, <<IF fr[1] = "cl1" THEN "cl2" ELSE "ac2", mm.env, fr[4]>>), v, fr[3][2], <<>>)
      [] fr[1] \in {"cl2", "ac3"} -> IF fr[3][1] = "T" THEN Ctl(mm, fr[3]) ELSE IF ~IsObj(v) THEN TypeErr(mm) ELSE Ctl(mm, fr[3])
      [] fr[1] = "ac2" -> Await(Push(mm, <<"ac3", mm.env, fr[3]>>), v)
      [] fr[1] = "ai1" -> LET a == mm.h[fr[3]].d
                          IN IF a.i >= (IF v[1] = "n" THEN v[2] ELSE 0) THEN VAlloc([mm EXCEPT !.h[fr[3]].d.done = TRUE], MkIterRes(U, TRUE))
                             ELSE GetV([Push(mm, <<"ai2", mm.env>>) EXCEPT !.h[fr[3]].d.i = @ + 1], a.a, IdxNames[a.i])
      [] fr[1] = "ai2" -> VAlloc(mm, MkIterRes(v, FALSE))
      \* ---- patterns
      [] fr[1] = "ap0" -> NextEl(mm, <<"ap", mm.env, fr[3], 0, v, FALSE, fr[4]>>, N(mm, fr[3]), 1)
      [] fr[1] = "ap" -> NextEl(mm, fr, N(mm, fr[3]), fr[4] + 1)
      [] fr[1] = "aph" -> LET f1 == [fr[3] EXCEPT ![6] = IsDone(v)] IN NextEl(mm, f1, N(mm, f1[3]), f1[4] + 1)
      [] fr[1] = "apv" ->
           LET f1 == [fr[3] EXCEPT ![6] = IsDone(v)]
               el == N(mm, f1[3]).els[f1[4]]
               val == IF IsDone(v) THEN U ELSE v
               m1 == Push(mm, f1)
           IN IF val = U /\ el.d # 0 THEN EvNamed(m1, el.d, NmOf(mm, el.t), <<"apst", mm.env, fr[4], el.t, f1[7]>>)
              ELSE Store(m1, fr[4], el.t, val, f1[7])
      [] fr[1] = "apst" -> Store(mm, fr[3], fr[4], v, fr[5])
      [] fr[1] = "apr" ->
           LET f1 == Top(mm)
               m1 == PopF(mm)
           IN IF fr[3] THEN V(Push(m1, <<"aprest", mm.env, f1, v, <<>>>>), <<"go">>)
              ELSE IF f1[6] THEN V(Push(m1, <<"apv", mm.env, f1, v>>), DONE)
              ELSE IterStep(Push(m1, <<"apv", mm.env, f1, v>>), f1[5])
      [] fr[1] = "aprest" ->
           LET f1 == fr[3]
               vals == IF v[1] \in {"go", "done"} THEN fr[5] ELSE Append(fr[5], v)
           IN IF f1[6] \/ IsDone(v)
              THEN LET a == New(mm)
                   IN Store(Push(Alloc(mm, MkArr(vals)), [f1 EXCEPT ![6] = TRUE]), fr[4], N(mm, f1[3]).els[f1[4]].t, O(a), f1[7])
              ELSE IterStep(Push(mm, [fr EXCEPT ![5] = vals]), f1[5])
      [] fr[1] = "op" -> NextPP(mm, fr, N(mm, fr[3]), fr[4] + 1)
      [] fr[1] = "opk" ->
           LET f0 == Top(mm)
               f1 == [f0 EXCEPT ![6] = @ \cup {v[2]}]
               m1 == Push(PopF(mm), f1)
               p == N(mm, f1[3]).props[f1[4]]
           IN IF f1[7] = "asg" /\ N(mm, p.t).k \notin {"parr", "pobj"} THEN EvR(m1, p.t, <<"opr", mm.env, v[2]>>)
              ELSE GetV(Push(m1, <<"opv", mm.env, NONE>>), f1[5], v[2])
      [] fr[1] = "opr" -> GetV(Push(mm, <<"opv", mm.env, v>>), Top(mm)[5], fr[3])
      [] fr[1] = "opv" ->
           LET f1 == Top(mm)
               p == N(mm, f1[3]).props[f1[4]]
           IN IF v = U /\ p.d # 0 THEN EvNamed(mm, p.d, NmOf(mm, p.t), <<"apst", mm.env, fr[3], p.t, f1[7]>>)
              ELSE Store(mm, fr[3], p.t, v, f1[7])
      [] fr[1] = "oprr" -> LET f1 == Top(mm)
                               oid == New(mm)
                           IN CopyProps(Push(Alloc(mm, Obj0("obj", O(oObjectP))), <<"oprs", mm.env, v>>), oid, f1[5], f1[6])
      [] fr[1] = "oprs" -> LET f1 == Top(mm) IN Store(mm, fr[3], N(mm, f1[3]).props[f1[4]].t, v, f1[7])
      [] OTHER -> Assert(FALSE, <<"unknown frame", fr[1]>>)
Frames2 == {"decl", "pbind", "pdef", "par", "if", "while", "for", "fi0", "fi", "lbody", "fo0", "fo1", "fo", "sw0", "sw1", "swb",
            "lab", "try", "ret", "retaw", "thr", "fin", "fin2", "cbind", "with", "ctb", "cproto", "cb2", "ifl", "ifd", "cls1",
            "cls2", "cls3", "clsk", "cls4", "gi1", "gi2", "gi3", "ga1", "ga2", "isA", "is1", "is2", "is1e", "is2e", "cl1", "ac1", "cl2", "ac3",
            "ac2", "ai1", "ai2", "ap0", "ap", "aph", "apv", "apst", "apr", "aprest", "op", "opk", "opr", "opv", "oprr", "oprs"}
AgEnd(mm, g, c) ==   \* the body of an async generator is over
    LET m1 == [mm EXCEPT !.h[g].d.st = "done"]
    IN Drain(CompleteStep(m1, g, c, TRUE), g)
AsEnd(mm, fr, c) ==  \* the body of an async function is over
    LET co == fr[3]
        p == mm.h[co].d.p
        m1 == Push(mm, <<"const", mm.env, IF mm.h[co].d.first THEN O(p) ELSE U>>)
    IN IF c[1] = "T" THEN V(Settle(m1, p, "r", c[2]), U) ELSE ResolveP(m1, p, c[2])
Cont3(mm, fr, v) ==
    CASE fr[1] = "aw" -> Await(mm, v)
      [] fr[1] = "aw0" -> IF IsObj(v) /\ v[2] = oPromise THEN Suspend(mm, fr[3][2])
                          ELSE LET p == New(mm) IN ResolveP(Push(Alloc(mm, MkProm), <<"aw1", mm.env, p>>), p, fr[3])
      [] fr[1] = "aw1" -> Suspend(mm, fr[3])
      [] fr[1] = "asb" -> AsEnd(mm, fr, <<"V", U>>)
      [] fr[1] = "agb" -> AgEnd(mm, fr[3], <<"V", U>>)
      [] fr[1] = "genb" -> VAlloc([mm EXCEPT !.h[fr[3]].d.st = "done"], MkIterRes(U, TRUE))
      [] fr[1] = "agunw" -> Ctl(mm, <<"R", v>>)
      [] fr[1] = "yld" -> IF fr[3] THEN Await(Push(mm, <<"yld2", mm.env>>), v)
                          ELSE LET r == New(mm) IN GenYield(Alloc(mm, MkIterRes(v, FALSE)), O(r))
      [] fr[1] = "yld2" -> AGYield(mm, v)
      [] fr[1] = "ys0" -> IF fr[3] THEN GetAIter(Push(mm, <<"ys1", mm.env, TRUE>>), v) ELSE GetIter(Push(mm, <<"ys1", mm.env, FALSE>>), v)
      [] fr[1] = "ys1" -> YsCall(mm, <<"ys", mm.env, v, fr[3]>>, <<"V", U>>)
      [] fr[1] = "ys" -> YsCall(mm, fr, <<"V", v>>)
      [] fr[1] = "ysn" -> IF fr[4] THEN Await(Push(mm, [fr EXCEPT ![1] = "ysa"]), v) ELSE V(Push(mm, [fr EXCEPT ![1] = "ysa"]), v)
      [] fr[1] = "ysa" -> IF ~IsObj(v) THEN TypeErr(mm) ELSE GetV(Push(mm, <<"ysd", mm.env, fr[3], fr[4], fr[5], v>>), v, "done")
      [] fr[1] = "ysd" -> IF Truthy(v) THEN GetV(Push(mm, <<"ysv", mm.env, fr[5]>>), fr[6], "value")
                          ELSE IF fr[4] THEN GetV(Push(mm, <<"ysy", mm.env, fr[3]>>), fr[6], "value")
                          ELSE GenYield(Push(mm, <<"ys", mm.env, fr[3], FALSE>>), fr[6])
      [] fr[1] = "ysv" -> IF fr[3] = "return" THEN Ctl(mm, <<"R", v>>) ELSE V(mm, v)
      [] fr[1] = "ysy" -> AGYield(Push(mm, <<"ys", mm.env, fr[3], TRUE>>), v)
      [] fr[1] = "yst" -> IF Nullish(v) THEN (IF fr[4] THEN ACloseIter(Push(mm, <<"te", mm.env>>), fr[3], <<"V", U>>)
                                              ELSE CloseIter(Push(mm, <<"te", mm.env>>), fr[3], <<"V", U>>))
                          ELSE Call(Push(mm, <<"ysn", mm.env, fr[3], fr[4], "throw">>), v, fr[3][2], <<fr[5]>>)
      [] fr[1] = "te" -> TypeErr(mm)
      [] fr[1] = "ysr" -> IF Nullish(v) THEN (IF fr[4] THEN Await(Push(mm, <<"ret", mm.env>>), fr[5]) ELSE Ctl(mm, <<"R", fr[5]>>))
                          ELSE Call(Push(mm, <<"ysn", mm.env, fr[3], fr[4], "return">>), v, fr[3][2], <<fr[5]>>)
      \* ---- promises
      [] fr[1] = "rp1" -> IF Callable(mm, v) THEN V(AddJob(mm, <<"tj", fr[3], fr[4], v>>), U)
                          ELSE V(Settle(mm, fr[3], "f", fr[4]), U)
      [] fr[1] = "pn0" ->
           LET p == New(mm)
               m1 == MkResolving(Alloc(mm, IF IsObj(v) THEN [MkProm EXCEPT !.pr = v] ELSE MkProm), p)
           IN Call(Push(m1, <<"pn1", mm.env, p, O(p + 3)>>), fr[3], U, <<O(p + 2), O(p + 3)>>)
      [] fr[1] = "pn1" -> V(mm, O(fr[3]))
      [] fr[1] = "pr0" -> IF Same(v, fr[3]) THEN V(mm, fr[4])
                          ELSE [Push(mm, <<"pr1", mm.env, "res", fr[4]>>) EXCEPT !.c = <<"NC", fr[3]>>]
      [] fr[1] = "pr1" -> LET m1 == Push(mm, <<"const", mm.env, CapProm(v[2])>>)
                          IN IF fr[3] = "res" THEN CapResolve(m1, v[2], fr[4]) ELSE CapReject(m1, v[2], fr[4])
      [] fr[1] = "sp1" -> IF v = U THEN V(mm, O(oPromise)) ELSE IF ~IsObj(v) THEN TypeErr(mm)
                          ELSE GetV(Push(mm, <<"sp2", mm.env>>), v, "@@species")
      [] fr[1] = "sp2" -> IF Nullish(v) THEN V(mm, O(oPromise)) ELSE IF ~IsCtor(mm, v) THEN TypeErr(mm) ELSE V(mm, v)
      [] fr[1] = "pt1" -> [Push(mm, [fr EXCEPT ![1] = "pt2"]) EXCEPT !.c = <<"NC", v>>]
      [] fr[1] = "pt2" -> V(PerformThen(mm, fr[3][2], IF Callable(mm, fr[4]) THEN fr[4] ELSE U, IF Callable(mm, fr[5]) THEN fr[5] ELSE U, v[2]),
                            CapProm(v[2]))
      [] fr[1] = "inv" -> Call(mm, v, fr[3], fr[4])
      [] fr[1] = "pf1" ->
           IF ~Callable(mm, fr[4]) THEN GetV(Push(mm, <<"inv", mm.env, fr[3], <<fr[4], fr[4]>>>>), fr[3], "then")
           ELSE LET a == New(mm)
                    m1 == Alloc(Alloc(mm, MkNat("finF", <<v, fr[4], "V">>)), MkNat("finF", <<v, fr[4], "T">>))
                IN GetV(Push(m1, <<"inv", mm.env, fr[3], <<O(a), O(a + 1)>>>>), fr[3], "then")
      [] fr[1] = "ff1" -> PromResolve(Push(mm, <<"ff2", mm.env, fr[4], fr[5]>>), fr[3], v)
      [] fr[1] = "ff2" -> LET a == New(mm)
                          IN GetV(Push(Alloc(mm, MkNat(IF fr[3] = "V" THEN "thunkV" ELSE "thunkT", <<fr[4]>>)),
                                       <<"inv", mm.env, v, <<O(a)>>>>), v, "then")
      [] fr[1] = "nc1" -> LET c == mm.h[fr[3]].d
                          IN IF ~Callable(mm, c[1]) \/ ~Callable(mm, c[2]) THEN TypeErr(mm) ELSE V(mm, <<"cap", <<"c", v, c[1], c[2]>>>>)
      [] fr[1] = "pc0" ->   \* the resolving functions of the capability may be called more than once
           LET c == New(mm)
               fresh == v[2][1] = "p"
               cap == IF fresh THEN <<"c", O(v[2][2]), O(c + 1), O(c + 2)>> ELSE v[2]
               m1 == IF fresh THEN MkResolving(mm, v[2][2]) ELSE mm
           IN GetV(Push(Push(m1, <<"pcR", mm.env, cap>>), <<"pc1", mm.env, fr[3], fr[4], cap, fr[5]>>), fr[4], "resolve")
      [] fr[1] = "pcR" -> V(mm, v)
      [] fr[1] = "pc1" -> IF ~Callable(mm, v) THEN TypeErr(mm)
                          ELSE GetIter(Push(mm, <<"pc2", mm.env, fr[3], fr[4], fr[5], v>>), fr[6])
      [] fr[1] = "pc2" -> LET cell == New(mm)
                          IN PcStep(Alloc(mm, [Obj0("cell", NL) EXCEPT !.d = [vals |-> <<>>, left |-> 1]]),
                                    <<"pc3", mm.env, fr[3], fr[4], fr[5], fr[6], v, cell, 0>>)
      [] fr[1] = "pc4" ->
           IF IsDone(v) THEN PcEnd(mm, fr)
           ELSE LET m1 == Push(Push(mm, <<"pcx", mm.env, fr[7]>>), [fr EXCEPT ![1] = "pc5", ![9] = @ + 1])
                IN Call([m1 EXCEPT !.h[fr[8]].d.vals = Append(@, U)], fr[6], fr[4], <<v>>)
      [] fr[1] = "pc5" ->
           LET cell == fr[8]
               n == fr[3]
               cap == fr[5]
               called == New(mm)
               m2 == Alloc(mm, [Obj0("cell", NL) EXCEPT !.d = FALSE])
               e1 == New(m2)
               el(kind) == MkNat("elF", <<cell, fr[9], called, kind, cap>>)
               m3 == CASE n = "Promise.all" -> Alloc(m2, el("v"))
                       [] n = "Promise.any" -> Alloc(m2, el("any"))
                       [] n = "Promise.allSettled" -> Alloc(Alloc(m2, el("f")), el("r"))
                       [] OTHER -> m2
               onf == CASE n = "Promise.all" -> O(e1) [] n = "Promise.allSettled" -> O(e1) [] OTHER -> cap[3]
               onr == CASE n = "Promise.any" -> O(e1) [] n = "Promise.allSettled" -> O(e1 + 1) [] OTHER -> cap[4]
               m4 == [m3 EXCEPT !.h[cell].d.left = @ + 1]
           IN GetV(Push(Push(m4, [fr EXCEPT ![1] = "pc6"]), <<"inv", mm.env, v, <<onf, onr>>>>), v, "then")
      [] fr[1] = "pc6" -> PcStep(PopF(mm), fr)
      [] fr[1] \in {"afsC"} -> V(mm, O(fr[3]))
      [] fr[1] = "afs1" -> IF ~IsObj(v) THEN TypeErr(mm) ELSE GetV(Push(mm, <<"afs2", mm.env, fr[3], v>>), v, "done")
      [] fr[1] = "afs2" -> GetV(Push(mm, <<"afs3", mm.env, fr[3], Truthy(v)>>), fr[4], "value")
      [] fr[1] = "afs3" -> PromResolve(Push(mm, <<"afs4", mm.env, fr[3], fr[4]>>), O(oPromise), v)
      [] fr[1] = "afs4" -> LET a == New(mm)
                           IN V(PerformThen(Alloc(mm, MkNat("afsU", <<fr[4]>>)), v[2], O(a), U, <<"p", fr[3]>>), U)
      [] fr[1] = "afsr" ->
           IF Nullish(v)
           THEN (IF fr[6] = "return" THEN LET r == New(mm) IN V(Settle(Alloc(mm, MkIterRes(Arg(fr[5], 1), TRUE)), fr[3], "f", O(r)), U)
                 ELSE V(Settle(mm, fr[3], "r", Arg(fr[5], 1)), U))
           ELSE Call(Push(mm, <<"afs1", mm.env, fr[3]>>), v, fr[4][2], fr[5])
      [] fr[1] = "rj" -> CapResolve(mm, fr[3], v)
      [] fr[1] = "eop" -> IF fr[6] = "Object.values" THEN EopNext(mm, [fr EXCEPT ![7] = Append(@, v)])
                          ELSE EopNext(Alloc(mm, MkArr(<<Str(fr[5]), v>>)), [fr EXCEPT ![7] = Append(@, O(New(mm)))])
      [] fr[1] = "oas" -> SetV(Push(mm, [fr EXCEPT ![1] = "oas2"]), fr[3], fr[6], v, TRUE)
      [] fr[1] = "oas2" -> OasNext(mm, [fr EXCEPT ![1] = "oas"])
      [] fr[1] = "dp0" -> IF ~IsObj(fr[4]) THEN TypeErr(mm)
                          ELSE DpNext(mm, <<"dp1", mm.env, fr[3], v[2], fr[4], <<"enumerable", "configurable", "value", "writable", "get", "set">>, NoF>>)
      [] fr[1] = "dp1" -> IF Head(fr[6]) \in {"get", "set"} /\ v # U /\ ~Callable(mm, v) THEN TypeErr(mm)
                          ELSE DpNext(mm, [fr EXCEPT ![6] = Tail(@), ![7] = (Head(fr[6]) :> v) @@ @])
      [] fr[1] = "ev1" -> Ctl(mm, <<"E", N(mm, fr[3]).e>>)
      \* ---- collections and Array.from
      [] fr[1] = "mc0" -> IF ~Callable(mm, v) THEN TypeErr(mm) ELSE GetIter(Push(mm, <<"mc1", mm.env, fr[3], v, fr[5]>>), fr[4])
      [] fr[1] = "mc1" -> IterStep(Push(mm, <<"mc2", mm.env, fr[3], fr[4], fr[5], v>>), v)
      [] fr[1] = "mc2" -> \* <<.., object, adder, entries?, iterator>>
           IF IsDone(v) THEN V(mm, fr[3])
           ELSE LET m1 == Push(Push(mm, fr), <<"pcx", mm.env, fr[6]>>)
                IN IF ~fr[5] THEN Call(Push(m1, <<"mc5", mm.env>>), fr[4], fr[3], <<v>>)
                   ELSE IF ~IsObj(v) THEN TypeErr(m1)
                   ELSE GetV(Push(m1, <<"mc3", mm.env, fr[3], fr[4], v>>), v, "0")
      [] fr[1] = "mc3" -> GetV(Push(mm, <<"mc4", mm.env, fr[3], fr[4], v>>), fr[5], "1")
      [] fr[1] = "mc4" -> IF fr[4] = NL THEN ToKey(Push(mm, <<"mc6", mm.env, fr[3], v>>), fr[5])
                          ELSE Call(Push(mm, <<"mc5", mm.env>>), fr[4], fr[3], <<fr[5], v>>)
      [] fr[1] = "mc6" -> V(Push(Def(mm, fr[3][2], v[2], Data(fr[4])), <<"mc5", mm.env>>), U)
      [] fr[1] = "mc5" -> LET f2 == mm.k[Len(mm.k) - 1]    \* the frames below are pcx and mc2
                          IN IterStep(Push([mm EXCEPT !.k = SubSeq(@, 1, Len(@) - 2)], f2), f2[6])
      [] fr[1] = "bnd1" ->
           LET n == IF v[1] = "n" THEN (IF v[2] > fr[5] THEN v[2] - fr[5] ELSE 0) ELSE 0
           IN GetV(Push([mm EXCEPT !.h[fr[3]] = PutRaw(@, "length", <<"d", Num(n), FALSE, FALSE, TRUE>>)], <<"bnd2", mm.env, fr[3]>>), fr[4], "name")
      [] fr[1] = "bnd2" ->
           V([mm EXCEPT !.h[fr[3]] = PutRaw(@, "name", <<"d", Str("bound " \o (IF v[1] = "s" THEN v[2] ELSE "")), FALSE, FALSE, TRUE>>)], O(fr[3]))
      [] fr[1] = "hop" ->
           IF Nullish(fr[3]) THEN TypeErr(mm)
           ELSE LET d == Own(WithObj(mm, fr[3]), ObjOf(mm, fr[3])[2], v[2])
                IN V(mm, Bool(d[1] # "none" /\ (fr[4] = "obj.propertyIsEnumerable" => d[4])))
      [] fr[1] = "gpd" ->
           LET d == Own(WithObj(mm, fr[3]), ObjOf(mm, fr[3])[2], v[2])
               ks == IF d[1] = "d" THEN <<"value", "writable", "enumerable", "configurable">> ELSE <<"get", "set", "enumerable", "configurable">>
           IN IF d[1] = "none" THEN V(mm, U)
              ELSE VAlloc(mm, [Obj0("obj", O(oObjectP)) EXCEPT !.ks = ks,
                       !.ps = (ks[1] :> Data(d[2])) @@ (ks[2] :> Data(IF d[1] = "d" THEN Bool(d[3]) ELSE d[3]))
                              @@ ("enumerable" :> Data(Bool(d[4]))) @@ ("configurable" :> Data(Bool(d[5])))])
      [] fr[1] = "aj0" -> AjNext(mm, fr[3], 0, PrimNum(v)[2], "")
      [] fr[1] = "aj1" -> IF Nullish(v) THEN AjNext(mm, fr[3], fr[4] + 1, fr[5], fr[6])
                          ELSE ToStr(Push(mm, <<"aj2", mm.env, fr[3], fr[4], fr[5], fr[6]>>), v)
      [] fr[1] = "aj2" -> AjNext(mm, fr[3], fr[4] + 1, fr[5], fr[6] \o v[2])
      [] fr[1] = "afm" ->
           IF Nullish(v) THEN GetV(Push(mm, <<"afl", mm.env, fr[3], fr[4]>>), fr[4], "length")
           ELSE IF ~Callable(mm, v) THEN TypeErr(mm)
           ELSE Call(Push(Push(mm, <<"af0", mm.env, fr[3]>>), <<"gi2", mm.env>>), v, fr[4], <<>>)
      [] fr[1] = "afl" -> ToNum(Push(mm, [fr EXCEPT ![1] = "afn"]), v)
      [] fr[1] = "afn" -> AfNext(mm, <<"afk", mm.env, fr[3], fr[4], IF v[1] = "n" /\ v[2] > 0 THEN v[2] ELSE 0, <<>>>>)
      [] fr[1] = "afk" -> IF fr[3] = U THEN AfNext(mm, [fr EXCEPT ![6] = Append(@, v)])
                          ELSE Call(Push(mm, <<"afj", mm.env, fr>>), fr[3], U, <<v, Num(Len(fr[6]))>>)
      [] fr[1] = "afj" -> AfNext(mm, [fr[3] EXCEPT ![6] = Append(@, v)])
      [] fr[1] = "af0" -> IterStep(Push(mm, <<"af1", mm.env, v, fr[3], <<>>>>), v)
      [] fr[1] = "af1" -> IF IsDone(v) THEN VAlloc(mm, MkArr(fr[5]))
                          ELSE IF fr[4] = U THEN IterStep(Push(mm, [fr EXCEPT ![5] = Append(@, v)]), fr[3])
                          ELSE Call(Push(Push(mm, <<"pcx", mm.env, fr[3]>>), <<"af2", mm.env, fr>>), fr[4], U, <<v, Num(Len(fr[5]))>>)
      [] fr[1] = "af2" -> IterStep(Push(PopF(mm), [fr[3] EXCEPT ![5] = Append(@, v)]), fr[3][3])
      [] fr[1] = "tj1" -> V(mm, U)
      [] fr[1] = "agr1" -> V(PerformThen(mm, fr[4], <<"agr", fr[3], "V">>, <<"agr", fr[3], "T">>, NONE), U)
      [] OTHER -> Assert(FALSE, <<"unknown frame", fr[1]>>)

(* ------------------------------------------------------------------ abrupt completions *)
TH == {"try", "fin", "fo", "ap", "cl1", "cl2", "ac1", "ac2", "ac3", "rp1", "asb", "agb", "genb", "ys", "pn1", "rj", "tj1", "pcR", "pcx", "afsC", "sol"}
RH == {"fin", "fo", "ap", "fnb", "ctb", "asb", "agb", "genb", "ys"}
BH == {"while", "for", "fi", "fo", "swb", "lab", "fin"}
Mine(x, l) == l = "" \/ \E i \in 1..Len(x.ls) : x.ls[i] = l
Abrupt(mm, fr, c) ==     \* frame fr popped, its environment current
    LET t == c[1]
    IN CASE fr[1] = "try" ->
              LET x == N(mm, fr[3])
              IN IF x.p = 0 THEN Ctl(mm, <<"S", x.h>>)
                 ELSE LET m1 == PushEnv(Push(mm, <<"env", mm.env>>), DeclEnv(mm.env, TdzCells(x.lex)))
                      IN Ctl(Push(m1, <<"lbody", m1.env, x.h>>), <<"BP", x.p, c[2], "init">>)
         [] fr[1] = "fin" -> Ex(mm, fr[3], <<"fin2", mm.env, c>>)
         [] fr[1] = "fo" ->
              LET x == N(mm, fr[3])
                  close(cc) == IF x.await THEN ACloseIter(mm, fr[4], cc) ELSE CloseIter(mm, fr[4], cc)
              IN IF fr[5] = "step" THEN Ctl(mm, c)
                 ELSE IF t = "C" /\ Mine(x, c[2]) THEN FoStep(mm, fr)
                 ELSE IF t = "B" /\ c[2] = "" THEN close(<<"V", U>>)
                 ELSE close(c)
         [] fr[1] = "ap" -> IF fr[6] THEN Ctl(mm, c) ELSE CloseIter(mm, fr[5], c)
         [] fr[1] = "fnb" -> V(mm, c[2])
         [] fr[1] = "ctb" -> IF IsObj(c[2]) THEN V(mm, c[2])
                             ELSE IF fr[3][1] = "tdz" /\ c[2] # U THEN TypeErr(mm)
                             ELSE LET tv == IF fr[3][1] = "tdz" THEN mm.e[fr[4]].th ELSE fr[3]
                                  IN IF tv[1] = "tdz" THEN RefErr(mm) ELSE V(mm, tv)
         [] fr[1] = "asb" -> AsEnd(mm, fr, c)
         [] fr[1] = "agb" -> AgEnd(mm, fr[3], IF t = "R" THEN <<"V", c[2]>> ELSE c)
         [] fr[1] = "genb" -> LET m1 == [mm EXCEPT !.h[fr[3]].d.st = "done"]
                              IN IF t = "R" THEN VAlloc(m1, MkIterRes(c[2], TRUE)) ELSE Ctl(m1, c)
         [] fr[1] = "ys" -> YsCall(mm, fr, c)
         [] fr[1] \in {"cl1", "ac1"} -> IF fr[4][1] = "T" THEN Ctl(mm, fr[4]) ELSE Ctl(mm, c)
         [] fr[1] \in {"cl2", "ac2", "ac3"} -> IF fr[3][1] = "T" THEN Ctl(mm, fr[3]) ELSE Ctl(mm, c)
         [] fr[1] = "rp1" -> V(Settle(mm, fr[3], "r", c[2]), U)
         [] fr[1] = "pn1" -> Call(Push(mm, <<"const", mm.env, O(fr[3])>>), fr[4], U, <<c[2]>>)
         [] fr[1] = "rj" -> CapReject(mm, fr[3], c[2])
         [] fr[1] = "sol" -> V(Push(mm, fr), U)
         [] fr[1] = "tj1" -> Call(mm, fr[3], U, <<c[2]>>)
         [] fr[1] = "pcR" -> CapReject(Push(mm, <<"const", mm.env, CapProm(fr[3])>>), fr[3], c[2])
         [] fr[1] = "pcx" -> CloseIter(mm, fr[3], c)
         [] fr[1] = "afsC" -> V(Settle(mm, fr[3], "r", c[2]), O(fr[3]))
         [] fr[1] = "while" ->
              LET x == N(mm, fr[3])
              IN IF t = "C" /\ Mine(x, c[2]) THEN V(Push(mm, fr), U)
                 ELSE IF t = "B" /\ c[2] = "" THEN V(mm, U) ELSE Ctl(mm, c)
         [] fr[1] \in {"for", "fi"} ->
              LET x == N(mm, fr[3])
              IN IF t = "C" /\ Mine(x, c[2]) THEN V(Push(mm, fr), U)
                 ELSE IF t = "B" /\ c[2] = "" THEN V(mm, U) ELSE Ctl(mm, c)
         [] fr[1] = "swb" -> IF t = "B" /\ c[2] = "" THEN V(mm, U) ELSE Ctl(mm, c)
         [] fr[1] = "lab" -> IF t = "B" /\ c[2] = fr[3] THEN V(mm, U) ELSE Ctl(mm, c)
         [] fr[1] = "och" -> V(mm, U)
HSet(c) == CASE c[1] = "T" -> TH [] c[1] = "R" -> RH [] c[1] = "K" -> {"och"} [] OTHER -> BH
Unwind(mm) ==
    LET i == TopFrame(mm.k, Len(mm.k), HSet(mm.c))
    IN IF i = 0
       THEN LET m1 == [mm EXCEPT !.k = <<>>, !.c = <<"V", U>>]
            IN IF mm.main THEN Log(m1, "uncaught " \o Show(mm, mm.c[2], 2)) ELSE m1
       ELSE Abrupt([mm EXCEPT !.k = SubSeq(@, 1, i - 1), !.env = mm.k[i][2]], mm.k[i], mm.c)

(* ------------------------------------------------------------------ jobs *)
RunJob(mm) ==
    LET j == Head(mm.j)
        m1 == [mm EXCEPT !.j = Tail(@), !.main = FALSE, !.env = 1]
    IN IF j[1] = "tj"
       THEN LET c == New(m1)
            IN Call(Push(MkResolving(m1, j[2]), <<"tj1", 1, O(c + 2)>>), j[4], j[3], <<O(c + 1), O(c + 2)>>)
       ELSE LET h == j[3]
            IN CASE h[1] = "u" -> IF j[2] = "f" THEN CapResolve(m1, j[5], j[4]) ELSE CapReject(m1, j[5], j[4])
                 [] h[1] = "aw" ->
                      LET d == m1.h[h[2]].d
                          b == IF m1.h[h[2]].k = "agen" THEN "agb" ELSE "asb"
                      IN [m1 EXCEPT !.k = m1.k \o <<<<b, 1, h[2]>>>> \o d.k, !.env = d.env, !.c = <<h[3], j[4]>>, !.h[h[2]].d.k = <<>>]
                 [] h[1] = "agr" ->
                      LET g == h[2]
                          m2 == [m1 EXCEPT !.h[g].d.st = "done"]
                      IN Drain(CompleteStep(m2, g, <<h[3], j[4]>>, TRUE), g)
                 [] OTHER -> Call(Push(m1, <<"rj", 1, j[5]>>), h, U, <<j[4]>>)

Finished(mm) == mm.k = <<>> /\ mm.c[1] = "V" /\ mm.j = <<>>
Step(mm) ==
    CASE mm.c[1] = "V" ->
           IF mm.k = <<>> THEN RunJob(mm)
           ELSE LET fr == Top(mm)
                    m1 == [mm EXCEPT !.k = SubSeq(@, 1, Len(@) - 1), !.env = fr[2]]
                IN IF fr[1] = "sol" THEN (IF mm.j = <<>> THEN V([m1 EXCEPT !.main = fr[3]], U) ELSE RunJob(Push(m1, fr)))
                   ELSE IF fr[1] \in Frames1 THEN Cont1(m1, fr, mm.c[2])
                   ELSE IF fr[1] \in Frames2 THEN Cont2(m1, fr, mm.c[2])
                   ELSE Cont3(m1, fr, mm.c[2])
      [] mm.c[1] = "E" -> Eval(mm, mm.c[2], "")
      [] mm.c[1] = "EN" -> Eval(mm, mm.c[2], mm.c[3])
      [] mm.c[1] = "F" -> EvalRef(mm, mm.c[2])
      [] mm.c[1] = "S" -> Exec(mm, mm.c[2])
      [] mm.c[1] = "BP" -> BindPat(mm, mm.c[2], mm.c[3], mm.c[4])
      [] mm.c[1] = "NC" -> NewCap(mm, mm.c[2])
      [] mm.c[1] = "BAIL" -> mm
      [] OTHER -> Unwind(mm)

(* ------------------------------------------------------------------ initial heap *)
Natives == <<  \* holder, key, native
    <<oObjectP, "valueOf", "obj.valueOf">>, <<oObjectP, "toString", "obj.toString">>,
    <<oFunctionP, "call", "fn.call">>, <<oFunctionP, "apply", "fn.apply">>, <<oFunctionP, "bind", "fn.bind">>,
    <<oFunctionP, "@@hasInstance", "fn.hasInstance">>,
    <<oArrayP, "values", "arr.values">>, <<oArrayP, "toString", "arr.toString">>, <<oStrP, "@@iterator", "str.iter">>,
    <<oIterP, "@@iterator", "iter.self">>, <<oAIterP, "@@asyncIterator", "iter.self">>,
    <<oArrIterP, "next", "arrit.next">>,
    <<oGenP, "next", "gen.next">>, <<oGenP, "return", "gen.return">>, <<oGenP, "throw", "gen.throw">>,
    <<oAGenP, "next", "agen.next">>, <<oAGenP, "return", "agen.return">>, <<oAGenP, "throw", "agen.throw">>,
    <<oAFSP, "next", "afs.next">>, <<oAFSP, "return", "afs.return">>, <<oAFSP, "throw", "afs.throw">>,
    <<oPromP, "then", "prom.then">>, <<oPromP, "catch", "prom.catch">>, <<oPromP, "finally", "prom.finally">>,
    <<oPromise, "resolve", "Promise.resolve">>, <<oPromise, "reject", "Promise.reject">>,
    <<oPromise, "all", "Promise.all">>, <<oPromise, "allSettled", "Promise.allSettled">>,
    <<oPromise, "any", "Promise.any">>, <<oPromise, "race", "Promise.race">>,
    <<oObject, "setPrototypeOf", "Object.setPrototypeOf">>, <<oObject, "getPrototypeOf", "Object.getPrototypeOf">>,
    <<oObject, "create", "Object.create">>, <<oObject, "freeze", "Object.freeze">>,
    <<oObject, "preventExtensions", "Object.preventExtensions">>, <<oObject, "seal", "Object.seal">>, <<oObject, "isExtensible", "Object.isExtensible">>,
    <<oObject, "isSealed", "Object.isSealed">>, <<oObject, "isFrozen", "Object.isFrozen">>,
    <<oReflect, "construct", "Reflect.construct">>, <<oReflect, "apply", "Reflect.apply">>,
    <<oNumP, "valueOf", "prim.valueOf">>, <<oStrP, "valueOf", "prim.valueOf">>, <<oBoolP, "valueOf", "prim.valueOf">>,
    <<oSymP, "valueOf", "prim.valueOf">>, <<oNumP, "toString", "prim.toString">>, <<oStrP, "toString", "prim.toString">>,
    <<oBoolP, "toString", "prim.toString">>, <<oSymP, "toString", "prim.toString">>,
    <<oObject, "defineProperty", "Object.defineProperty">>, <<oObject, "getOwnPropertyDescriptor", "Object.getOwnPropertyDescriptor">>,
    <<oObject, "getOwnPropertyNames", "Object.getOwnPropertyNames">>, <<oObject, "getOwnPropertySymbols", "Object.getOwnPropertySymbols">>,
    <<oReflect, "ownKeys", "Reflect.ownKeys">>, <<oReflect, "set", "Reflect.set">>, <<oObject, "hasOwn", "Object.hasOwn">>, <<oObjectP, "hasOwnProperty", "obj.hasOwnProperty">>,
    <<oObjectP, "propertyIsEnumerable", "obj.propertyIsEnumerable">>, <<oObject, "keys", "Object.keys">>, <<oObject, "values", "Object.values">>,
    <<oObject, "entries", "Object.entries">>, <<oObject, "assign", "Object.assign">>, <<oObject, "fromEntries", "Object.fromEntries">>,
    <<oArray, "from", "Array.from">>, <<oGlobal, "ro", "ro">>,
    <<oMapP, "set", "coll.set">>, <<oSetP, "add", "coll.add">>, <<oWeakMapP, "set", "weak.set">>, <<oWeakSetP, "add", "weak.set">>,
    <<oGlobal, "log", "log">>, <<oGlobal, "hide", "hide">>, <<oGlobal, "lock", "lock">>, <<oGlobal, "solve", "solve">> >>
RECURSIVE AddNatives(_, _)
AddNatives(h, i) ==
    IF i > Len(Natives) THEN h
    ELSE LET h1 == Append(h, MkNat(Natives[i][3], <<>>))
         IN AddNatives([h1 EXCEPT ![Natives[i][1]] = PutRaw(@, Natives[i][2], Hid(O(Len(h1))))], i + 1)
PlainNat(name) == MkNat(name, <<>>)
Heap0 ==
    LET base == <<Obj0("obj", NL), Obj0("nat", O(1)), [MkArr(<<>>) EXCEPT !.pr = O(1)], Obj0("obj", O(1)), Obj0("obj", O(oIterP)),
                  Obj0("obj", O(oIterP)), Obj0("obj", O(1)), Obj0("obj", O(oAIterP)), Obj0("obj", O(1)),
                  PlainNat("Promise"), Obj0("obj", O(1)), Obj0("obj", O(1)), Obj0("obj", O(1)), Obj0("obj", O(1)),
                  PlainNat("Object"), Obj0("obj", O(1)), Obj0("obj", O(1)), Obj0("obj", O(oAIterP)), Obj0("obj", O(1)),
                  Obj0("obj", O(1)), PlainNat("Array"), Obj0("obj", O(1)), Obj0("obj", O(1)), Obj0("obj", O(1)), Obj0("obj", O(1)),
                  PlainNat("Map"), PlainNat("Set"), PlainNat("WeakMap"), PlainNat("WeakSet"), PlainNat("thrower")>>
        h1 == AddNatives([base EXCEPT ![2].d = [n |-> "fnproto", a |-> <<>>]], 1)
        put(h, id, key, d) == [h EXCEPT ![id] = PutRaw(@, key, d)]
        h2 == put(put(put(put(h1, oArrayP, "@@iterator", h1[oArrayP].ps["values"]), oPromise, "prototype", <<"d", O(oPromP), FALSE, FALSE, FALSE>>),
                      oPromP, "constructor", Hid(O(oPromise))),
                  oObject, "prototype", <<"d", O(oObjectP), FALSE, FALSE, FALSE>>)
        sp == Len(h2) + 1
        h3 == put(Append(h2, PlainNat("prom.species")), oPromise, "@@species", <<"a", O(sp), U, FALSE, TRUE>>)
        gl(h, name, id) == put(h, oGlobal, name, Hid(O(id)))
        h4 == gl(gl(gl(gl(h3, "Promise", oPromise), "Object", oObject), "Symbol", oSymbol), "Reflect", oReflect)
        sy(h, name) == put(h, oSymbol, name, Hid(<<"y", name>>))
        h5 == sy(sy(sy(sy(sy(sy(h4, "iterator"), "asyncIterator"), "hasInstance"), "toPrimitive"), "species"), "unscopables")
        h6 == put(put(put(put(h5, oGlobal, "undefined", <<"d", U, FALSE, FALSE, FALSE>>), oGlobal, "sA", Hid(<<"y", "sA">>)),
                      oGlobal, "sB", Hid(<<"y", "sB">>)), oGlobal, "globalThis", Hid(O(oGlobal)))
        coll(h, c, p, name) == put(put(gl(h, name, c), c, "prototype", <<"d", O(p), FALSE, FALSE, FALSE>>), p, "constructor", Hid(O(c)))
        h8 == coll(coll(coll(coll(put(gl(h6, "Array", oArray), oArray, "prototype", <<"d", O(oArrayP), FALSE, FALSE, FALSE>>),
                                  oMap, oMapP, "Map"), oSet, oSetP, "Set"), oWeakMap, oWeakMapP, "WeakMap"), oWeakSet, oWeakSetP, "WeakSet")
        h7 == put(put(put(put(h8, 2, "length", <<"d", Num(0), FALSE, FALSE, TRUE>>), 2, "name", <<"d", <<"s", "">>, FALSE, FALSE, TRUE>>), oObjectP, "constructor", Hid(O(oObject))), oArrayP, "constructor", Hid(O(oArray)))
    IN h7
Machine0(p) ==
    LET m0 == [p |-> p, c |-> <<"V", U>>, k |-> <<>>, env |-> 1, h |-> Heap0, j |-> <<>>, o |-> <<>>, pn |-> 0, main |-> TRUE,
               e |-> <<[t |-> "o", b |-> NoF, o |-> 0, ob |-> oGlobal]>>, n |-> 0]
        f == Len(Heap0) + 1
        m1 == MkFn(m0, Programs[p].main, 1, NL, "main", FnKind(N(m0, Programs[p].main)))
    IN Call(m1, O(f), U, <<>>)

Init == pi \in 1..Len(Programs) /\ m = Machine0(pi)
Next == /\ ~Finished(m) /\ m.n < MaxSteps /\ m.c[1] # "BAIL"
        /\ m' = [Step(m) EXCEPT !.n = m.n + 1]
        /\ pi' = pi
View == <<pi, m.n>>
Put(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Emit == (Finished(m) \/ m.n >= MaxSteps \/ m.c[1] = "BAIL") => Put([k |-> pi, r |-> IF Finished(m) THEN m.o ELSE <<"toolong">>, n |-> m.n])

(* ------------------------------------------------------------------ invariants of every state *)
\* the environment every frame returns to exists, and so does the current one
EnvsExist == /\ m.env \in 1..Len(m.e)
             /\ \A i \in 1..Len(m.k) : m.k[i][2] \in 1..Len(m.e)
\* at most one live activation of a coroutine, and it is on the stack exactly while marked running
Boundaries == {i \in 1..Len(m.k) : m.k[i][1] \in {"genb", "agb", "asb"}}
OneActivation == \A i, j \in Boundaries : m.k[i][3] = m.k[j][3] => i = j
RunningOnStack == \A i \in Boundaries : m.k[i][1] \in {"genb", "agb"} => m.h[m.k[i][3]].d.st = "run"
\* a settled promise has no reactions left, a pending one no value
PromiseShape == \A i \in 1..Len(m.h) : m.h[i].k = "prom" =>
                   IF m.h[i].d.st = "p" THEN m.h[i].d.v = U ELSE m.h[i].d.fr = <<>> /\ m.h[i].d.rr = <<>>
\* length exceeds every index
ArrayLength == \A i \in 1..Len(m.h) : m.h[i].k = "arr" =>
                   \A x \in DOMAIN m.h[i].ps : IsIdx(x) => IdxOf[x] < m.h[i].ps["length"][2][2]
KeysMatch == \A i \in 1..Len(m.h) : Len(m.h[i].ks) = Cardinality(DOMAIN m.h[i].ps)
\* promises settle once (action property)
SettleOnce == [][\A i \in 1..Len(m.h) : (m.h[i].k = "prom" /\ m.h[i].d.st # "p") =>
                    (m'.h[i].d.st = m.h[i].d.st /\ m'.h[i].d.v = m.h[i].d.v)]_m
\* observations are only ever appended
LogGrows == [][SubSeq(m'.o, 1, Len(m.o)) = m.o]_m
===========================================================================
