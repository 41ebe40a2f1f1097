------------------------------- MODULE Weak -------------------------------
(* Weak references, weak maps and sets and finalization registries over an object graph (ECMA-262 9.10 *)
(* Liveness, 24.3, 24.4, 26.1, 26.2).  After every operation all garbage is collected, so that the state *)
(* holds exactly the live objects: what is reachable from the variables and the registries, a weak map's  *)
(* value counting only while the map and its key are reachable (ephemerons).                              *)
EXTENDS Drv, Integers, SequencesExt, FiniteSets

\* a node: k kind ("o" object with two slots, "y" symbol, "w" WeakRef, "m" WeakMap, "s" WeakSet, "f" FinalizationRegistry, "x" collected),
\* p the slots (0: empty), t the target of a WeakRef (0: collected), e the entries <<key, value>> of a map, <<key, 0>> of a set
Node(k) == [k |-> k, p |-> <<0, 0>>, t |-> 0, e |-> <<>>]
\* v: the variables; reg: the registrations [f, t, h, ho, u]: registry, target, held number, held object, token
Live(s) == {i \in 1..Len(s.h) : s.h[i].k # "x"}
Regs(s) == {i \in 1..Len(s.h) : s.h[i].k = "f"}
Succ(s, S) == UNION {{s.h[i].p[1], s.h[i].p[2]} : i \in S} \cup
              UNION {{s.h[i].e[j][2] : j \in {j \in 1..Len(s.h[i].e) : s.h[i].e[j][1] \in S}} : i \in {i \in S : s.h[i].k = "m"}}
RECURSIVE Close(_, _)
Close(s, S) == LET T == (S \cup Succ(s, S)) \ {0} IN IF T = S THEN S ELSE Close(s, T)
Base(s) == ({s.v[i] : i \in 1..Len(s.v)} \cup Regs(s)) \ {0}
Held(s) == {s.reg[i].ho : i \in 1..Len(s.reg)} \ {0}
Reach(s) == Close(s, Base(s) \cup Held(s))

\* one collection
Swept(s, S) == [s EXCEPT
    !.h = [i \in 1..Len(s.h) |->
             IF i \notin S THEN [Node("x") EXCEPT !.k = "x"]
             ELSE [s.h[i] EXCEPT !.t = IF @ \in S THEN @ ELSE 0, !.e = SelectSeq(@, LAMBDA x : x[1] \in S)]],
    !.reg = [i \in 1..Len(SelectSeq(s.reg, LAMBDA r : r.t \in S)) |->
               LET r == SelectSeq(s.reg, LAMBDA q : q.t \in S)[i] IN [r EXCEPT !.u = IF @ \in S THEN @ ELSE 0]]]
Fired(s, S) == LET F == SelectSeq(s.reg, LAMBDA r : r.t \notin S) IN [i \in 1..Len(F) |-> <<F[i].f, IF F[i].ho # 0 THEN 1000 + F[i].ho ELSE F[i].h>>]
\* collections and callbacks until nothing more happens
RECURSIVE Collect(_, _)
Collect(s, acc) == LET S == Reach(s)
                       f == Fired(s, S)
                       n == Swept(s, S)
                   IN IF f = <<>> THEN <<n, acc>> ELSE Collect(n, acc \o f)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
R(s, r) == LET c == Collect(s, <<>>) IN [s |-> c[1], r |-> <<r, SortSeq(c[2], LAMBDA a, b : a # b /\ Before(a, b))>>]
None == <<"none">>
TypeError == <<"throw", "TypeError">>
Id(i) == IF i = 0 THEN <<"u">> ELSE <<"i", i>>
Bool(b) == <<"b", b>>

At(s, i) == IF i = 0 THEN 0 ELSE s.v[i]
K(s, i) == IF At(s, i) = 0 THEN "" ELSE s.h[At(s, i)].k
Set(s, k, id) == IF k = 0 THEN s ELSE [s EXCEPT !.v[k] = id]
New(s, k) == [s EXCEPT !.h = Append(@, Node(k))]
Entry(n, key) == SelectInSeq(n.e, LAMBDA x : x[1] = key)
PutE(n, key, val) == IF Entry(n, key) = 0 THEN [n EXCEPT !.e = Append(@, <<key, val>>)] ELSE [n EXCEPT !.e[Entry(n, key)] = <<key, val>>]
RemoveE(n, key) == [n EXCEPT !.e = SelectSeq(@, LAMBDA x : x[1] # key)]
Image(s) == LET S == Close(s, Base(s))
                Of(i) == LET n == s.h[i]
                             K1 == SelectSeq(n.e, LAMBDA x : x[1] \in S)
                         IN <<i, n.k, n.p, n.t, SortSeq(K1, LAMBDA a, b : a[1] < b[1])>>
            IN [j \in 1..Cardinality(S) |-> Of(SetToSortSeq(S, <)[j])]
WApply(x, s) ==
    CASE x.n = "new" -> R(Set(New(s, x.kind), x.i, Len(s.h) + 1), Id(Len(s.h) + 1))
      [] x.n = "mv" -> R(Set(s, x.i, At(s, x.j)), <<"u">>)
      [] x.n = "drop" -> R([s EXCEPT !.v = [i \in 1..Len(s.v) |-> IF Contains(x.l, i) THEN 0 ELSE s.v[i]]], <<"u">>)
      [] x.n = "walk" -> R(s, Image(s))
      \* slots
      [] x.n \in {"link", "foll"} /\ K(s, x.i) \in {"", "y"} -> R(s, None)
      [] x.n = "link" -> R([s EXCEPT !.h[At(s, x.i)].p[x.p] = At(s, x.j)], <<"u">>)
      [] x.n = "foll" -> R(Set(s, x.k, s.h[At(s, x.i)].p[x.p]), Id(s.h[At(s, x.i)].p[x.p]))
      \* WeakRef
      [] x.n = "wref" -> IF At(s, x.i) = 0 THEN R(s, TypeError)
                         ELSE R(Set([New(s, "w") EXCEPT !.h[Len(s.h) + 1].t = At(s, x.i)], x.k, Len(s.h) + 1), Id(Len(s.h) + 1))
      [] x.n = "deref" /\ K(s, x.i) # "w" -> R(s, None)
      [] x.n = "deref" -> R(Set(s, x.k, s.h[At(s, x.i)].t), Id(s.h[At(s, x.i)].t))
      \* WeakMap
      [] x.n \in {"mset", "mget", "mhas", "mdel"} /\ K(s, x.i) # "m" -> R(s, None)
      [] x.n = "mset" -> IF At(s, x.j) = 0 THEN R(s, TypeError) ELSE R([s EXCEPT !.h[At(s, x.i)] = PutE(@, At(s, x.j), At(s, x.k))], <<"u">>)
      [] x.n = "mhas" -> R(s, Bool(Entry(s.h[At(s, x.i)], At(s, x.j)) # 0))
      [] x.n = "mget" -> LET n == s.h[At(s, x.i)]
                             e == Entry(n, At(s, x.j))
                         IN IF e = 0 THEN R(Set(s, x.k, 0), <<"u">>) ELSE R(Set(s, x.k, n.e[e][2]), Id(n.e[e][2]))
      [] x.n = "mdel" -> R([s EXCEPT !.h[At(s, x.i)] = RemoveE(@, At(s, x.j))], Bool(Entry(s.h[At(s, x.i)], At(s, x.j)) # 0))
      \* WeakSet
      [] x.n \in {"sadd", "shas", "sdel"} /\ K(s, x.i) # "s" -> R(s, None)
      [] x.n = "sadd" -> IF At(s, x.j) = 0 THEN R(s, TypeError) ELSE R([s EXCEPT !.h[At(s, x.i)] = PutE(@, At(s, x.j), 0)], <<"u">>)
      [] x.n = "shas" -> R(s, Bool(Entry(s.h[At(s, x.i)], At(s, x.j)) # 0))
      [] x.n = "sdel" -> R([s EXCEPT !.h[At(s, x.i)] = RemoveE(@, At(s, x.j))], Bool(Entry(s.h[At(s, x.i)], At(s, x.j)) # 0))
      \* FinalizationRegistry: held value is the number x.h, or the object in variable x.ho
      [] x.n \in {"reg", "unreg"} /\ (x.i > Cardinality(Regs(s)) \/ x.i = 0) -> R(s, None)
      [] x.n = "reg" -> LET f == SetToSortSeq(Regs(s), <)[x.i]
                        IN IF At(s, x.j) = 0 \/ (x.ho # 0 /\ At(s, x.ho) = At(s, x.j)) THEN R(s, TypeError)
                           ELSE R([s EXCEPT !.reg = Append(@, [f |-> f, t |-> At(s, x.j), h |-> x.h, ho |-> At(s, x.ho), u |-> At(s, x.k)])], <<"u">>)
      [] x.n = "unreg" -> LET f == SetToSortSeq(Regs(s), <)[x.i]
                              u == At(s, x.j)
                          IN IF u = 0 THEN R(s, TypeError)
                             ELSE R([s EXCEPT !.reg = SelectSeq(@, LAMBDA r : ~(r.f = f /\ r.u = u))],
                                    Bool(\E i \in 1..Len(s.reg) : s.reg[i].f = f /\ s.reg[i].u = u))
WStart(c) == [h |-> <<>>, v |-> [i \in 1..c |-> 0], reg |-> <<>>]

(* ------------------------------ properties ------------------------------ *)
\* nothing that is reachable was collected, nothing that is not was kept
Exact == Live(st) = Reach(st)
\* no slot, entry, target, registration names a collected object
Closed == LET L == Live(st) \cup {0}
          IN /\ \A i \in Live(st) : {st.h[i].p[1], st.h[i].p[2], st.h[i].t} \subseteq L /\ \A j \in 1..Len(st.h[i].e) : {st.h[i].e[j][1], st.h[i].e[j][2]} \subseteq L
             /\ \A j \in 1..Len(st.reg) : {st.reg[j].t, st.reg[j].ho, st.reg[j].u, st.reg[j].f} \subseteq L
\* a collected object never comes back
Dead == [][\A i \in 1..Len(st.h) : st.h[i].k = "x" => st'.h[i].k = "x"]_dvars
\* a registration ends by unregister or by exactly one callback, when its target is collected
Once == [][LET f == ev'[2][2]
           IN IF di' # di + 1 /\ dk' = dk THEN TRUE
              ELSE Len(st'.reg) <= Len(st.reg) + 1 /\ (ev'[1].n # "unreg" => Len(st.reg) + (IF ev'[1].n = "reg" /\ ev'[2][1] = <<"u">> THEN 1 ELSE 0) = Len(st'.reg) + Len(f))]_dvars

(* ------------------------- small exhaustive model ------------------------ *)

V == 1..2
SOps(s) == (IF Len(s.h) < 3 THEN {[n |-> "new", i |-> i, kind |-> "o"] : i \in V} ELSE {})
           \cup {[n |-> "drop", l |-> <<i>>] : i \in V}
           \cup {[n |-> "link", i |-> 1, p |-> 1, j |-> 2], [n |-> "link", i |-> 2, p |-> 1, j |-> 1], [n |-> "link", i |-> 2, p |-> 1, j |-> 2]}
           \cup {[n |-> "foll", i |-> i, p |-> 1, k |-> 3 - i] : i \in V}
           \cup {[n |-> "mset", i |-> 1, j |-> j, k |-> k] : j \in V, k \in V}
           \cup {[n |-> "mget", i |-> 1, j |-> j, k |-> 2] : j \in V}
           \cup {[n |-> "mdel", i |-> 1, j |-> j] : j \in V}
SInit == {[WStart(2) EXCEPT !.h = <<Node("m")>>, !.v = <<1, 0>>]}
\* registrations: two variables, one registry made first
FOps(s) == (IF Len(s.h) < 3 THEN {[n |-> "new", kind |-> "o", i |-> i] : i \in V} ELSE {})
           \cup {[n |-> "drop", l |-> <<i>>] : i \in V} \cup {[n |-> "mv", i |-> i, j |-> 3 - i] : i \in V}
           \cup {[n |-> "link", i |-> i, p |-> 1, j |-> j] : i \in V, j \in V}
           \cup (IF Len(s.reg) < 2 THEN {[n |-> "reg", i |-> 1, j |-> j, h |-> Len(s.reg) + 1, ho |-> o, k |-> k] : j \in V, o \in {0, 1}, k \in {0, 2}} ELSE {})
           \cup {[n |-> "unreg", i |-> 1, j |-> j] : j \in V}
FInit == {[WStart(2) EXCEPT !.h = <<Node("f")>>]}
NoOps(s) == {}
NoInit == {}
===========================================================================
