------------------------------ MODULE MapSet ------------------------------
(* Map and Set as insertion-ordered tables with live iterators (ECMA-262 24.1, 24.2).          *)
(* A state is [e |-> sequence of <<key, value>>, t |-> iterator slots].  An iterator is         *)
(* [p |-> n] with n the number of live entries it has passed, or p = -1: finished,              *)
(* p = -2: no iterator in the slot.  Deleting an entry before an iterator's position moves      *)
(* the position back: this is the specification's list with empty slots, with the empty         *)
(* slots squeezed out.                                                                          *)
EXTENDS Drv, Integers, FiniteSets
CONSTANTS Keys, Vals, NIter

Idx(e, key) == IF \E j \in 1..Len(e) : e[j][1] = key
               THEN CHOOSE j \in 1..Len(e) : e[j][1] = key ELSE 0
Without(e, j) == SubSeq(e, 1, j - 1) \o SubSeq(e, j + 1, Len(e))

Set(s, key, v) ==
    LET j == Idx(s.e, key)
    IN IF j = 0 THEN [s EXCEPT !.e = Append(@, <<key, v>>)] ELSE [s EXCEPT !.e[j][2] = v]
Del(s, key) ==
    LET j == Idx(s.e, key)
    IN IF j = 0 THEN s
       ELSE [e |-> Without(s.e, j),
             t |-> [n \in DOMAIN s.t |-> IF s.t[n] >= j THEN s.t[n] - 1 ELSE s.t[n]]]
Clear(s) == [e |-> <<>>, t |-> [n \in DOMAIN s.t |-> IF s.t[n] > 0 THEN 0 ELSE s.t[n]]]
Next1(s, n) ==   \* one step of iterator n
    IF s.t[n] = -2 THEN [s |-> s, d |-> TRUE, r |-> "none"]
    ELSE IF s.t[n] = -1 THEN [s |-> s, d |-> TRUE, r |-> "done"]
    ELSE IF s.t[n] >= Len(s.e) THEN [s |-> [s EXCEPT !.t[n] = -1], d |-> TRUE, r |-> "done"]
    ELSE [s |-> [s EXCEPT !.t[n] = @ + 1], d |-> FALSE, r |-> s.e[s.t[n] + 1]]

\* forEach: the callback performs op m (a set or a delete) at its nth call
Mut(s, m) == IF m[1] = "set" THEN Set(s, m[2], m[3]) ELSE IF m[1] = "del" THEN Del(s, m[2])
             ELSE IF m[1] = "clear" THEN Clear(s) ELSE s
RECURSIVE Each(_, _, _, _, _)
Each(s, n, at, m, log) ==
    \* the hidden iterator lives in slot 0 of the extended table
    LET a == Next1(s, 0)
    IN IF a.d THEN [s |-> s, r |-> log]
       ELSE LET s2 == IF n = at THEN Mut(a.s, m) ELSE a.s
            IN Each(s2, n + 1, at, m, Append(log, a.r))
ForEach(s, at, m) ==
    LET x == [s EXCEPT !.t = [n \in (DOMAIN s.t) \cup {0} |-> IF n = 0 THEN 0 ELSE s.t[n]]]
        y == Each(x, 1, at, m, <<>>)
    IN [s |-> [y.s EXCEPT !.t = [n \in DOMAIN s.t |-> y.s.t[n]]], r |-> y.r]

MSApply(o, s) ==
    CASE o.n = "set"   -> [s |-> Set(s, o.k, o.v), r |-> "self"]
      [] o.n = "del"   -> [s |-> Del(s, o.k), r |-> Idx(s.e, o.k) # 0]
      [] o.n = "clear" -> [s |-> Clear(s), r |-> "undefined"]
      [] o.n = "has"   -> [s |-> s, r |-> Idx(s.e, o.k) # 0]
      [] o.n = "get"   -> [s |-> s, r |-> IF Idx(s.e, o.k) = 0 THEN "undefined" ELSE s.e[Idx(s.e, o.k)][2]]
      [] o.n = "size"  -> [s |-> s, r |-> Len(s.e)]
      [] o.n = "all"   -> [s |-> s, r |-> s.e]
      [] o.n = "iter"  -> [s |-> [s EXCEPT !.t[o.i] = 0], r |-> "iter"]
      [] o.n = "next"  -> Next1(s, o.i)
      [] o.n = "each"  -> ForEach(s, o.at, o.m)

Muts == {<<"set", key, v>> : key \in Keys, v \in Vals} \cup {<<"del", key>> : key \in Keys} \cup {<<"clear">>}
MSOps(s) ==
    {[n |-> "set", k |-> key, v |-> v] : key \in Keys, v \in Vals}
    \cup {[n |-> "del", k |-> key] : key \in Keys}
    \cup {[n |-> "has", k |-> key] : key \in Keys}
    \cup {[n |-> "get", k |-> key] : key \in Keys}
    \cup {[n |-> "clear"], [n |-> "size"], [n |-> "all"]}
    \cup {[n |-> "iter", i |-> j] : j \in 1..NIter}
    \cup {[n |-> "next", i |-> j] : j \in 1..NIter}
    \cup {[n |-> "each", at |-> a, m |-> m] : a \in 1..2, m \in Muts}
Empty == [e |-> <<>>, t |-> [j \in 1..NIter |-> -2]]
MSInit == {Empty}
MSStart(c) == Empty

(* Invariants *)
KeysDistinct == \A a, b \in 1..Len(st.e) : st.e[a][1] = st.e[b][1] => a = b
IterInRange  == \A n \in DOMAIN st.t : st.t[n] \in -2..Len(st.e)
(* An entry keeps its rank relative to the others for as long as it lives (action property). *)
OrderStable  == [][\A a, b \in 1..Len(st.e) :
                     (a < b /\ Idx(st'.e, st.e[a][1]) # 0 /\ Idx(st'.e, st.e[b][1]) # 0
                        /\ ev'[1].n \notin {"each"})
                     => Idx(st'.e, st.e[a][1]) < Idx(st'.e, st.e[b][1])]_st
(* A finished iterator stays finished until it is replaced. *)
DoneStays    == [][\A n \in DOMAIN st.t : st.t[n] = -1 => (st'.t[n] = -1 \/ ev'[1].n = "iter")]_st
===========================================================================
