------------------------------ MODULE ObjGraph ------------------------------
(* Exhaustive small graphs of Objects: one property of one object under every partial descriptor,  *)
(* and one small array.                                                                            *)
EXTENDS Objects
Op0(n) == [n |-> n, o |-> 1]
OpK(n, key) == [n |-> n, o |-> 1, k |-> key]
Tri == {<<>>, <<TRUE>>, <<FALSE>>}
Vs == {<<>>, <<N(1)>>, <<N(2)>>}
Fs == {<<>>, <<U>>, <<<<"f", "p">>>>}
AllPds == {Pd(v, w, <<>>, <<>>, e, c) : v \in Vs, w \in Tri, e \in Tri, c \in Tri}
          \cup {Pd(<<>>, <<>>, g, s, e, c) : g \in Fs, s \in Fs, e \in Tri, c \in Tri}
          \cup {Pd(<<N(1)>>, <<>>, <<U>>, <<>>, <<>>, <<>>), Pd(<<>>, <<TRUE>>, <<>>, <<U>>, <<>>, <<>>)}
PInit == {Heap(<<<<"obj", 0>>>>)}
POps(s) == {[n |-> "def", o |-> 1, k |-> "a", d |-> d] : d \in AllPds}
           \cup {[n |-> nm, o |-> 1, k |-> "a", v |-> N(3)] : nm \in {"put", "puts"}}
           \cup {OpK(nm, "a") : nm \in {"del", "dels", "gopd", "has"}}
           \cup {Op0(nm) : nm \in {"pe", "freeze", "seal", "isfrozen", "issealed", "keys", "okeys", "ie"}}
           \cup {[n |-> "get", o |-> 1, k |-> "a", rc |-> <<"o", 1>>]}
\* the graph's values stay in {u, 1, 2}: put writes 3, which the next operations keep or replace

AInit == {Heap(<<<<"arr", 0>>>>)}
AKeys == {"0", "1"}
EPds == {ValPd(N(1)), Pd(<<>>, <<>>, <<U>>, <<>>, <<>>, <<>>), Pd(<<>>, <<>>, <<>>, <<>>, <<>>, <<FALSE>>)}
LPds == {Pd(v, w, <<>>, <<>>, <<>>, <<>>) : v \in {<<>>, <<N(0)>>, <<N(1)>>, <<N(2)>>, <<N(3)>>}, w \in Tri}
        \cup {Pd(<<>>, <<>>, <<U>>, <<>>, <<>>, <<>>), Pd(<<>>, <<>>, <<>>, <<>>, <<TRUE>>, <<>>), Pd(<<>>, <<>>, <<>>, <<>>, <<>>, <<TRUE>>)}
AOps(s) == {[n |-> "def", o |-> 1, k |-> key, d |-> d] : key \in AKeys, d \in EPds}
           \cup {[n |-> "def", o |-> 1, k |-> "length", d |-> d] : d \in LPds}
           \cup {[n |-> "put", o |-> 1, k |-> key, v |-> N(1)] : key \in AKeys}
           \cup {[n |-> nm, o |-> 1, k |-> "length", v |-> N(i)] : nm \in {"put", "puts"}, i \in 0..2}
           \cup {OpK("del", key) : key \in AKeys}
           \cup {Op0(nm) : nm \in {"pe", "keys", "oents"}}
           \cup {OpK("gopd", "length")}
=============================================================================
