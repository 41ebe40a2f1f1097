------------------------------- MODULE Drv -------------------------------
(* Drives a deterministic specification of the form  Apply(op, state) = [s |-> new state,     *)
(* r |-> outcome]  in two ways, and writes what happens as JSON lines to IOEnv.OUT:           *)
(*  G: every operation of Ops(st) from every reachable state (the action constraint GLog      *)
(*     logs every transition; VIEW GView keeps the logged operation out of the state),        *)
(*  E: the operation sequences read from IOEnv.IN, one behaviour each (EDone logs each outcome).  *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Apply(_, _), Ops(_), InitStates, StartOf(_)
VARIABLES st,   \* the specified system's state
          ev,   \* last operation and its outcome
          dk, di  \* E: which program, next operation
dvars == <<st, ev, dk, di>>

Put(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Programs == ndJsonDeserialize(IOEnv.IN)

GInit == /\ st \in InitStates /\ ev = <<>> /\ dk = 0 /\ di = 0
         /\ Put([i |-> st])
GNext == /\ \E o \in Ops(st) : LET a == Apply(o, st) IN st' = a.s /\ ev' = <<o, a.r>>
         /\ UNCHANGED <<dk, di>>
GLog  == Put([f |-> st, o |-> ev'[1], r |-> ev'[2], t |-> st'])
GView == st

EInit == /\ dk \in 1..Len(Programs) /\ di = 1 /\ ev = <<>>
         /\ st = StartOf(Programs[dk].c)
ENext == /\ di <= Len(Programs[dk].ops)
         /\ LET o == Programs[dk].ops[di]
                a == Apply(o, st)
            IN st' = a.s /\ ev' = <<o, a.r>>
         /\ di' = di + 1 /\ dk' = dk
EDone == di > 1 => Put([k |-> dk, i |-> di - 1, r |-> ev[2]])
===========================================================================
