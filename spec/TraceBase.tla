----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Checking recorded executions of the real code against the               *)
(* specification.                                                          *)
(*                                                                         *)
(* The file named by the environment variable VERIF_TRACE holds one        *)
(* session per line: a sequence of events, each a call with its arguments  *)
(* a and its observed outcome r.  Every session starts in StartState and   *)
(* is followed event by event: Failing(st, ev) is the set of clauses of    *)
(* the specification that the observed outcome breaks in specification     *)
(* state st, and After(st, ev) is the specification state after the call.  *)
(* A failing clause is printed; checking goes on, so that one run reports  *)
(* every event that the specification does not allow.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS StartState(_), Failing(_, _), After(_, _)

Sessions == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES s, i, st
vars == << s, i, st >>

Init == /\ s \in 1..Len(Sessions)
        /\ i = 0
        /\ st = StartState(Sessions[s].h)

Report(ev, names) ==
  \A n \in names : PrintT("FAIL " \o ToString(s) \o " " \o ToString(i + 1) \o " " \o n)

Next == /\ i < Len(Sessions[s].e)
        /\ LET ev == Sessions[s].e[i + 1]
               broken == "broken" \in DOMAIN ev
           IN  /\ Report(ev, IF broken THEN {IOEnv.VERIF_PROP \o ":the objects for this call cannot be made"}
                             ELSE Failing(st, ev))
               /\ st' = IF broken THEN st ELSE After(st, ev)
        /\ i' = i + 1
        /\ UNCHANGED s

Spec == Init /\ [][Next]_vars

\* For specifications whose calls do not depend on earlier ones
NoState(h) == 0
SameState(t, ev) == t
=============================================================================
