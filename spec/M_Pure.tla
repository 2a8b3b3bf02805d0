------------------------------- MODULE M_Pure -------------------------------
(***************************************************************************)
(* Model for C28: calls made by several threads, step by step, in every    *)
(* order.  A call works in a frame of its own and may remember the results *)
(* of earlier calls under a key that tells all arguments apart; then every *)
(* call ends with the result that belongs to its argument, whatever the    *)
(* threads did before and do meanwhile.  (With one frame for all, or a key *)
(* that does not tell arguments apart, TLC finds a wrong result: set       *)
(* OneFrame or Coarse to TRUE.)                                            *)
(*                                                                         *)
(* What is emitted are the schedules: how many steps each thread does      *)
(* before another one goes on.  They are played back on the real code.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS Threads, Steps, Args, OneFrame, Coarse
VARIABLES arg, pc, frame, memo, result, sched
vars == << arg, pc, frame, memo, result, sched >>

\* What a call computes: Steps times x -> 2x + its argument
RECURSIVE Value(_, _)
Value(a, n) == IF n = 0 THEN 1 ELSE 2 * Value(a, n - 1) + a
Right(a) == Value(a, Steps)

Frame(t) == IF OneFrame THEN 0 ELSE t
Key(a) == IF Coarse THEN a % 2 ELSE a
None == 1000000

Init == /\ arg \in [Threads -> Args]
        /\ pc = [t \in Threads |-> 0]
        /\ frame = [f \in Threads \cup {0} |-> 1]
        /\ memo = [k \in Args \cup {0, 1} |-> None]
        /\ result = [t \in Threads |-> << >>]
        /\ sched = << >>
Slice(t) == IF sched # << >> /\ sched[Len(sched)].t = t
            THEN [sched EXCEPT ![Len(sched)].n = @ + 1]
            ELSE Append(sched, [t |-> t, n |-> 1])
\* A call: enter (or take what is remembered), Steps steps, leave
Step(t) ==
  /\ result[t] = << >>
  /\ sched' = Slice(t)
  /\ UNCHANGED arg
  /\ IF pc[t] = 0 /\ memo[Key(arg[t])] # None
     THEN result' = [result EXCEPT ![t] = << memo[Key(arg[t])] >>] /\ UNCHANGED << pc, frame, memo >>
     ELSE IF pc[t] = 0
     THEN frame' = [frame EXCEPT ![Frame(t)] = 1] /\ pc' = [pc EXCEPT ![t] = 1] /\ UNCHANGED << memo, result >>
     ELSE IF pc[t] <= Steps
     THEN frame' = [frame EXCEPT ![Frame(t)] = 2 * @ + arg[t]] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED << memo, result >>
     ELSE /\ result' = [result EXCEPT ![t] = << frame[Frame(t)] >>]
          /\ memo' = [memo EXCEPT ![Key(arg[t])] = frame[Frame(t)]]
          /\ UNCHANGED << pc, frame >>
Done == \A t \in Threads : result[t] # << >>
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
RightResults == \A t \in Threads : result[t] # << >> => result[t] = << Right(arg[t]) >>
RightMemory == \A a \in Args : memo[Key(a)] # None => memo[Key(a)] = Right(a)
Emit == Done => PrintT("@" \o ToJson([op |-> "sched", slices |-> [i \in 1..Len(sched) |-> sched[i].n]]))
=============================================================================
