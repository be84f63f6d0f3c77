-------------------------------- MODULE Own --------------------------------
(***************************************************************************)
(* Lifetimes.  Contents of variables (blobs in particular) are shared: equal *)
(* contents are one cell, counted by the variables which refer to it, and    *)
(* released with the last of them.  Traces, stand-alone or in a database,    *)
(* own references to cells; copies own references of their own.  What        *)
(* get_points and query_trace hand out is storage of the caller: everything  *)
(* in it is a copy, except that blob contents are still the trace's.         *)
(*                                                                          *)
(* A failed reading has taken references for what it had read and gives them  *)
(* back.  Switching one of the decisions off (Counted, GivesBack, Copied)     *)
(* has to violate an invariant.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Traces,      \* handles
          Results,     \* handles
          Cells,       \* possible contents
          Files,       \* file -> [ok, cells]: what reading it refers to, and whether it succeeds
          Counted,     \* a copy counts its references
          GivesBack,   \* a failed reading releases what it has read
          Copied,      \* results are storage of their own
          Emitting

VARIABLES refs,        \* cell -> number of references counted
          traces,      \* live traces: handle -> file they come from
          results,     \* live results: handle -> [src, file]; src: the trace they were taken from
          gone         \* results whose storage has been released under them (a fault)
vars == <<refs, traces, results, gone>>

NoFn == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

\* TLC configurations cannot write records: files are numbers, 0 is rejected half-way
Ok(f) == f # 0
CellsOf(f) == CASE f = 0 -> {1, 2} [] f = 1 -> {1} [] f = 2 -> {1, 2} [] OTHER -> {}

Init == refs = [c \in Cells |-> 0] /\ traces = NoFn /\ results = NoFn /\ gone = {}

Take(r, f) == [c \in Cells |-> IF c \in CellsOf(f) THEN r[c] + 1 ELSE r[c]]
Give(r, f) == [c \in Cells |-> IF c \in CellsOf(f) /\ r[c] > 0 THEN r[c] - 1 ELSE r[c]]

St == <<traces, results>>
Note(op) == Emitting => PrintT("EDGE " \o ToJson(<<ToString(St), op, ToString(St')>>))

Read(t, f) ==
  /\ t \notin DOMAIN traces
  /\ IF Ok(f) THEN refs' = Take(refs, f) /\ traces' = Put(traces, t, f)
     ELSE refs' = (IF GivesBack THEN refs ELSE Take(refs, f)) /\ UNCHANGED traces
  /\ UNCHANGED <<results, gone>> /\ Note(<<"R", t, f>>)
Copy(t, u) ==
  /\ t \in DOMAIN traces /\ u \notin DOMAIN traces
  /\ refs' = IF Counted THEN Take(refs, traces[t]) ELSE refs
  /\ traces' = Put(traces, u, traces[t])
  /\ UNCHANGED <<results, gone>> /\ Note(<<"TK", u, t>>)
\* a result whose trace is freed keeps its own storage; its source is nobody
Free(t) ==
  /\ t \in DOMAIN traces
  /\ refs' = Give(refs, traces[t])
  /\ traces' = Drop(traces, t)
  /\ results' = [r \in DOMAIN results |-> IF results[r].src = t THEN [results[r] EXCEPT !.src = 0] ELSE results[r]]
  /\ gone' = IF Copied THEN gone ELSE gone \cup {r \in DOMAIN results : results[r].src = t}
  /\ Note(<<"X", t>>)
Get(r, t) ==
  /\ t \in DOMAIN traces /\ r \notin DOMAIN results
  /\ results' = Put(results, r, [src |-> t, file |-> traces[t]])
  /\ UNCHANGED <<refs, traces, gone>> /\ Note(<<"HP", r, t>>)
\* looking at a result: blob contents too while its trace lives
Look(r) ==
  /\ r \in DOMAIN results /\ UNCHANGED vars /\ Note(<<"HD", r, results[r].src # 0>>)
Release(r) ==
  /\ r \in DOMAIN results
  /\ results' = Drop(results, r) /\ gone' = gone \ {r}
  /\ UNCHANGED <<refs, traces>> /\ Note(<<"HX", r>>)

Next == \/ \E t \in Traces, f \in Files : Read(t, f)
        \/ \E t, u \in Traces : Copy(t, u)
        \/ \E t \in Traces : Free(t)
        \/ \E r \in Results, t \in Traces : Get(r, t)
        \/ \E r \in Results : Look(r) \/ Release(r)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Alive(c) == refs[c] > 0
\* C19: what a live trace or a result of a live trace refers to is there
Valid == /\ \A t \in DOMAIN traces : \A c \in CellsOf(traces[t]) : Alive(c)
         /\ \A r \in DOMAIN results : results[r].src # 0 => \A c \in CellsOf(results[r].file) : Alive(c)
\* C19: a result is there until it is released
Owned == \A r \in DOMAIN results : r \notin gone
\* C20: every cell is counted exactly, so nothing stays behind
Exact == \A c \in Cells : refs[c] = Cardinality({t \in DOMAIN traces : c \in CellsOf(traces[t])})
Nothing == DOMAIN traces = {} => \A c \in Cells : ~Alive(c)
Small == \A c \in Cells : refs[c] < 6
Bounded == \A c \in Cells : refs[c] <= Cardinality(Traces)
=============================================================================
