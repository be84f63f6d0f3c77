------------------------------- MODULE TraceDB -------------------------------
(***************************************************************************)
(* The database as a state machine: databases are append-only sequences of  *)
(* traces, threads add traces to them, databases are serialized to texts     *)
(* and restored from them, stand-alone traces are read and freed.            *)
(*                                                                          *)
(* An addition is three steps, as in the code: the file is read without any  *)
(* lock (the outcome is a function of the file alone), the trace is appended *)
(* in one critical section, the caller gets the result.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES dbs,      \* live databases: handle -> sequence of entries [id, tr]
          solo,     \* live stand-alone traces: handle -> entry
          texts,    \* serialized databases: handle -> sequence of entries
          flight    \* additions in progress: thread -> [db, out, st]
dbvars == <<dbs, solo, texts, flight>>

NoFn == [x \in {} |-> <<>>]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

DBInit == dbs = NoFn /\ solo = NoFn /\ texts = NoFn /\ flight = NoFn

\* The outcome of reading a file: [ok |-> BOOLEAN, tr |-> trace]
Entry(id, out) == [id |-> id, tr |-> out.tr]

CreateDB(d) == /\ d \notin DOMAIN dbs
               /\ dbs' = Put(dbs, d, <<>>) /\ UNCHANGED <<solo, texts, flight>>
FreeDB(d) == /\ d \in DOMAIN dbs
             /\ \A t \in DOMAIN flight : flight[t].db # d
             /\ dbs' = Drop(dbs, d) /\ UNCHANGED <<solo, texts, flight>>

\* One addition without concurrency
Add(d, id, out, ret) ==
  /\ d \in DOMAIN dbs /\ ret = out.ok
  /\ dbs' = IF out.ok THEN Put(dbs, d, Append(dbs[d], Entry(id, out))) ELSE dbs
  /\ UNCHANGED <<solo, texts, flight>>

\* The same in steps
AddBegin(t, d, id, out) ==
  /\ d \in DOMAIN dbs /\ t \notin DOMAIN flight
  /\ flight' = Put(flight, t, [db |-> d, id |-> id, out |-> out, st |-> "reading"])
  /\ UNCHANGED <<dbs, solo, texts>>
AddCommit(t) ==
  /\ t \in DOMAIN flight /\ flight[t].st = "reading" /\ flight[t].out.ok
  /\ LET d == flight[t].db IN
     dbs' = Put(dbs, d, Append(dbs[d], Entry(flight[t].id, flight[t].out)))
  /\ flight' = [flight EXCEPT ![t].st = "done"]
  /\ UNCHANGED <<solo, texts>>
AddReject(t) ==
  /\ t \in DOMAIN flight /\ flight[t].st = "reading" /\ ~flight[t].out.ok
  /\ flight' = [flight EXCEPT ![t].st = "failed"]
  /\ UNCHANGED <<dbs, solo, texts>>
AddEnd(t, ret) ==
  /\ t \in DOMAIN flight /\ flight[t].st = (IF ret THEN "done" ELSE "failed")
  /\ flight' = Drop(flight, t)
  /\ UNCHANGED <<dbs, solo, texts>>

ReadSolo(h, id, out, ret) ==
  /\ h \notin DOMAIN solo /\ ret = out.ok
  /\ solo' = IF out.ok THEN Put(solo, h, Entry(id, out)) ELSE solo
  /\ UNCHANGED <<dbs, texts, flight>>
FreeSolo(h) == h \in DOMAIN solo /\ solo' = Drop(solo, h) /\ UNCHANGED <<dbs, texts, flight>>

\* Traces and databases made from objects: a trace given by its contents, a
\* trace object added, copies
Build(h, id, tr) == /\ h \notin DOMAIN solo
                    /\ solo' = Put(solo, h, [id |-> id, tr |-> tr]) /\ UNCHANGED <<dbs, texts, flight>>
AddObject(d, en) == /\ d \in DOMAIN dbs
                    /\ dbs' = Put(dbs, d, Append(dbs[d], en)) /\ UNCHANGED <<solo, texts, flight>>
CopyDB(d, c) == /\ d \in DOMAIN dbs /\ c \notin DOMAIN dbs
                /\ dbs' = Put(dbs, c, dbs[d]) /\ UNCHANGED <<solo, texts, flight>>

SaveDB(d, x) == /\ d \in DOMAIN dbs
                   /\ texts' = Put(texts, x, dbs[d]) /\ UNCHANGED <<dbs, solo, flight>>
LoadDB(x, d) == /\ x \in DOMAIN texts /\ d \notin DOMAIN dbs
                 /\ dbs' = Put(dbs, d, texts[x]) /\ UNCHANGED <<solo, texts, flight>>
=============================================================================
