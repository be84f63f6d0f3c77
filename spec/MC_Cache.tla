------------------------------ MODULE MC_Cache ------------------------------
(***************************************************************************)
(* Why caching does not show: every trace object remembers the points its    *)
(* earlier selections found, one table for the whole process remembers the    *)
(* outcome of predicates.  Objects are created, copied, loaded over and freed *)
(* and their addresses are used again.  Each answer must be what a            *)
(* calculation from scratch would give.  The three switches are the design    *)
(* decisions this rests on; turning any of them off violates Fresh            *)
(* (MC_Cache_stale.cfg, _alias.cfg, _copy.cfg: expected to fail).             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Addrs, Contents, Sels, Preds,
          ClearOnLoad,     \* loading forgets the selections of the object
          KeyByValue,      \* predicate outcomes are kept per value, not per address
          CopyEmpty        \* a copy starts without selections (else: shares them later)
None == <<"none">>
VARIABLES mem,     \* address -> content or none
          sel,     \* address -> [selection -> answer or none]
          pred,    \* <<predicate, value or address>> -> answer
          last     \* what the last query returned and what it should have
vars == <<mem, sel, pred, last>>

\* the answers, as opaque values
Points(c, s) == <<"points", c, s>>
Truth(p, c) == <<"truth", p, c>>
Blank == [s \in Sels |-> None]
NoFn == [x \in {} |-> None]
Quiet == <<None, None>>

Init == mem = [a \in Addrs |-> "none"] /\ sel = [a \in Addrs |-> Blank] /\ pred = NoFn /\ last = Quiet

Make(a, c) == /\ mem[a] = "none" /\ mem' = [mem EXCEPT ![a] = c]
              /\ sel' = [sel EXCEPT ![a] = Blank] /\ last' = Quiet /\ UNCHANGED pred
Copy(a, b) == /\ mem[a] # "none" /\ mem[b] = "none" /\ mem' = [mem EXCEPT ![b] = mem[a]]
              /\ sel' = [sel EXCEPT ![b] = IF CopyEmpty THEN Blank ELSE sel[b]]
              /\ last' = Quiet /\ UNCHANGED pred
Load(a, c) == /\ mem[a] # "none" /\ mem' = [mem EXCEPT ![a] = c]
              /\ sel' = IF ClearOnLoad THEN [sel EXCEPT ![a] = Blank] ELSE sel
              /\ last' = Quiet /\ UNCHANGED pred
Free(a) == /\ mem[a] # "none" /\ mem' = [mem EXCEPT ![a] = "none"]
           /\ last' = Quiet /\ UNCHANGED <<sel, pred>>
Key(a, p) == <<p, IF KeyByValue THEN mem[a] ELSE a>>
Ask(a, s, p) ==
  /\ mem[a] # "none"
  /\ LET sa == IF sel[a][s] = None THEN Points(mem[a], s) ELSE sel[a][s]
         k  == Key(a, p)
         pa == IF k \in DOMAIN pred THEN pred[k] ELSE Truth(p, mem[a])
     IN  /\ sel' = [sel EXCEPT ![a][s] = sa]
         /\ pred' = (k :> pa) @@ pred
         /\ last' = << <<sa, pa>>, <<Points(mem[a], s), Truth(p, mem[a])>> >>
  /\ UNCHANGED mem
Next == \E a \in Addrs :
          \/ \E c \in Contents : Make(a, c) \/ Load(a, c)
          \/ \E b \in Addrs : Copy(a, b)
          \/ Free(a)
          \/ \E s \in Sels, p \in Preds : Ask(a, s, p)
Spec == Init /\ [][Next]_vars

Fresh == last[1] = last[2]
=============================================================================
