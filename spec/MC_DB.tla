------------------------------- MODULE MC_DB -------------------------------
(***************************************************************************)
(* Small instances of the database: every history of a few databases, files, *)
(* texts and threads.  The transitions (Emitting) and long random histories   *)
(* (Sim) are replayed in the implementation.                                  *)
(***************************************************************************)
EXTENDS TraceDB, Integers, SequencesExt, Json

CONSTANTS DBs, Good, Bad, Missing,      \* databases, files, paths
          Texts, Solos, Threads,        \* texts, stand-alone traces, threads
          Queries,                      \* queries (they leave no mark)
          MaxLen,                       \* traces per database
          MaxOps,                       \* additions per thread
          Emitting, Sim, Depth

VARIABLES hist,     \* the operations so far (Sim only)
          began,    \* addition -> the additions which had ended when it began
          ended,    \* additions that have ended
          succ      \* those of them which reported success
vars == <<dbvars, hist, began, ended, succ>>

Out(f) == IF f \in Good THEN [ok |-> TRUE, tr |-> f] ELSE [ok |-> FALSE, tr |-> <<>>]

Init == DBInit /\ hist = <<>> /\ began = NoFn /\ ended = {} /\ succ = {}

Room(d) == d \in DOMAIN dbs /\ Len(dbs[d]) < MaxLen

Content(f) == [k \in DOMAIN f |-> [i \in 1..Len(f[k]) |-> f[k][i].id]]
St(a, b, c) == <<Content(a), Content(b), [k \in DOMAIN c |-> c[k].id]>>
Note(op) == /\ (Emitting => PrintT("EDGE " \o ToJson(<<ToString(St(dbs, texts, solo)), op,
                                                     ToString(St(dbs', texts', solo'))>>)))
            /\ hist' = IF Sim THEN Append(hist, op) ELSE hist
Seq1 == UNCHANGED <<began, ended, succ>>

DoCreate == \E d \in DBs : CreateDB(d) /\ Seq1 /\ Note(<<"D", d>>)
DoFree == \E d \in DBs : FreeDB(d) /\ Seq1 /\ Note(<<"XD", d>>)
DoAdd == \E d \in DBs, f \in Good \cup Bad :
           Room(d) /\ Add(d, f, Out(f), Out(f).ok) /\ Seq1 /\ Note(<<"A", d, f>>)
DoMiss == \E d \in DBs, f \in Missing :
            Room(d) /\ Add(d, f, Out(f), FALSE) /\ Seq1 /\ Note(<<"AM", d, f>>)
DoRead == \E h \in Solos, f \in Good \cup Bad :
            ReadSolo(h, f, Out(f), Out(f).ok) /\ Seq1 /\ Note(<<"R", h, f>>)
DoDrop == \E h \in Solos : FreeSolo(h) /\ Seq1 /\ Note(<<"X", h>>)
DoSave == \E d \in DBs, x \in Texts : SaveDB(d, x) /\ Seq1 /\ Note(<<"S", d, x>>)
DoLoad == \E d \in DBs, x \in Texts : LoadDB(x, d) /\ Seq1 /\ Note(<<"U", x, d>>)
DoQuery == \E d \in DBs, q \in Queries :
             /\ d \in DOMAIN dbs /\ \E i \in 1..Len(dbs[d]) : Note(<<"Q", d, i - 1, q>>)
             /\ UNCHANGED dbvars /\ Seq1

\* concurrent additions; the n-th one of thread t is called <<t, n>>
Count(t) == Cardinality({a \in DOMAIN began : a[1] = t})
DoBegin == \E t \in Threads, d \in DBs, f \in Good \cup Bad :
             LET a == <<t, Count(t) + 1>> IN
             /\ Count(t) < MaxOps /\ AddBegin(t, d, a, Out(f))
             /\ began' = Put(began, a, ended) /\ UNCHANGED <<ended, succ>>
             /\ hist' = IF Sim THEN Append(hist, <<"AB", t, d, f>>) ELSE hist
DoCommit == \E t \in Threads :
              /\ AddCommit(t) \/ AddReject(t)
              /\ Seq1 /\ hist' = IF Sim THEN Append(hist, <<"AC", t>>) ELSE hist
DoEnd == \E t \in Threads, r \in BOOLEAN :
           /\ AddEnd(t, r) /\ UNCHANGED began
           /\ ended' = ended \cup {flight[t].id}
           /\ succ' = IF r THEN succ \cup {flight[t].id} ELSE succ
           /\ hist' = IF Sim THEN Append(hist, <<"AE", t>>) ELSE hist

SeqNext == DoCreate \/ DoFree \/ DoAdd \/ DoMiss \/ DoRead \/ DoDrop \/ DoSave \/ DoLoad \/ DoQuery
SeqSpec == Init /\ [][SeqNext]_vars

ConInit == /\ dbs = [d \in DBs |-> <<>>] /\ solo = NoFn /\ texts = NoFn /\ flight = NoFn
           /\ hist = <<>> /\ began = NoFn /\ ended = {} /\ succ = {}
ConNext == DoBegin \/ DoCommit \/ DoEnd
ConSpec == ConInit /\ [][ConNext]_vars /\ WF_vars(DoCommit \/ DoEnd)

-----------------------------------------------------------------------------
\* C14: as long as a database lives it only grows at the end
AppendOnly == [][\A d \in DOMAIN dbs \cap DOMAIN dbs' : IsPrefix(dbs[d], dbs'[d])]_vars
\* C14: an operation touches one database only
OneAtATime == [][Cardinality({d \in DBs : (d \in DOMAIN dbs) # (d \in DOMAIN dbs')
                                \/ (d \in DOMAIN dbs /\ d \in DOMAIN dbs' /\ dbs[d] # dbs'[d])}) <= 1]_vars
\* C12: a text is unaffected by anything but being written
TextsStay == [][\A x \in DOMAIN texts : x \in DOMAIN texts' /\
                  (texts'[x] # texts[x] => \E d \in DOMAIN dbs : texts'[x] = dbs[d])]_vars
OnlyGood == \A d \in DOMAIN dbs : \A i \in 1..Len(dbs[d]) : dbs[d][i].tr \in Good

\* C13
Entries(d) == {dbs[d][i].id : i \in 1..Len(dbs[d])}
Once == \A d, c \in DOMAIN dbs : \A i \in 1..Len(dbs[d]), j \in 1..Len(dbs[c]) :
          dbs[d][i].id = dbs[c][j].id => d = c /\ i = j
Complete == \A a \in ended : (a \in succ) <=> \E d \in DOMAIN dbs : a \in Entries(d)
RealTime == \A d \in DOMAIN dbs : \A i, j \in 1..Len(dbs[d]) :
              i < j => dbs[d][j].id \notin began[dbs[d][i].id]
AllReturn == \A t \in Threads : t \in DOMAIN flight ~> t \notin DOMAIN flight

\* long histories are printed once
Stop == Len(hist) < Depth \/ (PrintT("HIST " \o ToJson(hist)) /\ FALSE)
=============================================================================
