---------------------------- MODULE OxSaveTrace -----------------------------
(***************************************************************************)
(* Are the recorded file-system calls of real saves a run of OxFs in which *)
(* the target is whole at every moment?  And is what was found in the      *)
(* directory afterwards - after a return, an injected failure, or the      *)
(* death of the process at that call - what OxSave allows?                 *)
(*                                                                         *)
(* Events:  run   a save begins: target, the names in the directory        *)
(*          call  one call: names, descriptor, did it succeed              *)
(*          end   how the save ended, and for each name found in the       *)
(*                directory what it holds: "old" (as before), "new" (the   *)
(*                complete new package), "other"                           *)
(***************************************************************************)
EXTENDS OxFs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.OX_TRACE)

VARIABLES i, fs, run

vars == <<i, fs, run>>

Report(d) == PrintT(<<"VIOL", run.sid, i, d>>)

Apply(f, e) ==
    IF ~e.ok THEN f
    ELSE CASE e.call = "open"   -> FsOpen(f, e.a, e.fd, e.creat, e.trunc)
           [] e.call = "write"  -> FsWrite(f, e.fd, "w")
           [] e.call = "trunc"  -> FsTruncate(f, e.fd)
           [] e.call = "close"  -> FsClose(f, e.fd)
           [] e.call = "unlink" -> FsUnlink(f, e.a)
           [] e.call = "rename" -> FsRename(f, e.a, e.b)
           [] e.call = "exchange" -> FsSwap(f, e.a, e.b)
           [] e.call = "link"   -> FsLink(f, e.a, e.b)
           [] OTHER -> f

RECURSIVE Fold(_, _)
Fold(f, j) == IF Trace[j].ev # "call" THEN f ELSE Fold(Apply(f, Trace[j]), j + 1)

NameSet(e) == FsRange(e.names)

\* what the target may hold: what it held, or what it holds at the end if the save succeeded
Final(e, j) == LET f == Fold(FsInit(e.names), j + 1) IN [ino |-> IF e.target \in DOMAIN f.names THEN f.names[e.target] ELSE 0, data |-> Content(f, e.target)]

Before(e) == IF e.target \in NameSet(e) THEN <<"old">> ELSE <<"none">>

Whole(f) ==
    \/ Content(f, run.target) = run.before
       /\ (run.before = <<"old">> => f.names[run.target] = run.ino)
    \/ run.final.ino # 0 /\ run.target \in DOMAIN f.names /\ f.names[run.target] = run.final.ino
       /\ Content(f, run.target) = run.final.data /\ Len(run.final.data) > 0 /\ run.final.data # <<"old">>

NoRun == [sid |-> "", target |-> "", names |-> {}, before |-> <<"none">>, ino |-> 0, final |-> [ino |-> 0, data |-> <<>>],
          bad |-> FALSE, stuck |-> {}]

Init == i = 1 /\ fs = FsInit(<<"x">>) /\ run = NoRun

DoRun(e) ==
    LET f == FsInit(e.names)
    IN /\ fs' = f
       /\ run' = [NoRun EXCEPT !.sid = e.sid, !.target = e.target, !.names = NameSet(e), !.before = Before(e),
                               !.ino = IF e.target \in NameSet(e) THEN f.names[e.target] ELSE 0, !.final = Final(e, i)]

DoCall(e) ==
    LET f == Apply(fs, e)
    IN /\ fs' = f
       /\ (e.whole /\ ~Whole(f) /\ ~run.bad) => Report(<<"not-whole-after", e.call, e.a, e.b>>)
       /\ run' = [run EXCEPT !.bad = @ \/ ~Whole(f),
                             !.stuck = IF ~e.ok /\ e.call \in {"unlink", "rename"} THEN @ \cup {e.a} ELSE @]

DirAt(e, n) == IF \E j \in 1..Len(e.dir) : e.dir[j].n = n
               THEN e.dir[CHOOSE j \in 1..Len(e.dir) : e.dir[j].n = n].c ELSE "none"
Had == run.before = <<"old">>
OldOnly == IF Had THEN {"old"} ELSE {"none"}

DoEnd(e) ==
    LET t == DirAt(e, run.target)
        others == run.names \ {run.target}
        extra == {e.dir[j].n : j \in 1..Len(e.dir)} \ (run.names \cup {run.target})
        allowed == CASE e.how = "ok" -> {"new"} [] e.how = "err" -> OldOnly [] e.how = "crash" -> OldOnly \cup {"new"}
                     [] OTHER -> {}
        ds == (IF t \in allowed THEN {} ELSE {<<"target", e.how, t>>})
              \cup {<<"other-file", n, DirAt(e, n)>> : n \in {x \in others : DirAt(e, x) # "old"}}
              \cup (IF e.how = "crash" THEN {} ELSE {<<"stray", n>> : n \in extra \ run.stuck})
              \cup (IF e.how = "err" /\ ~e.mayfail THEN {<<"refused">>} ELSE {})
    IN /\ \A d \in ds : Report(d)
       /\ UNCHANGED <<fs, run>>

Step(e) ==
    CASE e.ev = "run"  -> DoRun(e)
      [] e.ev = "call" -> DoCall(e)
      [] e.ev = "end"  -> DoEnd(e)

Next ==
    \/ i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
    \/ i = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>) /\ i' = i + 1 /\ UNCHANGED <<fs, run>>

Spec == Init /\ [][Next]_vars
=============================================================================
