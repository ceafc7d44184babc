------------------------------- MODULE OxSave -------------------------------
(***************************************************************************)
(* The save protocol: the new content goes to a fresh name next to the     *)
(* target and is then moved over the target in one step.  Several sessions *)
(* may save to the same target at once; every call can fail, the process   *)
(* can die between any two calls and in the middle of a write.             *)
(*                                                                         *)
(* Strategy "inplace" is what the library did before: truncate the target  *)
(* and write to it.  It is here to show that the properties are not void.  *)
(***************************************************************************)
EXTENDS OxFs

CONSTANTS Savers, Chunks, Had, Strategy, Temps

TempNames == <<"tmp0", "tmp1", "tmp2">>

VARIABLES fs, pc, k, tmp, dead, ans, faults, clean

vars == <<fs, pc, k, tmp, dead, ans, faults, clean>>

Target == "target"
Other == "other"
Whole(s) == [j \in 1..Chunks |-> <<s, j>>]
Fd(s) == s

Init ==
    /\ fs = FsInit(IF Had THEN <<Target, Other>> ELSE <<Other>>)
    /\ pc = [s \in Savers |-> "create"] /\ k = [s \in Savers |-> 0]
    /\ tmp = [s \in Savers |-> 1] /\ dead = FALSE /\ ans = [s \in Savers |-> "none"]
    /\ faults = 0 /\ clean = [s \in Savers |-> TRUE]

Goto(s, l) == pc' = [pc EXCEPT ![s] = l]
Temp(s) == Temps[tmp[s]]

Create(s) ==
    /\ pc[s] = "create"
    /\ IF Strategy = "inplace"
       THEN fs' = FsOpen(fs, Target, Fd(s), TRUE, TRUE) /\ Goto(s, "write") /\ UNCHANGED tmp
       ELSE IF Temp(s) \in DOMAIN fs.names
       \* the name is taken: the exclusive create refuses and the next one is tried
       THEN tmp[s] < Len(Temps) /\ tmp' = [tmp EXCEPT ![s] = @ + 1] /\ UNCHANGED <<fs, pc>>
       ELSE fs' = FsOpen(fs, Temp(s), Fd(s), TRUE, FALSE) /\ Goto(s, "write") /\ UNCHANGED tmp
    /\ UNCHANGED <<k, dead, ans, faults, clean>>

Write(s) ==
    /\ pc[s] = "write" /\ k[s] < Chunks
    /\ fs' = FsWrite(fs, Fd(s), <<s, k[s] + 1>>)
    /\ k' = [k EXCEPT ![s] = @ + 1]
    /\ UNCHANGED <<pc, tmp, dead, ans, faults, clean>>

Written(s) ==
    /\ pc[s] = "write" /\ k[s] = Chunks
    /\ fs' = FsClose(fs, Fd(s))
    /\ Goto(s, IF Strategy = "inplace" THEN "ok" ELSE "rename")
    /\ UNCHANGED <<k, tmp, dead, ans, faults, clean>>

Move(s) ==
    /\ pc[s] = "rename"
    /\ fs' = FsRename(fs, Temp(s), Target)
    /\ Goto(s, "ok")
    /\ UNCHANGED <<k, tmp, dead, ans, faults, clean>>

Cleanup(s) ==
    /\ pc[s] = "cleanup"
    /\ fs' = FsClose(IF Strategy = "inplace" THEN fs ELSE FsUnlink(fs, Temp(s)), Fd(s))
    /\ Goto(s, "err")
    /\ UNCHANGED <<k, tmp, dead, ans, faults, clean>>

Return(s) ==
    /\ pc[s] \in {"ok", "err"}
    /\ ans' = [ans EXCEPT ![s] = pc[s]] /\ Goto(s, "done")
    /\ UNCHANGED <<fs, k, tmp, dead, faults, clean>>

\* a call fails
Fault(s) ==
    /\ faults < 2 /\ faults' = faults + 1
    /\ \/ pc[s] = "create" /\ Goto(s, "err") /\ UNCHANGED clean
       \/ pc[s] \in {"write", "rename"} /\ Goto(s, "cleanup") /\ UNCHANGED clean
       \/ pc[s] = "cleanup" /\ Goto(s, "err") /\ clean' = [clean EXCEPT ![s] = FALSE]
    /\ UNCHANGED <<fs, k, tmp, dead, ans>>

Crash == ~dead /\ dead' = TRUE /\ UNCHANGED <<fs, pc, k, tmp, ans, faults, clean>>

\* half a write reaches the file, then the process dies
CrashInWrite(s) ==
    /\ pc[s] = "write" /\ k[s] < Chunks /\ dead' = TRUE
    /\ fs' = FsWrite(fs, Fd(s), <<s, "half">>)
    /\ UNCHANGED <<pc, k, tmp, ans, faults, clean>>

Next == \/ ~dead /\ \E s \in Savers : Create(s) \/ Write(s) \/ Written(s) \/ Move(s) \/ Cleanup(s) \/ Return(s) \/ Fault(s) \/ CrashInWrite(s)
        \/ Crash

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* at every moment, whatever happened
TargetWhole ==
    LET c == Content(fs, Target)
    IN c = (IF Had THEN <<"old">> ELSE <<"none">>) \/ \E s \in Savers : c = Whole(s)

OthersKept == Content(fs, Other) = <<"old">>

Returned == \A s \in Savers : pc[s] = "done"

NoStray == (Returned /\ ~dead /\ \A s \in Savers : clean[s]) => DOMAIN fs.names \subseteq {Target, Other}

Answer ==
    Returned =>
        /\ (\A s \in Savers : ans[s] = "err") => Content(fs, Target) = (IF Had THEN <<"old">> ELSE <<"none">>)
        /\ (\E s \in Savers : ans[s] = "ok") => \E s \in Savers : ans[s] = "ok" /\ Content(fs, Target) = Whole(s)
=============================================================================
