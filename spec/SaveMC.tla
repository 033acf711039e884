------------------------------- MODULE SaveMC -------------------------------
(* The design of opening, saving and watching one file that other programs     *)
(* also write: every interleaving of the steps of the core's operations with    *)
(* the other programs, and failures and crashes at every step.                  *)
(* A version is a number; own[v] says whether the core wrote it.                *)
(*   Checked     saving looks at the file itself, not only at what the watcher  *)
(*               has reported                                                   *)
(*   ByHandle    the version read or written is taken from the open file, not   *)
(*               looked up again by name                                        *)
(*   Known       a file that was not there when it was opened is remembered     *)
(* With all three the invariants hold; without any one they do not              *)
(* (SaveMC_asfound).                                                            *)
EXTENDS Integers, FiniteSets

CONSTANTS MaxVer, MaxCmds, Checked, ByHandle, Known
VARIABLES disk,          \* the version at the path, 0: none
          nver, own, tmp,
          buf,           \* the version whose text the buffer holds; -1: edited since
          info,          \* has the core any record of the file?
          known, flag, pc, got, seen,
          lost,          \* versions of others destroyed although they were there when saving began
          n
vars == <<disk, nver, own, tmp, buf, info, known, flag, pc, got, seen, lost, n>>

Init == /\ disk \in {0, 1} /\ nver = 1 /\ own = {} /\ tmp = 0 /\ buf = 0 /\ info = FALSE /\ known = 0 /\ flag = FALSE
        /\ pc = "closed" /\ got = 0 /\ seen = 0 /\ lost = {} /\ n = 0
Cmd(from, to) == pc = from /\ pc' = to /\ n < MaxCmds /\ n' = n + 1

(* others *)
Foreign == /\ nver < MaxVer /\ nver' = nver + 1 /\ disk' = nver'
           /\ UNCHANGED <<own, tmp, buf, info, known, flag, pc, got, seen, lost, n>>
Delete == disk # 0 /\ disk' = 0 /\ UNCHANGED <<nver, own, tmp, buf, info, known, flag, pc, got, seen, lost, n>>

(* opening and loading again: read, then record *)
Open == Cmd("closed", "reading") /\ UNCHANGED <<disk, nver, own, tmp, buf, info, known, flag, got, seen, lost>>
Read == /\ pc = "reading" /\ pc' = "record" /\ got' = disk
        /\ UNCHANGED <<disk, nver, own, tmp, buf, info, known, flag, seen, lost, n>>
Record == /\ pc = "record" /\ pc' = "idle" /\ buf' = got /\ flag' = FALSE
          /\ IF got = 0 /\ ~Known THEN UNCHANGED <<info, known>>
             ELSE info' = TRUE /\ known' = IF ByHandle \/ got = 0 THEN got ELSE disk
          /\ UNCHANGED <<disk, nver, own, tmp, got, seen, lost, n>>
(* the watcher reports, some time *)
Look == /\ pc = "idle" /\ info /\ (disk # known \/ flag) /\ flag' = TRUE
        /\ pc' = IF buf # 0 - 1 THEN "reading" ELSE "idle"
        /\ UNCHANGED <<disk, nver, own, tmp, buf, info, known, got, seen, lost, n>>
Edit == Cmd("idle", "idle") /\ buf' = 0 - 1 /\ UNCHANGED <<disk, nver, own, tmp, info, known, flag, got, seen, lost>>

(* saving: look, write a new file beside it, put it in place, record *)
Save == /\ Cmd("idle", "create") /\ seen' = disk
        /\ IF flag \/ (Checked /\ info /\ disk # 0 /\ disk # known) THEN FALSE ELSE TRUE
        /\ UNCHANGED <<disk, nver, own, tmp, buf, info, known, flag, got, lost>>
Refuse == /\ Cmd("idle", "idle") /\ (flag \/ (Checked /\ info /\ disk # 0 /\ disk # known)) /\ flag' = TRUE
          /\ UNCHANGED <<disk, nver, own, tmp, buf, info, known, got, seen, lost>>
Create == /\ pc = "create" /\ pc' = "rename" /\ nver < MaxVer /\ nver' = nver + 1 /\ tmp' = nver' /\ own' = own \cup {nver'}
          /\ UNCHANGED <<disk, buf, info, known, flag, got, seen, lost, n>>
Fail == /\ pc \in {"create", "rename"} /\ pc' = "idle" /\ tmp' = 0
        /\ UNCHANGED <<disk, nver, own, buf, info, known, flag, got, seen, lost, n>>
Crash == /\ pc \in {"create", "rename", "stat"} /\ pc' = "gone"
         /\ UNCHANGED <<disk, nver, own, tmp, buf, info, known, flag, got, seen, lost, n>>
Rename == /\ pc = "rename" /\ pc' = "stat" /\ disk' = tmp /\ tmp' = 0 /\ got' = tmp
          /\ lost' = IF disk # 0 /\ disk \notin own /\ disk = seen /\ disk # known THEN lost \cup {disk} ELSE lost
          /\ UNCHANGED <<nver, own, buf, info, known, flag, seen, n>>
Stat == /\ pc = "stat" /\ pc' = "idle" /\ info' = TRUE /\ known' = (IF ByHandle THEN got ELSE disk) /\ buf' = got /\ flag' = FALSE
        /\ UNCHANGED <<disk, nver, own, tmp, got, seen, lost, n>>
Close == Cmd("idle", "closed") /\ info' = FALSE /\ flag' = FALSE /\ known' = 0 /\ buf' = 0
         /\ UNCHANGED <<disk, nver, own, tmp, got, seen, lost>>

Next == Foreign \/ Delete \/ Open \/ Read \/ Record \/ Look \/ Edit \/ Save \/ Refuse \/ Create \/ Fail \/ Crash \/ Rename \/ Stat \/ Close
Spec == Init /\ [][Next]_vars

NothingLost == lost = {}
(* what the core takes for the version it knows is the one whose text it has, or had before edits *)
Honest == pc = "idle" /\ buf > 0 /\ info => known = buf
=============================================================================
