------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* The naming protocol of the enumeration commands.  RUNS of them share a  *)
(* working directory, one after the other or at the same time.  Each makes *)
(* a directory under a random name and puts one file per structure into    *)
(* it, again under random names; names are drawn again when taken.  What   *)
(* was there before may have any of the names.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS RUNS, DNAMES, FNAMES, NSTRU

Free == <<>>
Old == <<"old", 0>>
VARIABLES disk,     \* disk[d][f]: what the file f of directory d holds; <<>> if there is none
          dirs,     \* the directories that exist
          was,      \* the disk before the runs
          pc, mine, name, next, wrote
vars == <<disk, dirs, was, pc, mine, name, next, wrote>>

Init == /\ dirs \in SUBSET DNAMES
        /\ disk \in [DNAMES -> [FNAMES -> {Free, Old}]]
        /\ \A d \in DNAMES \ dirs, f \in FNAMES : disk[d][f] = Free
        /\ was = [d |-> dirs, disk |-> disk]
        /\ pc = [r \in RUNS |-> "look"] /\ mine = [r \in RUNS |-> "none"] /\ name = [r \in RUNS |-> "none"]
        /\ next = [r \in RUNS |-> 1] /\ wrote = [r \in RUNS |-> {}]

\* draw a directory name that does not exist
Look(r) == /\ pc[r] = "look"
           /\ \E d \in DNAMES \ dirs : mine' = [mine EXCEPT ![r] = d]
           /\ pc' = [pc EXCEPT ![r] = "make"]
           /\ UNCHANGED <<disk, dirs, was, name, next, wrote>>
\* make it; another run may have been faster, and then this one fails
Make(r) == /\ pc[r] = "make"
           /\ IF mine[r] \in dirs
              THEN pc' = [pc EXCEPT ![r] = "failed"] /\ UNCHANGED dirs
              ELSE pc' = [pc EXCEPT ![r] = "draw"] /\ dirs' = dirs \cup {mine[r]}
           /\ UNCHANGED <<disk, was, mine, name, next, wrote>>
\* draw a file name that is not taken in the own directory
Draw(r) == /\ pc[r] = "draw" /\ next[r] <= NSTRU
           /\ \E f \in FNAMES : /\ disk[mine[r]][f] = Free
                                /\ name' = [name EXCEPT ![r] = f]
           /\ pc' = [pc EXCEPT ![r] = "write"]
           /\ UNCHANGED <<disk, dirs, was, mine, next, wrote>>
Write(r) == /\ pc[r] = "write"
            /\ disk' = [disk EXCEPT ![mine[r]][name[r]] = <<r, next[r]>>]
            /\ wrote' = [wrote EXCEPT ![r] = @ \cup {<<mine[r], name[r]>>}]
            /\ next' = [next EXCEPT ![r] = @ + 1]
            /\ pc' = [pc EXCEPT ![r] = "draw"]
            /\ UNCHANGED <<dirs, was, mine, name>>
Finish(r) == /\ pc[r] = "draw" /\ next[r] > NSTRU
             /\ pc' = [pc EXCEPT ![r] = "done"]
             /\ UNCHANGED <<disk, dirs, was, mine, name, next, wrote>>
Next == \E r \in RUNS : Look(r) \/ Make(r) \/ Draw(r) \/ Write(r) \/ Finish(r)
Spec == Init /\ [][Next]_vars /\ \A r \in RUNS : WF_vars(Look(r) \/ Make(r) \/ Draw(r) \/ Write(r) \/ Finish(r))

NothingOverwritten == \A d \in DNAMES, f \in FNAMES : was.disk[d][f] # Free => disk[d][f] = was.disk[d][f]
OwnDirectory == \A r, s \in RUNS : r # s /\ {pc[r], pc[s]} \subseteq {"draw", "write", "done"} => mine[r] # mine[s]
\* a finished run left every one of its structures, once, in a directory with nothing else in it
OnePerStructure == \A r \in RUNS : pc[r] = "done" =>
    /\ Cardinality(wrote[r]) = NSTRU
    /\ \A k \in 1..NSTRU : Cardinality({f \in FNAMES : disk[mine[r]][f] = <<r, k>>}) = 1
    /\ Cardinality({f \in FNAMES : disk[mine[r]][f] # Free}) = NSTRU
    /\ mine[r] \notin was.d
\* with names enough, no run gets stuck
Ends == Cardinality(FNAMES) >= NSTRU => <>(\A r \in RUNS : pc[r] \in {"done", "failed"} \/ (pc[r] = "look" /\ dirs = DNAMES))
=============================================================================
