------------------------------- MODULE Lifecycle -------------------------------
(* Micro-step design of the run life cycle: an iteration, the history export, the
   aside-write and the rename of a checkpoint are separate steps and the process may
   be killed between any two of them. ghost follows the request level semantics of
   LifeCore; at rest both must agree (refinement).                                *)
EXTENDS LifeCore, TLC
CONSTANTS MaxM, Rs, MaxRuns, MaxOps, Steps,
          HistFirst,     \* TRUE: histories are exported before the checkpoint
          Forget,        \* TRUE: a restart forgets newer checkpoints
          CleanFresh     \* TRUE: a fresh run clears the directory

Q1 == <<512>>
VARIABLES mem, disk, pc, last, ghost, ops, runs
vars == <<mem, disk, pc, last, ghost, ops, runs>>

Mem0 == [alive |-> FALSE, loaded |-> FALSE, next |-> 1, done |-> FALSE, q |-> <<>>, hist |-> <<>>,
         M |-> 0, R |-> 0, from |-> 0]
Disk0 == [ck |-> <<>>, hist |-> <<>>, salt |-> 0]
Init == mem = Mem0 /\ disk = Disk0 /\ pc = "idle" /\ last = 0 /\ ghost = Nothing /\ ops = 0 /\ runs = 0

Idle == pc = "idle" /\ ops < MaxOps
Tick == ops' = ops + 1

NewFresh(M, R) ==
  /\ Idle /\ runs < MaxRuns /\ Tick /\ runs' = runs + 1
  /\ mem' = [Mem0 EXCEPT !.alive = TRUE, !.M = M, !.R = R]
  /\ disk' = IF CleanFresh THEN [Disk0 EXCEPT !.salt = runs + 1] ELSE [disk EXCEPT !.salt = runs + 1]
  /\ ghost' = FreshS(ghost, runs + 1, M, R)
  /\ UNCHANGED <<pc, last>>
NewRestart(from, M) ==
  /\ Idle /\ disk.salt > 0 /\ Tick
  /\ mem' = [Mem0 EXCEPT !.alive = TRUE, !.M = M, !.R = 1, !.from = from]
  /\ ghost' = RestartS(ghost, from, M, 1)
  /\ UNCHANGED <<disk, pc, last, runs>>
MTarget == IF mem.from > 0 THEN (IF mem.from \in DOMAIN disk.ck THEN mem.from ELSE 0)
           ELSE IF DOMAIN disk.ck = {} THEN 0 ELSE MaxI(DOMAIN disk.ck)
RequestFails(n) ==
  /\ Idle /\ mem.alive /\ ~mem.done /\ n > 0 /\ ~mem.loaded /\ mem.from # 0 /\ MTarget = 0 /\ Tick
  /\ mem' = Mem0 /\ ghost' = KillS(ghost) /\ UNCHANGED <<disk, pc, last, runs>>
Request(n) ==
  /\ Idle /\ mem.alive /\ Tick /\ ~(~mem.loaded /\ mem.from # 0 /\ MTarget = 0 /\ n > 0 /\ ~mem.done)
  /\ ghost' = RequestHash(ghost, n, Q1)
  /\ IF mem.done \/ n <= 0 THEN UNCHANGED <<mem, disk, pc, last, runs>>
     ELSE LET k == MTarget
              m2 == IF mem.loaded THEN mem
                    ELSE IF mem.from = 0 THEN [mem EXCEPT !.loaded = TRUE, !.q = Q1]
                    ELSE [mem EXCEPT !.loaded = TRUE, !.next = k + 1, !.q = disk.ck[k],
                                     !.hist = Take(disk.hist, k)]
              d2 == IF ~mem.loaded /\ mem.from # 0 /\ Forget
                    THEN [disk EXCEPT !.ck = [i \in {j \in DOMAIN @ : j <= k} |-> @[i]]] ELSE disk
          IN IF m2.next > m2.M
             THEN /\ mem' = [m2 EXCEPT !.done = TRUE] /\ disk' = [d2 EXCEPT !.hist = m2.hist]
                  /\ UNCHANGED <<pc, last, runs>>
             ELSE /\ mem' = m2 /\ disk' = d2 /\ pc' = "iter"
                  /\ last' = MinI(m2.next + n - 1, m2.M) /\ UNCHANGED runs
MDue(it) == it = 1 \/ it = last \/ it % (IF mem.M \div mem.R < 1 THEN 1 ELSE mem.M \div mem.R) = 0
AfterIter(m) == IF m.next > last THEN "idle" ELSE "iter"
DoneFlag(m) == [m EXCEPT !.done = m.next > m.M]
Iterate ==
  /\ pc = "iter"
  /\ LET it == mem.next
         m == [mem EXCEPT !.q = HashUpd(@, it, disk.salt), !.hist = Append(@, it), !.next = it + 1]
     IN IF MDue(it) THEN mem' = m /\ pc' = "save1"
                    ELSE mem' = DoneFlag(m) /\ pc' = AfterIter(m)
  /\ UNCHANGED <<disk, last, ghost, ops, runs>>
ExportHist == disk' = [disk EXCEPT !.hist = mem.hist]
WriteCk == disk' = [disk EXCEPT !.ck = [i \in DOMAIN @ \cup {mem.next - 1} |->
                                          IF i = mem.next - 1 THEN mem.q ELSE @[i]]]
Save1 == pc = "save1" /\ (IF HistFirst THEN ExportHist ELSE WriteCk) /\ pc' = "save2"
         /\ UNCHANGED <<mem, last, ghost, ops, runs>>
Save2 == pc = "save2" /\ (IF HistFirst THEN WriteCk ELSE ExportHist)
         /\ pc' = AfterIter(mem) /\ mem' = DoneFlag(mem) /\ UNCHANGED <<last, ghost, ops, runs>>
Kill ==
  /\ mem.alive /\ mem' = Mem0 /\ pc' = "idle" /\ ops < MaxOps /\ Tick
  (* the request level state adopts what reached the disk *)
  /\ ghost' = [KillS(ghost) EXCEPT !.ck = disk.ck, !.dhist = disk.hist, !.runsalt = disk.salt]
  /\ UNCHANGED <<disk, last, runs>>

Next == \/ \E M \in 1..MaxM, R \in Rs : NewFresh(M, R)
        \/ \E f \in {-1} \cup 1..MaxM, M \in {MaxM} : NewRestart(f, M)
        \/ \E n \in Steps : Request(n) \/ RequestFails(n)
        \/ Iterate \/ Save1 \/ Save2 \/ Kill
Spec == Init /\ [][Next]_vars

RECURSIVE ChainTo(_, _)
ChainTo(k, salt) == IF k = 0 THEN Q1 ELSE HashUpd(ChainTo(k - 1, salt), k, salt)

AtRest == pc = "idle" /\ mem.alive /\ mem.loaded
EachIterationOnce == AtRest => mem.hist = Iota(mem.next - 1)
RightDensities == AtRest => mem.q = ChainTo(mem.next - 1, disk.salt)
CheckpointsFaithful == \A k \in DOMAIN disk.ck : disk.ck[k] = ChainTo(k, disk.salt)
HistoryCoversCheckpoints == DOMAIN disk.ck # {} =>
   Len(disk.hist) >= MaxI(DOMAIN disk.ck) /\ \A i \in 1..Len(disk.hist) : disk.hist[i] = i
Refines == pc = "idle" =>
   /\ ghost.ck = disk.ck /\ ghost.dhist = disk.hist /\ ghost.alive = mem.alive
   /\ AtRest => ghost.q = mem.q /\ ghost.next = mem.next /\ ghost.hist = mem.hist /\ ghost.done = mem.done
CompleteIsFinal == [][(mem.done /\ mem'.done /\ mem.from = mem'.from /\ runs = runs' /\ mem'.M = mem.M)
                        => (mem'.q = mem.q \/ ops' # ops)]_vars
=============================================================================
