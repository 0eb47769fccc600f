------------------------------- MODULE History -------------------------------
(* Design model and scenario generator of the history recorder: two collections
   sharing a directory with two history files.                                  *)
EXTENDS HistCore, TLC, Json
CONSTANTS Names, Kinds, Ylogs, ValIds, Files, Depth, Gen, MaxLen
VARIABLES coll, file, hist
vars == <<coll, file, hist>>
CS == {1, 2}
Init == coll = [c \in CS |-> <<>>] /\ file = <<>> /\ hist = <<>>
R(op, c, n, kind, ylog, v, f) == [op |-> op, c |-> c, n |-> n, kind |-> kind, ylog |-> ylog, v |-> v, f |-> f]
H(r) == hist' = IF Gen THEN Append(hist, r) ELSE Append(hist, 0)

RegA(c, n, k, y) ==
  /\ n \notin DOMAIN coll[c]
  /\ coll' = [coll EXCEPT ![c] = Register(@, n, k, y, <<>>)] /\ UNCHANGED file
  /\ H(R("register", c, n, k, y, 0, ""))
(* both series created with the same caller-owned list of initial scalars *)
RegSharedA(c, y) ==
  /\ DOMAIN coll[c] = {} /\ Cardinality(Names) >= 2
  /\ coll' = [coll EXCEPT ![c] = [n \in Names |-> [kind |-> "value", ylog |-> y, data |-> <<<<4000>>, <<1500>>>>]]]
  /\ UNCHANGED file /\ H(R("regshared", c, "", "value", y, 0, ""))
(* a series is fed scalars only or arrays only *)
Fits(s, v) == IF s.data = <<>> THEN TRUE ELSE (Len(s.data[1]) > 1) = (v \in Arrays)
FeedA(c, n, v) ==
  /\ n \in DOMAIN coll[c] /\ Fits(coll[c][n], v) /\ Len(coll[c][n].data) < MaxLen
  /\ coll' = [coll EXCEPT ![c] = Feed(@, n, Vals[v])] /\ UNCHANGED file
  /\ H(R("feed", c, n, "", FALSE, v, ""))
ExportA(c, f) ==
  /\ DOMAIN coll[c] # {}
  /\ file' = Put(file, Key(f), FileOf(coll[c])) /\ UNCHANGED coll
  /\ H(R("export", c, "", "", FALSE, 0, f))
ImportA(c, f) ==
  /\ Key(f) \in DOMAIN file
  /\ coll' = [coll EXCEPT ![c] = Import(@, file[Key(f)])] /\ UNCHANGED file
  /\ H(R("import", c, "", "", FALSE, 0, f))
Next == /\ Len(hist) < Depth
        /\ \E c \in CS :
             \/ \E n \in Names, k \in Kinds, y \in Ylogs : RegA(c, n, k, y)
             \/ \E y \in Ylogs : RegSharedA(c, y)
             \/ \E n \in Names, v \in ValIds : FeedA(c, n, v)
             \/ \E f \in Files : ExportA(c, f) \/ ImportA(c, f)
Spec == Init /\ [][Next]_vars

(* exporting into a fresh collection and back loses nothing *)
RoundTrip == \A c \in CS : LET g == Import(<<>>, FileOf(coll[c])) IN
               /\ DOMAIN g = DOMAIN coll[c]
               /\ \A n \in DOMAIN g : g[n].data = coll[c][n].data /\ g[n].kind = coll[c][n].kind
               /\ Import(coll[c], FileOf(coll[c])) = coll[c]
(* a step changes one collection, and unless it imports, one series and only at its end *)
OneOnly == [][Cardinality({c \in CS : coll'[c] # coll[c]}) <= 1]_vars
NeverForgets == [][\A c \in CS : DOMAIN coll[c] \subseteq DOMAIN coll'[c]]_vars
Ordered == \A c \in CS : \A n \in DOMAIN coll[c] : LET d == coll[c][n].data IN
              \A i \in 1..Len(d) : Len(d[i]) > 1 => d[i][1] <= d[i][2] /\ d[i][2] <= d[i][3]
Emit == (Gen /\ Len(hist) = Depth) => PrintT("SCN " \o ToJson([ops |-> hist]))
=============================================================================
