-------------------------------- MODULE Domain --------------------------------
(* Design check of the domain roles: every problem on a small mesh, built with any choice of
   regions, then exclusion of supports and exports in any order.                        *)
EXTENDS DomainCore, TLC
CONSTANTS NE
Conn == [e \in 1..NE |-> {e, e + 1}]
N == 1..(NE + 1)
VARIABLES st, sup, load, conv, req, dconv, design, fixed, hist
vars == <<st, sup, load, conv, req, dconv, design, fixed, hist>>
Init == /\ st = "new" /\ sup \in SUBSET N /\ load \in SUBSET N /\ conv \in SUBSET N
        /\ req \in SUBSET (1..NE) /\ dconv \in BOOLEAN
        /\ design = {} /\ fixed = {} /\ hist = <<>>
Build == /\ st = "new"
         /\ LET d == DesignOf(Conn, req, load, conv, dconv) IN
            IF d = {} THEN st' = "rejected" /\ UNCHANGED <<design, fixed>>
            ELSE st' = "built" /\ design' = d /\ fixed' = DOMAIN Conn \ d
         /\ UNCHANGED <<sup, load, conv, req, dconv, hist>>
Exclude == /\ st = "built" /\ Len(hist) < 3
           /\ design' = design \ Touch(Conn, sup)
           /\ fixed' = DOMAIN Conn \ design'
           /\ hist' = Append(hist, "exclude")
           /\ UNCHANGED <<st, sup, load, conv, req, dconv>>
Export == /\ st = "built" /\ Len(hist) < 3 /\ hist' = Append(hist, "export")
          /\ UNCHANGED <<st, sup, load, conv, req, dconv, design, fixed>>
Next == Build \/ Exclude \/ Export
Spec == Init /\ [][Next]_vars

Excluded == \E i \in 1..Len(hist) : hist[i] = "exclude"
Partition == st = "built" => design \cap fixed = {} /\ design \cup fixed = DOMAIN Conn
LoadsAreSolid == st = "built" => design \cap Touch(Conn, load) = {}
ConvectionOptIn == st = "built" /\ ~dconv => design \cap Touch(Conn, conv) = {}
OnlyRequested == design \subseteq req
SupportsExcluded == st = "built" /\ Excluded => design \cap Touch(Conn, sup) = {}
NothingElseExcluded == st = "built" =>
   req \ (Touch(Conn, load) \cup (IF dconv THEN {} ELSE Touch(Conn, conv))
                            \cup (IF Excluded THEN Touch(Conn, sup) ELSE {})) \subseteq design
EmptyRejected == st = "built" /\ ~Excluded => design # {}
(* one dof per node *)
ND == [n \in N |-> <<n>>]
Free == FreeElements(Conn, ND, sup)
LabelsTell == st = "built" => \A e \in DOMAIN Conn :
   (ElementLabel(e, design, fixed, Free) = 3) = (e \in design)
NodesTell == \A n \in N : /\ (NodeLabel(n, load, sup, conv) = 0) = (n \notin load \cup sup \cup conv)
                          /\ n \in conv => NodeLabel(n, load, sup, conv) = 3
ShapeKeepsFixed == st = "built" =>
   \A hi \in SUBSET design :
     ShapeOf(DOMAIN Conn, design, [e \in DOMAIN Conn |-> IF e \in hi THEN 1 ELSE 0], 0) = fixed \cup hi
=============================================================================
