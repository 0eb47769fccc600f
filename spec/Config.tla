-------------------------------- MODULE Config --------------------------------
(* Design: configuration objects, folders they are written to, imports; the run a set of
   settings drives; and the command line over an abstract default.                       *)
EXTENDS ConfigCore
CONSTANTS Ids, Dirs, Vals, MaxLen
VARIABLES obj, disk, got, len
vars == <<obj, disk, got, len>>
Keys == {"a", "b"}
Unset == [k \in Keys |-> "-"]
Init == /\ obj \in [Ids -> [Keys -> Vals]] /\ disk = [d \in Dirs |-> Unset] /\ got = <<"-", Unset>> /\ len = 0
Change == \E i \in Ids : \E k \in Keys : \E v \in Vals :
   obj' = [obj EXCEPT ![i][k] = v] /\ UNCHANGED <<disk, got>>
Export == \E i \in Ids : \E d \in Dirs : disk' = [disk EXCEPT ![d] = obj[i]] /\ UNCHANGED <<obj, got>>
Import == \E d \in Dirs : disk[d] # Unset /\ \E i \in Ids :
   obj' = [obj EXCEPT ![i] = disk[d]] /\ got' = <<d, disk[d]>> /\ UNCHANGED disk
Next == len < MaxLen /\ (Change \/ Export \/ Import) /\ len' = len + 1
Spec == Init /\ [][Next]_vars
(* a file keeps what was written until it is written again; what was written is some object's past *)
FileStable == [][\A d \in Dirs : disk'[d] # disk[d] => \E i \in Ids : disk'[d] = obj[i] /\ obj' = obj]_vars
ImportedWhatIsThere == [][\A i \in Ids : (obj'[i] # obj[i] /\ got' # got) => obj'[i] = disk[got'[1]]]_vars

(* command line over a small default: accepted settings arrive, others keep their default *)
Base == [f \in {k \o s : k \in Scheduled, s \in {".init_value", ".target_value", ".num_steps", ".scheduler_type"}}
                \cup {"beta.curvature", "rho_min", "restart"} |->
           IF f \in {"percentile" \o s : s \in {".init_value", ".target_value", ".num_steps"}} \cup
                    {"p.num_steps", "vol_frac.num_steps", "beta.num_steps"} THEN "none"
           ELSE IF f = "percentile.scheduler_type" THEN "None" ELSE "1"]
OptTexts == {<<"p", "2">>, <<"p_init", "3">>, <<"p_step", "4">>, <<"p_step", "none">>, <<"beta_curvature", "5">>,
             <<"percentile", "90">>, <<"percentile_step", "2">>, <<"percentile_init", "70">>, <<"restart", "T">>,
             <<"restart", "yes">>, <<"rho_min", "abc">>, <<"percentile", "nan">>}
Lines == {S \in SUBSET OptTexts : \A x \in S : \A y \in S : x[1] = y[1] => x = y}
OptsOf(S) == [o \in {x[1] : x \in S} |-> (CHOOSE x \in S : x[1] = o)[2]]
ASSUME DefaultsAccepted == Accepted(OptsOf({}), Base)
ASSUME SettingsArrive == \A S \in Lines : Accepted(OptsOf(S), Base) =>
   LET e == Expected(OptsOf(S), Base) IN
     /\ DOMAIN e = DOMAIN Base
     /\ \A x \in S : Canon(x[1], x[2]) \in {e[f] : f \in DOMAIN e}
     /\ \A f \in DOMAIN Base : (\A x \in S : f \notin {x[1]}) /\ f \in {"rho_min", "restart"} => e[f] = Base[f]
ASSUME BadTextRefused == \A S \in Lines : (\E x \in S : x[2] \in BadText) => ~Accepted(OptsOf(S), Base)
===============================================================================
