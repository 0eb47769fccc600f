------------------------------ MODULE ConfigCore ------------------------------
(* Configurations as functions from setting names to values (strings); the meaning of the
   command line.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Scheduled == {"filter_radius", "move_limit", "vol_frac", "p", "beta", "percentile"}
BoolOpts == {"restart", "export_img", "design_dirichlet", "sensitivity_filter"}
NoneText == {"none", "null", "nan", "None", "NaN", "NULL"}
MayBeNone == {"vol_frac_step", "p_step", "beta_step", "percentile_init", "percentile_step", "percentile"}
TrueText == {"true", "t", "True", "TRUE", "T"}
FalseText == {"false", "f", "False", "FALSE", "F"}
BadText == {"yes", "abc"}
(* canonical value of the text of an option *)
Canon(opt, txt) == IF opt \in BoolOpts THEN (IF txt \in TrueText THEN "true" ELSE "false")
                   ELSE IF opt \in MayBeNone /\ txt \in NoneText THEN "none" ELSE txt
TextOk(opt, txt) == IF opt \in BoolOpts THEN txt \in TrueText \cup FalseText
                    ELSE txt \notin BadText /\ (txt \in NoneText => opt \in MayBeNone)

(* opts: function from given options to texts; base: settings the command line has by default *)
Given(opts, o, dflt) == IF o \in DOMAIN opts THEN Canon(o, opts[o]) ELSE dflt
Target(opts, base, k) == Given(opts, k, base[k \o ".target_value"])
Start(opts, base, k) == Given(opts, k \o "_init", base[k \o ".init_value"])
Steps(opts, base, k) == Given(opts, k \o "_step", base[k \o ".num_steps"])
Kind(opts, base, k) ==
  IF k = "percentile" /\ Target(opts, base, k) = "none" THEN "None"
  ELSE IF Steps(opts, base, k) = "none" THEN "Constant"
  ELSE IF k = "move_limit" THEN "SawtoothDecay"
  ELSE IF k = "beta" THEN "StepAccelerating" ELSE "Step"
Accepted(opts, base) ==
  /\ \A o \in DOMAIN opts : TextOk(o, opts[o])
  /\ \A k \in Scheduled : Kind(opts, base, k) \notin {"None", "Constant"} => Start(opts, base, k) # "none"
Expected(opts, base) ==
  [f \in DOMAIN base |->
     IF \E k \in Scheduled : f = k \o ".scheduler_type"
       THEN Kind(opts, base, CHOOSE k \in Scheduled : f = k \o ".scheduler_type")
     ELSE IF \E k \in Scheduled : f = k \o ".target_value"
       THEN Target(opts, base, CHOOSE k \in Scheduled : f = k \o ".target_value")
     ELSE IF \E k \in Scheduled : f = k \o ".init_value"
       THEN LET k == CHOOSE k \in Scheduled : f = k \o ".init_value" IN
            IF Start(opts, base, k) = "none" /\ Kind(opts, base, k) = "Constant"
            THEN Target(opts, base, k) ELSE Start(opts, base, k)
     ELSE IF \E k \in Scheduled : f = k \o ".num_steps"
       THEN Steps(opts, base, CHOOSE k \in Scheduled : f = k \o ".num_steps")
     ELSE IF f = "beta.curvature" THEN Given(opts, "beta_curvature", base[f])
     ELSE IF f \in DOMAIN opts /\ f \notin Scheduled THEN Canon(f, opts[f])
     ELSE base[f]]
===============================================================================
