------------------------------ MODULE Program -------------------------------
(***************************************************************************)
(* Programs which use the library: translation units include headers in    *)
(* some order (maybe again), are compiled on their own and linked together *)
(* in some order.  Every such program can be built (one definition of      *)
(* everything is left), and a reply doesn't depend on the unit which asks, *)
(* on the rest of the program, or on when it is asked for: constructors of *)
(* global objects ask before main() begins, in the order of linking, and   *)
(* destructors after it has ended.  Emit lists the programs, to be really  *)
(* built.                                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Units, Headers, MaxHeaders, answer

VARIABLES inc,     \* headers included by each unit, in order
          linked,
          phase    \* of the running program

Provides(h) == CASE h = "ftoa" -> {"ftoa"} [] h = "atof" -> {"atof"} [] h = "diy_fp" -> {"diy_fp"} [] h = "print" -> {"print"}
Offers(u) == UNION {Provides(inc[u][i]) : i \in 1..Len(inc[u])}

ProgInit == inc = [u \in Units |-> <<>>] /\ linked = FALSE /\ phase = "built"

Include(u, h) == /\ ~linked
                 /\ Len(inc[u]) < MaxHeaders
                 /\ inc' = [inc EXCEPT ![u] = Append(@, h)]
                 /\ UNCHANGED <<linked, phase>>

\* whatever has been included
Link == /\ ~linked
        /\ \A u \in Units : inc[u] # <<>>
        /\ linked' = TRUE
        /\ phase' = "starting"
        /\ UNCHANGED inc

Follows == [built |-> "none", starting |-> "main", main |-> "exiting", exiting |-> "none"]
Advance(ph) == /\ linked
               /\ ph = Follows[phase]
               /\ ph # "none"
               /\ phase' = ph
               /\ UNCHANGED <<inc, linked>>

Ask(u, kind, a, r) == /\ linked
                      /\ kind \in Offers(u)
                      /\ a \in DOMAIN answer /\ r = answer[a]
                      /\ UNCHANGED <<inc, linked, phase>>

ProgNext == (\E u \in Units, h \in Headers : Include(u, h)) \/ Link
ProgSpec == ProgInit /\ [][ProgNext]_<<inc, linked, phase>>

RECURSIVE Words(_)
Words(s) == IF s = <<>> THEN "" ELSE s[1] \o " " \o Words(Tail(s))
Emit == linked => PrintT("GEN " \o Words(inc[1]) \o "| " \o Words(inc[2]))
=============================================================================
