------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded behaviours, and the acceptance condition.              *)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* Every line was consumed; the state after line k is at diameter k + 1.   *)
TraceAccepted ==
  LET d == TLCGet("stats").diameter
  IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE

Has(r, f) == f \in DOMAIN r
=============================================================================
