------------------------------ MODULE MC_Ends ------------------------------
(* As MC_Runner, with the liveness of every run.                             *)
EXTENDS MC_Runner
=============================================================================
