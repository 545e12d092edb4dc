------------------------------ MODULE SeqAlgMC ------------------------------
EXTENDS SeqAlg, TLC
RaiseOf == (1 :> 1 @@ 2 :> 4)
=============================================================================
