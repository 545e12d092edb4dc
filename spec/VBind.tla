------------------------------- MODULE VBind --------------------------------
(* Binding helpers: how behaviours of a specification leave TLC. *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, CSV, IOUtils
VDepth == IF "VDEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.VDEPTH) ELSE 0
\* records and sets print in a canonical order once they were compared
Canon(x) == LET y == x IN IF y = x THEN ToString(y) ELSE ""
Emit(rec) == CSVWrite("%1$s", <<ToJson(rec)>>, IOEnv.VOUT)
=============================================================================
