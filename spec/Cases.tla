-------------------------------- MODULE Cases --------------------------------
(* Results of pure functions of the real code, compared with the specification. *)
(* Each trace is a list of cases; Ok(c) tells whether the result of c is right.  *)
EXTENDS TLC, Json, IOUtils, Naturals, Sequences
CONSTANT Ok(_)
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE tr
Bad == {k \in 1 .. Len(Traces[tr].cases) : ~Ok(Traces[tr].cases[k])}
CasesInit == tr \in 1 .. Len(Traces)
CasesSpec == CasesInit /\ [][FALSE]_tr
Report1 == LET B == Bad IN
           /\ (B = {} => PrintT(<<"ACC", tr>>))
           /\ \A k \in B : PrintT(<<"POS", tr, k>>)
=============================================================================
