------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* The step-by-step calls of MicroOps, run without interference, do what   *)
(* the whole calls of ChanOps do: checked in every reachable state of a    *)
(* configuration of XtraSeq.                                               *)
(***************************************************************************)
EXTENDS XtraSeq
M == INSTANCE MicroOps
Obs(S) == {[s EXCEPT !.pr = <<>>] : s \in S}
Agree == \A e \in {f \in Events : f.op \in Ops /\ f.op # "probe" /\ Can(st, f)} :
           LET A == Obs(Call(Core(st), e))  B == Obs(M!Alone(Core(st), e))
           IN A = B \/ (PrintT(<<"DIFF", e, A \ B, B \ A, Core(st)>>) /\ FALSE)
=============================================================================
