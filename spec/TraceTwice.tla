----------------------------- MODULE TraceTwice -----------------------------
(* Two recordings of the same sessions: other sessions came before in the     *)
(* process, and the hashes of strings were others.  The specification says of *)
(* a call on an object that its outcome is a function of the calls made on    *)
(* the objects of the session before (Isolation).  So the recordings are the  *)
(* same behaviour: they agree in the next event as long as they have agreed   *)
(* in all earlier ones.  Events come in pairs, each recording's as text.  C30 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, S
NoSession == [sid |-> -1, same |-> TRUE]
Fails(ev, T) ==
    IF ~T.same \/ ev.a = ev.b THEN {}
    ELSE IF ev.n = 1 THEN {<<"C30", "the same calls give the same results: " \o ev.op>>}
    ELSE {<<"C30", "both recordings have as many events">>}
TraceInit == l = 1 /\ S = NoSession
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
           T  == IF ev.s = S.sid THEN S ELSE [sid |-> ev.s, same |-> TRUE]
           f  == Fails(ev, T)
       IN /\ f # {} => PrintT("FAIL " \o ToString(l) \o " " \o ToJson(SetToSeq(f)))
          /\ S' = [sid |-> ev.s, same |-> T.same /\ ev.a = ev.b]
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, S>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
