------------------------------- MODULE DSetRun -------------------------------
(* DisjointSet with the history of calls: every transition is printed with    *)
(* the calls that lead to it, for replay on the implementation.               *)
EXTENDS DisjointSet
VARIABLE hist
RInit == Init /\ hist = <<>>
RNext == Next /\ hist' = Append(hist, last')
RSpec == RInit /\ [][RNext]_<<part, par, size, last, hist>>
EmitRun == PrintT("B|" \o ToJson(<<Optimize, hist'>>))
=============================================================================
