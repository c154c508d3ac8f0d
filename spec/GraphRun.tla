------------------------------ MODULE GraphRun ------------------------------
(* Behaviours of GraphADT with their history, printed when they reach a given *)
(* length, for replay on the implementation (spec to code).                   *)
EXTENDS GraphADT
CONSTANT Length
VARIABLE hist
RInit == Init /\ hist = <<>>
RNext == Len(hist) < Length /\ Next /\ hist' = Append(hist, last')
RSpec == RInit /\ [][RNext]_<<g, last, hist>>
EmitRun == Len(hist) = Length => PrintT("B|" \o ToJson(<<g.t, hist>>))
=============================================================================
