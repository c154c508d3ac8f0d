------------------------------ MODULE Display ------------------------------
(* The display mode of an object while algorithms run.  A call may be given a *)
(* mode; then it is the mode of the object until the call returns.  Calls are *)
(* nested: a method calls another one, or itself, without a mode, with the    *)
(* mode it works with, or with 'off' for a part that is not to be seen.       *)
(* A picture may have nodes highlighted; they are marked for this picture.    *)
(* With Restore = FALSE (the mode of a call stays) TLC finds that the owner's *)
(* mode is lost; with Unmark = FALSE that a later picture has marks.     C31  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Modes,    \* 'off' and others
          Nodes, Depth, Steps, Restore, Unmark
VARIABLES own,      \* the mode the owner has chosen
          cur,      \* the mode of the object
          red,      \* the marked nodes
          st,       \* running calls: the mode they found
          eff,      \* the mode the outermost running call works with
          pics,     \* pictures of the last call or display: mode, marks, asked for
          h         \* what the owner has done
vars == <<own, cur, red, st, eff, pics, h>>
Args == Modes \cup {"none"}
Eff(a, m) == IF a = "none" THEN m ELSE a
Init == /\ own \in Modes /\ cur = own /\ red = {} /\ st = <<>> /\ eff = "none" /\ pics = {}
        /\ h = <<[op |-> "new", m |-> own, H |-> {}]>>
Do(op, m, H) == Len(h) <= Steps /\ h' = Append(h, [op |-> op, m |-> m, H |-> H])
SetMode(m) == /\ st = <<>> /\ Do("mode", m, {}) /\ own' = m /\ cur' = m /\ pics' = {} /\ UNCHANGED <<red, st, eff>>
Begin(a) == st' = Append(st, cur) /\ cur' = Eff(a, cur)
\* the owner calls
Call(a) == /\ st = <<>> /\ Do("call", a, {}) /\ Begin(a) /\ eff' = Eff(a, cur) /\ pics' = {} /\ UNCHANGED <<own, red>>
\* the method calls
Nested(a) == /\ st # <<>> /\ Len(st) < Depth /\ a \in {"none", cur, "off"} /\ Begin(a) /\ UNCHANGED <<own, red, eff, pics, h>>
Picture(H, e) == IF cur = "off" THEN UNCHANGED <<pics, red>>
                 ELSE /\ pics' = pics \cup {[mode |-> cur, marked |-> red \cup H, asked |-> H, eff |-> e]}
                      /\ red' = IF Unmark THEN red \ H ELSE red \cup H
Draw(H) == st # <<>> /\ Picture(H, eff) /\ UNCHANGED <<own, cur, st, eff, h>>
Return == /\ st # <<>> /\ cur' = (IF Restore THEN Last(st) ELSE cur) /\ st' = Front(st)
          /\ eff' = (IF Len(st) = 1 THEN "none" ELSE eff) /\ UNCHANGED <<own, red, pics, h>>
\* the owner displays the object
Show(H) == st = <<>> /\ Do("show", "none", H) /\ Picture(H, cur) /\ UNCHANGED <<own, cur, st, eff>>
Next == \/ \E m \in Modes : SetMode(m)
        \/ \E a \in Args : Call(a) \/ Nested(a)
        \/ \E H \in SUBSET Nodes : Draw(H) \/ Show(H)
        \/ Return
Spec == Init /\ [][Next]_vars
ModeKept == st = <<>> => cur = own
OnlyAsked == \A p \in pics : p.mode = p.eff /\ p.eff # "off"
MarkedAsAsked == \A p \in pics : p.marked = p.asked
NothingMarked == red = {}
\* a call is seen only if it is to be seen
Silent == (st # <<>> /\ eff = "off") => pics = {}
EmitRun == (st = <<>> /\ Len(h) = Steps + 1) =>
    PrintT("B|" \o ToJson([i \in DOMAIN h |-> [op |-> h[i].op, m |-> h[i].m, H |-> SetToSeq(h[i].H)]]))
=============================================================================
