------------------------------- MODULE Writer -------------------------------
(* Saving (C21).  What a save writes is a sequence of bytes; a place takes only so many of them.
   The part used on recordings: a save names a content by a key (dataset, kind, separator); the contents of the keys are
   learnt from saves to good places and forgotten when a dataset changes.
   State: [content |-> function from keys to [tok, len], view |-> everything else there is to see, as a token, or 0] *)
EXTENDS Integers, Sequences

Known(s, k) == k \in DOMAIN s.content
\* The place takes the whole content: cap < 0 if it takes anything
Takes(s, e) == e.open /\ (e.cap < 0 \/ (Known(s, e.key) /\ s.content[e.key].len <= e.cap))
Refuses(s, e) == ~e.open \/ (e.cap >= 0 /\ Known(s, e.key) /\ s.content[e.key].len > e.cap)

P_C21(s, e) ==
  /\ e.op = "save" =>
       /\ Takes(s, e) => e.ok
       /\ Refuses(s, e) => ~e.ok
       \* reported as saved: the whole content is there, and says what the dataset holds
       /\ e.ok /\ e.cat => /\ Known(s, e.key) => e.tok = s.content[e.key].tok /\ e.len = s.content[e.key].len
                           /\ e.cap < 0 => e.says = e.holds
  \* saving changes nothing that is loaded
  /\ e.op = "save" /\ s.view # 0 => e.view = s.view

Step(s, e) ==
  CASE e.op = "save" -> [content |-> IF e.ok /\ e.cap < 0 /\ e.cat
                                     THEN [k \in DOMAIN s.content \cup {e.key} |-> IF k = e.key THEN [tok |-> e.tok, len |-> e.len] ELSE s.content[k]]
                                     ELSE s.content,
                         view |-> e.view]
    [] OTHER -> [content |-> [k \in {} |-> 0], view |-> e.view]

Fresh == [content |-> [k \in {} |-> 0], view |-> 0]
=============================================================================
