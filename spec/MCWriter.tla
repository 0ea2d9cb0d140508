------------------------------ MODULE MCWriter ------------------------------
(* Saving through a buffer of B bytes to a place that takes cap bytes (cap < 0: any number), as the code does: the content is
   written piece by piece, the buffer is flushed when full and at the end, and the outcome is reported after that.
   Checked: what Writer.tla (C21) requires, for every size of content, buffer, piece and place. *)
EXTENDS Writer, Naturals, FiniteSets

CONSTANTS MaxLen, Bs, Pieces

VARIABLES len,      \* bytes of the content
          cap, b, piece, open,
          put,      \* bytes handed to the stream
          held,     \* of them, in the buffer
          disk,     \* of them, in the file
          bad,      \* the stream has noticed an error
          done, ok
vars == <<len, cap, b, piece, open, put, held, disk, bad, done, ok>>

Min(x, y) == IF x < y THEN x ELSE y
Room == IF cap < 0 THEN 2 * MaxLen ELSE cap - disk

Init == /\ len \in 0..MaxLen /\ cap \in -1..MaxLen /\ b \in Bs /\ piece \in Pieces /\ open \in BOOLEAN
        /\ put = 0 /\ held = 0 /\ disk = 0 /\ bad = ~open /\ done = FALSE /\ ok = FALSE

Flush(h, d, w) == LET n == Min(h, Room) IN [held |-> 0, disk |-> d + n, bad |-> w \/ n < h]

Write == /\ ~done /\ put < len
         /\ LET n == Min(piece, len - put)
                f == IF held + n > b THEN Flush(held + n, disk, bad) ELSE [held |-> held + n, disk |-> disk, bad |-> bad]
            IN  /\ put' = put + n
                /\ IF bad THEN UNCHANGED <<held, disk, bad>>      \* nothing more goes out after an error
                   ELSE held' = f.held /\ disk' = f.disk /\ bad' = f.bad
         /\ UNCHANGED <<len, cap, b, piece, open, done, ok>>
Close == /\ ~done /\ put = len
         /\ LET f == IF bad THEN [held |-> 0, disk |-> disk, bad |-> TRUE] ELSE Flush(held, disk, bad)
            IN  held' = f.held /\ disk' = f.disk /\ bad' = f.bad /\ ok' = ~f.bad
         /\ done' = TRUE
         /\ UNCHANGED <<len, cap, b, piece, open, put>>
Next == Write \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ev == [op |-> "save", key |-> 1, cap |-> cap, open |-> open, cat |-> TRUE, ok |-> ok, tok |-> disk, len |-> disk, says |-> disk, holds |-> len, view |-> 1]
S == [content |-> [k \in {1} |-> [tok |-> len, len |-> len]], view |-> 1]
AsRequired == done => P_C21(S, Ev)
\* What is in the file is always a beginning of the content
APrefix == disk <= put /\ disk + held <= put
Ends == <>done
=============================================================================
