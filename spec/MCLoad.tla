------------------------------- MODULE MCLoad -------------------------------
(* The laws of reading and writing data files on all short texts (C05) and all small tables (C06). *)
EXTENDS Loader

CONSTANTS Chars, MaxText, Vals, MaxRows, MaxCols

VARIABLES text, rows, mode
vars == <<text, rows, mode>>

Tables == UNION {[1..n -> [1..m -> Vals]] : n \in 1..MaxRows, m \in 1..MaxCols}

Init == \/ mode = "text" /\ text = <<>> /\ rows = <<>>
        \/ mode = "table" /\ text = <<>> /\ rows \in Tables
Next == /\ mode = "text" /\ Len(text) < MaxText
        /\ \E c \in Chars : text' = Append(text, c)
        /\ UNCHANGED <<rows, mode>>
Spec == Init /\ [][Next]_vars

Seps == {{" "}, {","}, {" ", ","}}
Load(t, s, m, c) == LoadText(t, s, m, c)

\* C06: what was written is read
RoundTrip ==
  mode = "table" => \A s \in {" ", ",", ";"} :
    LET r == Load(WriteText(rows, s), {s}, 0, 0)
    IN  r.ok /\ r.sure /\ r.rows = [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> DecOf(rows[i][j])]]
\* A table starting at column c, or limited to m rows, is that part of the whole table
PartsOfTables ==
  mode = "table" => \A c \in 0..(MaxCols + 1) : \A m \in -1..(MaxRows + 1) :
    LET r == Load(WriteText(rows, " "), {" "}, m, c)
        n == IF m <= 0 THEN Len(rows) ELSE Min2(m, Len(rows))
    IN  r.ok = (c < Len(rows[1]))
        /\ r.ok => r.rows = [i \in 1..n |-> [j \in 1..(Len(rows[i]) - c) |-> DecOf(rows[i][j + c])]]

\* Texts
Rectangular == mode = "text" => \A s \in Seps : LET r == Load(text, s, 0, 0)
                                                IN  r.ok => r.rows # <<>> /\ \A i \in 1..Len(r.rows) : Len(r.rows[i]) = Len(r.rows[1]) /\ Len(r.rows[i]) >= 1
\* A final newline makes no difference, unless it is a line of its own
FinalNewline == mode = "text" /\ text # <<>> => (text[Len(text)] # NL => \A s \in Seps : Load(text, s, 0, 0) = Load(Append(text, NL), s, 0, 0))
\* A limit that the file does not reach makes no difference; fewer rows are the first ones, and are never harder to read
Limits == mode = "text" => \A s \in Seps : \A c \in 0..1 :
            LET all == Load(text, s, 0, c)
            IN  /\ Load(text, s, Len(Lines(text)), c) = all \/ Lines(text) = <<>>
                /\ \A m \in 1..MaxText : all.ok => LET r == Load(text, s, m, c) IN r.ok /\ r.rows = SubSeq(all.rows, 1, Min2(m, Len(all.rows)))
\* Skipped columns may hold anything
Skipping == mode = "text" => \A s \in Seps : LET r == Load(text, s, 0, 0)  q == Load(text, s, 0, 1)
                                             IN  r.ok /\ Len(r.rows[1]) > 1 => q.ok /\ q.rows = [i \in 1..Len(r.rows) |-> Tail(r.rows[i])]
NegativeColumn == mode = "text" => \A s \in Seps : ~Load(text, s, 0, -1).ok

MCVals == {-12, 0, 7, 100}
MCChars == {"1", "x", " ", ",", NL, "-", "."}
MCChars2 == {"1", "0", "e", "+", "-", ".", " ", NL}
=============================================================================
