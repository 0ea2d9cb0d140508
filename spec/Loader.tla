------------------------------- MODULE Loader -------------------------------
(* Reading a data file, character by character.  A text is a sequence of one-character strings.
   Numbers are exact decimals: [neg, dig, ex], value 0.dig * 10^ex with dig a sequence of digits, first and last not 0;
   zero is [neg |-> FALSE, dig |-> <<>>, ex |-> 0]. *)
EXTENDS Arith

NL == "\n"
Blank == {" ", "\t", "\r"}
DigitOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              CHOOSE d \in 0..9 : c = <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]]
IsDigit(c) == c \in DOMAIN DigitOf

\* Lines as a reader by lines sees them: a final newline does not start another line
SplitAt(text, S, keepEmpty) ==
  LET r == FoldLeft(LAMBDA acc, c :
                      IF c \in S THEN [out |-> IF acc.cur = <<>> /\ ~keepEmpty THEN acc.out ELSE Append(acc.out, acc.cur), cur |-> <<>>]
                      ELSE [acc EXCEPT !.cur = Append(@, c)],
                    [out |-> <<>>, cur |-> <<>>], text)
  IN  IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)
Lines(text) == SplitAt(text, {NL}, TRUE)
\* Columns: maximal runs of characters that are not separators
Tokens(line, seps) == SplitAt(line, seps, FALSE)

-----------------------------------------------------------------------------
(* Numbers *)
Zero == [neg |-> FALSE, dig |-> <<>>, ex |-> 0]

RECURSIVE StripFront(_, _)
StripFront(s, S) == IF s = <<>> \/ s[1] \notin S THEN s ELSE StripFront(Tail(s), S)
RECURSIVE StripBack(_, _)
StripBack(s, S) == IF s = <<>> \/ s[Len(s)] \notin S THEN s ELSE StripBack(SubSeq(s, 1, Len(s) - 1), S)

RECURSIVE DigitsAt(_, _)     \* length of the run of digits from position p
DigitsAt(s, p) == IF p > Len(s) \/ ~IsDigit(s[p]) THEN 0 ELSE 1 + DigitsAt(s, p + 1)

Sign(s, p) == IF p <= Len(s) /\ s[p] \in {"+", "-"} THEN 1 ELSE 0
ToInt(ds) == FoldLeft(LAMBDA acc, c : IF acc > 100000 THEN acc ELSE acc * 10 + DigitOf[c], 0, ds)

\* [num |-> is a number, val |-> its value]
Number(tok) ==
  LET s == StripBack(StripFront(tok, Blank), Blank)
      no == [num |-> FALSE, val |-> Zero]
      a == 1 + Sign(s, 1)
      i == DigitsAt(s, a)                            \* digits before the point
      dot == a + i <= Len(s) /\ s[a + i] = "."
      f == IF dot THEN DigitsAt(s, a + i + 1) ELSE 0  \* digits after it
      b == a + i + (IF dot THEN 1 + f ELSE 0)         \* position after the mantissa
      isE == b <= Len(s) /\ s[b] \in {"e", "E"}
      es == IF isE THEN Sign(s, b + 1) ELSE 0
      el == IF isE THEN DigitsAt(s, b + 1 + es) ELSE 0
      end == IF isE THEN b + 1 + es + el ELSE b
  IN  IF s = <<>> \/ i + f = 0 \/ (isE /\ el = 0) \/ end <= Len(s) THEN no
      ELSE LET ds == [k \in 1..(i + f) |-> DigitOf[IF k <= i THEN s[a + k - 1] ELSE s[a + k]]]
               lead == Len(ds) - Len(StripFront(ds, {0}))
               e10 == IF ~isE THEN 0
                      ELSE LET v == ToInt(SubSeq(s, b + 1 + es, end - 1))
                           IN  IF es = 1 /\ s[b + 1] = "-" THEN -v ELSE v
               dig == StripBack(StripFront(ds, {0}), {0})
           IN  [num |-> TRUE, val |-> IF dig = <<>> THEN Zero
                                      ELSE [neg |-> s[1] = "-", dig |-> dig, ex |-> i - lead + e10]]

\* Too large for a double; values near the limits are not judged
TooLarge(v) == v.dig # <<>> /\ v.ex > 310
Ordinary(v) == v.dig = <<>> \/ (v.ex < 305 /\ v.ex > -300 /\ Len(v.dig) <= 15)

-----------------------------------------------------------------------------
(* The table in a file: [ok, sure (the outcome is determined), rows] *)
LoadText(text, seps, max, col) ==
  LET all == Lines(text)
      used == IF max <= 0 THEN all ELSE SubSeq(all, 1, Min2(max, Len(all)))
      cells == [i \in 1..Len(used) |-> Tokens(used[i], seps)]
      no == [ok |-> FALSE, sure |-> TRUE, rows |-> <<>>]
  IN  IF used = <<>> \/ col < 0 \/ Len(cells[1]) <= col \/ \E i \in 1..Len(cells) : Len(cells[i]) # Len(cells[1]) THEN no
      ELSE LET kept == [i \in 1..Len(cells) |-> [j \in 1..(Len(cells[1]) - col) |-> Number(cells[i][j + col])]]
               cellsOf(P(_)) == \E i \in 1..Len(kept) : \E j \in 1..Len(kept[i]) : P(kept[i][j])
           IN  IF cellsOf(LAMBDA x : ~x.num \/ TooLarge(x.val)) THEN no
               ELSE [ok |-> TRUE, sure |-> ~cellsOf(LAMBDA x : ~Ordinary(x.val)),
                     rows |-> [i \in 1..Len(kept) |-> [j \in 1..Len(kept[i]) |-> kept[i][j].val]]]

-----------------------------------------------------------------------------
(* Writing integers: what saving produces, for the round trip on the model *)
RECURSIVE IntText(_)
IntText(n) == IF n < 0 THEN <<"-">> \o IntText(-n)
              ELSE LET d == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[(n % 10) + 1]
                   IN  IF n < 10 THEN <<d>> ELSE IntText(n \div 10) \o <<d>>
WriteText(rows, sep) ==
  FoldLeft(LAMBDA acc, row : acc \o FoldLeft(LAMBDA a, x : a \o IntText(x) \o <<sep>>, <<>>, row) \o <<NL>>, <<>>, rows)

RECURSIVE DecOf(_)
DecOf(n) ==
  IF n = 0 THEN Zero
  ELSE LET s == IntText(Abs(n))
           ds == [k \in 1..Len(s) |-> DigitOf[s[k]]]
       IN  [neg |-> n < 0, dig |-> StripBack(ds, {0}), ex |-> Len(s)]
=============================================================================
