----------------------------- MODULE SourceMap -----------------------------
(***************************************************************************)
(* Positions in a source text: which line a position is on, and how a span *)
(* is shown to the user (the quoted rows of the lines it touches, with the *)
(* span underlined).                                                       *)
(*                                                                         *)
(* The machine builds a text character by character (or, in simulations,   *)
(* by runs of a character, so that lines get longer than the terminal is   *)
(* wide) and asks about spans of it.  A position is a byte offset.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, Chars, Runs, MaxLen, MaxAsk, Width

VARIABLES txt, asked
vars == <<txt, asked>>

Sim == Mode = "sim"

(* Characters by their code in the quoting of the harness: bytes, columns. *)
NL == "%a;"
Bytes(c) == CASE c \in {"%301;", "%e9;"} -> 2 [] c = "%3042;" -> 3 [] c = "%1f600;" -> 4 [] OTHER -> 1
Cols(c) == CASE c = "%301;" -> 0 [] c \in {"%3042;", "%1f600;"} -> 2 [] OTHER -> 1

RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN c \o Rep(c, n - 1) ELSE LET h == Rep(c, n \div 2) IN h \o h
RECURSIVE Cat(_, _, _)
Cat(s, i, j) == IF i > j THEN "" ELSE s[i] \o Cat(s, i + 1, j)

(* The text the functions see always ends in a newline. *)
Code == IF txt = <<>> \/ txt[Len(txt)] # NL THEN Append(txt, NL) ELSE txt

RECURSIVE Offs(_, _, _)
Offs(s, i, acc) == IF i > Len(s) THEN acc ELSE Offs(s, i + 1, Append(acc, acc[Len(acc)] + Bytes(s[i])))
\* offset of each character, and of the end
OffsOf(s) == Offs(s, 1, <<0>>)

(* Line of a position: one more than the newlines before it. *)
LineOf(s, o, p) == 1 + Cardinality({i \in 1..Len(s) : s[i] = NL /\ o[i] < p})

RECURSIVE ColSum(_, _, _)
ColSum(s, i, j) == IF i > j THEN 0 ELSE Cols(s[i]) + ColSum(s, i + 1, j)

(* Rows of a line (characters i..j) on a terminal of the given width: the  *)
(* starts of the rows.                                                     *)
RECURSIVE RowStarts(_, _, _, _, _)
RowStarts(s, i, j, w, acc) ==
  IF i > j THEN acc
  ELSE LET c == Cols(s[i]) IN
       IF w > 0 /\ w + c > Width THEN RowStarts(s, i + 1, j, c, Append(acc, i))
       ELSE RowStarts(s, i + 1, j, w + c, acc)

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x

(* One line: characters a..b, b the newline; the span covers x..y of it.   *)
\* columns of a newline: it is drawn like a blank
ShowLine(s, a, b, x, y) ==
  LET st == RowStarts(s, a, b - 1, 0, <<a>>)
      from == Max({st[i] : i \in {i \in 1..Len(st) : i = 1 \/ st[i] <= x}})
      after == {st[i] : i \in {i \in 2..Len(st) : st[i] > y}}
      to == IF after = {} THEN b - 1 ELSE Min(after) - 1
  IN Cat(s, from, to) \o NL \o Rep(" ", ColSum(s, from, x - 1)) \o Rep("^", ColSum(s, x, y)) \o NL

RECURSIVE ShowFrom(_, _, _, _, _)
\* a: first character of a line; the span lo..hi in bytes
ShowFrom(s, o, a, lo, hi) ==
  IF a > Len(s) \/ o[a] > hi THEN ""
  ELSE LET b == Min({i \in a..Len(s) : s[i] = NL})
           x == IF lo <= o[a] THEN a ELSE CHOOSE i \in a..b : o[i] <= lo /\ lo < o[i + 1]
           y == IF hi >= o[b] THEN b ELSE CHOOSE i \in a..b : o[i] <= hi /\ hi < o[i + 1]
       IN (IF o[b] < lo THEN "" ELSE ShowLine(s, a, b, x, y)) \o ShowFrom(s, o, b + 1, lo, hi)

Show(s, o, lo, hi) ==
     "d/f.rb:" \o ToString(LineOf(s, o, lo)) \o NL
     \o (IF lo = o[Len(s) + 1] THEN NL \o "^" \o NL          \* the end of the text
         ELSE ShowFrom(s, o, 1, lo, hi))

Ask(s, o, i, hi, r) ==
  LET q == o[(r % (Len(s) + 1)) + 1]
  IN PrintT("@" \o ToJson([k |-> "src", t |-> Cat(txt, 1, Len(txt)), lo |-> o[i], hi |-> hi, l |-> LineOf(s, o, o[i]), e |-> Show(s, o, o[i], hi),
                           lo2 |-> q, hi2 |-> q + r]))

Init == txt = <<>> /\ asked = 0
Grow(c, n) == Len(txt) + n <= MaxLen /\ asked = 0 /\ txt' = txt \o [i \in 1..n |-> c] /\ asked' = asked
\* long and short spans alike
Ends(lo, end, r) == CASE r = 0 -> {lo} [] r = 1 -> {end} [] r < 6 -> {IF lo + r < end THEN lo + r ELSE end} [] OTHER -> {RandomElement(lo..end)}
Query ==
  /\ asked < MaxAsk
  /\ Sim => Len(txt) >= 30
  /\ asked' = asked + 1 /\ txt' = txt
  /\ LET s == Code
         o == OffsOf(s)
         end == o[Len(s) + 1]
     IN IF Sim
        THEN \E i \in {RandomElement(1..(Len(s) + 1))} : \E hi \in Ends(o[i], end, RandomElement(0..9)) : Ask(s, o, i, hi, RandomElement(0..50))
        ELSE \A i \in 1..(Len(s) + 1) : \A hi \in o[i]..end : Ask(s, o, i, hi, hi)
\* (the guard keeps TLC from drawing once for all steps)
Next == \/ /\ asked = 0
           /\ \E c \in (IF Sim THEN {RandomElement(Chars)} ELSE Chars) : \E n \in (IF Sim THEN {RandomElement(Runs)} ELSE Runs) : Grow(c, n)
        \/ Query
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Every position is on exactly one line, lines grow with positions, and   *)
(* a line starts right after the newline of the one before.                *)
TypeOK == asked \in 0..MaxAsk /\ \A i \in 1..Len(txt) : txt[i] \in Chars
Monotone == LET s == Code o == OffsOf(s) IN
  \A i \in 1..Len(s) : LineOf(s, o, o[i + 1]) = LineOf(s, o, o[i]) + (IF s[i] = NL THEN 1 ELSE 0)
RowsFit == LET s == Code IN
  \A a \in 1..Len(s) : (a = 1 \/ s[a - 1] = NL) =>
     LET b == Min({i \in a..Len(s) : s[i] = NL})
         st == RowStarts(s, a, b - 1, 0, <<a>>)
     IN \A k \in 1..Len(st) : ColSum(s, st[k], (IF k < Len(st) THEN st[k + 1] ELSE b) - 1) <= Width
=============================================================================
