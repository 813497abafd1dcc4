------------------------------ MODULE Numbers ------------------------------
(* Numeric literals.                                                        *)
(*                                                                          *)
(* A behaviour writes one number, character by character: sign, radix       *)
(* prefix, digits, underscores, fraction, exponent, imaginary suffix, in a  *)
(* context.  Beside the text it computes the value, exactly, in limbs of    *)
(* four decimal digits; of a float it keeps the decimal that was written.   *)
(* Every reachable place has its illegal continuations too.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Mode,     \* "sim": one choice of each kind, "bfs": all
  Radices,  \* subset of {"10", "16", "8", "0", "2"}; "0" is octal by a leading zero
  Kinds,    \* subset of {"us", "frac", "exp", "imag", "sign", "bad", "run"}
  Ctxs,     \* numbers of contexts
  DigSet,   \* digits to append one at a time
  MaxLen    \* digits and runs

VARIABLES ph, txt, neg, rad, val, dec, len, mk, ctx, res
vars == <<ph, txt, neg, rad, val, dec, len, mk, ctx, res>>

Pick(S) == IF Mode = "sim" /\ S # {} THEN {RandomElement(S)} ELSE S
Low == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upp == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>

-----------------------------------------------------------------------------
(* Naturals of any size: limbs of base 10000, least significant first, no   *)
(* leading zero limb; <<>> is zero.                                         *)
RECURSIVE MulAdd(_, _, _)
MulAdd(v, r, c) ==
  IF v = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == v[1] * r + c IN <<t % 10000>> \o MulAdd(Tail(v), r, t \div 10000)
RECURSIVE Less(_, _)
Less(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = <<>> THEN FALSE
  ELSE LET n == Len(a) IN IF a[n] # b[n] THEN a[n] < b[n] ELSE Less(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
Two63 == <<5808, 5477, 368, 3372, 922>>
Pad(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n) ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE Rest(_)
Rest(v) == IF v = <<>> THEN "" ELSE Pad(v[Len(v)]) \o Rest(SubSeq(v, 1, Len(v) - 1))
Show(v) == IF v = <<>> THEN "0" ELSE ToString(v[Len(v)]) \o Rest(SubSeq(v, 1, Len(v) - 1))
Tree(s, v) == (IF Less(v, Two63) THEN "(int " ELSE "(big ") \o (IF s /\ v # <<>> THEN "-" ELSE "") \o Show(v) \o ")"

Radix == CASE rad = "16" -> 16 [] rad \in {"8", "0"} -> 8 [] rad = "2" -> 2 [] OTHER -> 10

\* runs of digits which lead to the ends of 32, 53 and 64 bits
Runs ==
  CASE rad = "16" -> { <<7,15,15,15,15,15,15,15>>, <<15,15,15,15,15,15,15,15>>, <<8,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,1>>, <<15,15,15,15,15,15,15,14>> }
    [] rad \in {"8", "0"} -> { <<7,7,7,7,7,7,7>>, <<0,0,0,0,0,0,0>>, <<1,0,0,0,0,0,0>>, <<7,7,7,7,7,7,6>> }
    [] rad = "2" -> { [i \in 1..16 |-> 1], [i \in 1..16 |-> 0], [i \in 1..15 |-> 1], <<1>> \o [i \in 1..15 |-> 0], [i \in 1..31 |-> 1], [i \in 1..63 |-> 1], <<1>> \o [i \in 1..63 |-> 0] }
    [] OTHER -> { <<9,2,2,3,3,7,2,0,3>>, <<6,8,5,4,7,7,5,8,0,7>>, <<6,8,5,4,7,7,5,8,0,8>>, <<6,8,5,4,7,7,5,8,0,9>>, <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0>>,
                  <<1,8,4,4,6,7,4,4,0,7>>, <<3,7,0,9,5,5,1,6,1,5>>, <<3,7,0,9,5,5,1,6,1,6>>, <<2,1,4,7,4,8,3,6,4,8>>, <<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,3>>,
                  <<9,9,9,9,9,9,9,9>>, <<0,0,0,0,0,0,0,0>> }
RECURSIVE AppTxt(_, _)
AppTxt(ds, d) == IF ds = <<>> THEN "" ELSE d[ds[1] + 1] \o AppTxt(Tail(ds), d)
RECURSIVE AppVal(_, _, _)
AppVal(v, ds, r) == IF ds = <<>> THEN v ELSE AppVal(MulAdd(v, r, ds[1]), Tail(ds), r)

-----------------------------------------------------------------------------
(* contexts: before, after, tree before, after, may end after the number,   *)
(* whether a sign may be written, whether it folds                          *)
E0 == "(tbl () (kw) - - -)"
Ctx ==
  << <<"", "", "", "", TRUE, E0>>,
     <<"x%20;=%20;", "", "(asgn ((lvar 0 'x')) (", "))", TRUE, "(tbl ('x') (kw) - - -)">>,
     <<"foo%28;", ",1%29;", "(call - 'foo' (args (", " (int 1)) (kw) (dsplat) - - -))", FALSE, E0>>,
     <<"foo%20;", ",%20;2", "(call - 'foo' (args (", " (int 2)) (kw) (dsplat) - - -))", TRUE, E0>>,
     <<"", ".foo", "(send - ", " 'foo' (args () (kw) (dsplat) - - -))", TRUE, E0>>,
     <<"b[", "]", "(index (ident 'b') ", ")", FALSE, E0>>,
     <<"", "+b", "(bin + ", " (ident 'b'))", TRUE, E0>>,
     <<"b+", "%20;#%20;c", "(bin + (ident 'b') ", ")", TRUE, E0>>,
     <<"", "%20;if%20;b", "(if (ident 'b') ", " (seq))", TRUE, E0>>,
     <<"b%20;?%20;", ":2", "(if (ident 'b') ", " (int 2))", FALSE, E0>>,
     <<"", "%20;?%20;1%20;:%20;2", "(if ", " (int 1) (int 2))", TRUE, E0>>,
     <<"", ";2", "(seq ", " (int 2))", TRUE, E0>>,
     <<"", "%a;2", "(seq ", " (int 2))", TRUE, E0>>,
     <<"f{", "}", "(call - 'f' (args () (kw) (dsplat) (lambda (params) ", " (tbl () (kw) - - -)) - -))", FALSE, E0>>,
     <<"b%20;..%20;", "", "(range (ident 'b') ", " .. -)", TRUE, E0>>,
     <<"b...", "%29;", "", "", FALSE, E0>>,
     <<"b&&", "||b", "(bin || (bin && (ident 'b') ", ") (ident 'b'))", TRUE, E0>>,
     <<"\"#{", "}\"", "(istr ", ")", FALSE, E0>>,
     <<"b*", "*b", "(bin * (bin * (ident 'b') ", ") (ident 'b'))", TRUE, E0>>,
     <<"b%20;-%20;", "", "(bin - (ident 'b') ", ")", TRUE, E0>>,
     <<"b,%20;c%20;=%20;", ",%20;1", "(asgn ((lvar 0 'b') (lvar 0 'c')) (", " (int 1)))", TRUE, "(tbl ('b' 'c') (kw) - - -)">>,
     <<"case%20;b%20;when%20;", "%20;then%20;1%20;end", "(case (ident 'b') (when (", ") (int 1)) (seq))", FALSE, E0>>,
     <<"return%20;", "", "(return ", ")", TRUE, E0>>,
     <<"", "/2", "(bin / ", " (int 2))", TRUE, E0>>,
     <<"", "%20;<<%20;2", "(bin << ", " (int 2))", TRUE, E0>>,
     <<"foo%20;b,%20;", "", "(call - 'foo' (args ((ident 'b') ", ") (kw) (dsplat) - - -))", TRUE, E0>> >>
Used == Ctxs \ {16}
Whole == Ctx[ctx][5]
Fin == IF Whole THEN "%=;" ELSE ""   \* the text may end here

Init == ph = "start" /\ txt = "" /\ neg = FALSE /\ rad = "10" /\ val = <<>> /\ dec = "" /\ len = 0 /\ mk = "" /\ ctx = 0 /\ res = ""

\* mk is a pending marker: the last character written must be followed by a digit
Start ==
  /\ ph = "start"
  /\ \E n \in Pick(Used), s \in (IF "sign" \in Kinds THEN Pick({TRUE, FALSE}) ELSE {FALSE}) :
       /\ ctx' = n /\ neg' = s
       /\ txt' = Ctx[n][1] \o "%[1;" \o (IF s THEN "-" ELSE "")
  /\ ph' = "head"
  /\ UNCHANGED <<rad, val, dec, len, mk, res>>

Prefix ==
  /\ ph = "head"
  /\ \E r \in Pick(Radices) :
       /\ rad' = r
       /\ CASE r = "16" -> /\ txt' = txt \o "0x%<;" /\ mk' = "%>;" /\ ph' = "need"
            [] r = "8"  -> /\ txt' = txt \o "0o%<;" /\ mk' = "%>;" /\ ph' = "need"
            [] r = "2"  -> /\ txt' = txt \o "0b%<;" /\ mk' = "%>;" /\ ph' = "need"
            [] r = "0"  -> /\ txt' = txt \o "0" /\ mk' = "" /\ ph' = "oct"
            [] OTHER    -> /\ txt' = txt /\ mk' = "" /\ ph' = "first"
  /\ UNCHANGED <<neg, val, dec, len, ctx, res>>

Dig == {d \in DigSet : d < Radix}
Put(ds, tab) ==
  /\ txt' = txt \o AppTxt(<<ds[1]>>, tab) \o mk \o AppTxt(Tail(ds), tab) \o (IF Whole /\ Mode = "bfs" THEN "%=;" ELSE "")
  /\ mk' = ""
  /\ len' = len + 1
  /\ UNCHANGED <<neg, rad, ctx, res>>

\* a digit of the integer part
Digit ==
  /\ ph \in {"need", "first", "oct", "int", "zero"} /\ len < MaxLen
  /\ (rad = "10" /\ ph = "zero") => FALSE      \* a leading zero is radix "0"
  /\ \E d \in Pick(Dig), t \in Pick({Low, Upp}) :
       /\ (Mode = "bfs" /\ d < 10) => t = Low
       /\ Put(<<d>>, t)
       /\ val' = MulAdd(val, Radix, d) /\ dec' = dec \o Low[d + 1]
       /\ ph' = IF ph = "first" /\ d = 0 THEN "zero" ELSE "int"
Run ==
  /\ "run" \in Kinds /\ ph \in {"need", "first", "oct", "int"} /\ len < MaxLen
  /\ \E ds \in Pick({r \in Runs : (ph = "first" => r[1] # 0)}) :
       /\ Put(ds, Low)
       /\ val' = AppVal(val, ds, Radix) /\ dec' = dec \o AppTxt(ds, Low)
       /\ ph' = "int"
Under ==
  /\ "us" \in Kinds /\ len < MaxLen
  /\ \/ /\ ph \in {"int", "oct"} /\ ph' = "need"
     \/ /\ ph = "frac" /\ ph' = "fneed"
     \/ /\ ph = "exp" /\ ph' = "eneed"
  /\ txt' = txt \o "_%<;" /\ mk' = "%>;"
  /\ UNCHANGED <<neg, rad, val, dec, len, ctx, res>>
Point ==
  /\ "frac" \in Kinds /\ ph \in {"int", "zero"} /\ rad = "10" /\ len < MaxLen
  /\ txt' = txt \o ".%<;" /\ mk' = "%>;" /\ dec' = dec \o "." /\ ph' = "pneed"
  /\ UNCHANGED <<neg, rad, val, len, ctx, res>>
FDigit ==
  /\ ph \in {"fneed", "pneed", "frac"} /\ len < MaxLen
  /\ \E ds \in Pick({<<d>> : d \in Dig} \union (IF "run" \in Kinds THEN Runs ELSE {})) : Put(ds, Low) /\ dec' = dec \o AppTxt(ds, Low)
  /\ ph' = "frac" /\ UNCHANGED val
Exponent ==
  /\ "exp" \in Kinds /\ ph \in {"int", "zero", "frac"} /\ rad = "10" /\ len < MaxLen
  /\ \E e \in Pick({"e", "E"}), s \in Pick({"", "+", "-"}) :
       /\ txt' = txt \o e \o "%<;" \o s /\ mk' = "%>;" /\ dec' = dec \o "e" \o s
  /\ ph' = "eneed" /\ UNCHANGED <<neg, rad, val, len, ctx, res>>
EDigit ==
  /\ ph \in {"eneed", "exp"} /\ len < MaxLen
  /\ \E d \in Pick(Dig) : Put(<<d>>, Low) /\ dec' = dec \o Low[d + 1]
  /\ ph' = "exp" /\ UNCHANGED val

\* the literal is over
Complete == ph \in {"int", "zero", "frac", "exp"}
IsFloat == ph \in {"frac", "exp"}
Mag(s) == IF IsFloat THEN "(dec " \o (IF s THEN "-" ELSE "") \o dec \o ")" ELSE Tree(s, val)
Finish ==
  /\ Complete
  /\ \E im \in (IF "imag" \in Kinds THEN Pick({TRUE, FALSE}) ELSE {FALSE}) :
       LET t == IF im THEN (IF neg THEN "(un - (imag " \o Mag(FALSE) \o "))" ELSE "(imag " \o Mag(FALSE) \o ")") ELSE Mag(neg)
           c == Ctx[ctx]
           loc == IF im /\ neg THEN "" ELSE "@#1;"
       IN /\ res' = c[3] \o t \o loc \o c[4]
          /\ txt' = txt \o (IF im THEN "i" ELSE "") \o "%];" \o Fin \o c[2]
          /\ ~(im /\ neg /\ ctx = 5)  \* a minus before an imaginary number is an operator
  /\ ph' = "done" /\ UNCHANGED <<neg, rad, val, dec, len, mk, ctx>>

\* what may not follow
Illegal ==
  CASE ph = "need" /\ len = 0 -> {"_1", "g", "%20;", ".5", "-1", "__1"} \union (IF Radix < 10 THEN {"9"} ELSE {}) \union (IF Radix = 2 THEN {"2"} ELSE {})
    [] ph = "need" -> {"_1", "g", "%20;", ".5", "i"} \union (IF Radix < 10 THEN {"9"} ELSE {}) \union (IF Radix = 2 THEN {"2"} ELSE {}) \union (IF Radix < 16 THEN {"e1"} ELSE {})
    [] ph = "oct" -> {"8", "9"}
    [] ph = "int" /\ rad # "10" -> {"_%20;", "__1", "g", "z", ".5", "ii", "_g", "x1"} \union (IF Radix < 16 THEN {"9", "e1", "a"} ELSE {"p3", ".5e1"}) \union (IF Radix = 2 THEN {"2"} ELSE {})
    [] ph = "int" -> {"_%20;", "__1", "g", "z", "_.5", "ii", "_e1", "_i", "x1", "b1", "a", "e_1", "e%20;1", "e%20;", "ez", "e-_1", "e+%20;", ".5.5", "e5.5", "_a"}
    [] ph = "fneed" -> {"_1", "a", "%20;", ".5", "i", "e1"}
    [] ph = "frac" -> {"_%20;", "__1", "g", ".5", "ii", "_e1", "_i", "a", "e_1", "e%20;", "ez", "e-%20;"}
    [] ph = "eneed" -> {"_1", "a", "%20;", "i", "e1"}
    [] ph = "exp" -> {"_%20;", "__1", "g", ".5", "ii", "_i", "a", "e1", "E1", "_.1"}
    [] OTHER -> {}
Bad ==
  /\ "bad" \in Kinds /\ Illegal # {} /\ ctx \notin {5, 7, 8, 18, 19, 24}
  /\ \E b \in Pick(Illegal) : txt' = txt \o mk \o b \o "%];" \o Ctx[ctx][2]
  /\ res' = "syn" /\ ph' = "done"
  /\ UNCHANGED <<neg, rad, val, dec, len, mk, ctx>>

Emit ==
  /\ ph = "done" /\ ph' = "out"
  /\ PrintT("@" \o ToJson([k |-> "num", t |-> txt, e |-> res, b |-> IF res = "syn" THEN "" ELSE Ctx[ctx][6], c |-> "radix" \o rad]))
  /\ UNCHANGED <<txt, neg, rad, val, dec, len, mk, ctx, res>>

Next == Start \/ Prefix \/ Digit \/ Run \/ Under \/ Point \/ FDigit \/ Exponent \/ EDigit \/ Finish \/ Bad \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == ph \in {"start", "head", "need", "first", "oct", "int", "zero", "frac", "fneed", "pneed", "eneed", "exp", "done", "out"}
\* limbs are in range and canonical
Canon == (\A i \in DOMAIN val : val[i] \in 0..9999) /\ (val # <<>> => val[Len(val)] # 0)
\* the value is the positional value of the decimal digits written, wherever it is small enough to compute directly
RECURSIVE Small(_)
Small(v) == IF v = <<>> THEN 0 ELSE v[1] + 10000 * Small(Tail(v))
\* appending a digit multiplies by the radix: v * r + d, for values small enough for TLC's own integers
Step == [][(ph' = "int" /\ ph \in {"int", "need", "oct", "first"} /\ len' = len + 1 /\ Len(val') <= 2 /\ Small(val') < 100000000)
           => \/ \E d \in 0..15 : Small(val') = Small(val) * Radix + d
              \/ \E r \in Runs : val' = AppVal(val, r, Radix)]_vars
\* a pending marker only where a digit has to follow
Pending == (mk # "" /\ ph # "done" /\ ph # "out") => ph \in {"need", "fneed", "pneed", "eneed"}
=============================================================================
