------------------------------- MODULE Soup -------------------------------
(***************************************************************************)
(* Arbitrary texts: any sequence of tokens (or characters), well formed or *)
(* not.  The parser must answer every one of them, the same each time, and *)
(* within its time.  Where the tokens cannot hide a bracket or keyword in  *)
(* a literal (Decided) the machine also keeps the stack of open brackets   *)
(* and the number of constructs an `end` may close:                        *)
(*    a bracket or `end` which closes nothing can never be repaired;       *)
(*    a text which leaves a bracket open is never accepted.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, Toks, Seps, Frames, MaxLen, Decided

VARIABLES txt, n, frame, stack, ends, prev, dead, done
vars == <<txt, n, frame, stack, ends, prev, dead, done>>

Sim == Mode = "sim"

Openers == {"(", "[", "{"}
Closers == {")", "]", "}"}
Closes(c) == CASE c = ")" -> "(" [] c = "]" -> "[" [] OTHER -> "{"
\* how the harness quotes them
Sym(t) == CASE t = "%28;" -> "(" [] t = "%29;" -> ")" [] t = "%5b;" -> "[" [] t = "%5d;" -> "]" [] t = "%7b;" -> "{" [] t = "%7d;" -> "}"
            [] t = "%2e;" -> "." [] t = "%26;%2e;" -> "&." [] t = "%3a;%3a;" -> "::" [] OTHER -> t
EndOpeners == {"begin", "if", "unless", "while", "until", "case", "for", "def", "class", "module", "do"}
\* after these a keyword is a name
NameAfter == {"def", ".", "&.", "::", "alias"}

\* before and after the soup; what may be said about the whole text only for <<"", "">>
FrameTab == << <<"", "">>, <<"\"#{", "}\"">>, <<"def m%28;", "%29;%a;end">>, <<"f { |", "| }">>, <<"a = ", "">>, <<"f ", "%a;x">>, <<"class K%a;", "%a;end">>,
              <<"[", "]">>, <<"{", "}">>, <<"case x%a;when ", " then 1%a;end">>, <<"begin%a;", "%a;rescue%a;end">>, <<"x.", "">>, <<"<<A%a;", "%a;A%a;">>, <<"/", "/">>,
              <<"%25;w%28;", "%29;">>, <<"->", "{}">>, <<"for ", " in x%a;end">>, <<"a, b = ", "">>, <<":", "">>, <<"alias ", "">>, <<"return ", " if x">>, <<"%25;", "">>, <<"'", "'">>,
              <<"_1 ", "">>, <<"?", "">>, <<"0", "">>, <<"x ? ", " : y">>, <<"def ", "%a;end">> >>

Init == /\ txt = "" /\ n = 0 /\ stack = <<>> /\ ends = 0 /\ prev = <<"", "">> /\ dead = FALSE /\ done = FALSE
        /\ frame \in (IF Sim THEN {RandomElement(Frames)} ELSE Frames)

Add(t, s) ==
  LET y == Sym(t)
      isname == prev[2] \in NameAfter \/ prev[1] = "alias"
  IN /\ n < MaxLen /\ ~done
     /\ txt' = (IF n = 0 THEN "" ELSE txt \o s) \o t
     /\ n' = n + 1
     /\ prev' = <<prev[2], y>>
     /\ UNCHANGED <<frame, done>>
     /\ IF ~Decided \/ dead THEN UNCHANGED <<stack, ends, dead>>
        ELSE IF y \in Openers THEN stack' = Append(stack, y) /\ UNCHANGED <<ends, dead>>
        ELSE IF y \in Closers THEN
             IF stack # <<>> /\ stack[Len(stack)] = Closes(y) THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<ends, dead>>
             ELSE dead' = TRUE /\ UNCHANGED <<stack, ends>>
        ELSE IF y \in EndOpeners THEN ends' = ends + 1 /\ UNCHANGED <<stack, dead>>
        ELSE IF y = "end" /\ ~isname THEN
             IF ends > 0 THEN ends' = ends - 1 /\ UNCHANGED <<stack, dead>>
             ELSE dead' = TRUE /\ UNCHANGED <<stack, ends>>
        ELSE UNCHANGED <<stack, ends, dead>>

Answer == IF ~Decided THEN "any" ELSE IF dead THEN "syn" ELSE IF stack # <<>> THEN "rej" ELSE "any"
Stop ==
  /\ ~done /\ n > 0 /\ (Sim => n >= 3 /\ (n = MaxLen \/ RandomElement(1..5) = 1))
  /\ done' = TRUE /\ UNCHANGED <<txt, n, frame, stack, ends, prev, dead>>
  /\ PrintT("@" \o ToJson([k |-> "soup", t |-> FrameTab[frame][1] \o txt \o FrameTab[frame][2], e |-> Answer,
                           c |-> IF Decided THEN Answer ELSE ToString(frame)]))

\* (the guard keeps TLC from drawing once for all steps)
Next == \/ /\ ~done
           /\ \E t \in (IF Sim THEN {RandomElement(Toks)} ELSE Toks) : \E s \in (IF Sim THEN {RandomElement(Seps)} ELSE IF n = 0 THEN {""} ELSE Seps) : Add(t, s)
        \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == n \in 0..MaxLen /\ Len(stack) <= n /\ ends \in 0..MaxLen
\* what is dead stays dead, and a balanced stack is only reached by closing
Dead == [][dead => dead']_vars
Balance == [][Len(stack') <= Len(stack) + 1 /\ Len(stack') >= Len(stack) - 1]_vars
=============================================================================
