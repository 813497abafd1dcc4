------------------------------ MODULE Heredoc ------------------------------
(* Here documents.                                                          *)
(*                                                                          *)
(* A behaviour writes a program whose operands may be here documents.  An   *)
(* opener (<<A, <<-A, <<~A, quoted or not) puts its body, chosen there and  *)
(* then, at the end of the queue `pend`; wherever the program next ends a   *)
(* line -- after a statement, a comma, an operator, within a string or a    *)
(* word list, at a continuation backslash -- the bodies of the queue are    *)
(* written, in order, and the program goes on after the last terminator.    *)
(* Bodies are parsed where their opener stands: names and assignments in    *)
(* their interpolations belong to that scope, at that time.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS
  Mode, Opens,  \* kinds of frames that may be opened: call arr paren brace do istr puts asg def
  Forms,        \* openers: "", "-", "~"
  Quotes,       \* "", "\"", "%27;", "`"
  Ids,          \* terminators
  Lines,        \* classes of body lines: plain look esc interp var cont nest blank
  Extras,       \* dot modif plus nlstr words comment cont asgn cut
  MaxDocs, MaxLines, MaxDepth, MaxSteps
VARIABLES txt, fr, ph, pend, sc, docs, steps, cur
vars == <<txt, fr, ph, pend, sc, docs, steps, cur>>
Pick(S) == IF Mode = "sim" /\ S # {} THEN {RandomElement(S)} ELSE S
NL == "%a;"
Range(s) == {s[i] : i \in DOMAIN s}

Frame(k) == [k |-> k, items |-> "", n |-> 0, acc |-> "", d |-> "", c |-> FALSE, cst |-> TRUE, pre |-> "", nl |-> FALSE]
Top == fr[Len(fr)]
SetTop(r) == fr' = [fr EXCEPT ![Len(fr)] = r]
StmtLevel(k) == k \in {"top", "brace", "do", "def", "istr"}
OpenEnded(k) == k \in {"puts", "asg", "mif"}

\* -------------------------------------------------------------------------
\* scopes: every one a sequence of names, and whether the next outer one is visible
Scope(b) == [v |-> <<>>, blk |-> b]
RECURSIVE Find(_, _, _)
Find(i, name, d) ==
  IF name \in Range(sc[i].v) THEN d
  ELSE IF sc[i].blk THEN Find(i - 1, name, d + 1) ELSE -1
Ref(name) == LET d == Find(Len(sc), name, 0) IN IF d < 0 THEN "(ident '" \o name \o "')" ELSE "(lvar " \o ToString(d) \o " '" \o name \o "')"
Declared(s, name) == IF Find(Len(sc), name, 0) >= 0 THEN s ELSE [s EXCEPT ![Len(s)].v = Append(@, name)]
Lhs(name) == LET d == Find(Len(sc), name, 0) IN "(lvar " \o ToString(IF d < 0 THEN 0 ELSE d) \o " '" \o name \o "')"
RECURSIVE Names(_)
Names(v) == IF v = <<>> THEN "" ELSE "'" \o v[1] \o "'" \o (IF Len(v) > 1 THEN " " ELSE "") \o Names(Tail(v))
Tbl(s) == "(tbl (" \o Names(s.v) \o ") (kw) - - -)"

\* -------------------------------------------------------------------------
\* the end of a line: the bodies waiting are written
RECURSIVE Bodies(_)
Bodies(p) == IF p = <<>> THEN "" ELSE p[1] \o (IF Len(p) = 1 THEN "%>;" ELSE NL) \o Bodies(Tail(p))
EndLine(p) == IF p = <<>> THEN NL ELSE NL \o Bodies(p) \o NL

Seq1(r) == IF r.n = 0 THEN "(seq)" ELSE IF r.n = 1 THEN r.items ELSE "(seq " \o r.items \o ")"
Push(r, t) == [r EXCEPT !.items = IF r.n = 0 THEN t ELSE @ \o " " \o t, !.n = @ + 1]
Val(r) == IF r.acc = "" THEN r.d ELSE "(bin + " \o r.acc \o " " \o r.d \o ")"
ValC(r) == r.acc = "" /\ r.c

Init ==
  /\ txt = "" /\ fr = <<Frame("top")>> /\ ph = "operand" /\ pend = <<>> /\ sc = <<Scope(FALSE)>> /\ docs = 0 /\ steps = 0
  /\ cur = [id |-> "", q |-> "", form |-> "", text |-> "", parts |-> "", s |-> "", hasI |-> FALSE, n |-> 0]

Step == steps' = steps + 1
Room == steps < MaxSteps

\* -------------------------------------------------------------------------
\* operands
Operand(t, d, c) == /\ txt' = txt \o t /\ SetTop([Top EXCEPT !.d = d, !.c = c]) /\ ph' = "after"
First == Top.acc = "" /\ StmtLevel(Top.k)     \* the operand starts a statement

IntLit == /\ ph = "operand" /\ Operand("1", "(int 1)", TRUE) /\ Step /\ UNCHANGED <<pend, sc, docs, cur>>
Name ==
  /\ ph = "operand" /\ \E v \in Pick({"v", "w", "x"}) : Operand(v, Ref(v), FALSE)
  /\ Step /\ UNCHANGED <<pend, sc, docs, cur>>
Assign ==
  /\ "asgn" \in Extras /\ ph = "operand" /\ Room
  /\ \E v \in Pick({"v", "w"}) : /\ Operand("(" \o v \o " = 1)", "(asgn (" \o Lhs(v) \o ") ((int 1)))", FALSE)
                                 /\ sc' = Declared(sc, v)
  /\ Step /\ UNCHANGED <<pend, docs, cur>>
\* a line may end within a string, a regexp or a list of words
StrNl ==
  /\ "nlstr" \in Extras /\ ph = "operand" /\ Room
  /\ \E f \in Pick({"dq", "sq", "re", "pq", "cm"}) :
       Operand((CASE f = "dq" -> "\"" [] f = "sq" -> "%27;" [] f = "re" -> "/" [] f = "cm" -> "`" [] OTHER -> "%25;q[") \o "x" \o EndLine(pend) \o "y"
                 \o (CASE f = "dq" -> "\"" [] f = "sq" -> "%27;" [] f = "re" -> "/" [] f = "cm" -> "`" [] OTHER -> "]"),
               CASE f = "re" -> "(regex 'm' const (str 'x%a;y'))" [] f = "cm" -> "(cmd (str 'x%a;y'))" [] OTHER -> "(str 'x%a;y')", f \in {"dq", "sq", "pq"})
  /\ pend' = <<>> /\ Step /\ UNCHANGED <<sc, docs, cur>>
Words ==
  /\ "words" \in Extras /\ ph = "operand" /\ Room
  /\ \E k \in Pick({"w", "i"}) :
       Operand("%25;" \o k \o "(x" \o EndLine(pend) \o "y)", IF k = "w" THEN "(array const (str 'x') (str 'y'))" ELSE "(array const (sym 'x') (sym 'y'))", FALSE)
  /\ pend' = <<>> /\ Step /\ UNCHANGED <<sc, docs, cur>>

\* a here document opens: its body is chosen now
Open ==
  /\ ph = "operand" /\ docs < MaxDocs
  /\ \E f \in Pick(Forms), q \in Pick(Quotes), i \in Pick(Ids) :
       /\ txt' = txt \o "<<" \o f \o q \o i \o q \o (IF pend = <<>> THEN "%<;" ELSE "")
       /\ cur' = [id |-> i, q |-> q, form |-> f, text |-> "", parts |-> "", s |-> "", hasI |-> FALSE, n |-> 0]
  /\ ph' = "body" /\ docs' = docs + 1 /\ Step
  /\ UNCHANGED <<fr, pend, sc>>

Raw == cur.q = "%27;"
Line(t, den) == cur' = [cur EXCEPT !.text = @ \o t \o NL, !.s = @ \o den \o "%a;", !.n = @ + 1]
Body == ph = "body" /\ cur.n < MaxLines
Keep == UNCHANGED <<txt, fr, ph, pend, docs, steps>>
PlainLine ==
  /\ Body /\ "plain" \in Lines
  /\ \E l \in Pick({"b", "\"", "%27;`", "#%20;x", "__END__", "=begin", "end", "b%20;", "%3042;", "1;2", "}", "%29;", "<<A", "%25;w%28;", "b%9;c"}
                   \union (IF cur.form = "~" THEN {} ELSE {"%20;%20;b", "%9;b", "%20;"})) : l # cur.id /\ Line(l, l)
  /\ UNCHANGED sc /\ Keep
BlankLine == Body /\ "blank" \in Lines /\ Line("", "") /\ UNCHANGED sc /\ Keep
\* lines which look like the terminator but are not: a text cut off after the name itself would be complete
LookLine ==
  /\ Body /\ "look" \in Lines
  /\ \E l \in Pick({<<cur.id, "%20;">>, <<cur.id, ";">>, <<cur.id, "b">>, <<"", "b" \o cur.id>>, <<cur.id, cur.id>>, <<cur.id, "%9;">>, <<"", "\"" \o cur.id \o "\"">>, <<cur.id, ".foo">>, <<cur.id, ",">>, <<cur.id, "%29;">>}
                   \union (IF cur.form = "" THEN {<<"", "%20;" \o cur.id>>, <<"", "%9;" \o cur.id>>} ELSE {})) :
       cur' = [cur EXCEPT !.text = @ \o l[1] \o (IF l[1] = "" THEN l[2] ELSE "%>;" \o l[2] \o "%<;") \o NL, !.s = @ \o l[1] \o l[2] \o "%a;", !.n = @ + 1]
  /\ UNCHANGED sc /\ Keep
EscLine ==
  /\ Body /\ "esc" \in Lines
  /\ \E e \in Pick({<<"\\n", "%a;">>, <<"a\\tb", "a%9;b">>, <<"\\\\", "\\">>, <<"\\u3042", "%3042;">>, <<"\\#{v}", "#{v}">>, <<"\\\"", "\"">>, <<"\\x41\\101", "AA">>, <<"\\s\\e", "%20;%1b;">>,
                    <<"#", "#">>, <<"#%20;{", "#%20;{">>}) :
       Line(e[1], IF Raw THEN e[1] ELSE e[2])
  /\ UNCHANGED sc /\ Keep
\* a backslash joins lines
ContLine ==
  /\ Body /\ "cont" \in Lines
  /\ Line("a\\" \o NL \o "b", IF Raw THEN "a\\" \o NL \o "b" ELSE "ab")
  /\ UNCHANGED sc /\ Keep
Part(t) == cur' = [cur EXCEPT !.text = @ \o t[1] \o NL,
                              !.parts = @ \o (IF cur.s \o t[2] = "" THEN "" ELSE " (str '" \o cur.s \o t[2] \o "')") \o " " \o t[3],
                              !.s = t[4] \o "%a;", !.hasI = TRUE, !.n = @ + 1]
InterpLine ==
  /\ Body /\ "interp" \in Lines
  /\ \E t \in Pick({<<"#{v}", "", Ref("v"), "">>, <<"a#{w}b", "a", Ref("w"), "b">>, <<"#{x}#", "", Ref("x"), "#">>, <<"#%40;a-", "", "(ivar '%40;a')", "-">>, <<"#{1}", "", "(int 1)", "">>,
                    <<"#{}", "", "(seq)", "">>, <<"#{\"}\"}", "", "(str '}')", "">>, <<"#{v}\"", "", Ref("v"), "\"">>, <<"#{f(1)}", "", "(call - 'f' (args ((int 1)) (kw) (dsplat) - - -))", "", "#{f%28;1%29;}">>,
                    <<"#{%a;1%a;}", "", "(int 1)", "">>}) :
       IF Raw THEN Line(t[1], IF Len(t) > 4 THEN t[5] ELSE t[1]) ELSE Part(t)
  /\ UNCHANGED sc /\ Keep
VarLine ==
  /\ Body /\ "var" \in Lines
  /\ \E v \in Pick({"v", "w"}) :
       IF Raw THEN Line("#{" \o v \o "%20;=%20;2}", "#{" \o v \o "%20;=%20;2}") /\ UNCHANGED sc
       ELSE /\ Part(<<"#{" \o v \o " = 2}", "", "(asgn (" \o Lhs(v) \o ") ((int 2)))", "">>)
            /\ sc' = Declared(sc, v)
  /\ Keep
\* a here document within the body of another
NestLine ==
  /\ Body /\ "nest" \in Lines
  /\ \E t \in Pick({<<"n#{<<ZZ}m%a;in%a;ZZ", "n", "(str 'in%a;')", "m">>, <<"#{<<ZZ + v}%a; in#{w}%a;ZZ", "", "(bin + (istr (str '%20;in') " \o Ref("w") \o " (str '%a;')) " \o Ref("v") \o ")", "", "#{<<ZZ%20;+%20;v}%a;%20;in#{w}%a;ZZ">>,
                    <<"#{f(<<ZZ, <<YY)}%a;z%a;ZZ%a;y%a;YY", "", "(call - 'f' (args ((str 'z%a;') (str 'y%a;')) (kw) (dsplat) - - -))", "", "#{f%28;<<ZZ,%20;<<YY%29;}%a;z%a;ZZ%a;y%a;YY">>}) :
       IF Raw THEN Line(t[1], IF Len(t) > 4 THEN t[5] ELSE t[1]) ELSE Part(t)
  /\ UNCHANGED sc /\ Keep
\* the body is complete
CloseDoc ==
  /\ ph = "body"
  /\ \E ind \in Pick(IF cur.form = "" THEN {""} ELSE {"", "  ", "%9;"}) :
       /\ pend' = Append(pend, cur.text \o ind \o cur.id)
       /\ LET str == IF cur.hasI THEN "(istr" \o cur.parts \o (IF cur.s = "" THEN "" ELSE " (str '" \o cur.s \o "')") \o ")" ELSE "(str '" \o cur.s \o "')"
          IN SetTop([Top EXCEPT !.d = IF cur.q = "`" THEN "(cmd " \o str \o ")" ELSE str, !.c = (~cur.hasI /\ cur.q # "`")])
  /\ ph' = "after" /\ Step /\ UNCHANGED <<txt, sc, docs, cur>>

\* -------------------------------------------------------------------------
\* frames
OpenFrame ==
  /\ ph = "operand" /\ Room /\ Len(fr) <= MaxDepth
  /\ \E k \in Pick(Opens) :
       /\ k \in {"puts", "asg", "def"} => First
       \* a statement which starts with a bracket could be taken for something else
       /\ \E sp \in Pick({" ", NL}) :
            /\ fr' = Append(fr, Frame(k))
            /\ CASE k = "call" -> txt' = txt \o "foo(" /\ UNCHANGED <<pend, sc>>
                 [] k = "arr" -> txt' = txt \o "[" /\ UNCHANGED <<pend, sc>>
                 [] k = "paren" -> txt' = txt \o "(" /\ UNCHANGED <<pend, sc>>
                 [] k = "istr" -> txt' = txt \o "\"#{" /\ UNCHANGED <<pend, sc>>
                 [] k = "puts" -> txt' = txt \o "puts " /\ UNCHANGED <<pend, sc>>
                 [] k = "asg" -> txt' = txt \o "x = " /\ sc' = Declared(sc, "x") /\ UNCHANGED pend
                 [] k = "brace" -> /\ txt' = txt \o "f{" \o (IF sp = NL THEN EndLine(pend) ELSE "") /\ pend' = (IF sp = NL THEN <<>> ELSE pend)
                                   /\ sc' = Append(sc, Scope(TRUE))
                 [] k = "do" -> /\ txt' = txt \o "(f do" \o (IF sp = NL THEN EndLine(pend) ELSE " ") /\ pend' = (IF sp = NL THEN <<>> ELSE pend)
                                /\ sc' = Append(sc, Scope(TRUE))
                 [] OTHER -> /\ txt' = txt \o "def m" \o (IF sp = NL THEN EndLine(pend) ELSE ";") /\ pend' = (IF sp = NL THEN <<>> ELSE pend)
                             /\ sc' = Append(sc, Scope(FALSE))
  /\ Step /\ UNCHANGED <<ph, docs, cur>>
\* the assignment's variable stands at the depth it was found
AsgLhs == Ref("x")

Close ==
  /\ ph = "after" /\ Len(fr) > 1 /\ Top.k # "top"
  /\ LET r == Push([Top EXCEPT !.cst = @ /\ ValC(Top)], Val(Top))
         up == fr[Len(fr) - 1]
         pop == SubSeq(fr, 1, Len(fr) - 1)
         inner == sc[Len(sc)]
         put(d, c) == fr' = [pop EXCEPT ![Len(pop)] = IF OpenEnded(Top.k) THEN [@ EXCEPT !.d = d, !.c = c, !.acc = "", !.pre = "stmt"] ELSE [@ EXCEPT !.d = d, !.c = c]]
         args == "(args (" \o r.items \o ") (kw) (dsplat) - - -)"
     IN \E sp \in Pick(IF StmtLevel(Top.k) THEN {" ", NL} ELSE {" "}) :
        LET brk == IF sp = NL THEN EndLine(pend) ELSE " "
        IN CASE Top.k = "call" -> put("(call - 'foo' " \o args \o ")", FALSE) /\ txt' = txt \o ")" /\ UNCHANGED <<pend, sc>>
             [] Top.k = "arr" -> put("(array " \o (IF r.cst THEN "const" ELSE "-") \o " " \o r.items \o ")", FALSE) /\ txt' = txt \o "]" /\ UNCHANGED <<pend, sc>>
             [] Top.k = "paren" -> put(r.items, Top.c /\ Top.acc = "") /\ txt' = txt \o ")" /\ UNCHANGED <<pend, sc>>
             [] Top.k = "istr" -> put("(istr " \o Seq1(r) \o ")", FALSE) /\ txt' = txt \o (IF sp = NL THEN brk ELSE "") \o "}\"" /\ pend' = (IF sp = NL THEN <<>> ELSE pend) /\ UNCHANGED sc
             [] Top.k = "puts" -> put("(call - 'puts' " \o args \o ")", FALSE) /\ UNCHANGED <<txt, pend, sc>>
             [] Top.k = "asg" -> put("(asgn (" \o Ref("x") \o ") (" \o r.items \o "))", FALSE) /\ UNCHANGED <<txt, pend, sc>>
             [] Top.k = "mif" -> put("(if " \o r.items \o " " \o Top.pre \o " (seq))", FALSE) /\ UNCHANGED <<txt, pend, sc>>
             [] Top.k \in {"brace", "do"} ->
                  /\ put("(call - 'f' (args () (kw) (dsplat) (lambda (params) " \o (IF Top.k = "do" THEN "(begin " \o Seq1(r) \o " - -)" ELSE Seq1(r)) \o " " \o Tbl(inner) \o ") - -))", FALSE)
                  /\ txt' = txt \o (IF Top.k = "brace" THEN (IF sp = NL THEN brk ELSE "") \o "}" ELSE brk \o "end)")
                  /\ pend' = (IF sp = NL THEN <<>> ELSE pend) /\ sc' = SubSeq(sc, 1, Len(sc) - 1)
             [] OTHER ->
                  /\ put("(def 'm' (params) (begin " \o Seq1(r) \o " - -) " \o Tbl(inner) \o ")", FALSE)
                  /\ txt' = txt \o (IF sp = NL THEN brk ELSE ";") \o "end"
                  /\ pend' = (IF sp = NL THEN <<>> ELSE pend) /\ sc' = SubSeq(sc, 1, Len(sc) - 1)
  /\ UNCHANGED <<ph, docs, cur>> /\ Step

Cont == IF "cont" \in Extras THEN {" ", NL, "\\" \o NL} ELSE {" ", NL}
Comma ==
  /\ ph = "after" /\ Room /\ Top.k \in {"call", "arr", "puts"} /\ Top.n < 3
  /\ \E sp \in Pick(Cont) :
       /\ SetTop([Push([Top EXCEPT !.cst = @ /\ ValC(Top)], Val(Top)) EXCEPT !.d = "", !.acc = ""])
       /\ txt' = txt \o "," \o (IF sp = NL THEN EndLine(pend) ELSE IF sp = " " THEN " " ELSE "\\" \o EndLine(pend))
       /\ pend' = IF sp = " " THEN pend ELSE <<>>
  /\ ph' = "operand" /\ Step /\ UNCHANGED <<sc, docs, cur>>
Plus ==
  /\ "plus" \in Extras /\ ph = "after" /\ Room /\ Top.pre # "stmt"
  /\ \E sp \in Pick(Cont) :
       /\ SetTop([Top EXCEPT !.acc = Val(Top), !.d = ""])
       /\ txt' = txt \o " +" \o (IF sp = NL THEN EndLine(pend) ELSE IF sp = " " THEN " " ELSE " \\" \o EndLine(pend))
       /\ pend' = IF sp = " " THEN pend ELSE <<>>
  /\ ph' = "operand" /\ Step /\ UNCHANGED <<sc, docs, cur>>
\* a call on the operand, on this line or on the next
Dot ==
  /\ "dot" \in Extras /\ ph = "after" /\ Room /\ Top.pre # "stmt"
  /\ \E sp \in Pick({"", NL}) :
       /\ SetTop([Top EXCEPT !.d = "(send - " \o @ \o " 'foo' (args () (kw) (dsplat) - - -))", !.c = FALSE])
       /\ txt' = txt \o (IF sp = NL THEN EndLine(pend) ELSE "") \o ".foo"
       /\ pend' = IF sp = NL THEN <<>> ELSE pend
  /\ Step /\ UNCHANGED <<ph, sc, docs, cur>>
ModIf ==
  /\ "modif" \in Extras /\ ph = "after" /\ Room /\ StmtLevel(Top.k) /\ Len(fr) <= MaxDepth
  /\ txt' = txt \o " if "
  /\ fr' = Append(fr, [Frame("mif") EXCEPT !.pre = Val(Top)])
  /\ ph' = "operand" /\ Step /\ UNCHANGED <<pend, sc, docs, cur>>
\* the next statement
Stmt ==
  /\ ph = "after" /\ Room /\ StmtLevel(Top.k) /\ Top.n < 3
  /\ \E sp \in Pick({";", NL, " # c" \o NL}) :
       /\ (sp = " # c" \o NL) => "comment" \in Extras
       /\ SetTop([Push(Top, Val(Top)) EXCEPT !.d = "", !.acc = "", !.pre = ""])
       /\ txt' = txt \o (IF sp = ";" THEN ";" ELSE IF sp = NL THEN EndLine(pend) ELSE " # c" \o EndLine(pend))
       /\ pend' = IF sp = ";" THEN pend ELSE <<>>
  /\ ph' = "operand" /\ Step /\ UNCHANGED <<sc, docs, cur>>
Finish ==
  /\ ph = "after" /\ Len(fr) = 1 /\ docs > 0
  /\ \E e \in Pick({"", NL}) : txt' = txt \o (IF pend = <<>> THEN e ELSE NL \o Bodies(pend) \o e)
  /\ SetTop(Push(Top, Val(Top))) /\ pend' = <<>> /\ ph' = "done" /\ UNCHANGED <<sc, docs, steps, cur>>
\* the terminator never comes
Cut ==
  /\ "cut" \in Extras /\ ph = "after" /\ pend # <<>>
  /\ PrintT("@" \o ToJson([k |-> "doc", t |-> txt, e |-> "eof", b |-> "", c |-> "cut"]))
  /\ FALSE /\ UNCHANGED vars
Emit ==
  /\ ph = "done" /\ ph' = "out"
  /\ PrintT("@" \o ToJson([k |-> "doc", t |-> txt, e |-> Seq1(Top), b |-> Tbl(sc[1]), c |-> "docs" \o ToString(docs)]))
  /\ UNCHANGED <<txt, fr, pend, sc, docs, steps, cur>>
Next == IntLit \/ Name \/ Assign \/ StrNl \/ Words \/ Open \/ PlainLine \/ BlankLine \/ LookLine \/ EscLine \/ ContLine \/ InterpLine \/ VarLine \/ NestLine
        \/ CloseDoc \/ OpenFrame \/ Close \/ Comma \/ Plus \/ Dot \/ ModIf \/ Stmt \/ Finish \/ Cut \/ Emit
Spec == Init /\ [][Next]_vars

TypeOK == ph \in {"operand", "body", "after", "done", "out"} /\ Len(pend) <= docs /\ Len(fr) >= 1
\* no program ends with a body unwritten
Written == ph \in {"done", "out"} => pend = <<>> /\ Len(fr) = 1
\* as many scopes as frames which open one
Scopes == Len(sc) = 1 + Cardinality({i \in DOMAIN fr : fr[i].k \in {"brace", "do", "def"}})
\* the queue grows at the end and is emptied as a whole
Queue == [][pend' = pend \/ pend' = <<>> \/ (Len(pend') = Len(pend) + 1 /\ SubSeq(pend', 1, Len(pend)) = pend)]_vars
=============================================================================
