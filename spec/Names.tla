------------------------------- MODULE Names -------------------------------
(* Names: what a word is, wherever it is written.                           *)
(*                                                                          *)
(* A behaviour spells a name: a sigil, a first character, further           *)
(* characters (or a whole keyword, which further characters turn into an    *)
(* ordinary name), and a last ?, ! or =.  Then it puts the name in a place  *)
(* of a program, and the place inside a statement.  The class of the name   *)
(* (local, constant, method only, keyword, pseudo variable, instance,       *)
(* class or global variable) follows from its spelling alone, and the       *)
(* class and the place say what the program means, or that it has to be     *)
(* rejected.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxLen, Heads, Tails, Words, Sigils, Sufs
VARIABLES ph, sig, nm, base, n, suf, out
vars == <<ph, sig, nm, base, n, suf, out>>
Pick(S) == IF Mode = "sim" /\ S # {} THEN {RandomElement(S)} ELSE S

Keywords == {"BEGIN", "END", "alias", "and", "begin", "break", "case", "class", "def", "do", "else", "elsif", "end", "ensure", "for", "if", "in",
             "module", "next", "or", "redo", "rescue", "return", "super", "then", "until", "unless", "when", "while", "yield"}
Pseudo == {"nil", "true", "false", "self", "__LINE__", "__FILE__"}
Upper == {"A", "B", "E", "L", "Z"}
Digits == {"0", "1", "7", "9"}

\* the class of the complete name
Cls == IF sig = "%40;" THEN "ivar" ELSE IF sig = "%40;%40;" THEN "cvar" ELSE IF sig = "$" THEN "gvar"
       ELSE IF nm \in Keywords /\ suf = "" THEN "kw"
       ELSE IF nm = "defined" /\ suf = "?" THEN "kw"
       ELSE IF suf # "" THEN "fid"
       ELSE IF nm \in Pseudo THEN "ps"
       ELSE IF base \in Upper THEN "con" ELSE "id"

Raw == sig \o nm \o suf
S == "%[1;" \o Raw \o "%];"
Q == "'" \o Raw \o "'"
X == "@#1;"
NoArgs == "(args () (kw) (dsplat) - - -)"
Args(x) == "(args (" \o x \o ") (kw) (dsplat) - - -)"
C == "(ident 'c')"
Cc == "(call - 'c' " \o NoArgs \o ")"
T0 == "(tbl () (kw) - - -)"
TN == "(tbl (" \o Q \o ") (kw) - - -)"
SeqE(a, b) == "(seq " \o a \o " " \o b \o ")"

\* statements around: before, after, tree before, after, lines before
Wraps == << <<"", "", "", "", 0>>, <<"c;", ";1", "(seq " \o C \o " ", " (int 1))", 0>>, <<"(", ")", "", "", 0>>, <<"if c then ", " else 2 end", "(if " \o C \o " ", " (int 2))", 0>>,
            <<"1%a;", "%a;", "(seq (int 1) ", ")", 1>>, <<"begin;", ";end", "(begin ", " - -)", 0>>, <<"\"#{", "}\"", "(istr ", ")", 0>>,
            <<"%a;%a;", " # c", "", "", 2>>, <<"while c%a;", "%a;end", "(while - " \o C \o " ", ")", 1>> >>

\* global names with a meaning of their own, spelled so exactly
SpecialNames == ("$LOAD_PATH" :> "10") @@ ("$LOADED_FEATURES" :> "11")
\* the value of the name as an operand
Val(l) == CASE Cls \in {"id", "fid"} -> "(ident " \o Q \o ")" \o X
            [] Cls = "con" -> "(const - - () " \o Q \o ")" \o X
            [] Cls = "ps" -> (CASE nm = "__LINE__" -> "(int " \o ToString(l + 1) \o ")" [] nm = "__FILE__" -> "(str 'f.rb')" [] OTHER -> "(" \o nm \o ")") \o X
            [] Raw \in DOMAIN SpecialNames -> "(svar " \o SpecialNames[Raw] \o ")" \o X
            [] OTHER -> "(" \o Cls \o " " \o Q \o ")" \o X
Recv(l) == IF Cls \in {"id", "fid"} THEN "(call - " \o Q \o " " \o NoArgs \o ")" \o X ELSE Val(l)
Lv(d) == "(lvar " \o ToString(d) \o " " \o Q \o ")"
Send(a) == "(send - " \o Cc \o " " \o Q \o " " \o a \o ")" \o X
Fn(a) == "(call - " \o Q \o " " \o a \o ")" \o X
Blk0 == "(args () (kw) (dsplat) (lambda (params) (seq) " \o T0 \o ") - -)"
Body0 == "(begin (seq) - -)"
Asg(l, r) == "(asgn (" \o l \o ") (" \o r \o "))"
Syn == "syn"

\* a case: text, tree (or syn), variables of the program
K(t, e) == <<t, e, "">>
KB(t, e) == <<t, e, TN>>

\* places of an operand; l: lines before
Operand(l) ==
  { K(S, Val(l)), K(S \o ".c", "(send - " \o Recv(l) \o " 'c' " \o NoArgs \o ")"), K(S \o "&.c", "(send &. " \o Recv(l) \o " 'c' " \o NoArgs \o ")"),
    K(S \o " == c", "(bin == " \o Val(l) \o " " \o C \o ")"), K(S \o " != c", "(bin != " \o Val(l) \o " " \o C \o ")"),
    K("(" \o S \o ")", Val(l)), K("\"#{" \o S \o "}\"", "(istr " \o Val(l) \o ")"), K("defined? " \o S, "(defined " \o Val(l) \o ")"),
    K("foo(&" \o S \o ")", "(call - 'foo' (args () (kw) (dsplat) " \o Val(l) \o " - -))"), K("foo(" \o S \o ")", "(call - 'foo' " \o Args(Val(l)) \o ")"),
    K("foo " \o S, "(call - 'foo' " \o Args(Val(l)) \o ")"), K("!" \o S, "(un ! " \o Val(l) \o ")"), K("c ? " \o S \o " : 1", "(if " \o C \o " " \o Val(l) \o " (int 1))"),
    K("c ? 1 : " \o S, "(if " \o C \o " (int 1) " \o Val(l) \o ")"), K(S \o " ? 1 : 2", "(if " \o Val(l) \o " (int 1) (int 2))"),
    K(S \o " if c", "(if " \o C \o " " \o Val(l) \o " (seq))"), K("c if " \o S, "(if " \o Val(l) \o " " \o C \o " (seq))"), K("if " \o S \o " then 1 end", "(if " \o Val(l) \o " (int 1) (seq))"),
    K("c.d = " \o S, Asg("(send - " \o Cc \o " 'd' " \o NoArgs \o ")", Val(l))), K("return " \o S, "(return " \o Val(l) \o ")"),
    K("c[" \o S \o "]", "(index " \o C \o " " \o Val(l) \o ")"), K("foo a: " \o S, "(call - 'foo' (args () (kw ('a' " \o Val(l) \o ")) (dsplat) - - -))"),
    K(S \o " and c", "(bin && " \o Val(l) \o " " \o C \o ")"), K("c or " \o S, "(bin || " \o C \o " " \o Val(l) \o ")") }
  \union (IF suf = "" THEN { K(S \o "==c", "(bin == " \o Val(l) \o " " \o C \o ")"), K(S \o "!=c", "(bin != " \o Val(l) \o " " \o C \o ")"),
                             K(S \o "=~c", "(bin =~ " \o Val(l) \o " " \o C \o ")"), K(S \o "<=c", "(bin <= " \o Val(l) \o " " \o C \o ")"),
                             K(S \o "+c", "(bin + " \o Val(l) \o " " \o C \o ")") } ELSE {})

\* calls of the name itself
Calls ==
  { K(S \o "()", Fn(NoArgs)), K(S \o "(1)", Fn(Args("(int 1)"))), K(S \o " 1", Fn(Args("(int 1)"))), K(S \o " :a, b", Fn(Args("(sym 'a') (ident 'b')"))),
    K(S \o " @a", Fn(Args("(ivar '%40;a')"))), K("$c = " \o S \o " 1", Asg("(gvar '$c')", Fn(Args("(int 1)")))) }
  \union (IF Cls = "con" THEN {} ELSE { K(S \o "{}", Fn(Blk0)), K(S \o " {}", Fn(Blk0)), K("foo " \o S \o " {}", "(call - 'foo' " \o Args(Fn(Blk0)) \o ")") })

\* as a label
Labels ==
  { K("{" \o S \o ": 1}", "(hash const ((sym " \o Q \o ")" \o X \o " (int 1)))"), K("{" \o S \o ":1}", "(hash const ((sym " \o Q \o ")" \o X \o " (int 1)))"),
    K("{" \o S \o ":%a;1,}", "(hash const ((sym " \o Q \o ")" \o X \o " (int 1)))"),
    K("{1=>2, " \o S \o ": 1}", "(hash const ((int 1) (int 2)) ((sym " \o Q \o ")" \o X \o " (int 1)))"),
    K("foo(" \o S \o ": 1)", "(call - 'foo' (args () (kw (" \o Q \o " (int 1))) (dsplat) - - -))"),
    K("foo(" \o S \o ":c)", "(call - 'foo' (args () (kw (" \o Q \o " (ident 'c'))) (dsplat) - - -))"),
    K("foo(1, " \o S \o ": :a, b: 2)", "(call - 'foo' (args ((int 1)) (kw (" \o Q \o " (sym 'a')) ('b' (int 2))) (dsplat) - - -))"),
    K("foo 1, " \o S \o ": 2", "(call - 'foo' (args ((int 1)) (kw (" \o Q \o " (int 2))) (dsplat) - - -))"),
    K("c.d(" \o S \o ": 1)", "(send - " \o Cc \o " 'd' (args () (kw (" \o Q \o " (int 1))) (dsplat) - - -))"),
    K("{" \o S \o " : 1}", Syn), K("foo(" \o S \o " : 1)", Syn) }
  \union (IF Cls = "kw" THEN {} ELSE { K("foo " \o S \o ": 1", "(call - 'foo' (args () (kw (" \o Q \o " (int 1))) (dsplat) - - -))") })

\* as the name of a method of a receiver; any class of word
Methods ==
  { K("c." \o S, Send(NoArgs)), K("c%a;." \o S, Send(NoArgs)), K("c.%a;" \o S, Send(NoArgs)), K("c." \o S \o "(1)", Send(Args("(int 1)"))), K("c." \o S \o " 1", Send(Args("(int 1)"))),
    K("c." \o S \o "{}", Send(Blk0)), K("c." \o S \o " do end", Send("(args () (kw) (dsplat) (lambda (params) " \o Body0 \o " " \o T0 \o ") - -)")),
    K("c&." \o S, "(send &. " \o Cc \o " " \o Q \o " " \o NoArgs \o ")" \o X), K("C::" \o S \o "(1)", "(send - (const - - () 'C') " \o Q \o " " \o Args("(int 1)") \o ")" \o X),
    K("c." \o S \o " ? 1 : 2", "(if " \o Send(NoArgs) \o " (int 1) (int 2))"), K("c." \o S \o ".d", "(send - " \o Send(NoArgs) \o " 'd' " \o NoArgs \o ")"),
    K("c." \o S \o " == 1", "(bin == " \o Send(NoArgs) \o " (int 1))"), K("foo c." \o S, "(call - 'foo' " \o Args(Send(NoArgs)) \o ")"),
    IF Cls = "con" THEN K("C::" \o S, "(const - - ('C') " \o Q \o ")") ELSE K("C::" \o S, "(send - (const - - () 'C') " \o Q \o " " \o NoArgs \o ")" \o X) }
  \union (IF suf = "" THEN { K("c." \o S \o "=1", Asg(Send(NoArgs), "(int 1)")), K("c." \o S \o " = 1", Asg(Send(NoArgs), "(int 1)")), K("c." \o S \o "+=1", "(opasgn + " \o Send(NoArgs) \o " (int 1))"),
                             K("c." \o S \o "==1", "(bin == " \o Send(NoArgs) \o " (int 1))"), K("c." \o S \o "!=1", "(bin != " \o Send(NoArgs) \o " (int 1))"),
                             K("c." \o S \o " ||= 1", "(bin || " \o Send(NoArgs) \o " " \o Asg(Send(NoArgs), "(int 1)") \o ")"),
                             K("c." \o S \o ", @a = 1, 2", Asg(Send(NoArgs) \o " (ivar '%40;a')", "(int 1) (int 2)")) }
          ELSE { K("c." \o S \o " = 1", Syn), K("c." \o S \o " += 1", Syn), K("@a, c." \o S \o " = 1, 2", Syn) })

\* as the name of a definition (with = too) and of an alias
DefE(p, t) == "(def " \o Q \o " " \o p \o " " \o Body0 \o " " \o t \o ")"
SdefE(p, t) == "(sdef (self) " \o Q \o " " \o p \o " " \o Body0 \o " " \o t \o ")"
Qp == "(params (req 'q'))"  Qt == "(tbl ('q') (kw) - - -)"
Defs ==
  { K("def self." \o S \o ";end", SdefE("(params)", T0)), K("def self." \o S \o "(q);end", SdefE(Qp, Qt)), K("def self::" \o S \o "%a;end", SdefE("(params)", T0)), K("def self " \o S \o ";end", "rej"),
    K("alias " \o S \o " q", "(alias (sym " \o Q \o ")" \o X \o " (sym 'q'))"), K("alias q " \o S, "(alias (sym 'q') (sym " \o Q \o ")" \o X \o ")"),
    K("alias :" \o Raw \o " :q", "(alias (sym " \o Q \o ") (sym 'q'))") }
  \union (IF nm = "self" THEN {} ELSE { K("def " \o S \o ";end", DefE("(params)", T0)), K("def " \o S \o "(q);end", DefE(Qp, Qt)), K("def " \o S \o "%a;end", DefE("(params)", T0)),
                                       K("def " \o S \o " q;end", DefE(Qp, Qt)) })
  \union (IF suf = "" /\ (Cls \in {"id", "con"} \/ nm \in {"nil", "true", "false", "self"})
          THEN { K("def " \o S \o ".m;end", "(sdef " \o Recv(0) \o " 'm' (params) " \o Body0 \o " " \o T0 \o ")"),
                 K("def " \o S \o "::m(q);end", "(sdef " \o Recv(0) \o " 'm' " \o Qp \o " " \o Body0 \o " " \o Qt \o ")") } ELSE {})
\* as a symbol
SymS == "%[1;:" \o Raw \o "%];"  SymE == "(sym " \o Q \o ")" \o X
Symbols ==
  { K(SymS, SymE), K("[" \o SymS \o "]", "(array const " \o SymE \o ")"), K("foo " \o SymS, "(call - 'foo' " \o Args(SymE) \o ")"), K("c ? " \o SymS \o " : 1", "(if " \o C \o " " \o SymE \o " (int 1))"),
    K(SymS \o ".c", "(send - " \o SymE \o " 'c' " \o NoArgs \o ")"), K("{" \o SymS \o " => 1}", "(hash const (" \o SymE \o " (int 1)))"), K(SymS \o " == c", "(bin == " \o SymE \o " " \o C \o ")") }
  \union (IF suf = "" THEN { K("{" \o SymS \o "=>1}", "(hash const (" \o SymE \o " (int 1)))"), K(SymS \o "==c", "(bin == " \o SymE \o " " \o C \o ")"), K(SymS \o "=~c", "(bin =~ " \o SymE \o " " \o C \o ")"),
                             K(SymS \o "!=c", "(bin != " \o SymE \o " " \o C \o ")") } ELSE {})

\* as a parameter: before, after, tree, table
ParamPlaces == << <<"", "", "(req ", ")", "(", ") (kw) - - -">>, <<"q,", "", "(req 'q') (req ", ")", "('q' ", ") (kw) - - -">>, <<"*", "", "(rest ", ")", "(", ") (kw) - - -">>,
                  <<"&", "", "(blk ", ")", "(", ") (kw) - 0 -">>, <<"**", "", "(kwrest ", ")", "(", ") (kw) 0 - -">>, <<"(q,", ")", "(destruct 'q' ", ")", "('q' ", ") (kw) - - -">>,
                  <<"(", ",q)", "(destruct ", " 'q')", "(", " 'q') (kw) - - -">>, <<"", "=1", "(opt ", " (int 1))", "(", ") (kw) - - -">>,
                  <<"q=1,", "", "(opt 'q' (int 1)) (post ", ")", "('q' ", ") (kw) - - -">>, <<"*,", "", "(rest -) (post ", ")", "(", ") (kw) - - -">>,
                  <<"q:,**", "", "(key 'q' -) (kwrest ", ")", "('q' ", ") (kw 0) 1 - -">>, <<"*q,&", "", "(rest 'q') (blk ", ")", "('q' ", ") (kw) - 1 -">> >>
KeyPlaces == << <<"", ":", "(key ", " -)", "(", ") (kw 0) - - -">>, <<"", ": 1", "(key ", " (int 1))", "(", ") (kw 0) - - -">>, <<"q,", ":1", "(req 'q') (key ", " (int 1))", "('q' ", ") (kw 1) - - -">> >>
\* the constructs parameters stand in: before, after (the body is the name), tree before, between the parameters and the body, before the table, after
ParamHosts == << <<"foo{|", "|", "}", "(call - 'foo' (args () (kw) (dsplat) (lambda (params ", ") ", " (tbl ", ")) - -))">>, <<"->(", "){", "}", "(lambda (params ", ") ", " (tbl ", "))">>,
                 <<"def f(", ");", ";end", "(def 'f' (params ", ") (begin ", " - -) (tbl ", "))">>, <<"def f ", ";", ";end", "(def 'f' (params ", ") (begin ", " - -) (tbl ", "))">>,
                 <<"foo do |", "|", " end", "(call - 'foo' (args () (kw) (dsplat) (lambda (params ", ") (begin ", " - -) (tbl ", ")) - -))">>,
                 <<"-> ", " {", "}", "(lambda (params ", ") ", " (tbl ", "))">> >>
Param(h, p, ok) ==
  LET body == IF ok THEN Raw ELSE "1" IN
  <<h[1] \o p[1] \o Raw \o p[2] \o h[2] \o "%[1;" \o body \o "%];" \o h[3],
    IF ok THEN h[4] \o p[3] \o Q \o p[4] \o h[5] \o Lv(0) \o X \o h[6] \o p[5] \o Q \o p[6] \o h[7] ELSE Syn, "">>
\* (a parenthesis after a blank opens the list)
Params == { Param(x[1], x[2], Cls = "id") : x \in {y \in Pick({ParamHosts[i] : i \in DOMAIN ParamHosts}) \X Pick({ParamPlaces[i] : i \in DOMAIN ParamPlaces}) : y[2][1] \notin {"(", "(q,"} \/ y[1][1] \notin {"def f ", "-> "}} }
          \union (IF Cls \in {"kw", "ps"} THEN {} ELSE
                  { Param(h, p, Cls = "id") : h \in Pick({ParamHosts[i] : i \in 1..5}), p \in Pick({KeyPlaces[i] : i \in DOMAIN KeyPlaces}) })

\* as a target
Target == IF Cls = "id" THEN Lv(0) \o X ELSE "(const - - () " \o Q \o ")" \o X
KT(t, e) == IF Cls = "id" THEN KB(t, e) ELSE IF Cls = "con" THEN K(t, e) ELSE K(t, IF Cls = "kw" THEN "rej" ELSE Syn)
Targets ==
  { KT(S \o " = 1", Asg(Target, "(int 1)")), KT(S \o " += 1", "(opasgn + " \o Target \o " (int 1))"), KT(S \o " ||= 1", "(bin || " \o Target \o " " \o Asg(Target, "(int 1)") \o ")"),
    KT(S \o ", @a = 1, 2", Asg(Target \o " (ivar '%40;a')", "(int 1) (int 2)")), KT("@a, " \o S \o " = 1, 2", Asg("(ivar '%40;a') " \o Target, "(int 1) (int 2)")),
    KT("@a, *" \o S \o " = 1", Asg("(ivar '%40;a') (splat " \o Target \o ")", "(int 1)")), KT("begin;c;rescue => " \o S \o ";end", "(begin " \o C \o " (rescue () " \o Target \o " (seq)) - -)"),
    KT("(" \o S \o " = 1)", Asg(Target, "(int 1)")) }
  \union (IF suf = "" THEN { KT(S \o "=1", Asg(Target, "(int 1)")) } ELSE {})
  \union (IF Cls = "con" THEN {} ELSE
          { IF Cls = "id" THEN KB("for " \o S \o " in c do end", "(for ((0 " \o Q \o ")) " \o C \o " (params) (seq) " \o T0 \o ")") ELSE K("for " \o S \o " in c do end", Syn),
            IF Cls = "id" THEN <<"for (q," \o S \o ") in c do end", "(for ((0 'q') (0 " \o Q \o ")) " \o C \o " (params) (seq) " \o T0 \o ")", "(tbl ('q' " \o Q \o ") (kw) - - -)">>
                          ELSE K("for (q, " \o S \o ") in c do end", Syn) })

\* as the name of a class
\* (a class path may begin with an expression)
KC(t, e) == IF Cls = "con" THEN K(t, e) ELSE K(t, IF Cls = "kw" THEN "rej" ELSE Syn)
Classes ==
  { KC("class " \o S \o ";end", "(class - " \o Q \o " - (params) " \o Body0 \o " " \o T0 \o ")"), KC("module " \o S \o ";end", "(module - " \o Q \o " - (params) " \o Body0 \o " " \o T0 \o ")"),
    KC("class C::" \o S \o ";end", "(class (const - - () 'C') " \o Q \o " - (params) " \o Body0 \o " " \o T0 \o ")"),
    KC("module C::D::" \o S \o ";end", "(module (const - - ('C') 'D') " \o Q \o " - (params) " \o Body0 \o " " \o T0 \o ")"),
    KC("class " \o S \o " < C;end", "(class - " \o Q \o " (const - - () 'C') (params) " \o Body0 \o " " \o T0 \o ")"),
    KC("class ::" \o S \o ";end", "(class - " \o Q \o " - (params) " \o Body0 \o " " \o T0 \o ")") }
  \union (IF Cls = "con" THEN { K("::" \o Raw, "(const top - () " \o Q \o ")"), K(Raw \o "::D", "(const - - (" \o Q \o ") 'D')"), K("C::" \o Raw \o "::D", "(const - - ('C' " \o Q \o ") 'D')"),
                                K("class K < " \o S \o ";end", "(class - 'K' " \o Val(0) \o " (params) " \o Body0 \o " " \o T0 \o ")") } ELSE {})

\* a local variable of that name, and longer and shorter names which are others
Def1 == Asg(Lv(0), "(int 1)")
Q2(x) == "'" \o x \o "'"
Locals ==
  { KB(Raw \o "=1;" \o S, SeqE(Def1, Lv(0) \o X)), KB(Raw \o "=1;" \o S \o " -1", SeqE(Def1, "(bin - " \o Lv(0) \o X \o " (int 1))")), KB(Raw \o "=1;" \o S \o "[1]", SeqE(Def1, "(index " \o Lv(0) \o X \o " (int 1))")),
    KB(Raw \o "=1;" \o S \o " [1]", SeqE(Def1, "(index " \o Lv(0) \o X \o " (int 1))")), KB(Raw \o "=1;" \o S \o " /1", SeqE(Def1, "(bin / " \o Lv(0) \o X \o " (int 1))")),
    KB(Raw \o "=1;" \o S \o "(2)", SeqE(Def1, Fn(Args("(int 2)")))), KB(Raw \o "=1;->{" \o S \o "}", SeqE(Def1, "(lambda (params) " \o Lv(1) \o X \o " " \o T0 \o ")")),
    KB(Raw \o "=1;\"#{" \o S \o "}\"", SeqE(Def1, "(istr " \o Lv(0) \o X \o ")")), KB(Raw \o "=1;def f;" \o S \o ";end", SeqE(Def1, "(def 'f' (params) (begin " \o Val(0) \o " - -) " \o T0 \o ")")),
    KB(Raw \o "=1;c." \o S, SeqE(Def1, Send(NoArgs))), KB(Raw \o "=1;" \o S \o "!=2", SeqE(Def1, "(bin != " \o Lv(0) \o X \o " (int 2))")), 
    KB(Raw \o "=1;%[1;" \o Raw \o "! 2%];", SeqE(Def1, "(call - '" \o Raw \o "!' " \o Args("(int 2)") \o ")")),
    KB(Raw \o "=1;" \o S \o " ? 1 : 2", SeqE(Def1, "(if " \o Lv(0) \o X \o " (int 1) (int 2))")), KB(Raw \o "=1;foo(" \o Raw \o ": " \o S \o ")", SeqE(Def1, "(call - 'foo' (args () (kw (" \o Q \o " " \o Lv(0) \o X \o ")) (dsplat) - - -))")),
    KB(Raw \o "=1;{" \o Raw \o ": " \o S \o "}", SeqE(Def1, "(hash - ((sym " \o Q \o ") " \o Lv(0) \o X \o "))")), KB(Raw \o "=1;@" \o Raw, SeqE(Def1, "(ivar '%40;" \o Raw \o "')")), KB(Raw \o "=1;$" \o Raw, SeqE(Def1, "(gvar '$" \o Raw \o "')")),
    KB(Raw \o "=1;:" \o Raw, SeqE(Def1, "(sym " \o Q \o ")")) }
  \union (IF nm = "defined" THEN {} ELSE { KB(Raw \o "=1;%[1;" \o Raw \o "?%];", SeqE(Def1, "(ident '" \o Raw \o "?')" \o X)) })
  \union UNION { { KB(Raw \o "=1;%[1;" \o Raw \o t \o "%];", SeqE(Def1, "(ident " \o Q2(Raw \o t) \o ")" \o X)),
                   <<Raw \o t \o "=1;" \o S, SeqE(Asg("(lvar 0 " \o Q2(Raw \o t) \o ")", "(int 1)"), "(ident " \o Q \o ")" \o X), "(tbl (" \o Q2(Raw \o t) \o ") (kw) - - -)">>,
                   <<Raw \o "=1;" \o Raw \o t \o "=2;" \o S, "(seq " \o Def1 \o " " \o Asg("(lvar 0 " \o Q2(Raw \o t) \o ")", "(int 2)") \o " " \o Lv(0) \o X \o ")", "(tbl (" \o Q \o " " \o Q2(Raw \o t) \o ") (kw) - - -)">> }
                 : t \in {x \in Pick(Tails) : Raw \o x \notin (Keywords \union Pseudo) /\ ~(Raw = "_" /\ x \in Digits)} }

\* names with a sigil
Sigil ==
  { K(S \o "=1", Asg(Val(0), "(int 1)")), K(S \o " = 1", Asg(Val(0), "(int 1)")), K(S \o "+=1", "(opasgn + " \o Val(0) \o " (int 1))"), K(S \o "||=1", "(bin || " \o Val(0) \o " " \o Asg(Val(0), "(int 1)") \o ")"),
    K(S \o ", @@z = 1, 2", Asg(Val(0) \o " (cvar '%40;%40;z')", "(int 1) (int 2)")), K("@@z, *" \o S \o " = 1", Asg("(cvar '%40;%40;z') (splat " \o Val(0) \o ")", "(int 1)")),
    K("begin;c;rescue => " \o S \o ";end", "(begin " \o C \o " (rescue () " \o Val(0) \o " (seq)) - -)"), K("class << " \o S \o ";end", "(sclass " \o Val(0) \o " (params) " \o Body0 \o " " \o T0 \o ")"),
    K("def " \o S \o ".m;end", "(sdef " \o Val(0) \o " 'm' (params) " \o Body0 \o " " \o T0 \o ")"),
    K("def " \o S \o "::m;end", "(sdef " \o Val(0) \o " 'm' (params) " \o Body0 \o " " \o T0 \o ")"), K("def " \o S \o " m;end", Syn),
    K("\"#" \o S \o "\"", "(istr " \o Val(0) \o ")"), K("\"x#" \o S \o ".c\"", "(istr (str 'x') " \o Val(0) \o " (str '.c'))"), K("\"#" \o S \o " #@@zz-\"", "(istr " \o Val(0) \o " (str '%20;') (cvar '%40;%40;zz') (str '-'))"),
    K("\"#" \o S \o "[0]\"", "(istr " \o Val(0) \o " (str '[0]'))"), K("{" \o S \o "=>1}", "(hash - (" \o Val(0) \o " (int 1)))"),
    K("foo(" \o S \o ": 1)", Syn), K("{" \o S \o ": 1}", Syn), K("foo{|" \o S \o "|}", Syn), K("def f(" \o S \o ");end", Syn), K("c." \o S, Syn), K("c&." \o S, Syn), K("C::" \o S, Syn), K("def " \o S \o ";end", Syn),
    K("class " \o S \o ";end", Syn), K(S \o "()", Syn), K(S \o " 1", Syn), K("->(" \o S \o "){}", Syn), K("def f(*" \o S \o ");end", Syn) }
  \union (IF sig = "$" THEN {} ELSE { K("%[1;:" \o Raw \o "%];", "(sym " \o Q \o ")" \o X) })

\* variables which are not names
Specials == { <<"$&", "(svar 0)">>, <<"$%27;", "(svar 1)">>, <<"$:", "(svar 10)">>, <<"$\"", "(svar 11)">>, <<"$LOAD_PATH", "(svar 10)">>, <<"$LOADED_FEATURES", "(svar 11)">>, <<"$0", "(gvar '$0')">>,
              <<"$1", "(svar 101)">>, <<"$9", "(svar 109)">>, <<"$12", "(svar 112)">>, <<"$_", "(gvar '$_')">>, <<"$%5c;", "(gvar '$\\')">> }
            \union { <<"$" \o x, "(gvar '$" \o x \o "')">> : x \in {"~", "!", "%40;", "/", ";", ",", ".", "<", ">", "?", "$", "*", "=", "`", "+"} }
QSpec(e) == e
MatchRefs == {"$&", "$%27;", "$`", "$+", "$1", "$9", "$12"}
SpecialCases ==
  UNION { LET s == "%[1;" \o p[1] \o "%];"  e == p[2] \o X IN
          { K(s, e), K(s \o " == c", "(bin == " \o e \o " " \o C \o ")"), K("foo(" \o s \o ", 1)", "(call - 'foo' " \o Args(e \o " (int 1)") \o ")"), K(s \o ".c", "(send - " \o e \o " 'c' " \o NoArgs \o ")"),
            K("foo " \o s, "(call - 'foo' " \o Args(e) \o ")"), K("[" \o s \o "]", "(array - " \o e \o ")"), K("\"#{" \o s \o "}\"", "(istr " \o e \o ")"), K("\"#" \o s \o " \"", "(istr " \o e \o " (str '%20;'))"),
            \* the results of a match can not be set
            IF p[1] \in MatchRefs THEN K(s \o " = 1", Syn) ELSE K(s \o " = 1", Asg(e, "(int 1)")), K(s \o " if c", "(if " \o C \o " " \o e \o " (seq))") }
          : p \in {x \in Specials : x[1] # ""} }
SpecialOK(k) == ~(k[1] \in {})

\* operators which are names of methods
DefOps == {"+", "-", "*", "/", "%25;", "==", "===", "!=", "=~", "<", "<=", "<=>", ">", ">=", "<<", ">>", "&", "|", "+%40;", "-%40;", "[]", "[]="}
AllOps == DefOps \union {"**", "!~", "^", "~", "!"}
OpCases(o) ==
  LET q == "'" \o o \o "'"
      sy == "(sym " \o q \o ")"
      snd(a) == "(send - " \o Cc \o " " \o q \o " " \o a \o ")"
      nm1 == "%[1;" \o o \o "%];"
  IN
  { K("%[1;:" \o o \o "%];", sy \o X), K("[:" \o o \o "]", "(array const " \o sy \o ")"), K("foo :" \o o \o ", 1", "(call - 'foo' " \o Args(sy \o " (int 1)") \o ")"),
    K("{:" \o o \o " => 1}", "(hash const (" \o sy \o " (int 1)))"), K(":" \o o \o " == c", "(bin == " \o sy \o " " \o C \o ")"), K(":" \o o \o ".c", "(send - " \o sy \o " 'c' " \o NoArgs \o ")"),
    K("c ? :" \o o \o " : 1", "(if " \o C \o " " \o sy \o " (int 1))"), K("foo(&:" \o o \o ")", "(call - 'foo' (args () (kw) (dsplat) " \o sy \o " - -))"),
    K("c." \o nm1 \o "(1)", snd(Args("(int 1)")) \o X), K("c." \o nm1, snd(NoArgs) \o X), K("c." \o o \o " 1", snd(Args("(int 1)"))), K("c." \o o \o "{}", snd(Blk0)),
    K("c." \o o \o "()", snd(NoArgs)), K("c.%a;" \o o \o "(1)", snd(Args("(int 1)"))), K("c&." \o o \o "(1)", "(send &. " \o Cc \o " " \o q \o " " \o Args("(int 1)") \o ")"),
    K("C::" \o nm1 \o "(1)", "(send - (const - - () 'C') " \o q \o " " \o Args("(int 1)") \o ")" \o X), K("c." \o o \o ".d", "(send - " \o snd(NoArgs) \o " 'd' " \o NoArgs \o ")"),
    K("c." \o o \o " ? 1 : 2", "(if " \o snd(NoArgs) \o " (int 1) (int 2))"), K("c." \o o \o "(1) == 2", "(bin == " \o snd(Args("(int 1)")) \o " (int 2))"),
    K("def self." \o o \o "(q);end", "(sdef (self) " \o q \o " " \o Qp \o " " \o Body0 \o " " \o Qt \o ")"), K("def self." \o o \o ";end", "(sdef (self) " \o q \o " (params) " \o Body0 \o " " \o T0 \o ")"),
    K("alias %[1;" \o o \o "%]; q", "(alias " \o sy \o X \o " (sym 'q'))"), K("alias q %[1;" \o o \o "%];", "(alias (sym 'q') " \o sy \o X \o ")"), K("alias :" \o o \o " :q", "(alias " \o sy \o " (sym 'q'))") }
  \union (IF o \in DefOps THEN { K("def " \o o \o "(q);end", "(def " \o q \o " " \o Qp \o " " \o Body0 \o " " \o Qt \o ")"), K("def " \o o \o " q;end", "(def " \o q \o " " \o Qp \o " " \o Body0 \o " " \o Qt \o ")"),
                                 K("def " \o o \o ";end", "(def " \o q \o " (params) " \o Body0 \o " " \o T0 \o ")"), K("def " \o o \o "%a;end", "(def " \o q \o " (params) " \o Body0 \o " " \o T0 \o ")") } ELSE {})

\* what a sigil cannot begin
Broken == { K(s \o x, Syn) : s \in {"%40;", "%40;%40;"}, x \in {"1", "9a", " a", "%28;", "%29;", "-", "%27;", "&", "+", "{", "%a;", "!", "?", "=", "%40;%40;a"} }
          \union { K("$" \o x, Syn) : x \in {" a", "%a;"} } \union { K(":" \o s \o x, Syn) : s \in {"%40;", "%40;%40;"}, x \in {"1", " a", "-", "%28;"} }
          \union { K(s, "eof") : s \in {"%40;", "%40;%40;", "$", "c + %40;", "foo(%40;%40;", "[$", ":%40;", ":%40;%40;"} }

-----------------------------------------------------------------------------
Init == ph = "sigil" /\ sig = "" /\ nm = "" /\ base = "" /\ n = 0 /\ suf = "" /\ out = <<>>
ChooseSigil == /\ ph = "sigil" /\ ph' = "head" /\ \E s \in IF Mode = "sim" /\ RandomElement(1..2) = 1 THEN {""} ELSE Pick(Sigils) : sig' = s
               /\ UNCHANGED <<nm, base, n, suf, out>>
First == /\ ph = "head" /\ ph' = "tail"
        /\ \E h \in Pick(Heads) : nm' = h /\ base' = h
        /\ UNCHANGED <<sig, n, suf, out>>
AWord == /\ ph = "head" /\ ph' = "tail"
        /\ \E w \in Pick(Words) : nm' = w /\ base' = SubSeq(w, 1, 1)
        /\ UNCHANGED <<sig, n, suf, out>>
More == /\ ph = "tail" /\ n < MaxLen
        /\ \E t \in Pick(Tails) : nm' = nm \o t
        /\ n' = n + 1 /\ UNCHANGED <<ph, sig, base, suf, out>>
\* numbered parameters are another matter
Numbered == sig = "" /\ nm \in {"_" \o d : d \in Digits}
Suffix == /\ ph = "tail" /\ ~Numbered
          /\ ph' = "place"
          /\ \E s \in IF Mode = "sim" /\ RandomElement(1..2) = 1 THEN {""} ELSE Pick(IF sig = "" THEN Sufs ELSE {""}) : suf' = s
          /\ UNCHANGED <<sig, nm, base, n, out>>

Groups == IF sig # "" THEN {"operand", "sigil"}
          ELSE IF suf = "=" THEN {"defs", "symbols"}
          ELSE {"labels", "methods", "defs", "symbols", "params", "targets", "classes"}
               \union (IF Cls # "kw" THEN {"operand"} ELSE {})
               \union (IF Cls \in {"id", "fid", "con"} THEN {"calls"} ELSE {})
               \union (IF Cls = "id" THEN {"locals"} ELSE {})
CasesOf(g, l) == CASE g = "operand" -> Operand(l) [] g = "calls" -> Calls [] g = "labels" -> Labels [] g = "methods" -> Methods [] g = "defs" -> Defs [] g = "symbols" -> Symbols
                   [] g = "params" -> Params [] g = "targets" -> Targets [] g = "classes" -> Classes [] g = "locals" -> Locals [] OTHER -> Sigil
Inner(e) == IF Len(e) > 5 /\ SubSeq(e, 1, 5) = "(seq " THEN SubSeq(e, 6, Len(e) - 1) ELSE e
Place == /\ ph = "place" /\ ph' = "done"
         /\ \E g \in Pick(Groups) :
            \E i \in IF Mode = "sim" THEN Pick(DOMAIN Wraps) ELSE {1} :
            LET w == Wraps[i] IN
            \E k \in Pick(CasesOf(g, w[5])) :
              out' = [k |-> "name", t |-> w[1] \o k[1] \o w[2], e |-> IF k[2] \in {Syn, "eof", "rej"} THEN k[2] ELSE w[3] \o (IF w[3] \in {"(seq " \o C \o " ", "(seq (int 1) "} THEN Inner(k[2]) ELSE k[2]) \o w[4],
                      b |-> IF k[2] \in {Syn, "eof", "rej"} THEN "" ELSE k[3], c |-> g \o " " \o Cls]
         /\ UNCHANGED <<sig, nm, base, n, suf>>
Other == /\ ph = "head" /\ ph' = "done" /\ sig = "$"
         /\ \E k \in Pick(SpecialCases \union Broken) :
              out' = [k |-> "name", t |-> k[1], e |-> k[2], b |-> k[3], c |-> IF k[2] \in {Syn, "eof", "rej"} THEN "broken" ELSE "special"]
         /\ UNCHANGED <<sig, nm, base, n, suf>>
Oper == /\ ph = "head" /\ ph' = "done" /\ sig = ""
        /\ \E o \in Pick(AllOps) : \E i \in IF Mode = "sim" THEN Pick(DOMAIN Wraps) ELSE {1} :
             LET w == Wraps[i] IN
             \E k \in Pick(OpCases(o)) :
               out' = [k |-> "name", t |-> w[1] \o k[1] \o w[2], e |-> w[3] \o k[2] \o w[4], b |-> k[3], c |-> "operator"]
        /\ UNCHANGED <<sig, nm, base, n, suf>>
Emit == /\ ph = "done" /\ ph' = "out" /\ PrintT("@" \o ToJson(out)) /\ UNCHANGED <<sig, nm, base, n, suf, out>>
Next == ChooseSigil \/ First \/ AWord \/ More \/ Suffix \/ Place \/ Other \/ Oper \/ Emit
Spec == Init /\ [][Next]_vars

TypeOK == ph \in {"sigil", "head", "tail", "place", "done", "out"} /\ n <= MaxLen /\ (sig # "" => suf = "")
\* a word longer than a keyword is not that keyword
Whole == ph \in {"place", "done"} => (Cls = "kw" => Raw \in Keywords \union {"defined?"})
\* each name has one class, and each class a place
Placed == ph = "place" => Groups # {}
=============================================================================
