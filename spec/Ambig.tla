------------------------------ MODULE Ambig ------------------------------
(* Literal or operator: what `/ % << ? [ ( - + * & ** :: ! ~ -> { : "` mean *)
(* follows from the token before them and from the blanks around them.      *)
(*                                                                          *)
(* The scanner's state after a token is one of                              *)
(*   beg  an operand has to come:           a literal or a prefix operator  *)
(*   val  an operand is complete:           an operator                     *)
(*   cmd  a name that may take arguments without parentheses: as `val`,     *)
(*        unless a blank stands before and (for characters which can be     *)
(*        binary operators) none after                                      *)
(* A behaviour nests statement contexts, writes a token that puts the       *)
(* scanner in a state, and then the ambiguous text.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Depth
VARIABLES ph, pre, post, tb, ta, st, n, out
vars == <<ph, pre, post, tb, ta, st, n, out>>
Pick(S) == IF Mode = "sim" /\ S # {} THEN {RandomElement(S)} ELSE S
Range(s) == {s[i] : i \in DOMAIN s}

A(pos) == "(args (" \o pos \o ") (kw) (dsplat) - - -)"
B == "(ident 'b')"  C == "(ident 'c')"
LV == "(asgn ((lvar 0 'lv')) ((int 0)))"

\* statement contexts: text before, after, tree before, after
Wrap == {
  <<"", "", "", "">>, <<"c;", ";1", "(seq " \o C \o " ", " (int 1))">>, <<"(", ")", "", "">>, <<"\"#{", "}\"", "(istr ", ")">>,
  <<"begin;", ";end", "(begin ", " - -)">>, <<"if c then ", " else 2 end", "(if " \o C \o " ", " (int 2))">>,
  <<"if c;1 else ", " end", "(if " \o C \o " (int 1) ", ")">>,
  <<"while c do ", " end", "(while - " \o C \o " ", ")">>, <<"unless c%a;", "%a;end", "(if " \o C \o " (seq) ", ")">>,
  <<"", " if c", "(if " \o C \o " ", " (seq))">>, <<"x = ", "", "(asgn ((lvar 0 'x')) (", "))">>,
  <<"case c when 1 then ", " end", "(case " \o C \o " (when ((int 1)) ", ") (seq))">>,
  <<"", " # b", "", "">>, <<"", "%a;", "", "">>, <<"%9;", " ", "", "">> }
\* priors after which an operand has to come: text, after, tree before, after, whether list elements are allowed
Beg == {
  <<"", "", "", "">>, <<"y = ", "", "(asgn ((lvar 0 'y')) (", "))">>, <<"foo(", ")", "(call - 'foo' (args (", ") (kw) (dsplat) - - -))">>,
  <<"foo(c,", ", 1)", "(call - 'foo' (args (" \o C \o " ", " (int 1)) (kw) (dsplat) - - -))">>, <<"[", "]", "(array - ", ")">>, <<"[c, ", "]", "(array - " \o C \o " ", ")">>,
  <<"c && ", "", "(bin && " \o C \o " ", ")">>, <<"c==", "", "(bin == " \o C \o " ", ")">>, <<"foo c, ", "", "(call - 'foo' (args (" \o C \o " ", ") (kw) (dsplat) - - -))">>,
  <<"return ", "", "(return ", ")">>, <<"c ? ", " : 1", "(if " \o C \o " ", " (int 1))">>, <<"c ? 1 : ", "", "(if " \o C \o " (int 1) ", ")">>,
  <<"{a: ", "}", "(hash - ((sym 'a') ", "))", "(hash const ((sym 'a') ">>, <<"{1 => ", "}", "(hash - ((int 1) ", "))", "(hash const ((int 1) ">>, <<"c[", "]", "(index " \o C \o " ", ")">>, <<"!", "", "(un ! ", ")">>,
  <<"c || !", "", "(bin || " \o C \o " (un ! ", "))">>, <<"f{", "}", "(call - 'f' (args () (kw) (dsplat) (lambda (params) ", " (tbl () (kw) - - -)) - -))">>,
  <<"if ", " then 1 end", "(if ", " (int 1) (seq))">>, <<"1 if ", "", "(if ", " (int 1) (seq))">>, <<"c and ", "", "(bin && " \o C \o " ", ")">>,
  <<"(", ")", "", "">>, <<"c =~ ", "", "(bin =~ " \o C \o " ", ")">>, <<"y += ", "", "(opasgn + (lvar 0 'y') ", ")">>, <<"case ", " when 1 then 2 end", "(case ", " (when ((int 1)) (int 2)) (seq))">>,
  <<"foo a: ", "", "(call - 'foo' (args () (kw ('a' ", ")) (dsplat) - - -))">>, <<"c.d = ", "", "(asgn ((send - " \o C \o " 'd' " \o A("") \o ")) (", "))">>,
  <<"c.. ", "", "(range " \o C \o " ", " .. -)">>, <<"yield 1, ", "", "(yield (args ((int 1) ", ") (kw) (dsplat) - - -))">> }
TblOf(t) == IF t = "x = " THEN "x" ELSE IF t \in {"y = ", "y += "} THEN "y" ELSE ""
\* complete operands: text, tree, whether a name (so that ? would belong to it)
Val == {
  <<"1", "(int 1)", FALSE>>, <<"lv", "(lvar 0 'lv')", TRUE>>, <<"(c)", C, FALSE>>, <<"[c]", "(array - " \o C \o ")", FALSE>>, <<"nil", "(nil)", TRUE>>, <<"self", "(self)", TRUE>>,
  <<"@a", "(ivar '%40;a')", FALSE>>, <<"@@a", "(cvar '%40;%40;a')", FALSE>>, <<"$a", "(gvar '$a')", FALSE>>, <<"\"s\"", "(str 's')", FALSE>>, <<":s", "(sym 's')", TRUE>>,
  <<"foo(c)", "(call - 'foo' " \o A(C) \o ")", FALSE>>, <<"c.d(1)", "(send - " \o C \o " 'd' " \o A("(int 1)") \o ")", FALSE>>, <<"true", "(true)", TRUE>>, <<"1.5", "(dec 1.5)", FALSE>>,
  <<"c[1]", "(index " \o C \o " (int 1))", FALSE>>, <<"f{c}", "(call - 'f' (args () (kw) (dsplat) (lambda (params) " \o C \o " (tbl () (kw) - - -)) - -))", FALSE>>,
  <<"?s", "(str 's')", TRUE>>, <<"/s/", "(regex 'm' const (str 's'))", TRUE>>, <<"%25;w(s)", "(array const (str 's'))", FALSE>>, <<"begin;c;end", "(begin " \o C \o " - -)", TRUE>>,
  <<"if c then 1 end", "(if " \o C \o " (int 1) (seq))", TRUE>>, <<"{1=>2}", "(hash const ((int 1) (int 2)))", FALSE>>, <<"->{c}", "(lambda (params) " \o C \o " (tbl () (kw) - - -))", FALSE>>,
  <<"$1", "(svar 101)", FALSE>>, <<"yield(c)", "(yield " \o A(C) \o ")", FALSE>>, <<"super()", "(super " \o A("") \o ")", FALSE>>, <<"`s`", "(cmd (str 's'))", FALSE>>, <<"__LINE__", "", TRUE>>,
  <<"\"#{c}\"", "(istr " \o C \o ")", FALSE>>, <<"%25;(s)", "(str 's')", FALSE>>, <<"def d;end", "(def 'd' (params) (seq) (tbl () (kw) - - -))", TRUE>> } \ {<<"__LINE__", "", TRUE>>, <<"def d;end", "(def 'd' (params) (seq) (tbl () (kw) - - -))", TRUE>>}
\* names which may take arguments: text, tree as an operand, tree of the call before and after its arguments
Cmd == {
  <<"foo", "(ident 'foo')", "(call - 'foo' ", ")", TRUE>>, <<"foo?", "(ident 'foo?')", "(call - 'foo?' ", ")", TRUE>>, <<"foo!", "(ident 'foo!')", "(call - 'foo!' ", ")", TRUE>>,
  <<"c.d", "(send - " \o C \o " 'd' " \o A("") \o ")", "(send - " \o C \o " 'd' ", ")", TRUE>>, <<"c&.d", "(send &. " \o C \o " 'd' " \o A("") \o ")", "(send &. " \o C \o " 'd' ", ")", TRUE>>,
  <<"nil.class", "(send - (nil) 'class' " \o A("") \o ")", "(send - (nil) 'class' ", ")", TRUE>>, <<"lv.d", "(send - (lvar 0 'lv') 'd' " \o A("") \o ")", "(send - (lvar 0 'lv') 'd' ", ")", TRUE>>,
  <<"c.d(1).e", "(send - (send - " \o C \o " 'd' " \o A("(int 1)") \o ") 'e' " \o A("") \o ")", "(send - (send - " \o C \o " 'd' " \o A("(int 1)") \o ") 'e' ", ")", TRUE>>,
  <<"c.D?", "(send - " \o C \o " 'D?' " \o A("") \o ")", "(send - " \o C \o " 'D?' ", ")", TRUE>>, <<"D::e", "(send - (const - - () 'D') 'e' " \o A("") \o ")", "(send - (const - - () 'D') 'e' ", ")", TRUE>>,
  <<"yield", "(yield " \o A("") \o ")", "(yield ", ")", TRUE>>, <<"super", "(super -)", "(super ", ")", TRUE>>, <<"_a1", "(ident '_a1')", "(call - '_a1' ", ")", TRUE>>,
  <<"%e9;t", "(ident '%e9;t')", "(call - '%e9;t' ", ")", TRUE>>, <<"@a.end", "(send - (ivar '%40;a') 'end' " \o A("") \o ")", "(send - (ivar '%40;a') 'end' ", ")", TRUE>> }

\* ambiguous texts.  o: the operator text, r: what follows it; l: tree as a literal; b, a: tree as an operator before and after the left operand; b = "" if it is none
\* rule: sp    literal after a name with a blank before and none after
\*       pre   literal after a name with a blank before
\*       op    never a literal
\* arg: how it stands among arguments: pos splat blk dsplat
T(o, r, tail, l, b, a, rule) == [o |-> o, r |-> r, t |-> tail, l |-> l, b |-> b, a |-> a, rule |-> rule, arg |-> "pos", beg |-> l # ""]
Arg(x, g) == [x EXCEPT !.arg = g, !.beg = FALSE]
Un(o) == "(un " \o o \o " " \o B \o ")"
Ops == {
  T("/", "b/i", "", "(regex 'mi' const (str 'b'))", "(bin / (bin / ", " " \o B \o ") (ident 'i'))", "sp"),
  T("%25;", "w(b)", "", "(array const (str 'b'))", "(bin mod ", " (call - 'w' " \o A(B) \o "))", "sp"),
  T("%25;", "i[b c]", "", "(array const (sym 'b') (sym 'c'))", "", "", "sp"),
  T("%25;", "(b)", "", "(str 'b')", "(bin mod ", " " \o B \o ")", "sp"),
  T("%25;", "q(b)", "", "(str 'b')", "(bin mod ", " (call - 'q' " \o A(B) \o "))", "sp"),
  T("%25;", "r{b}", "", "(regex 'm' const (str 'b'))", "", "", "sp"),
  T("<<", "E", "%a;b%a;E", "(str 'b%a;')", "", "", "sp"),
  T("<<", "-E", "%a;b%a; E", "(str 'b%a;')", "", "", "sp"),
  T("<<", "E", "", "", "(bin << ", " (const - - () 'E'))", "op"),
  T("<<", "-E", "", "", "(bin << ", " (un - (const - - () 'E')))", "op"),
  T("<<", "b", "", "", "(bin << ", " " \o B \o ")", "op"),
  T("?", "b", "", "(str 'b')", "", "", "sp"),
  T("?", "_", "", "(str '_')", "", "", "sp"),
  T("?", "%3042;", "", "(str '%3042;')", "", "", "sp"),
  T("?", "b_ : c", "", "", "(if ", " (ident 'b_') " \o C \o ")", "tern0"),
  T("?", "b1 : c", "", "", "(if ", " (ident 'b1') " \o C \o ")", "tern0"),
  T("?", "b%e9; : c", "", "", "(if ", " (ident 'b%e9;') " \o C \o ")", "tern0"),
  T("?", "%3042;%3044; : c", "", "", "(if ", " (ident '%3042;%3044;') " \o C \o ")", "tern0"),
  T("?", "_b : c", "", "", "(if ", " (ident '_b') " \o C \o ")", "tern0"),
  T("?", "b : c", "", "", "(if ", " " \o B \o " " \o C \o ")", "tern"),
  T("?", "1 :c", "", "", "(if ", " (int 1) " \o C \o ")", "tern"),
  T("?", "\"b\":c", "", "", "(if ", " (str 'b') " \o C \o ")", "tern"),
  T("[", "b]", "", "(array - " \o B \o ")", "(index ", " " \o B \o ")", "pre"),
  T("[", "b, 1]", "", "(array - " \o B \o " (int 1))", "(index ", " " \o B \o " (int 1))", "pre"),
  T("-", "b", "", Un("-"), "(bin - ", " " \o B \o ")", "sp"),
  T("-", "1", "", "(int -1)", "(bin - ", " (int 1))", "sp"),
  T("-", "1.5", "", "(dec -1.5)", "(bin - ", " (dec 1.5))", "sp"),
  T("-", "b.c", "", "(un - (send - " \o B \o " 'c' " \o A("") \o "))", "(bin - ", " (send - " \o B \o " 'c' " \o A("") \o "))", "sp"),
  T("+", "b", "", Un("+"), "(bin + ", " " \o B \o ")", "sp"),
  T("+", "1", "", "(un + (int 1))", "(bin + ", " (int 1))", "sp"),
  Arg(T("*", "b", "", "(splat " \o B \o ")", "(bin * ", " " \o B \o ")", "sp"), "splat"),
  Arg(T("&", "b", "", B, "(bin & ", " " \o B \o ")", "sp"), "blk"),
  Arg(T("**", "b", "", B, "(bin ** ", " " \o B \o ")", "sp"), "dsplat"),
  T("::", "B", "", "(const top - () 'B')", "(const - ", " () 'B')", "pre"),
  T("::", "B::D", "", "(const top - ('B') 'D')", "", "", "pre"),
  T("!", "b", "", Un("!"), "", "", "pre"),
  T("~", "b", "", Un("~"), "", "", "pre"),
  T("->", "{b}", "", "(lambda (params) " \o B \o " (tbl () (kw) - - -))", "", "", "pre"),
  T(":", "b", "", "(sym 'b')", "", "", "sp"),
  T(":", "\"b\"", "", "(sym 'b')", "", "", "sp"),
  T(":", "+", "", "(sym '+')", "", "", "sp"),
  T("\"", "b\"", "", "(str 'b')", "", "", "tok"),
  T("%27;", "b%27;", "", "(str 'b')", "", "", "tok"),
  T("`", "b`", "", "(cmd (str 'b'))", "", "", "tok"),
  T("b", "", "", B, "", "", "tok"),
  T("B", "", "", "(const - - () 'B')", "", "", "tok"),
  T("@b", "", "", "(ivar '%40;b')", "", "", "tok"),
  T("$b", "", "", "(gvar '$b')", "", "", "tok"),
  T("1", "", "", "(int 1)", "", "", "tok"),
  T("nil", "", "", "(nil)", "", "", "tok"),
  T("self", "", "", "(self)", "", "", "tok"),
  T("==", "b", "", "", "(bin == ", " " \o B \o ")", "op"),
  T("===", "b", "", "", "(bin === ", " " \o B \o ")", "op"),
  T("=~", "b", "", "", "(bin =~ ", " " \o B \o ")", "op"),
  T("!=", "b", "", "", "(bin != ", " " \o B \o ")", "op!"),
  T("!~", "b", "", "", "(un ! (bin =~ ", " " \o B \o "))", "op!"),
  T("<=>", "b", "", "", "(bin <=> ", " " \o B \o ")", "op"),
  T("<", "b", "", "", "(bin < ", " " \o B \o ")", "op"),
  T(">", "b", "", "", "(bin > ", " " \o B \o ")", "op"),
  T("<=", "b", "", "", "(bin <= ", " " \o B \o ")", "op"),
  T(">=", "b", "", "", "(bin >= ", " " \o B \o ")", "op"),
  T(">>", "b", "", "", "(bin >> ", " " \o B \o ")", "op"),
  T("|", "b", "", "", "(bin | ", " " \o B \o ")", "op"),
  T("^", "b", "", "", "(bin ^ ", " " \o B \o ")", "op"),
  T("&&", "b", "", "", "(bin && ", " " \o B \o ")", "op"),
  T("||", "b", "", "", "(bin || ", " " \o B \o ")", "op"),
  T("..", "b", "", "", "(range ", " " \o B \o " .. -)", "op"),
  T("...", "b", "", "", "(range ", " " \o B \o " ... -)", "op") }

ConstL(x) == x.l \in {"(str 'b')", "(str '_')", "(str '%3042;')", "(str 'b%a;')", "(sym 'b')", "(sym '+')", "(int -1)", "(int 1)", "(dec -1.5)", "(nil)"}
ArgT(x) ==
  CASE x.arg = "pos" -> A(x.l)
    [] x.arg = "splat" -> "(args (" \o x.l \o ") (kw) (dsplat) - - splat)"
    [] x.arg = "blk" -> "(args () (kw) (dsplat) " \o x.l \o " - -)"
    [] OTHER -> "(args () (kw) (dsplat " \o x.l \o ") - - -)"

Init == ph = "wrap" /\ pre = "" /\ post = "" /\ tb = "" /\ ta = "" /\ st = <<>> /\ n = 0 /\ out = <<>>

\* nest in one more statement context
Nest ==
  /\ ph = "wrap" /\ n < Depth
  /\ \E w \in Pick({x \in Wrap : n > 0 => x[2] \notin {" # b", "%a;"}}) :   \* these end the line
       /\ pre' = pre \o w[1] /\ post' = w[2] \o post /\ tb' = tb \o w[3] /\ ta' = w[4] \o ta
       /\ st' = Append(st, w[1])
  /\ n' = n + 1 /\ UNCHANGED <<ph, out>>
\* only some contexts may hold the others without changing what they mean
NestOK ==
  /\ \A i \in DOMAIN st : i < Len(st) => st[i] # "x = "
  \* a sequence within a sequence is one sequence
  /\ \A i \in DOMAIN st : st[i] = "c;" => (i > 1 /\ st[i - 1] \in {"while c do ", "if c then ", "if c;1 else ", "unless c%a;", "case c when 1 then "})
Names == (IF "x = " \in Range(st) THEN {"x"} ELSE {})
Tb(extra, lv) ==
  LET has(v) == v \in extra \union Names
      s == (IF lv THEN <<"lv">> ELSE <<>>) \o (IF "x = " \in Range(st) THEN <<"x">> ELSE <<>>) \o (IF "y" \in extra THEN <<"y">> ELSE <<>>)
  IN "(tbl (" \o (IF s = <<>> THEN "" ELSE "'" \o s[1] \o "'") \o (IF Len(s) > 1 THEN " '" \o s[2] \o "'" ELSE "") \o (IF Len(s) > 2 THEN " '" \o s[3] \o "'" ELSE "") \o ") (kw) - - -)"
\* here documents need the rest of their line, in a context that goes on after it
OneLine == \A i \in DOMAIN st : st[i] \notin {"unless c%a;", "", "\"#{", "%9;"}

Done(text, tail, tree, extra, cls) ==
  LET lv == TRUE IN
  /\ out' = [k |-> "ambig", t |-> "lv=0;" \o pre \o text \o post \o tail,
             e |-> IF tree = "rej" THEN "rej" ELSE "(seq " \o LV \o " " \o tb \o tree \o ta \o ")", b |-> IF tree = "rej" THEN "" ELSE Tb(extra, lv), c |-> cls]
  /\ ph' = "done" /\ UNCHANGED <<pre, post, tb, ta, st, n>>

\* an operand has to come
BegCase ==
  /\ ph = "wrap"
  /\ \E p \in Pick(Beg), x \in Pick({y \in Ops : y.beg}) :
       /\ x.t # "" => OneLine
       \* a minus directly before a number is part of the number, wherever it stands
       /\ ~(p[1] = "c.. " /\ x.o \in {"::"})
       /\ ~(p[1] \in {"1 if ", "c and "} /\ "x = " \in Range(st))  \* these bind looser than the assignment
       /\ ~(p[1] \in {"!", "c || !"} /\ x.o = "~")
       /\ Done(p[1] \o x.o \o x.r \o p[2], x.t, (IF ConstL(x) /\ p[1] = "[" THEN "(array const " ELSE IF ConstL(x) /\ p[1] \in {"{a: ", "{1 => "} THEN p[5] ELSE p[3]) \o x.l \o p[4], IF TblOf(p[1]) = "" THEN {} ELSE {TblOf(p[1])}, "beg " \o x.o)

\* what cannot start an operand there
BegRej ==
  /\ ph = "wrap" /\ n <= 1
  /\ \E p \in Pick({q \in Beg : q[1] \notin {"", "("}}), x \in Pick({"<< E", "<<- E", "<<~ E", "<<(b)", "<<1", "<<-(b)", "* *b", "=~ b", "== b", "=> b", "<= b", ">b", ">> b", "| b", "^ b", "&& b", "|| b", "!~ b", "!= b", "<=> b", ".b", "&.b", ",", ")", "]", "}", "= b"}) :
       /\ ~(p[1] \in {"foo(", "[", "f{"} /\ x \in {")", "]", "}"})
       /\ ~(p[1] = "c.. " /\ x \in {")", "]", "}", ",", "=> b", "== b", "&& b", "|| b", ".b", "&.b"})     \* a range without end, elsewhere
       /\ ~(p[1] = "return " /\ x \in {"}", ")", "]"})
       /\ ~(p[1] = "f{" /\ x \in {"| b", "|| b"})
       /\ ~(p[1] = "c==" /\ x \in {"= b", "=~ b", "== b", "=> b"})
       /\ Done(p[1] \o x \o p[2], "", "rej", {}, "beg rejected")

\* an operand is complete
ValCase ==
  /\ ph = "wrap"
  /\ \E v \in Pick(Val), x \in Pick({y \in Ops : y.arg # "none"}), s1 \in Pick({"", " "}), s2 \in Pick({"", " "}) :
       /\ ~(v[3] /\ s1 = "" /\ x.o \in {"?", "!", "!=", "!~", "::", "b", "B", "1", "nil", "self", "=~", "==", "===", ">=", "<=", "=>", "=", "<=>", "%27;", "\"", "`"})
       /\ ~(v[1] \in {"1", "1.5", "__LINE__", "$1", "@a", "@@a", "$a", ":s", "?s", "/s/"} /\ s1 = "" /\ x.o \in {"b", "B", "1", "nil", "self", "..", "...", "::", "[", "\"", "?", "!", "=="})
       /\ ~(x.o = "b" \/ x.rule = "tok") \/ (s1 = " " /\ v[1] # "lv")
       /\ ~(v[1] \in {"\"s\"", "\"#{c}\""} /\ x.o \in {"\"", "%27;"})   \* adjacent strings
       /\ ~(v[1] \in {"\"s\"", "\"#{c}\"", ":s", "%25;(s)", "?s"} /\ x.o = ":")
       /\ ~(x.o = "::" /\ s2 = " " /\ FALSE)
       /\ x.rule = "tern" => (s2 = " " \/ x.r # "b : c" \/ TRUE)
       /\ IF x.b = ""
          THEN /\ x.rule \in {"pre", "tok"} /\ x.o \notin {"::", "["} /\ s1 = " " /\ s2 = "" /\ v[1] \notin {"f{c}"}
               /\ Done(v[1] \o s1 \o x.o \o s2 \o x.r, x.t, "rej", {}, "val rejected " \o x.o)
          ELSE /\ Done(v[1] \o s1 \o x.o \o s2 \o x.r, "", x.b \o v[2] \o x.a, {}, "val " \o x.o)

\* a name that may take arguments
CmdCase ==
  /\ ph = "wrap"
  /\ \E v \in Pick(Cmd), x \in Pick(Ops), s1 \in Pick({"", " "}), s2 \in Pick({"", " "}) :
       LET asLit == s1 = " " /\ (x.rule \in {"pre", "tok"} \/ (x.rule = "sp" /\ s2 = ""))
       IN IF asLit /\ x.l # ""
          THEN /\ x.rule = "tok" => s2 = ""
               /\ x.t # "" => OneLine
               \* no block can be passed to a block
               /\ IF v[1] = "yield" /\ x.arg = "blk" THEN Done(v[1] \o s1 \o x.o \o s2 \o x.r, x.t, "rej", {}, "cmd rejected " \o x.o)
                  ELSE Done(v[1] \o s1 \o x.o \o s2 \o x.r, x.t, v[3] \o ArgT(x) \o v[4], {}, "cmd literal " \o x.o)
          ELSE /\ ~asLit /\ x.b # ""
               /\ ~(s1 = "" /\ x.o \in {"?", "!", "!=", "!~", "=~", "==", "===", "[", "::"} /\ v[1] \in {"foo?", "foo!", "c.D?"})
               /\ ~(s1 = "" /\ x.o \in {"?", "!=", "!~", "!", "=~", "===", "==", "=>"})
               /\ ~(s1 = "" /\ x.o = "::" /\ v[1] \in {"yield", "super"})
               /\ ~(s1 = "" /\ x.o = "[" /\ v[1] \in {"yield", "super"})
               /\ x.rule = "tern" => s2 = " "
               /\ (x.rule = "op" /\ x.o = "<<") => (s1 = "" \/ s2 = " ")   \* otherwise a here document
               /\ Done(v[1] \o s1 \o x.o \o s2 \o x.r, "", x.b \o v[2] \o x.a, {}, "cmd operator " \o x.o)

Emit == /\ ph = "done" /\ ph' = "out" /\ PrintT("@" \o ToJson(out)) /\ UNCHANGED <<pre, post, tb, ta, st, n, out>>
Next == Nest \/ (NestOK /\ (BegCase \/ BegRej \/ ValCase \/ CmdCase)) \/ Emit
Spec == Init /\ [][Next]_vars
TypeOK == ph \in {"wrap", "done", "out"} /\ n <= Depth /\ Len(st) = n
\* every text has a class and an expectation
Total == ph = "done" => (out.e # "" /\ out.c # "")
=============================================================================
