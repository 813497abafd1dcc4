------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* Large programs: long flat ones and deeply nested ones.  The machine     *)
(* keeps what a repetition adds to the tree (as numbers of nodes), so the  *)
(* whole tree of a program with thousands of parts is still accounted for, *)
(* and every program must be parsed within a bound on time.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS FlatSizes, Depth, Fams

VARIABLES ph, nest, cost, out
vars == <<ph, nest, cost, out>>

(* Flat families: before, repeated, after, answer, head counted, count per *)
(* repetition, extra.  "#" in the repeated part stands for the index.      *)
Flat == <<
  <<"", "a = 1%a;", "", "ok", "asgn", 1, 0>>, <<"1", "+1", "", "ok", "int", 1, 1>>, <<"a", " - a", "", "ok", "ident", 1, 1>>, <<"[", "1,", "]", "ok", "int", 1, 0>>,
  <<"a", ".b", "", "ok", "send", 1, 0>>, <<"a", ".b%28;1%29;", "", "ok", "send", 1, 0>>, <<"a", "&.b { }", "", "ok", "lambda", 1, 0>>,
  <<"\"", "a", "\"", "ok", "str", 0, 1>>, <<"\"", "\\n", "\"", "ok", "str", 0, 1>>, <<"'", "\\'", "'", "ok", "str", 0, 1>>, <<"", "\"a\" ", "", "ok", "str", 0, 1>>,
  <<"\"", "#{a}", "\"", "ok", "ident", 1, 0>>, <<"\"", "x#{1}\\t", "\"", "ok", "int", 1, 0>>, <<"", "x; ", "", "ok", "ident", 1, 0>>, <<"f%28;", "1,", "1%29;", "ok", "int", 1, 1>>,
  <<"f ", "1,", "1", "ok", "int", 1, 1>>, <<"f%28;", "a: 1,", "b: 1%29;", "ok", "int", 1, 1>>, <<"{", "a: 1,", "}", "ok", "sym", 1, 0>>, <<"{", "1 => 2,", "}", "ok", "int", 2, 0>>,
  <<"if a%a;", "elsif b%a;", "end", "ok", "if", 1, 1>>, <<"case a%a;", "when b then 1%a;", "end", "ok", "when", 1, 0>>, <<"begin%a;1%a;", "rescue A%a;2%a;", "end", "ok", "rescue", 1, 0>>,
  <<"", "<<A%a;x%a;A%a;", "", "ok", "str", 1, 0>>, <<"", "<<~A%a;#{x}%a;A%a;", "", "ok", "ident", 1, 0>>, <<"<<A%a;", "x #{y} z%a;", "A%a;", "ok", "ident", 1, 0>>,
  <<"", "# x%a;", "1", "ok", "int", 0, 1>>, <<"", "%a;", "1", "ok", "int", 0, 1>>, <<"", ";", "1", "ok", "int", 0, 1>>, <<"1", " ", "", "ok", "int", 0, 1>>,
  <<"", "1", "", "ok", "", 0, 0>>, <<"0x", "f", "", "ok", "", 0, 0>>, <<"0b1", "01", "", "ok", "", 0, 0>>,
  <<"1.", "3", "", "ok", "float", 0, 1>>, <<"a", "[1]", "", "ok", "index", 1, 0>>, <<"A", "::B", "", "ok", "const", 0, 1>>, <<"", "def f; end%a;", "", "ok", "def", 1, 0>>,
  <<"%25;w%28;", "a ", "%29;", "ok", "str", 1, 0>>, <<"%25;i%28;", "a%a;", "%29;", "ok", "sym", 1, 0>>, <<"%25;q%28;", "%28;%29;", "%29;", "ok", "str", 0, 1>>,
  <<"/", "a", "/", "ok", "str", 0, 1>>, <<"/", "#{a}", "/", "ok", "ident", 1, 0>>, <<"", "f { a }%a;", "", "ok", "lambda", 1, 0>>, <<"", "f do |x| x end%a;", "", "ok", "lvar", 1, 0>>,
  <<"", "class K; end%a;", "", "ok", "class", 1, 0>>, <<"", "alias a b%a;", "", "ok", "alias", 1, 0>>, <<"", "->%28;x%29; { x }%a;", "", "ok", "lambda", 1, 0>>,
  <<"", "a, b = 1, 2%a;", "", "ok", "asgn", 1, 0>>, <<"a = ", "1, ", "2", "ok", "int", 1, 1>>, <<"x = 1%a;", "x -1%a;", "", "ok", "lvar", 1, 1>>, <<"", "p -1%a;", "", "ok", "call", 1, 0>>,
  <<"a", " \\%a; ", "", "ok", "ident", 0, 1>>, <<"a", "%a;.b", "", "ok", "send", 1, 0>>, <<"a", "%a;# c%a;", "b", "ok", "ident", 0, 2>>, <<":", "a", "", "ok", "sym", 0, 1>>,
  <<"", "a", "", "ok", "ident", 0, 1>>, <<"@", "a", "", "ok", "ivar", 0, 1>>, <<"`", "a", "`", "ok", "cmd", 0, 1>>, <<"1", "_1", "", "ok", "", 0, 0>>,
  <<"\"", "\\u{61}", "\"", "ok", "str", 0, 1>>, <<"\"", "\\x41", "\"", "ok", "str", 0, 1>>, <<"\"\\u{", "61 ", "}\"", "ok", "str", 0, 1>>, <<"%3042;", "%3042;", "", "ok", "ident", 0, 1>>,
  <<"\"", "a", "", "eof", "", 0, 0>>, <<"<<A%a;", "a%a;", "", "eof", "", 0, 0>>, <<"/", "a", "", "eof", "", 0, 0>>, <<"%25;w%28;", "a ", "", "eof", "", 0, 0>>, <<"[", "1,", "", "eof", "", 0, 0>>,
  <<"f%28;", "1,", "", "eof", "", 0, 0>>, <<"def f%a;", "a%a;", "", "eof", "", 0, 0>>, <<"a = ", "%a;", "", "eof", "", 0, 0>>,
  <<"a = ", "# x%a;", "", "eof", "", 0, 0>>, <<"1 +", "%a;", "", "eof", "", 0, 0>>,
  <<"", "%29;", "", "syn", "", 0, 0>>, <<"", "]", "", "syn", "", 0, 0>>, <<"", "}", "", "syn", "", 0, 0>>, <<"", "end ", "", "syn", "", 0, 0>>, <<"", "1 ", "", "any", "", 0, 0>>,
  <<"", "=", "", "any", "", 0, 0>>, <<"", "<", "", "any", "", 0, 0>>, <<"", ":", "", "any", "", 0, 0>>, <<"", "|", "", "any", "", 0, 0>>, <<"", "%25;", "", "any", "", 0, 0>>,
  <<"", "/", "", "any", "", 0, 0>>, <<"", "$", "", "any", "", 0, 0>>, <<"", ".", "", "any", "", 0, 0>>, <<"", "\\", "", "any", "", 0, 0>>, <<"", "\"", "", "any", "", 0, 0>>,
  <<"", "%0;", "", "any", "", 0, 0>>, <<"", ",", "", "any", "", 0, 0>>, <<"", "=>", "", "any", "", 0, 0>>, <<"a", "=", "", "any", "", 0, 0>>, <<"a ", ", ", "", "any", "", 0, 0>>,
  <<"", "%3042; ", "", "any", "", 0, 0>>, <<"", "1.", "", "any", "", 0, 0>>, <<"", "'", "", "any", "", 0, 0>>, <<"", "_", "", "any", "", 0, 0>>, <<"", "0", "", "any", "", 0, 0>> >>

(* Nesting: before, after, heads it adds.                                  *)
Deep == <<
  <<"%28;", "%29;", <<>> >>, <<"[", "]", <<"array">> >>, <<"{a: ", "}", <<"hash", "sym">> >>, <<"{1 => ", "}", <<"hash", "int">> >>, <<"->{", "}", <<"lambda">> >>,
  <<"f%28;", "%29;", <<"call">> >>, <<"x[", "]", <<"index", "ident">> >>, <<"f { ", " }", <<"call", "lambda">> >>, <<"f do ", " end", <<"call", "lambda">> >>,
  <<"begin ", " end", <<"begin">> >>, <<"if a then ", " end", <<"if", "ident", "seq">> >>, <<"unless a then 1 else ", " end", <<"if", "ident", "int">> >>,
  <<"case a when b then ", " end", <<"case", "when", "ident", "ident", "seq">> >>, <<"while a do ", " end", <<"while", "ident">> >>, <<"for i in a do ", " end", <<"for", "ident">> >>,
  <<"def m; ", "; end", <<"def", "begin">> >>, <<"\"#{", "}\"", <<"istr">> >>, <<"!%28;", "%29;", <<"un">> >>, <<"%28;y = ", "%29;", <<"asgn", "lvar">> >>, <<"%28;a ? ", " : b%29;", <<"if", "ident", "ident">> >>,
  <<"%28;a + ", "%29;", <<"bin", "ident">> >>, <<"%28;", " * a%29;", <<"bin", "ident">> >>, <<"->%28;v = ", "%29; { 1 }", <<"lambda", "opt", "int">> >>, <<"f%28;k: ", "%29;", <<"call">> >>,
  <<"f%28;*", "%29;", <<"call", "splat">> >>, <<"[*", "]", <<"array", "splat">> >>, <<"yield%28;", "%29;", <<"yield">> >>, <<"defined?%28;", "%29;", <<"defined">> >>, <<"begin; 1; rescue; ", "; end", <<"begin", "rescue", "int">> >>,
  <<"f { |u| ", " }", <<"call", "lambda", "req">> >>, <<"a.y%28;", "%29;", <<"send", "call">> >>, <<"a&.y%28;", "%29;", <<"send", "call">> >>, <<"super%28;", "%29;", <<"super">> >>,
  <<"[1, ", ", 2]", <<"array", "int", "int">> >>, <<"f%28;1, ", ", 2%29;", <<"call", "int", "int">> >>, <<"%28;f 1, %28;", "%29;%29;", <<"call", "int">> >>, <<"f%28;&", "%29;", <<"call">> >>, <<"%28;1..", "%29;", <<"range", "int">> >>,
  <<":\"#{", "}\"", <<"send", "istr">> >>, <<"/#{", "}/", <<"regex">> >>, <<"`#{", "}`", <<"cmd", "istr">> >>, <<"%25;Q%28;#{", "}%29;", <<"istr">> >>, <<"%28;1; ", "%29;", <<"seq", "int">> >>,
  <<"%28;", " if a%29;", <<"if", "ident", "seq">> >>, <<"%28;x[0] = ", "%29;", <<"asgn", "index", "ident", "int">> >>, <<"%28;z ||= ", "%29;", <<"bin", "lvar", "lvar", "asgn">> >> >>

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN s \o Rep(s, n - 1) ELSE LET h == Rep(s, n \div 2) IN h \o h

Init == ph = "start" /\ nest = <<>> /\ cost = [h \in {} |-> 0] /\ out = ""

Emit(pre, unit, n, core, unit2, post, cls, counts) ==
  PrintT("@" \o ToJson([k |-> "scale", pre |-> pre, unit |-> unit, n |-> n, core |-> core, unit2 |-> unit2, post |-> post, e |-> cls, counts |-> counts]))

Long == /\ ph = "start" /\ "flat" \in Fams
        /\ \E i \in 1..Len(Flat) : \E n \in FlatSizes :
             LET x == Flat[i] IN
             /\ ph' = "done" /\ out' = <<i, n>> /\ UNCHANGED <<nest, cost>>
             /\ Emit(x[1], x[2], n, "", "", x[3], x[4], IF x[5] = "" THEN <<>> ELSE << <<x[5], x[6] * n + x[7]>> >>)

Inc(c, hs) == [h \in DOMAIN c \union {hs[i] : i \in 1..Len(hs)} |-> (IF h \in DOMAIN c THEN c[h] ELSE 0) + Cardinality({i \in 1..Len(hs) : hs[i] = h})]
\* one more kind of construct in the group which is repeated
Push == /\ ph \in {"start", "nest"} /\ "deep" \in Fams /\ Len(nest) < 2
        /\ \E i \in 1..Len(Deep) :
             /\ nest' = Append(nest, i) /\ cost' = Inc(cost, Deep[i][3]) /\ ph' = "nest" /\ out' = out
RECURSIVE Opens(_, _)
Opens(s, i) == IF i > Len(s) THEN "" ELSE Deep[s[i]][1] \o Opens(s, i + 1)
RECURSIVE Shuts(_, _)
Shuts(s, i) == IF i < 1 THEN "" ELSE Deep[s[i]][2] \o Shuts(s, i - 1)
RECURSIVE Pairs(_, _, _)
Pairs(S, c, n) == IF S = {} THEN <<>> ELSE LET h == CHOOSE x \in S : TRUE IN << <<h, c[h] * n>> >> \o Pairs(S \ {h}, c, n)
\* in these heads nothing else is counted
Counted == {"array", "hash", "lambda", "call", "index", "if", "case", "when", "while", "for", "def", "istr", "asgn", "un", "splat", "yield", "defined", "rescue", "range", "cmd", "regex"}
Raise == /\ ph = "nest"
         /\ LET n == Depth \div Len(nest) IN
            \/ /\ Emit("", Opens(nest, 1), n, "nil", Shuts(nest, Len(nest)), "", "ok", Pairs(DOMAIN cost \cap Counted, cost, n))
               /\ out' = "ok"
            \* cut off in the middle: more text is needed
            \/ /\ Emit("", Opens(nest, 1), n, "nil", "", "", IF Shuts(nest, Len(nest)) = "" THEN "ok" ELSE "eof", <<>>)
               /\ out' = "eof"
         /\ ph' = "done" /\ UNCHANGED <<nest, cost>>

Next == Long \/ Push \/ Raise
Spec == Init /\ [][Next]_vars
TypeOK == Len(nest) <= 2 /\ \A h \in DOMAIN cost : cost[h] > 0
=============================================================================
