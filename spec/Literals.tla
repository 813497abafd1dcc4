------------------------------ MODULE Literals ------------------------------
(* String-like literals, character by character.                            *)
(*                                                                          *)
(* A behaviour writes one program that holds a literal: it opens a form     *)
(* ("..", '..', %q, %Q, `..`, :"..", /../, %r, %w, %i, ?c, :name), adds     *)
(* items (plain characters, escapes, nested brackets, interpolations,       *)
(* illegal escapes), closes it, possibly continues with an adjacent string, *)
(* and completes the surrounding context.  Along with the text it builds    *)
(* the value the literal denotes.  Interpolations push a code frame in      *)
(* which literals may be written again, so nesting is a stack machine.      *)
(*                                                                          *)
(* Characters are written in the quoting of the projection: %28; is '('.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Mode,      \* "sim" draws one item per class, "bfs" takes all
  Forms,     \* names of the forms to open
  Inner,     \* names of the forms inside interpolations
  Items,     \* classes of items: plain esc nest interp bad adj
  Chars,     \* plain characters
  Ctxs,      \* numbers of the contexts
  MaxItems,  \* items of a literal
  MaxDepth,  \* nesting of literals
  MaxTotal   \* items altogether

VARIABLES txt, stk, ph, ctx, res, tot, spanned
vars == <<txt, stk, ph, ctx, res, tot, spanned>>

Pick(S) == IF Mode = "sim" /\ S # {} THEN {RandomElement(S)} ELSE S

LP == "%28;"  RP == "%29;"  SQ == "%27;"  DQ == "\""  BS == "\\"  NL == "%a;"  SP == "%20;"
LB == "{"  RB == "}"

\* k: kind, s: opener, c: closing character, b: opening bracket or "", fl: flags of a regexp, x: free format
Form(k, s, c, b) == [k |-> k, s |-> s, c |-> c, b |-> b, fl |-> "", den |-> "", x |-> FALSE, basic |-> FALSE]
Basic(k, s, c) == [Form(k, s, c, "") EXCEPT !.basic = TRUE]
Brk == << <<LP, RP>>, <<"[", "]">>, <<LB, RB>>, <<"<", ">">> >>
Del == {"!", "|", "/", "+", "^", "*", "-", ":", ",", ".", "&", "~", "?", "`", DQ, SQ, ";"}
Pct(p, k, ds) == {Form(k, p \o Brk[i][1], Brk[i][2], Brk[i][1]) : i \in 1..4} \union {Form(k, p \o d, d, "") : d \in ds}
\* flags as written and the option string of the tree
Flags == << <<"", "m">>, <<"i", "mi">>, <<"m", "ms">>, <<"im", "mis">>, <<"mi", "msi">>, <<"o", "m">>, <<"u", "m">>, <<"n", "m">>, <<"iom", "mis">> >>
XFlags == << <<"x", "m">>, <<"ix", "mi">>, <<"xm", "ms">>, <<"mxi", "msi">> >>
WithFlags(S) == UNION {{[f EXCEPT !.fl = Flags[i][1], !.den = Flags[i][2]] : i \in DOMAIN Flags}
                       \union {[f EXCEPT !.fl = XFlags[i][1], !.den = XFlags[i][2], !.x = TRUE] : i \in DOMAIN XFlags} : f \in S}

FormsOf(n) ==
  CASE n = "dq" -> {Basic("dq", DQ, DQ)}
    [] n = "sq" -> {Basic("sq", SQ, SQ)}
    [] n = "Q" -> Pct("%25;Q", "dq", Del)
    [] n = "pct" -> Pct("%25;", "dq", {"!", "|", "/", "+", "^", "*", ":", DQ})
    [] n = "q" -> Pct("%25;q", "sq", Del \union {"#", "$"})
    [] n = "cmd" -> {Form("cmd", "`", "`", "")}
    [] n = "symd" -> {Form("symd", ":\"", DQ, "")}
    [] n = "syms" -> {Form("syms", ":%27;", SQ, "")}
    [] n = "re" -> {[Form("re", "/", "/", "") EXCEPT !.den = "m"]}
    [] n = "ref" -> WithFlags({Form("re", "/", "/", "")})
    [] n = "rr" -> WithFlags(Pct("%25;r", "rr", {"!", "|", "/", ","}))
    [] n = "w" -> Pct("%25;w", "w", {"!", "|", "/", ",", "-"})
    [] n = "i" -> Pct("%25;i", "i", {"!", "|", "/", ",", "-"})

Interp(f) == f.k \in {"dq", "cmd", "symd", "re"}
Esc(f) == f.k \in {"dq", "cmd", "symd"}
Blank == {SP, "%9;", NL, "%d;"}

-----------------------------------------------------------------------------
(* Items: <<source, denotation>>.                                          *)
Escapes ==
  { <<"\\n", NL>>, <<"\\t", "%9;">>, <<"\\s", SP>>, <<"\\r", "%d;">>, <<"\\e", "%1b;">>, <<"\\a", "%7;">>, <<"\\b", "%8;">>,
    <<"\\v", "%b;">>, <<"\\f", "%c;">>, <<"\\\\", "\\">>, <<"\\\"", DQ>>, <<"\\%27;", SQ>>, <<"\\#", "#">>, <<"\\z", "z">>, <<"\\%e9;", "%e9;">>,
    <<"\\ ", SP>>, <<"\\\n", "">>, <<"\\%28;", LP>>, <<"\\}", RB>>, <<"\\{", LB>>, <<"\\`", "`">>, <<"\\/", "/">>, <<"\\?", "?">>,
    <<"\\x41", "A">>, <<"\\x4g", "%4;g">>, <<"\\x7F", "%7f;">>, <<"\\x0a1", "%a;1">>,
    <<"\\u0041", "A">>, <<"\\u00e9", "%e9;">>, <<"\\u3042b", "%3042;b">>, <<"\\u{41}", "A">>, <<"\\u{1F600}", "%1f600;">>, <<"\\u{41 42 e9}", "AB%e9;">>,
    <<"\\u{ 61  62 }", "ab">>, <<"\\u{10ffff}", "%10ffff;">>, <<"\\u{0}", "%0;">>, <<"\\uD7FF", "%d7ff;">>, <<"\\u00411", "A1">>,
    <<"\\101", "A">>, <<"\\12x", "%a;x">>, <<"\\7x", "%7;x">>, <<"\\0y", "%0;y">>, <<"\\1012", "A2">>, <<"\\08", "%0;8">>, <<"\\79", "%7;9">>, <<"\\177", "%7f;">>, <<"\\400", "%0;">>, <<"\\501", "A">>, <<"\\4x", "%4;x">> }
ByteEscapes == { <<"\\777", "%!ff;">>, <<"\\600", "%!80;">>, <<"\\7771", "%!ff;1">>, <<"\\xe9", "%!e9;">>, <<"\\x80", "%!80;">>, <<"\\xFF", "%!ff;">>, <<"\\377", "%!ff;">>, <<"\\200", "%!80;">>, <<"\\xc3\\xa9", "%!c3;%!a9;">> }
BadEscapes == {"\\xg", "\\x ", "\\ug", "\\u004g", "\\u00 ", "\\u{g}", "\\u{110000}", "\\u{d800}", "\\udfff", "\\u{1234567}", "\\u{0000041}", "\\u{41%20;0000042}", "\\u{41,42}", "\\u{41 g}", "\\u{4G}"}

\* regexp escapes: source, denotation outside a character class, inside of it
ReEscapes ==
  { <<"\\a", "\\a", "\\a">>, <<"\\b", "\\b", "\\x08">>, <<"\\e", "\\x1b", "\\x1b">>, <<"\\f", "\\f", "\\f">>, <<"\\n", "\\n", "\\n">>, <<"\\r", "\\r", "\\r">>,
    <<"\\t", "\\t", "\\t">>, <<"\\v", "\\v", "\\v">>, <<"\\s", "[[:space:]]", "[[:space:]]">>, <<"\\d", "\\d", "\\d">>, <<"\\w", "\\w", "\\w">>,
    <<"\\.", "\\.", "\\.">>, <<"\\/", "\\/", "\\/">>, <<"\\\\", "\\\\", "\\\\">>, <<"\\[", "\\[", "\\[">>, <<"\\]", "\\]", "\\]">>, <<"\\%28;", "\\%28;", "\\%28;">>,
    <<"\\x1f", "\\x1f", "\\x1f">>, <<"\\xfz", "\\x0fz", "\\x0fz">>, <<"\\x4A", "\\x4a", "\\x4a">>, <<"\\1a", "\\1a", "\\1a">>, <<"\\9 ", "\\9 ", "\\9 ">>, <<"\\12a", "\\x0aa", "\\x0aa">>,
    <<"\\0a", "\\x00a", "\\x00a">>, <<"\\101", "\\x41", "\\x41">>, <<"\\u0041", "\\u0041", "\\u0041">>, <<"\\h", "\\h", "\\h">>, <<"\\A", "\\A", "\\A">>, <<"\\#", "\\#", "\\#">> }
Fix(s) == IF s = "\\9 " THEN "\\9%20;" ELSE IF s = "\\ " THEN "\\%20;" ELSE IF s = "\\x " THEN "\\x%20;" ELSE IF s = "\\u00 " THEN "\\u00%20;" ELSE IF s = "\\\n" THEN "\\%a;" ELSE s

\* code in an interpolation: source, denotation, is it a constant
Atoms ==
  { <<"1", "(int 1)", TRUE>>, <<"a", "(ident 'a')", FALSE>>, <<"%40;a", "(ivar '%40;a')", FALSE>>, <<"f{1}", "(call - 'f' (args () (kw) (dsplat) (lambda (params) (int 1) (tbl () (kw) - - -)) - -))", FALSE>>,
    <<"%20;{a=>2}", "(hash - ((ident 'a') (int 2)))", FALSE>>, <<"%20;1%20;", "(int 1)", TRUE>>, <<"[a][0]", "(index (array - (ident 'a')) (int 0))", FALSE>>,
    <<"?}", "(str '}')", TRUE>>, <<"%a;1%a;", "(int 1)", TRUE>>, <<"%28;1%29;", "(int 1)", TRUE>>, <<"-1", "(int -1)", TRUE>>, <<":a", "(sym 'a')", TRUE>>,
    <<"1#}\"/%27;%a;", "(int 1)", TRUE>>, <<"a.b", "(send - (ident 'a') 'b' (args () (kw) (dsplat) - - -))", FALSE>>, <<"nil", "(nil)", TRUE>> }
Simple ==
  { <<"#%40;a", "(ivar '%40;a')">>, <<"#%40;%40;a", "(cvar '%40;%40;a')">>, <<"#$a", "(gvar '$a')">>, <<"#$1", "(svar 101)">>, <<"#$12", "(svar 112)">>, <<"#%40;_b9", "(ivar '%40;_b9')">> }

-----------------------------------------------------------------------------
Top == stk[Len(stk)]
Lit(f) == [t |-> "L", f |-> f, n |-> 0, cur |-> "", parts |-> "", hasI |-> FALSE, cst |-> TRUE, last |-> "", cl |-> 0, cm |-> FALSE, cnt |-> 0,
           byt |-> FALSE, es |-> <<>>]
Code == [t |-> "C", f |-> Form("code", "", RB, ""), n |-> 0, cur |-> "", parts |-> "", hasI |-> FALSE, cst |-> TRUE, last |-> "", cl |-> 0, cm |-> FALSE, cnt |-> 0,
         byt |-> FALSE, es |-> <<>>]
SetTop(r) == stk' = [stk EXCEPT ![Len(stk)] = r]
Depth == Cardinality({i \in DOMAIN stk : stk[i].t = "L"})
More(r) == r.cnt < MaxItems /\ tot < MaxTotal
Outer == Len(stk) = 1

\* the denotation of an item in a free-format regexp
FF(r, src, den) ==
  IF ~r.f.x THEN [r EXCEPT !.cur = @ \o den]
  ELSE IF r.cm THEN [r EXCEPT !.cm = src # NL]
  ELSE IF r.cl > 0 THEN [r EXCEPT !.cur = @ \o den]
  ELSE IF src \in Blank THEN r
  ELSE IF src = "#" THEN [r EXCEPT !.cm = TRUE]
  ELSE [r EXCEPT !.cur = @ \o den]
Class(r, src) ==
  IF r.f.k \notin {"re", "rr"} \/ r.cm THEN r
  ELSE IF src = "[" THEN [r EXCEPT !.cl = @ + 1]
  ELSE IF src = "]" /\ r.cl > 0 THEN [r EXCEPT !.cl = @ - 1] ELSE r
Flush(r) == IF r.cur = "" THEN r ELSE [r EXCEPT !.parts = @ \o (IF r.f.k = "i" THEN " (sym '" ELSE " (str '") \o r.cur \o "')", !.cur = ""]
Add(r, src, den) ==
  LET r1 == [r EXCEPT !.cnt = @ + 1, !.last = src] IN
  IF r.f.k \in {"w", "i"} THEN (IF src \in Blank THEN Flush(r1) ELSE [r1 EXCEPT !.cur = @ \o den])
  ELSE Class(FF(r1, src, den), src)

\* a character that stands for itself at this place
PlainOK(r, ch) ==
  /\ ch # r.f.c /\ ch # r.f.b /\ ch # BS
  /\ (Interp(r.f) /\ r.last = "#") => ch \notin {LB, "$", "%40;"}
  /\ r.last = "v" => ch \notin {"a", "Z", "0", "_", "%e9;", "%3042;", "%1f600;", "?", "!", "="}
  /\ r.f.k = "rr" => (ch # "#" /\ (r.f.b = "[" => r.cl = 0))
  /\ (r.f.k = "re" /\ Outer /\ r.cnt = 0 /\ r.parts = "" /\ ctx \in {8, 24, 26}) => ch \notin (Blank \union {"="})
  /\ (r.f.s = "%25;" \o r.f.c /\ r.cnt = 0) => ch # "="
  /\ (r.f.c = "$" \/ r.f.c = "#") => TRUE

Init ==
  /\ txt = "" /\ stk = <<>> /\ ph = "start" /\ ctx = 0 /\ res = "" /\ tot = 0 /\ spanned = TRUE

-----------------------------------------------------------------------------
(* Contexts: text before and after, tree before and after, table.          *)
E0 == "(tbl () (kw) - - -)"
Ctx ==
  << <<"", "", "", "", E0>>,
     <<"x%20;=%20;", "", "(asgn ((lvar 0 'x')) (", "))", "(tbl ('x') (kw) - - -)">>,
     <<"foo%28;", ",%20;1%29;", "(call - 'foo' (args (", " (int 1)) (kw) (dsplat) - - -))", E0>>,
     <<"", ".foo", "(send - ", " 'foo' (args () (kw) (dsplat) - - -))", E0>>,
     <<"", ";%20;2", "(seq ", " (int 2))", E0>>,
     <<"", "%a;3", "(seq ", " (int 3))", E0>>,
     <<"", "%20;if%20;b", "(if (ident 'b') ", " (seq))", E0>>,
     <<"foo%20;", ",%20;1", "(call - 'foo' (args (", " (int 1)) (kw) (dsplat) - - -))", E0>>,
     <<"", "%20;?%20;1%20;:%20;2", "(if ", " (int 1) (int 2))", E0>>,
     <<"b%20;?%20;", "%20;:%20;2", "(if (ident 'b') ", " (int 2))", E0>>,
     <<"case%20;b%20;when%20;", "%20;then%20;1%20;end", "(case (ident 'b') (when (", ") (int 1)) (seq))", E0>>,
     <<"return%20;", "", "(return ", ")", E0>>,
     <<"!", "", "(un ! ", ")", E0>>,
     <<"b%20;=~%20;", "", "(bin =~ (ident 'b') ", ")", E0>>,
     <<"b&&", "", "(bin && (ident 'b') ", ")", E0>>,
     <<"%28;", "%29;", "", "", E0>>,
     <<"if%20;", "%a;1%20;end", "(if ", " (int 1) (seq))", E0>>,
     <<"1;", "", "(seq (int 1) ", ")", E0>>,
     <<"b%20;+%20;", "%20;#%20;c", "(bin + (ident 'b') ", ")", E0>>,
     <<"b%20;<<%20;", "%a;", "(bin << (ident 'b') ", ")", E0>>,
     <<"b[", "]", "(index (ident 'b') ", ")", E0>>,
     <<"f{", "}", "(call - 'f' (args () (kw) (dsplat) (lambda (params) ", " (tbl () (kw) - - -)) - -))", E0>>,
     <<"foo%20;b,%20;", "", "(call - 'foo' (args ((ident 'b') ", ") (kw) (dsplat) - - -))", E0>>,
     <<"puts%20;", "", "(call - 'puts' (args (", ") (kw) (dsplat) - - -))", E0>>,
     <<"while%20;", "%20;do%20;1%20;end", "(while - ", " (int 1))", E0>>,
     <<"a.foo%20;", "", "(send - (ident 'a') 'foo' (args (", ") (kw) (dsplat) - - -))", E0>> >>

\* contexts in which the program may end after the literal
Whole == {1, 2, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 18, 19, 20, 23, 24, 26}

Start ==
  /\ ph = "start"
  /\ \E n \in Pick(Ctxs) : /\ ctx' = n /\ txt' = Ctx[n][1] \o "%[1;"
  /\ ph' = "lit"
  /\ UNCHANGED <<stk, res, tot, spanned>>

Mark(r, s) == IF Len(stk) = 0 THEN s ELSE ""

\* open a literal: at the top, or in a code frame
Open ==
  /\ \/ ph = "lit"
     \/ ph = "body" /\ Top.t = "C" /\ Len(Top.es) < 2 /\ tot < MaxTotal /\ Depth < MaxDepth
  /\ \E n \in Pick(IF ph = "lit" THEN Forms \ {"chr", "sym"}
                       \* blanks of a string inserted in a free-format regexp mean nothing: whether the parser drops them is its own affair
                       ELSE IF stk[Len(stk) - 1].f.x THEN Inner \ {"dq", "sq", "Q", "q", "pct"} ELSE Inner) : \E f \in Pick(FormsOf(n)) :
       /\ ~(f.basic = FALSE /\ f.k \in {"dq"} /\ f.s = "%25;" \o f.c /\ ctx \in {8, 24, 26} /\ f.c = "=")
       /\ stk' = Append(stk, Lit(f))
       /\ txt' = txt \o (IF ph = "body" /\ Top.es # <<>> THEN ";" ELSE "") \o f.s \o (IF ph = "lit" THEN "%<;" ELSE "")
  /\ ph' = "body" /\ tot' = tot + 1
  /\ UNCHANGED <<ctx, res, spanned>>

Plain ==
  /\ ph = "body" /\ Top.t = "L" /\ More(Top)
  /\ \E ch \in Pick({c \in Chars : PlainOK(Top, c)}) :
       /\ txt' = txt \o ch
       /\ SetTop(Add(Top, ch, ch))
  /\ tot' = tot + 1 /\ UNCHANGED <<ph, ctx, res, spanned>>

\* nested brackets of the delimiter's own kind
Nest ==
  /\ "nest" \in Items /\ ph = "body" /\ Top.t = "L" /\ Top.f.b # ""
  /\ \/ /\ More(Top)
        /\ (Interp(Top.f) /\ Top.last = "#") => Top.f.b # LB
        /\ txt' = txt \o Top.f.b
        /\ SetTop([Add(Top, Top.f.b, Top.f.b) EXCEPT !.n = @ + 1])
     \/ /\ Top.n > 0
        /\ txt' = txt \o Top.f.c
        /\ SetTop([Add(Top, Top.f.c, Top.f.c) EXCEPT !.n = @ - 1])
  /\ tot' = tot + 1 /\ UNCHANGED <<ph, ctx, res, spanned>>

\* an escape may not spell the delimiter of the form
Clash(f, e) == (f.c = RB /\ e[1] \in {"\\u{41}", "\\u{1F600}", "\\u{41 42 e9}", "\\u{ 61  62 }", "\\u{10ffff}", "\\u{0}"} /\ FALSE)
Uni(s) == s   \* escapes with blanks are spelled out below
SrcOf(e) == IF e[1] = "\\u{41 42 e9}" THEN "\\u{41%20;42%20;e9}" ELSE IF e[1] = "\\u{ 61  62 }" THEN "\\u{%20;61%20;%20;62%20;}" ELSE Fix(e[1])

Escape ==
  /\ "esc" \in Items /\ ph = "body" /\ Top.t = "L" /\ More(Top)
  /\ \/ /\ Esc(Top.f)
        /\ \E e \in Pick(Escapes) : /\ txt' = txt \o SrcOf(e) /\ SetTop(Add(Top, "e", e[2]))
     \/ /\ Top.f.k = "dq"
        /\ \E e \in Pick(ByteEscapes) : /\ txt' = txt \o e[1] /\ SetTop([Add(Top, "e", e[2]) EXCEPT !.byt = TRUE])
     \/ \* the delimiters and the backslash in forms without escapes
        /\ Top.f.k \in {"sq", "syms", "w", "i"}
        /\ \E d \in Pick({BS, Top.f.c} \union (IF Top.f.b = "" THEN {} ELSE {Top.f.b})) :
             /\ txt' = txt \o BS \o d /\ SetTop(Add(Top, "e", d))
     \/ \* anything else keeps its backslash
        /\ Top.f.k \in {"sq", "syms", "w", "i"}
        /\ \E d \in Pick({"n", "x", "%e9;", "#", "0"} \ {Top.f.c, Top.f.b}) :
             /\ txt' = txt \o BS \o d /\ SetTop(Add(Top, "e", BS \o d))
     \/ \* the delimiters of an interpolating form
        /\ Esc(Top.f) /\ ~Top.f.basic
        /\ Top.f.c \notin {"n"}
        /\ txt' = txt \o BS \o Top.f.c /\ SetTop(Add(Top, "e", Top.f.c))
     \/ /\ Top.f.k = "re"
        /\ \E e \in Pick(ReEscapes) : /\ (Top.f.x => e[1] \notin {"\\b", "\\9 "}) 
                                      /\ txt' = txt \o Fix(e[1])
                                      /\ SetTop(Add(Top, "e", Fix(IF Top.cl > 0 THEN e[3] ELSE e[2])))
     \/ /\ Top.f.k = "rr"
        /\ \E d \in Pick({"d", "w", ".", "A", Top.f.c, "\\"} \union (IF Top.f.b = "" THEN {} ELSE {Top.f.b})) :
             /\ txt' = txt \o BS \o d /\ SetTop(Add(Top, "e", BS \o d))
  /\ tot' = tot + 1 /\ UNCHANGED <<ph, ctx, res, spanned>>

\* a character class with other classes, escapes and blanks in it: kept as it is, also by a free-format regexp
Classes == {"[a[b]#c]", "[[b]%20;]", "[a&&[^b]#]", "[a\\]#]", "[[a[b]]%20;#]", "[[:b:]#\\[%20;]", "[\\[]", "[#%20;a]"}
ClassItem ==
  /\ "class" \in Items /\ ph = "body" /\ Top.t = "L" /\ More(Top)
  /\ Top.f.k = "re" /\ ~Top.cm /\ Top.cl = 0 /\ Top.f.b # "[" /\ Top.f.c \notin {"]", "#", "&", "^", ":", "a", "b"}
  /\ \E e \in Pick(Classes) : /\ txt' = txt \o e /\ SetTop([Top EXCEPT !.cur = @ \o e, !.cnt = @ + 1, !.last = "e"])
  /\ tot' = tot + 1 /\ UNCHANGED <<ph, ctx, res, spanned>>

\* #@a, #$a, ...
Part(r, s, c) == [r EXCEPT !.parts = @ \o (IF r.cur = "" THEN "" ELSE " (str '" \o r.cur \o "')") \o " " \o s, !.cur = "", !.hasI = TRUE,
                           !.cst = @ /\ c, !.last = "i", !.cnt = @ + 1]
CanInterp == "interp" \in Items /\ ph = "body" /\ Top.t = "L" /\ Interp(Top.f) /\ ~Top.byt /\ ~Top.cm /\ More(Top)
Variable ==
  /\ CanInterp
  /\ \E e \in Pick(Simple) : /\ txt' = txt \o e[1] /\ SetTop([Part(Top, e[2], FALSE) EXCEPT !.last = "v"])
  /\ tot' = tot + 1 /\ UNCHANGED <<ph, ctx, res>> /\ spanned' = FALSE
Interpolate ==
  /\ CanInterp
  /\ txt' = txt \o "#{" /\ stk' = Append(stk, Code)
  /\ tot' = tot + 1 /\ UNCHANGED <<ph, ctx, res>> /\ spanned' = FALSE
Atom ==
  /\ ph = "body" /\ Top.t = "C" /\ Len(Top.es) < 2
  /\ \E a \in Pick(Atoms) :
       /\ txt' = txt \o (IF Top.es = <<>> THEN "" ELSE ";") \o a[1]
       /\ SetTop([Top EXCEPT !.es = Append(@, a[2]), !.cst = @ /\ a[3]])
  /\ tot' = tot + 1 /\ UNCHANGED <<ph, ctx, res, spanned>>
CodeEnd ==
  /\ ph = "body" /\ Top.t = "C"
  /\ LET e == IF Len(Top.es) = 0 THEN "(seq)" ELSE IF Len(Top.es) = 1 THEN Top.es[1] ELSE "(seq " \o Top.es[1] \o " " \o Top.es[2] \o ")"
     IN stk' = [SubSeq(stk, 1, Len(stk) - 1) EXCEPT ![Len(stk) - 1] = Part(@, e, Top.cst /\ Len(Top.es) = 1)]
  /\ txt' = txt \o "}"
  /\ UNCHANGED <<ph, ctx, res, tot, spanned>>

\* an escape that no continuation can make legal
Bad ==
  /\ "bad" \in Items /\ ph = "body" /\ Top.t = "L" /\ Esc(Top.f) /\ Outer
  /\ \E e \in Pick(BadEscapes) :
       /\ txt' = txt \o "%>;" \o (IF e = "\\u{41 g}" THEN "\\u{41%20;g}" ELSE Fix(e)) \o Top.f.c
       /\ TRUE
  /\ ph' = "done" /\ res' = "syn" /\ UNCHANGED <<stk, ctx, tot, spanned>>

\* a string goes on in the next literal
Adjacent ==
  /\ "adj" \in Items /\ ph = "body" /\ Top.t = "L" /\ Top.f.basic /\ Top.n = 0 /\ More(Top)
  /\ \E g \in Pick({"", SP, "%5c;%a;", "%9;%20;"}), n \in Pick({"dq", "sq"}) : \E f \in FormsOf(n) :
       /\ txt' = txt \o (IF Outer THEN "%>;" ELSE "") \o Top.f.c \o g \o f.s \o (IF Outer THEN "%<;" ELSE "")
       /\ SetTop([Top EXCEPT !.f = f, !.last = "", !.cnt = @ + 1])
  /\ tot' = tot + 1 /\ spanned' = FALSE /\ UNCHANGED <<ph, ctx, res>>

Piece(r) == (IF r.cur = "" THEN "" ELSE " (str '" \o r.cur \o "')")
Str(r) == IF r.hasI THEN "(istr" \o r.parts \o Piece(r) \o ")" ELSE "(str '" \o r.cur \o "')"
Den(r) ==
  CASE r.f.k \in {"dq", "sq"} -> Str(r)
    [] r.f.k = "cmd" -> "(cmd " \o Str(r) \o ")"
    [] r.f.k = "symd" -> IF r.hasI THEN "(send - " \o Str(r) \o " 'to_sym' (args () (kw) (dsplat) - - -))" ELSE "(sym '" \o r.cur \o "')"
    [] r.f.k = "syms" -> "(sym '" \o r.cur \o "')"
    [] r.f.k \in {"re", "rr"} -> "(regex '" \o r.f.den \o "' " \o (IF r.cst THEN "const" ELSE "-") \o r.parts \o (IF r.hasI THEN Piece(r) ELSE " (str '" \o r.cur \o "')") \o ")"
    [] r.f.k \in {"w", "i"} -> "(array const" \o Flush(r).parts \o ")"
IsConst(r) == r.f.k \in {"dq", "sq", "symd", "syms"} /\ ~r.hasI

Close ==
  /\ ph = "body" /\ Top.t = "L" /\ Top.n = 0 /\ (Top.f.k \in {"re"} => (Top.cnt > 0))
  /\ (Top.f.k = "rr" /\ Top.f.b = "[") => TRUE
  /\ LET d == Den(Top) IN
     IF Outer
     THEN /\ res' = d \o (IF spanned /\ Top.f.k # "cmd" THEN "@#1;" ELSE "") /\ ph' = "after" /\ stk' = <<>> /\ txt' = txt \o "%>;" \o Top.f.c \o Top.f.fl \o "%];"
     ELSE /\ stk' = [SubSeq(stk, 1, Len(stk) - 1) EXCEPT ![Len(stk) - 1] = [@ EXCEPT !.es = Append(@, d), !.cst = @ /\ IsConst(Top)]]
          /\ txt' = txt \o Top.f.c \o Top.f.fl /\ UNCHANGED <<ph, res>>
  /\ UNCHANGED <<ctx, tot, spanned>>

\* ?c
CharLit ==
  /\ ph = "lit" /\ "chr" \in Forms /\ ctx # 24
  /\ \/ \E ch \in Pick(Chars \ (Blank \union {BS})) : /\ txt' = txt \o "?" \o ch \o "%];" /\ res' = "(str '" \o ch \o "')@#1;"
     \/ \E e \in Pick({x \in Escapes : x[1] \in {"\\n", "\\t", "\\s", "\\r", "\\e", "\\a", "\\b", "\\v", "\\f", "\\\\", "\\\"", "\\%27;", "\\?", "\\z"}}) :
          /\ txt' = txt \o "?%<;" \o e[1] \o "%>;%];" /\ res' = "(str '" \o e[2] \o "')@#1;"
     \/ \E e \in Pick({x \in Escapes : x[1] \in {"\\x41", "\\x7F", "\\u0041", "\\u00e9", "\\u{41}", "\\u{1F600}", "\\101", "\\177", "\\400", "\\501"}}
                      \union {x \in ByteEscapes : x[1] \notin {"\\xc3\\xa9", "\\7771"}}) :
          /\ txt' = txt \o "?" \o e[1] \o "%];" /\ res' = "(str '" \o e[2] \o "')@#1;"
  /\ ph' = "after" /\ UNCHANGED <<stk, ctx, tot, spanned>>

\* :name
SymNames == {"a", "foo", "_x1", "Abc", "a?", "foo!", "b=", "%e9;t%e9;", "if", "class", "end", "nil", "self", "do", "%40;a", "%40;%40;a", "A?", "_",
             "+", "-", "*", "/", "%25;", "**", "==", "!=", "===", "=~", "!~", "<=>", "<", ">", "<=", ">=", "<<", ">>", "|", "&", "^", "~", "!", "[]", "[]=", "+%40;", "-%40;", "`"}
SymLit ==
  /\ ph = "lit" /\ "sym" \in Forms
  /\ \E n \in Pick(SymNames) :
       /\ ~(n \in {"a", "foo", "_x1", "Abc", "if", "class", "end", "nil", "self", "do", "_", "%e9;t%e9;"} /\ FALSE)
       /\ txt' = txt \o ":" \o n \o "%];" /\ res' = "(sym '" \o n \o "')@#1;"
  /\ ph' = "after" /\ UNCHANGED <<stk, ctx, tot, spanned>>

After ==
  /\ ph = "after"
  /\ LET c == Ctx[ctx] IN
     /\ txt' = txt \o (IF ctx \in Whole THEN "%=;" ELSE "") \o c[2]
     /\ res' = c[3] \o res \o c[4]
  /\ ph' = "done" /\ UNCHANGED <<stk, ctx, tot, spanned>>

Emit ==
  /\ ph = "done" /\ ph' = "out"
  /\ PrintT("@" \o ToJson([k |-> "lit", t |-> txt, e |-> res, b |-> IF res = "syn" THEN "" ELSE Ctx[ctx][5], c |-> "ctx" \o ToString(ctx)]))
  /\ UNCHANGED <<txt, stk, ctx, res, tot, spanned>>

Next == Start \/ Open \/ Plain \/ Nest \/ Escape \/ ClassItem \/ Variable \/ Interpolate \/ Atom \/ CodeEnd \/ Bad \/ Adjacent \/ Close \/ CharLit \/ SymLit \/ After \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == ph \in {"start", "lit", "body", "after", "done", "out"}
\* literals and code alternate
Alternate == \A i \in DOMAIN stk : stk[i].t = (IF i % 2 = 1 THEN "L" ELSE "C")
\* a completed text has no open literal
Closed == ph = "after" => stk = <<>>
\* brackets are counted only where they nest, words and pieces never both
Levels == \A i \in DOMAIN stk : (stk[i].n > 0 => stk[i].f.b # "") /\ (stk[i].hasI => (Interp(stk[i].f) \/ stk[i].f.basic)) /\ (stk[i].f.k \in {"w", "i"} => ~stk[i].hasI)
BytesOK == \A i \in DOMAIN stk : stk[i].byt => stk[i].f.k \in {"dq", "sq"}
=============================================================================
