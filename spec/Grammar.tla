------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Specification of the language accepted by ruruby-parse and of the       *)
(* syntax tree, variable tables and incompleteness status of every program.*)
(*                                                                         *)
(* The specification is a pushdown machine which derives programs from     *)
(* left to right.  A state holds the stack of what is still to be derived  *)
(* (work), the history of what has been derived (out: tokens, and the      *)
(* syntax tree in postfix notation), the stack of variable scopes exactly  *)
(* as the parser maintains it (scopes), and the constness of the pending   *)
(* tree values (vk).  Every nondeterministic choice of the language is one *)
(* transition (Expand); everything between two choices is deterministic    *)
(* (Run).  A behaviour ends when work is empty; then `out` is a complete    *)
(* program together with its meaning.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Mode,       \* "bfs": every choice is explored; "sim": choices are drawn
  Feats,      \* which productions are enabled
  Boost,      \* productions drawn with a higher probability (sim only)
  Ops,        \* the binary operators in use
  Leaves,     \* sequence of kinds of leaves
  Names,      \* sequence of variable names
  Start,      \* start symbol
  MaxDepth,   \* bound on the nesting of productions
  MaxFuel,    \* bound on the number of compound productions
  MaxStmts,   \* bound on the number of statements in a list
  MaxArgs,    \* bound on the length of argument and element lists
  Host        \* variables of the host context: function name -> depth

VARIABLES work, out, vk, scopes, fuel, ntok, fault

vars == <<work, out, vk, scopes, fuel, ntok, fault>>

On(x) == x \in Feats

-----------------------------------------------------------------------------
(* Items of the work stack.                                                *)
(*  T: emit a token; gap says what may stand before it; fl: "(" opens a    *)
(*     construct, ")" closes one, "!" cannot end a program                 *)
(*  V: push a leaf value which covers the last k tokens                    *)
(*  R: build a value from the last n values                                *)
(*  X: choose a production of a nonterminal                                *)
(*  M: the last token, N: the next token is remembered; the template of an  *)
(*      R which ends with "@!" takes the position remembered last: the node   *)
(*      lies exactly at that token, "@<": it starts there, "@[": it starts     *)
(*      there and ends with the last token, "@-": forget the position        *)
(*      flags of a token: "(" opens a construct, ")" closes one, "!" cannot  *)
(*      end a program, "_" a blank must follow, "n" a newline may follow,    *)
(*      "t" nothing may follow, "B" blank after it if there is one before it,    *)
(*      "k" no line continuation may follow                                  *)
T(g, x)  == <<"T", g, x, "">>
TF(g, x, fl) == <<"T", g, x, fl>>
TB(g, x) == <<"T", g, x, "!">>
TC(g, x) == <<"T", g, x, ")">>
TOpen(g, x) == <<"T", g, x, "(n">>
Comma == TF("o", ",", "!n")
M == <<"M">>
N == <<"N">>
Sep(c) == <<"T", c, "", "">>
V(a, k)  == <<"V", a, k, "-">>
VC(a, k, c) == <<"V", a, k, c>>
R(t, n)  == <<"R", t, n, "", "">>
RC(p, n, rule, q) == <<"R", p, n, rule, q>>
X(n, l, d, f) == <<"X", n, l, d, f>>

P(k) == "$" \o ToString(k) \o ";"
RECURSIVE Lst(_, _)
Lst(i, j) == IF i > j THEN "" ELSE IF i = j THEN P(i) ELSE P(i) \o " " \o Lst(i + 1, j)

NoArgs == "(args () (kw) (dsplat) - - -)"
Q(x) == "'" \o x \o "'"

-----------------------------------------------------------------------------
(* Variable scopes.                                                        *)
NewScope(k) == [k |-> k, nm |-> <<>>, kw |-> <<>>, kr |-> "-", bl |-> "-", fw |-> "-", np |-> FALSE, nu |-> FALSE, inn |-> FALSE]

HasName(s, x) == \E i \in 1..Len(s.nm) : s.nm[i] = x

(* Depth of the scope which declares x, or -1 if x is not visible. *)
RECURSIVE Res(_, _, _, _)
Res(sc, x, i, d) ==
  IF HasName(sc[i], x) THEN d
  ELSE IF i = 1 THEN (IF x \in DOMAIN Host THEN Host[x] + d ELSE -1)
  ELSE IF sc[i].k = "for" THEN Res(sc, x, i - 1, d)
  ELSE IF sc[i].k = "blk" THEN Res(sc, x, i - 1, d + 1)
  ELSE -1
Resolve(sc, x) == Res(sc, x, Len(sc), 0)

RECURSIVE DeclAt(_, _)
DeclAt(sc, i) == IF sc[i].k = "for" THEN DeclAt(sc, i - 1) ELSE i

(* Declaration of x by an assignment. *)
Declare(sc, x) ==
  IF Resolve(sc, x) >= 0 THEN sc
  ELSE LET i == DeclAt(sc, Len(sc)) IN [sc EXCEPT ![i].nm = Append(@, x)]

(* Declaration of a parameter; slot: "" | "kw" | "kr" | "bl" | "fw". *)
DeclPar(sc, x, slot) ==
  LET i == Len(sc)
      n == Len(sc[i].nm)
      s1 == [sc[i] EXCEPT !.nm = Append(@, x)]
      s2 == CASE slot = "kw" -> [s1 EXCEPT !.kw = Append(@, n)]
              [] slot = "kr" -> [s1 EXCEPT !.kr = ToString(n)]
              [] slot = "bl" -> [s1 EXCEPT !.bl = ToString(n)]
              [] slot = "fw" -> [s1 EXCEPT !.fw = ToString(n)]
              [] OTHER -> s1
  IN [sc EXCEPT ![i] = s2]

RECURSIVE NamesStr(_, _)
NamesStr(s, i) == IF i > Len(s) THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o Q(s[i]) \o NamesStr(s, i + 1)
RECURSIVE KwStr(_, _)
KwStr(s, i) == IF i > Len(s) THEN "" ELSE " " \o ToString(s[i]) \o KwStr(s, i + 1)
TblStr(s) == "(tbl (" \o NamesStr(s.nm, 1) \o ") (kw" \o KwStr(s.kw, 1) \o ") " \o s.kr \o " " \o s.bl \o " " \o s.fw \o ")"

(* Is a method body entered without an intervening class body? *)
RECURSIVE InDefAt(_, _)
InDefAt(sc, i) == IF sc[i].k = "def" THEN TRUE
                  ELSE IF sc[i].k = "cls" \/ i = 1 THEN FALSE ELSE InDefAt(sc, i - 1)
InDef == InDefAt(scopes, Len(scopes))

(* May "..." be passed on?  The innermost method must take it. *)
RECURSIVE FwdAt(_, _)
FwdAt(sc, i) == IF sc[i].k = "def" THEN sc[i].fw # "-" ELSE IF i = 1 THEN FALSE ELSE FwdAt(sc, i - 1)
FwdOK == FwdAt(scopes, Len(scopes))

(* Is there a surrounding block which uses numbered parameters? *)
RECURSIVE NpAt(_, _)
NpAt(sc, i) == IF sc[i].np THEN TRUE
               ELSE IF i = 1 \/ sc[i].k \notin {"blk", "for"} THEN FALSE ELSE NpAt(sc, i - 1)
NpOuter == NpAt(scopes, Len(scopes))
Top == scopes[Len(scopes)]

(* Numbered parameters belong to the innermost block ("for" opens no       *)
(* scope): nu = they are used in it, inn = they are used in a block inside *)
(* of it.  Both may not happen along a chain of blocks.                    *)
Near == scopes[DeclAt(scopes, Len(scopes))]
RECURSIVE InnAt(_, _)
InnAt(sc, i) == IF i < 1 THEN sc ELSE IF sc[i].k \notin {"blk", "for"} THEN sc ELSE InnAt([sc EXCEPT ![i].inn = TRUE], i - 1)
NumUse(sc) == LET i == DeclAt(sc, Len(sc)) IN InnAt([sc EXCEPT ![i].nu = TRUE], i - 1)
RECURSIVE NuAt(_, _)
NuAt(sc, i) == IF i < 1 \/ sc[i].k \notin {"blk", "for"} THEN FALSE ELSE IF sc[i].nu THEN TRUE ELSE NuAt(sc, i - 1)
NumIllegal == Near.k = "blk" /\ ~Near.nu /\ (Near.inn \/ NuAt(scopes, DeclAt(scopes, Len(scopes)) - 1))

RecvName(x) == "(call - " \o Q(x) \o " " \o NoArgs \o ")"

(* Does an assignment end with the last token?  A modifier "rescue" would  *)
(* guard the value it assigns and not the whole statement.                 *)
OA == <<"OA">>
RECURSIVE OpenAt(_)
OpenAt(i) == IF i = 0 THEN FALSE ELSE IF out[i][1] = "OA" THEN TRUE ELSE IF out[i][1] = "T" THEN FALSE ELSE OpenAt(i - 1)
OpenAsg == OpenAt(Len(out))

-----------------------------------------------------------------------------
(* Deterministic execution of items.                                       *)
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
DropN(s, n) == SubSeq(s, 1, Len(s) - n)
Scalar == {"i", "s"}
AllScalar(ks) == \A i \in 1..Len(ks) : ks[i] \in Scalar
AllInt(ks) == \A i \in 1..Len(ks) : ks[i] = "i"

Exec(m, it, rest) ==
  CASE it[1] = "T" -> [m EXCEPT !.w = rest, !.o = Append(@, it), !.t = @ + 1]
    [] it[1] = "V" -> [m EXCEPT !.w = rest, !.o = Append(@, <<"V", it[2], it[3]>>), !.k = Append(@, it[4])]
    [] it[1] = "R" ->
         LET ks == LastN(m.k, it[3])
             cst == CASE it[4] = "arr" -> AllScalar(ks)
                      [] it[4] = "rng" -> AllInt(ks)
                      [] OTHER -> FALSE
             txt == IF it[4] \in {"arr", "rng"} THEN it[2] \o (IF cst THEN "const" ELSE "-") \o it[5] ELSE it[2]
             kind == IF it[4] = "id" THEN ks[1] ELSE "-"
         IN [m EXCEPT !.w = rest, !.o = Append(@, <<"R", txt, it[3]>>), !.k = Append(DropN(@, it[3]), kind)]
    \* a use of a name: variable or call.  it = <<"USE", gap, name, mode>>
    [] it[1] = "USE" ->
         LET d == Resolve(m.s, it[3])
             a == IF d >= 0 THEN "(lvar " \o ToString(d) \o " " \o Q(it[3]) \o ")"
                  ELSE IF it[4] = "recv" THEN RecvName(it[3]) ELSE "(ident " \o Q(it[3]) \o ")"
         IN [m EXCEPT !.w = rest, !.t = @ + 1, !.k = Append(@, "-"),
                      !.o = @ \o <<T(it[2], it[3]), <<"V", a, 1>> >>]
    \* a name as the target of an assignment
    [] it[1] = "ASG" ->
         LET s2 == Declare(m.s, it[3])
             a == "(lvar " \o ToString(Resolve(s2, it[3])) \o " " \o Q(it[3]) \o ")"
         IN [m EXCEPT !.w = rest, !.t = @ + 1, !.k = Append(@, "-"), !.s = s2,
                      !.o = @ \o <<T(it[2], it[3]), <<"V", a, 1>> >>]
    \* a name as the variable of a for loop
    [] it[1] = "FORV" ->
         LET s2 == Declare(m.s, it[3])
             a == "(" \o ToString(Resolve(s2, it[3])) \o " " \o Q(it[3]) \o ")"
         IN [m EXCEPT !.w = rest, !.t = @ + 1, !.k = Append(@, "-"), !.s = s2,
                      !.o = @ \o <<TB(it[2], it[3]), <<"V", a, 0>> >>]
    \* a parameter; no name may be declared twice (a default may have declared it)
    [] it[1] = "PAR" -> IF HasName(m.s[Len(m.s)], it[2])
                        THEN [m EXCEPT !.w = <<>>, !.o = Append(@, <<"F", "dup">>), !.f = "dup"]
                        ELSE [m EXCEPT !.w = rest, !.s = DeclPar(@, it[2], it[3])]
    [] it[1] = "PUSH" -> [m EXCEPT !.w = rest, !.s = Append(@, NewScope(it[2]))]
    [] it[1] = "NUSE" -> [m EXCEPT !.w = rest, !.s = NumUse(@)]
    [] it[1] = "NP" -> [m EXCEPT !.w = rest, !.s = [@ EXCEPT ![Len(@)].np = TRUE]]
    [] it[1] = "POP" ->
         LET s == m.s[Len(m.s)]
         IN [m EXCEPT !.w = rest, !.s = DropN(@, 1), !.k = Append(@, "-"),
                      !.o = Append(@, <<"V", TblStr(s), 0>>)]
    \* nothing which follows can repair the program
    [] it[1] = "FAULT" -> [m EXCEPT !.w = <<>>, !.o = Append(@, <<"F", it[2]>>), !.f = it[2]]
    [] it[1] = "B" -> [m EXCEPT !.w = rest, !.o = Append(@, <<"B", TblStr(m.s[1])>>)]
    [] OTHER -> [m EXCEPT !.w = rest, !.o = Append(@, it)]        \* "H" heredoc bodies, "F0"

RECURSIVE Run(_)
Run(m) == IF m.w = <<>> THEN m
          ELSE IF Head(m.w)[1] = "X" THEN m
          ELSE Run(Exec(m, Head(m.w), Tail(m.w)))

-----------------------------------------------------------------------------
(* Binary operators.                                                       *)
Lvl(op) == CASE op \in {"..", "..."} -> 2
             [] op = "||" -> 3
             [] op = "&&" -> 4
             [] op \in {"<=>", "==", "!=", "===", "=~", "!~"} -> 5
             [] op \in {"<", "<=", ">", ">="} -> 6
             [] op \in {"|", "^"} -> 7
             [] op = "&" -> 8
             [] op \in {"<<", ">>"} -> 9
             [] op \in {"+", "-"} -> 10
             [] op \in {"*", "/", "%"} -> 11
             [] OTHER -> 13    \* **
NonAssoc(op) == Lvl(op) \in {2, 5}
Label(op) == IF op = "%" THEN "mod" ELSE op
\* operators which may not touch their left operand
Spaced(op) == op \in {"!~", "..", "..."}
GapL(op) == IF Spaced(op) THEN "s" ELSE "b"
GapR(op) == IF Spaced(op) THEN "sn" ELSE "B"
OpSeq == << "..", "...", "||", "&&", "==", "!=", "===", "=~", "!~", "<", "<=", ">", ">=", "<=>",
            "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "%" >>
OpList == SelectSeq(OpSeq, LAMBDA x : x \in Ops)
OpsFrom(l) == SelectSeq(OpList, LAMBDA x : Lvl(x) >= l)
OpsFromTab == [l \in 0..15 |-> OpsFrom(l)]
AsgOps == <<"+", "-", "*", "/", "||", "&&", "<<", ">>", "|", "&", "%", "**", "^">>

-----------------------------------------------------------------------------
(* Leaves.                                                                 *)
\* <<text, value, constness>>
IntLits == << <<"1", "(int 1)", "i">>, <<"20", "(int 20)", "i">>, <<"0x1f", "(int 31)", "i">>,
              <<"3_000", "(int 3000)", "i">>, <<"0b101", "(int 5)", "i">>, <<"0", "(int 0)", "i">>,
              <<"9223372036854775808", "(big 9223372036854775808)", "i">> >>
FltLits == << <<"1.5", "(float 1.5)", "s">>, <<"2e3", "(float 2000.0)", "s">>, <<"3i", "(imag (int 3))", "-">>,
              <<"0.25", "(float 0.25)", "s">> >>
StrLits == << <<"\"s\"", "(str 's')", "s">>, <<"'q'", "(str 'q')", "s">>, <<"\"\"", "(str '')", "s">>,
              <<"%q(w(x))", "(str 'w%28;x%29;')", "s">>, <<"\"a\\nb\"", "(str 'a%a;b')", "s">>,
              <<"`ls`", "(cmd (str 'ls'))", "-">>, <<"%w(u v)", "(array const (str 'u') (str 'v'))", "-">>,
              <<"%i(u v)", "(array const (sym 'u') (sym 'v'))", "-">>,
              <<"/re/", "(regex 'm' const (str 're'))", "-">>, <<"/x y/im", "(regex 'mis' const (str 'x%20;y'))", "-">> >>
SymLits == << <<":a", "(sym 'a')", "s">>, <<":b?", "(sym 'b?')", "s">>, <<":+", "(sym '+')", "s">>,
              <<":[]=", "(sym '[]=')", "s">>, <<":\"a b\"", "(sym 'a%20;b')", "s">>, <<":c=", "(sym 'c=')", "s">>,
              <<":A", "(sym 'A')", "s">>, <<":@a", "(sym '%40;a')", "s">>, <<":if", "(sym 'if')", "s">> >>
KwdLits == << <<"nil", "(nil)", "s">>, <<"true", "(true)", "s">>, <<"false", "(false)", "s">>, <<"self", "(self)", "-">> >>
VarLits == << <<"@a", "(ivar '%40;a')", "-">>, <<"$a", "(gvar '$a')", "-">>, <<"@@a", "(cvar '%40;%40;a')", "-">>,
              <<"$1", "(svar 101)", "-">>, <<"@b_1", "(ivar '%40;b_1')", "-">> >>
ConLits == << <<"A", "(const - - () 'A')", "-">>, <<"Bc", "(const - - () 'Bc')", "-">> >>

Sim == Mode = "sim"
\* r is a number drawn with each production (0, 1, 2, ... outside simulations)
Draw(s, r) == s[(r % Len(s)) + 1]

LitToks(x) == <<T("o", x[1]), VC(x[2], 1, x[3])>>
UseItem(g, x, f) == <<"USE", g, x, IF "mrecv" \in f THEN "recv" ELSE "">>

LeafKinds(f) == SelectSeq(Leaves, LAMBDA k :
    /\ ("nonum" \in f => k \notin {"int", "flt", "neg", "one"})
    /\ ("nominus" \in f => k # "neg")
    /\ ("safe" \in f => k \notin {"chr"})
    /\ (f \cap {"recv", "prim"} # {} => k \notin {"neg", "chr"})
    /\ ("nocon" \in f => k # "con")
    /\ (k = "num1" => Near.np))

LeafToks(kind, f, r) ==
  CASE kind = "int" -> LitToks(Draw(IntLits, r))
    [] kind = "flt" -> LitToks(Draw(FltLits, r))
    [] kind = "str" -> LitToks(Draw(StrLits, r))
    [] kind = "sym" -> LitToks(Draw(SymLits, r))
    [] kind = "kwd" -> LitToks(Draw(KwdLits, r))
    [] kind = "var" -> LitToks(Draw(VarLits, r))
    [] kind = "con" -> LitToks(Draw(ConLits, r))
    [] kind = "neg" -> <<T("o", "-7"), VC("(int -7)", 1, "i")>>
    [] kind = "chr" -> <<T("o", "?x"), VC("(str 'x')", 1, "s")>>
    [] kind = "num1" -> LET x == Draw(<<"_1", "_2">>, r) IN
                        <<T("o", x), V(IF "mrecv" \in f THEN RecvName(x) ELSE "(ident " \o Q(x) \o ")", 1), <<"NUSE">> >>
    [] kind = "one" -> LitToks(IntLits[1])
    [] OTHER -> << UseItem("o", Draw(Names, r), f) >>

-----------------------------------------------------------------------------
(* Shapes of argument lists, element lists and parameter lists.            *)
(* p positional, s splat, k keyword, d double splat, h pairs, b block, f ... *)
ArgNext(c) == CASE c = "p" -> {"p", "s", "k", "d", "h", "b", "."}
                [] c = "s" -> {"p", "s", "k", "d", "b", "."}
                [] c = "k" -> {"k", "d", "b", "."}
                [] c = "d" -> {"k", "d", "b", "."}
                [] c = "h" -> {"b", "."}
                [] OTHER -> {"."}
ArgFirst == {"p", "s", "k", "d", "h", "b"}
RECURSIVE ArgShapesN(_)
ArgShapesN(n) == IF n = 0 THEN {<<>>}
                 ELSE LET prev == ArgShapesN(n - 1) IN
                      prev \union UNION { { Append(s, c) : c \in (IF s = <<>> THEN ArgFirst ELSE ArgNext(s[Len(s)]) \ {"."}) }
                                          : s \in {s \in prev : Len(s) = n - 1} }
ArgShapes == ArgShapesN(MaxArgs)
ArgShapesCmd == {s \in ArgShapes : s # <<>>}
ArgShapesNoBlk == {s \in ArgShapes : s = <<>> \/ s[Len(s)] # "b"}

KeyNames == <<"a", "k", "b", "z", "c">>

(* p r(equired) t(destructuring) o(ptional) R(est) A(nonymous rest) P(ost)
   k(ey) K(ey with default) w(keyword rest) b(lock) f(orwarding)           *)
ParNext(c) == CASE c \in {"r", "t"} -> {"r", "t", "o", "R", "A", "k", "K", "w", "b"}
                [] c = "o" -> {"o", "R", "A", "P", "k", "K", "w", "b"}
                [] c \in {"R", "A", "P"} -> {"P", "k", "K", "w", "b"}
                [] c \in {"k", "K"} -> {"k", "K", "w", "b"}
                [] c = "w" -> {"b"}
                [] OTHER -> {}
ParFirst == {"r", "t", "o", "R", "A", "k", "K", "w", "b"}
RECURSIVE ParShapesN(_)
ParShapesN(n) == IF n = 0 THEN {<<>>}
                 ELSE LET prev == ParShapesN(n - 1) IN
                      prev \union UNION { { Append(s, c) : c \in (IF s = <<>> THEN ParFirst ELSE ParNext(s[Len(s)])) }
                                          : s \in {s \in prev : Len(s) = n - 1} }
MaxPars == IF On("longpar5") THEN 5 ELSE IF On("longpar") THEN 4 ELSE IF On("onepar") THEN 1 ELSE 2
ParShapes == ParShapesN(MaxPars)
ParPool == <<"a", "b", "c", "d", "e", "g", "h", "i">>

\* a number of slots each parameter takes in the name pool
RotName(base, i) == ParPool[((base + i - 1) % Len(ParPool)) + 1]

RECURSIVE ParItems(_, _, _, _, _)
\* one element of a parameter list; i is the index of its first name
ParItem(c, i, base, d, where) ==
  LET x == RotName(base, i)
      dflt == IF where = "lit" THEN X("PLit", 0, 0, {}) ELSE X("E", 0, d, {"noasgname"})
  IN CASE c = "r" -> <<T("o", x), V("(req " \o Q(x) \o ")", 1), <<"PAR", x, "">> >>
       [] c = "P" -> <<T("o", x), V("(post " \o Q(x) \o ")", 1), <<"PAR", x, "">> >>
       [] c = "o" -> <<T("o", x), <<"PAR", x, "">>, TF("o", "=", "!n"), dflt, R("(opt " \o Q(x) \o " $1;)", 1)>>
       [] c = "R" -> <<T("o", "*"), T("t", x), V("(rest " \o Q(x) \o ")", 0), <<"PAR", x, "">> >>
       [] c = "A" -> <<T("o", "*"), V("(rest -)", 0)>>
       [] c = "k" -> <<T("o", x \o ":"), V("(key " \o Q(x) \o " -)", 0), <<"PAR", x, "kw">> >>
       [] c = "K" -> <<T("o", x \o ":"), <<"PAR", x, "kw">>, dflt, R("(key " \o Q(x) \o " $1;)", 1)>>
       [] c = "w" -> <<TB("o", "**"), T("t", x), V("(kwrest " \o Q(x) \o ")", 0), <<"PAR", x, "kr">> >>
       [] c = "b" -> <<TB("o", "&"), T("t", x), V("(blk " \o Q(x) \o ")", 0), <<"PAR", x, "bl">> >>
       [] c = "f" -> <<T("o", "..."), V("(fwd)", 0), <<"PAR", "...", "fw">> >>
       [] OTHER -> \* destructuring
          LET y == RotName(base, i + 1) IN
          <<TOpen("o", "("), T("o", x), <<"PAR", x, "">>, Comma, T("o", y), <<"PAR", y, "">>, TC("n", ")"),
            V("(destruct " \o Q(x) \o " " \o Q(y) \o ")", 0)>>
ParItems(s, j, i, base, dw) ==
  IF j > Len(s) THEN <<>>
  ELSE (IF j > 1 THEN <<Comma>> ELSE <<>>)
       \o ParItem(s[j], i, base, dw[1], dw[2])
       \o ParItems(s, j + 1, i + (IF s[j] = "t" THEN 2 ELSE 1), base, dw)
ParList(s, base, d, where) ==
  ParItems(s, 1, 1, base, <<d, where>>)
    \o <<R("(params" \o (IF Len(s) = 0 THEN "" ELSE " " \o Lst(1, Len(s))) \o ")", Len(s))>>

-----------------------------------------------------------------------------
(* Choices.  f is a set of context flags:                                  *)
(*  asg   an assignment may appear here because nothing binding tighter    *)
(*        follows                                                          *)
(*  cmd   a command call may appear here                                   *)
(*  mul   a list may follow "="                                            *)
(*  do    a do block may be attached to a call here                        *)
(*  safe  the first token must not be read as an operator, block or        *)
(*        modifier after a command name                                    *)
(*  nomod  the first token must not be a modifier keyword (after return)     *)
(*  nonum, nominus  restrictions on the first token after unary minus and  *)
(*        before **                                                        *)
(*  recv  the value is a receiver; mrecv: of a method call                 *)
(*  nocon the value is not a bare constant path                            *)
(*  pr    a unary minus may appear here although it binds weaker           *)
Opt(c, s) == IF c THEN s ELSE <<>>
LeftF(f) == f \cap {"safe", "nonum", "nominus", "do", "nomod"}
RightF(f) == f \cap {"asg", "do"}
DoF(f) == f \cap {"do"}
InnerF == {"do"}

Go(d) == d > 0 /\ fuel > 0
FeatTags(s) == SelectSeq(s, LAMBDA x : x \in Feats)
PrimAll == <<"paren", "array", "hash", "lam", "call", "blkcall", "mcall", "mblk", "idx", "ccall", "cpath", "topc", "istr", "if", "unless",
             "while", "until", "case", "begin", "for", "def", "sdef", "class", "module", "sclass", "defp",
             "superp", "zsuper", "yieldp", "yield0", "hdoc", "hdoci">>
NotSafe == {"hash", "if", "unless", "while", "until", "for", "sdef", "class", "module", "sclass", "defp", "zsuper", "yield0"}
NotRecv == {"topc", "unless", "while", "until", "for", "def", "sdef", "class", "module", "sclass", "yield0", "hdoc", "hdoci"}
NotCon  == {"paren", "cpath", "topc"}
Modifiers == {"if", "unless", "while", "until"}
PrimFeats == FeatTags(PrimAll)

PrimsOK(f) == SelectSeq(PrimFeats, LAMBDA t :
    /\ ("safe" \in f => t \notin NotSafe)
    /\ ("recv" \in f => t \notin NotRecv)
    /\ ("nocon" \in f => t \notin NotCon)
    /\ ("nomod" \in f => t \notin Modifiers)
    /\ (t \in {"class", "module"} => ~InDef))

\* in simulations one operator is drawn beforehand, so that operators do not
\* crowd out everything else
OpsHere(l) == IF l > 15 THEN <<>>
              ELSE LET s == OpsFromTab[l] IN IF Sim /\ Len(s) > 1 THEN <<s[RandomElement(1..Len(s))]>> ELSE s

EChoices(l, d, f) ==
  IF ~Go(d) THEN <<"leaf">>
  ELSE LET f0 == IF l = 0 THEN f \union {"asg"} ELSE f
           safe == "safe" \in f
       IN Opt(~On("noleaf") \/ l > 1, IF Sim THEN <<"leaf", "leaf", "leaf">> ELSE <<"leaf">>)
          \o Opt(On("asg") /\ "asg" \in f0, <<"asg">>)
          \o Opt(On("opasg") /\ "asg" \in f0, <<"opasg">>)
          \o Opt("cmd" \in f /\ ~safe, FeatTags(<<"cmdcall", "mcmd", "supercmd", "yieldcmd", "ambig">>))
          \o Opt(l = 0 /\ On("defd") /\ ~safe, <<"defd">>)
          \o Opt(l <= 1 /\ On("tern"), <<"tern">>)
          \o OpsHere(l)
          \o Opt(~safe /\ On("neg") /\ (l <= 12 \/ (l <= 14 /\ "pr" \in f)), <<"neg", "negpow">>)
          \o Opt(l <= 13 /\ "**" \in Ops, <<"**">>)
          \o Opt(l <= 14 /\ On("un"), IF safe THEN <<"!">> ELSE <<"!", "~", "un+">>)
          \o PrimsOK(f)

Digit == [x \in {"0", "1", "2", "3", "4", "5", "6"} |->
            CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4 [] x = "5" -> 5 [] OTHER -> 6]
Counts(n, lo) == [i \in 1..(n - lo + 1) |-> ToString(lo + i - 1)]

CallNames == <<"foo", "bar", "qux">>
FnNames == <<"foo", "bar", "qux", "Cap", "b_1">>
MNames == <<"foo", "bar", "b?", "c!", "class", "nil", "if", "Cap">>
\* operators which may be defined as methods, and those which can be called
\* and defined on an object only
DefOps == <<"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "<=>", "==", "!=", "<", "<=", ">", ">=", "===", "=~", "+@", "-@", "[]", "[]=">>
AllOps == DefOps \o <<"**", "^", "~", "!", "!~">>
ArgMNames == MNames \o <<"[]", "[]=", "+", "<=>", "==", "!", "~", "**", "%", "/", "-@", "=~", "!=", ">=", "<<">>
SdefNames == <<"m1", "m1", "m1", "m?", "m!", "m=", "class", "end", "Mm", "self", "m_2">> \o AllOps
QN(m) == Q(CASE m = "-@" -> "-%40;" [] m = "+@" -> "+%40;" [] m = "%" -> "%25;" [] OTHER -> m)

\* fault productions which make sense in the present scope
FaultChoices ==
  SelectSeq(FeatTags(<<"f_class", "f_module", "f_const", "f_mconst", "f_opconst", "f_fwd", "f_num_asg", "f_num_op", "f_num_par",
                       "f_num_for", "f_num_masgn", "f_num_nest", "f_num_nest2", "f_num_use", "f_blkblk", "f_afterblk", "f_2splat", "f_nonassoc",
                       "f_nonassocr", "f_modsup", "f_target", "f_optarget", "f_mtarget", "f_close", "f_stray",
                       "f_dup", "f_order", "f_rvar", "f_numname", "f_seq", "f_seqc">>),
    LAMBDA t : /\ (t = "f_seqc" => ~InDef)
               /\ (t \in {"f_class", "f_module", "f_const", "f_mconst", "f_opconst"} => InDef)
               /\ (t = "f_fwd" => ~FwdOK)
               /\ (t \in {"f_num_nest", "f_num_nest2"} => ~NpOuter)
               /\ (t = "f_num_use" => NumIllegal))

StmtChoices(d, f) ==
  IF ~Go(d) THEN <<"expr">>
  ELSE <<"expr">> \o Opt(~On("onlymods"), <<"expr", "expr">>)
       \o FeatTags(<<"mod_if", "mod_unless", "mod_while", "mod_until", "mod_rescue">>)
       \o Opt(On("masgn"), <<"masgn", "masgn">>)
       \o Opt(On("alias"), <<"alias">>)
       \o Opt(On("jump"), <<"return", "break", "next", "redo">>)
       \o Opt(On("fault") /\ FaultChoices # <<>>, <<"fault">>)

BlkChoices(f) == Opt(On("brace"), <<"brace">>) \o Opt(On("do") /\ "do" \in f, <<"do">>)

Choices(x) ==
  LET n == x[2] l == x[3] d == x[4] f == x[5] IN
  CASE n = "E" -> EChoices(l, d, f)
    [] n = "Leaf" -> LeafKinds(f)
    [] n = "Name" -> Names
    [] n = "Stmts" -> IF Go(d) THEN Counts(MaxStmts, l) ELSE Counts(1, l)
    [] n = "Prog" -> Counts(MaxStmts, 1)
    [] n = "Stmt" -> StmtChoices(d, f)
    [] n = "Expr" -> <<"arg">> \o Opt(Go(d) /\ On("andor"), <<"and", "or">>)
    [] n = "RMod" -> <<"none">> \o Opt(Go(d) /\ On("mod_rescue") /\ ~OpenAsg, <<"rescue">>)
    [] n = "ModR" -> IF OpenAsg THEN <<"none">> ELSE <<"rescue">>
    [] n = "Rhs" -> <<"one">> \o Opt("mul" \in f /\ On("mulrhs"), <<"two", "splat", "onesplat">>)
    [] n = "PLit" -> <<"one", "kwd", "str">>
    [] n = "Blk?" -> <<"none">> \o Opt(Go(d), BlkChoices(f))
    [] n = "Blk" -> BlkChoices(f)
    [] n = "DoBlk?" -> <<"none">> \o Opt(Go(d) /\ On("do") /\ "do" \in f, <<"do">>)
    [] n = "MTail" -> <<"none">> \o FeatTags(<<"margs", "callargs">>)
    [] n = "BlkPar" -> <<"-">> \o Opt(On("bpar"), <<"p", "p", "||">>) \o Opt(On("nump") /\ ~NpOuter, <<"np">>)
    [] n = "LamPar" -> <<"-">> \o Opt(On("bpar"), <<"paren", "bare">>) \o Opt(On("nump") /\ ~NpOuter, <<"np">>)
    [] n = "LamBody" -> <<"brace">> \o Opt("do" \in f, <<"do">>)
    [] n = "LName" -> Names
    [] n = "DefTail" -> Opt(~On("nodpar"), <<"paren", "bare">>) \o <<"none">>
    [] n = "Body" -> <<"plain", "plain">> \o Opt(Go(d) /\ On("rescue"), <<"r", "rr", "re", "rn", "n", "ren", "en">>)
    [] n = "Resc" -> <<"bare", "list", "var", "listvar">>
    [] n = "RVar" -> <<"name", "ivar", "attr", "idx">>
    [] n = "Else" -> <<"none", "else">> \o Opt(Go(d), <<"elsif">>)
    [] n = "Else1" -> <<"none", "else">>
    [] n = "Lhs" -> <<"name">> \o Opt(~Sim \/ d >= 0, FeatTags(<<"lvar", "lidx", "lattr", "lsafe", "lcpath">>))
                    \o Opt(On("lconst") /\ ~InDef, <<"lconst">>)
    [] n = "CaseE" -> <<"some", "none">>
    [] n = "Whens" -> <<"1", "2">>
    [] n = "ClsPath" -> <<"c", "cc", "top", "expr", "ccc", "topc", "topcc">>
    [] n = "Sup" -> <<"none", "sup">>
    [] n = "JVal" -> <<"none", "one", "list", "splat", "array">>
    [] n = "DefName" -> <<"plain", "pred", "bang", "setter", "op", "kw", "unary", "aref", "aset", "const">>
    [] n = "SRecv" -> <<"self", "name", "const", "ivar", "gvar", "cvar">>
    [] n = "AName" -> <<"id", "sym", "op", "set", "gv", "kw">>
    [] n = "Fault" -> FaultChoices
    [] n = "Istr" -> <<"dq", "dq2", "bt", "pc", "re", "sym", "var", "hole">>
    [] n = "Amb" -> <<"minus", "idx", "splat", "amp", "scope", "shl", "mod", "str", "int", "sym">>
    [] OTHER -> <<"?">>

\* nonterminals whose choices are shapes (sets of sequences)
SetNTs == {"ArgsP", "ArgsY", "ArgsC", "ArgsCY", "ArgsI", "Arr", "Hash", "Pars", "ParsL", "ParsB", "ParsLB", "DefPars", "Mlhs", "Mrhs", "When", "ForV"}
SetChoices(x) ==
  LET n == x[2] d == x[4] IN
  CASE n = "ArgsP" -> (IF Go(d) THEN ArgShapes ELSE {<<>>, <<"p">>}) \union (IF On("fwd") /\ FwdOK THEN {<<"f">>, <<"p", "f">>} ELSE {})
    [] n = "ArgsY" -> IF Go(d) THEN ArgShapesNoBlk ELSE {<<>>, <<"p">>}
    [] n = "ArgsC" -> IF Go(d) THEN ArgShapesCmd ELSE {<<"p">>}
    [] n = "ArgsCY" -> IF Go(d) THEN ArgShapesCmd \cap ArgShapesNoBlk ELSE {<<"p">>}
    [] n = "ArgsI" -> {<<"p">>, <<"p", "p">>, <<"s">>, <<>>}
    [] n = "Arr" -> {<<>>, <<"p">>, <<"p", "p">>, <<"p", "s">>, <<"s">>, <<"p", "p", "p">>}
    [] n = "Hash" -> {<<>>, <<"k">>, <<"h">>, <<"k", "h">>, <<"h", "k">>, <<"k", "k">>, <<"q">>}
    [] n \in {"Pars", "ParsL"} -> ParShapes
    \* (a newline does not end a list after "*")
    [] n = "ParsB" -> {p \in ParShapes : p = <<>> \/ (p[1] # "t" /\ p[Len(p)] # "A")}
    \* a keyword would swallow the body, "*" the brace
    [] n = "ParsLB" -> {p \in ParShapes : (p = <<>> \/ p[1] # "t") /\ \A i \in 1..Len(p) : p[i] # "k"}
    [] n = "DefPars" -> ParShapes \union (IF On("fwd") THEN {<<"f">>, <<"r", "f">>} ELSE {})
    [] n = "Mlhs" -> {<<"n">>, <<"n", "n">>, <<"n", "s">>, <<"s", "n">>, <<"n", "s", "n">>, <<"n", "n", "n">>, <<"s">>, <<"n", "n", ",">>}
    [] n = "Mrhs" -> {<<"p">>, <<"p", "p">>, <<"s">>, <<"p", "s">>, <<"p", "p", "p">>}
    [] n = "When" -> {<<"p">>, <<"p", "p">>, <<"p", "s">>, <<"s">>}
    [] OTHER -> {<<1>>, <<1, 2>>, <<1, 2, 3>>}

Pick(s) ==
  IF ~Sim THEN {s[i] : i \in 1..Len(s)}
  ELSE IF s = <<>> THEN {}
  ELSE LET b == SelectSeq(s, LAMBDA t : t \in Boost)
       IN IF b # <<>> /\ RandomElement(1..2) = 1 THEN {b[RandomElement(1..Len(b))]}
          ELSE {s[RandomElement(1..Len(s))]}
SetPick(s) == IF Sim THEN {RandomElement(s)} ELSE s

-----------------------------------------------------------------------------
(* Productions: what is to be derived for nonterminal x under choice t.     *)
K(g, x) == TF(g, x, "_")        \* keyword
KO(g, x) == TF(g, x, "(_")      \* keyword which opens a construct
KC(x) == TC("z", x)             \* keyword which closes one
SeqOf(n) == IF n = 1 THEN RC("$1;", 1, "id", "") ELSE R("(seq" \o (IF n = 0 THEN "" ELSE " " \o Lst(1, n)) \o ")", n)

RECURSIVE StmtItems(_, _, _, _)
StmtItems(i, n, d, f) ==
  IF i > n THEN <<>>
  ELSE (IF i > 1 THEN <<Sep("TERM")>> ELSE <<>>) \o <<X("Stmt", 0, d, f)>> \o StmtItems(i + 1, n, d, f)
RECURSIVE ProgItems(_, _, _)
ProgItems(i, n, d) ==
  IF i > n THEN <<>>
  ELSE (IF i > 1 THEN << <<"B">>, Sep("TERM")>> ELSE <<>>) \o <<X("Stmt", 0, d, InnerF)>> \o ProgItems(i + 1, n, d)

\* elements of array literals, indexes, when clauses and right-hand sides
RECURSIVE Elems(_, _, _, _)
Elems(s, j, d, f) ==
  IF j > Len(s) THEN <<>>
  ELSE (IF j > 1 THEN <<Comma>> ELSE <<>>)
       \o (IF s[j] = "s" THEN <<TB("o", "*"), M, X("E", 0, d, f), R("(splat $1;)@<", 1)>> ELSE <<X("E", 0, d, f)>>)
       \o Elems(s, j + 1, d, f)

\* arguments; cm: of a command call (the first one must not look like an operator)
KeyName(r, j) == KeyNames[((r + j) % Len(KeyNames)) + 1]
ArgItem(c, j, d, f, cm, r) ==
  LET first == cm /\ j = 1
      fe == IF first THEN f \union {"safe"} ELSE f
      \* a splat next to a command name must touch its operand
      op(x, m) == IF first THEN <<TF("o", x, "!t")>> \o m \o <<X("E", 15, 0, {"prim"})>> ELSE <<TB("o", x)>> \o m \o <<X("E", 0, d, f)>>
  IN CASE c = "p" -> <<X("E", 0, d, fe)>>
       [] c = "s" -> op("*", <<M>>) \o <<R("(splat $1;)@<", 1)>>
       [] c = "k" -> <<TB("o", KeyName(r, j) \o ":"), X("E", 0, d, f)>>
       [] c = "d" -> op("**", <<>>)
       [] c = "b" -> op("&", <<>>)
       [] c = "f" -> <<T("o", "...")>>
       [] OTHER -> IF Sim /\ (r + j) % 3 = 0
                   THEN <<X("E", 0, d, fe), TB("o", "=>"), X("E", 0, d, f), TF("o", ",", "(!n"), X("E", 0, d, f), TF("o", "=>", ")!"), X("E", 0, d, f),
                          RC("(hash ", 4, "arr", " ($1; $2;) ($3; $4;))")>>
                   ELSE <<X("E", 0, d, fe), TB("o", "=>"), X("E", 0, d, f), RC("(hash ", 2, "arr", " ($1; $2;))")>>
\* a comma after the last element
TrailC(s, r) == IF Sim /\ r % 4 = 0 /\ s # <<>> /\ s[Len(s)] \notin {"b", "f"} THEN <<TF("o", ",", "!n")>> ELSE <<>>
RECURSIVE ArgItems(_, _, _, _, _, _)
ArgItems(s, j, d, f, cm, r) ==
  IF j > Len(s) THEN <<>>
  ELSE (IF j > 1 THEN <<Comma>> ELSE <<>>) \o ArgItem(s[j], j, d, f, cm, r) \o ArgItems(s, j + 1, d, f, cm, r)

\* template of an argument list; v is the number of the next value
RECURSIVE TPos(_, _, _)
TPos(s, j, v) ==
  IF j > Len(s) THEN ""
  ELSE CASE s[j] \in {"p", "s", "h"} -> " " \o P(v) \o TPos(s, j + 1, v + 1)
         [] s[j] = "f" -> TPos(s, j + 1, v)
         [] OTHER -> TPos(s, j + 1, v + 1)
RECURSIVE TKw(_, _, _, _)
TKw(s, j, v, r) ==
  IF j > Len(s) THEN ""
  ELSE CASE s[j] = "k" -> " (" \o Q(KeyName(r, j)) \o " " \o P(v) \o ")" \o TKw(s, j + 1, v + 1, r)
         [] s[j] = "f" -> TKw(s, j + 1, v, r)
         [] OTHER -> TKw(s, j + 1, v + 1, r)
RECURSIVE TDs(_, _, _)
TDs(s, j, v) ==
  IF j > Len(s) THEN ""
  ELSE CASE s[j] = "d" -> " " \o P(v) \o TDs(s, j + 1, v + 1)
         [] s[j] = "f" -> TDs(s, j + 1, v)
         [] OTHER -> TDs(s, j + 1, v + 1)
Strip(x) == IF x = "" THEN "" ELSE SubSeq(x, 2, Len(x))
HasEl(s, c) == \E i \in 1..Len(s) : s[i] = c
ArgsTpl(s, r) ==
  LET n == Len(SelectSeq(s, LAMBDA c : c # "f"))
  IN R("(args (" \o Strip(TPos(s, 1, 1)) \o ") (kw" \o TKw(s, 1, 1, r) \o ") (dsplat" \o TDs(s, 1, 1) \o ") "
             \o (IF HasEl(s, "b") THEN P(n) ELSE "^B") \o " "
             \o (IF HasEl(s, "f") THEN "fwd" ELSE "-") \o " " \o (IF HasEl(s, "s") THEN "splat" ELSE "-") \o ")", n)
\* block slot of an argument list: fill it with the second value
FillB == R("$1^2;", 2)
NoB == R("$1^-;", 1)

HashPair(c, j, d, r) ==
  CASE c = "k" -> LET kn == KeyName(r, j) IN
                  <<TB("o", kn \o ":"), VC("(sym " \o Q(kn) \o ")", 0, "s"), X("E", 0, d, InnerF)>>
    [] c = "q" -> <<TB("o", "\"k l\":"), VC("(sym 'k%20;l')", 0, "s"), X("E", 0, d, InnerF)>>
    [] OTHER -> <<X("E", 0, d, InnerF), TB("o", "=>"), X("E", 0, d, InnerF)>>
RECURSIVE HashItems(_, _, _, _)
HashItems(s, j, d, r) ==
  IF j > Len(s) THEN <<>>
  ELSE (IF j > 1 THEN <<Comma>> ELSE <<>>) \o HashPair(s[j], j, d, r) \o HashItems(s, j + 1, d, r)
RECURSIVE PairsTpl(_, _)
PairsTpl(i, n) == IF i > n THEN "" ELSE " (" \o P(2*i - 1) \o " " \o P(2*i) \o ")" \o PairsTpl(i + 1, n)

RECURSIVE MlhsItems(_, _, _, _)
MlhsItems(s, j, d, opened) ==
  IF j > Len(s) THEN <<>>
  ELSE (IF j > 1 THEN <<TF("o", ",", (IF j = 2 /\ ~opened THEN "(!" ELSE "!") \o (IF s[j] = "," THEN "" ELSE "n"))>> ELSE <<>>)
       \o (IF s[j] = "s" THEN <<TF("o", "*", IF j = 1 THEN "(!" ELSE "!"), M, X("Lhs", 0, IF j = 1 THEN d ELSE -1, {}), R("(splat $1;)" \o (IF j = 1 THEN "@<" ELSE "@-"), 1)>>
           ELSE IF s[j] = "," THEN <<V("(discard)", 0)>>
           ELSE <<X("Lhs", 0, IF j = 1 THEN d ELSE -1, {})>>)
       \o MlhsItems(s, j + 1, d, opened)

RECURSIVE ForVars(_, _, _)
ForVars(s, j, r) ==
  IF j > Len(s) THEN <<>>
  ELSE (IF j > 1 THEN <<Comma>> ELSE <<>>)
       \o << <<"FORV", "o", Names[((r + j) % Len(Names)) + 1]>> >> \o ForVars(s, j + 1, r)

RescItems(d, f) == <<Sep("TERM"), TF("o", "rescue", "_"), X("Resc", 0, d, f)>>
TwoNames == <<"a", "b">>

\* a name used next to something which may be its first argument or the
\* right operand of an operator
AmbTok(t) == CASE t = "minus" -> <<"-7", "(int -7)", "(bin - $1; (int 7))">>
               [] t = "idx" -> <<"[1]", "(array const (int 1))", "(index $1; (int 1))">>
               [] t = "splat" -> <<"*1", "(splat (int 1))", "(bin * $1; (int 1))">>
               [] t = "amp" -> <<"&1", "(int 1)", "(bin & $1; (int 1))">>
               [] t = "scope" -> <<"::A", "(const top - () 'A')", "(const - $1; () 'A')">>
               [] t = "shl" -> <<"<<A", "", "(bin << $1; (const - - () 'A'))">>
               [] t = "mod" -> <<"%w(u)", "(array const (str 'u'))", "">>
               [] t = "str" -> <<"\"s\"", "(str 's')", "">>
               [] t = "int" -> <<"1", "(int 1)", "">>
               [] OTHER -> <<":b", "(sym 'b')", "">>

-----------------------------------------------------------------------------
(* Programs which must be rejected: the last token cannot be accepted,     *)
(* whatever follows.                                                       *)
Toks(s) == [i \in 1..Len(s) |-> TF("o", s[i], "_")]
Tight(s) == [i \in 1..Len(s) |-> TF("t", s[i], "")]
BadTargets == << <<"1">>, <<"self">>, <<"nil">>, <<"true">>, <<"\"s\"">>, <<":y">>, <<"1.5">>, <<"[", "1", "]">>, <<"/r/">>, <<"->", "{", "}">>,
                 <<"{", "}">>, <<"if", "1", "then", "2", "end">>, <<"%w(u)">>, <<"?c">>, <<"-", "1">>, <<"__LINE__">>, <<"`ls`">>, <<"zz?">>, <<"zz!">> >>
BadParams ==
  << <<"a", ",", "a">>, <<"a", ",", "*", "a">>, <<"a", ",", "a:">>, <<"a", ",", "**", "a">>, <<"a", ",", "&", "a">>, <<"(", "a", ",", "a">>,
     <<"a", "=", "1", ",", "a">>, <<"*", "a", ",", "a">>, <<"a:", ",", "a:">>, <<"a:", "1", ",", "**", "a">>, <<"**", "a", ",", "&", "a">>,
     <<"a", ",", "(", "b", ",", "a">>, <<"(", "a", ",", "b", ")", ",", "b">>, <<"*", "b", ",", "a", ",", "b">> >>
BadOrder ==
  << <<"*", "a", ",", "b", "=", "1", ")">>, <<"a:", ",", "b", ")">>, <<"**", "a", ",", "b", ")">>, <<"**", "a", ",", "b:", "1", ")">>, <<"&", "a", ",">>,
     <<"...", ",">>, <<"*", "a", ",", "*", "b">>, <<"**", "a", ",", "**", "b">>, <<"a", "=", "1", ",", "b", ",", "c", "=", "2", ")">>,
     <<"a:", ",", "*", "b">>, <<"b", "=", "1", ",", "...">>, <<"a", ",", "b:", "1", ",", "c", "=", "1", ")">>, <<"1">>, <<"a", "b">>, <<"A">>, <<"@a">>,
     <<"*", "a", ",", "...">>, <<"**", "a", ",", "*", "b">>, <<"a", ",", ",">> >>

\* one token too many, a clause out of order, a closer of another kind, an operand left out
BadSeqs ==
  << <<"foo", "(", ",">>, <<"a", ".", "foo", "(", ",">>, <<"foo", "(", ",", "1">>, <<"super", "(", ",">>, <<"yield", "(", ",">>, <<"a", "[", ",">>, <<"foo", "(", "1", ",", ",">>, 
     <<"$1", "=">>, <<"$&", "=">>, <<"$'", "+=">>, <<"$`", "||=">>, <<"a", ",", "$1", "=">>, <<"for", "$1", "in">>, <<"begin", ";", "rescue", "=>", "$1", "then">>,
     <<"for", "(", "a", "in">>, <<"for", "(", "a", ",", "b", "in">>, <<"for", "(", "a", "]">>, <<"for", "(", ")">>, <<"foo", "(", "1", "]">>, 
     <<"foo", "(", "1", "end">>, <<"a", "[", "1", ")">>, <<"a", "[", "1", "end">>, <<"{", "a:", "1", "]">>, <<"{", "a:", "1", ")">>, 
     <<"{", "1", "=>", "2", "end">>, <<"->", "(", "a", "]">>, <<"->", "(", "a", "{">>, <<"->", "a", ",", "{">>, <<"->", "{", "1", ")">>, 
     <<"->", "{", "1", "]">>, <<"->", "do", "1", "}">>, <<"foo", "{", "|", "a", "]">>, <<"foo", "{", "|", "a", ")">>, <<"foo", "{", "|", "a", "}">>, 
     <<"foo", "do", "|", "a", "end">>, <<"yield", "(", "1", "]">>, <<"super", "(", "1", "]">>, <<"defined?", "(", "1", "]">>, 
     <<"def", "m", "(", "a", "]">>, <<"def", "m", "(", "(", "a", "]">>, <<"def", "m", "(", "(", "a", ")", "end">>, 
     <<"case", "1", "when", "2", "then", "3", "}">>, <<"case", "1", "else">>, <<"case", "1", "end">>, <<"case", "1", ";", "2">>, 
     <<"case", "1", "when", "2", "3">>, <<"case", "1", "when", "2", "then", "3", "else", "4", "when">>, 
     <<"case", "1", "when", "2", "then", "3", "else", "4", "else">>, <<"class", "<<", "1", ";", "}">>, <<"def", "m", ";", "1", "}">>, 
     <<"def", "self", ".", "1">>, <<"begin", ";", "1", ";", "rescue", ";", "1", "}">>, <<"begin", ";", "ensure", ";", "1", ";", "rescue">>, 
     <<"begin", ";", "ensure", ";", "1", ";", "else">>, <<"begin", ";", "ensure", ";", "1", ";", "ensure">>, 
     <<"begin", ";", "1", ";", "rescue", ";", "1", ";", "else", ";", "1", ";", "rescue">>, 
     <<"begin", ";", "1", ";", "rescue", ";", "1", ";", "else", ";", "1", ";", "else">>, <<"def", "m", ";", "ensure", ";", "1", ";", "ensure">>, 
     <<"def", "m", ";", "ensure", ";", "1", ";", "rescue">>, <<"if", "1", "then", "2", "else", "3", "else">>, 
     <<"if", "1", "then", "2", "else", "3", "elsif">>, <<"if", "1", "then", "2", "elsif", "then">>, <<"if", "then">>, <<"if", "1", "2">>, 
     <<"unless", "1", "then", "2", "elsif">>, <<"unless", "1", "then", "2", "else", "3", "else">>, <<"unless", "then">>, <<"while", "do">>, 
     <<"while", "1", "then">>, <<"while", "1", "2">>, <<"while", "1", "do", "2", "else">>, <<"until", "do">>, <<"until", "1", "then">>, 
     <<"until", "1", "do", "2", "else">>, <<"for", "a", "in", "do">>, <<"for", "a", "in", "1", "then">>, <<"for", "a", "in", "1", "2">>, 
     <<"for", "a", ",", "b", "do">>, <<"for", "a", "=">>, <<"1", "?", "2", "end">>, <<"1", "?", "2", ",">>, <<"1", "?", ":", "2">>, 
     <<"1", "?", "2", ":", "end">>, <<"a", ".", ";">>, <<"a", ".", ")">>, <<"a", "&.", ";">>, <<"a", "&.", "1">>, <<"a", ".", "\"s\"">>, 
     <<"a", ".", "@b">>, <<"alias", ";">>, <<"alias", "a", ";">>, <<"alias", "a", "1">>, <<"alias", ":a", ";">>, <<"alias", "@a">>, 
     <<"[", "1", "=>", "]">>, <<"[", "1", "=>", ",">>, <<"{", "1", "}">>, <<"{", "1", ",">>, <<"{", "=>">>, <<"{", ",">>, <<"{", "a:", ",">>, 
     <<"{", "a:", "1", ",", ",">>, <<"{", "1", "=>", "}">>, <<"{", "1", "=>", ",">>, <<"foo", "(", "1", ",", ",">>, <<"foo", "(", "1", "=>", ",">>, 
     <<"foo", "(", "&", "@a", ",", ")">>, <<"foo", "(", "1", "=>", "2", ",", "&", "@a", ",">>, <<"foo", "(", "1", "=>", "2", ",", "&", "@a", ";">>,
     <<"foo", "(", "a:", "1", ",", "&", "@a", ",">>, <<"foo", "(", "*", "@a", ",", ",">>, <<"foo", "(", "**", "@a", ",", ",">>, <<"yield", "(", "1", ",", ",">>,
     <<"super", "(", "1", ",", ",">>, <<"[", "1", ",", ",">>, <<"[", "*", "@a", ",", ",">>, <<"a", "[", "1", ",", ",">>, <<"A", "::", "B", "(", "1", ",", ",">>,
     <<"A", "::", "B", "(", "1", "]">>, <<"A", "::", ")">>, <<"a", "::", "1">>, <<"{", "1", "=>", "2", ",", ",">>,
     <<"foo", "(", "a:", ",">>, <<"[", "1", ",", ",">>, <<"[", ",">>, <<"->", "(", ",">>, <<"->", "(", "a", ",", ",">>, 
     <<"foo", "{", "|", "a", ",", ",">>, <<"(", "1", ")", "2">>, <<"(", "1", "2">>, <<"begin", "1", "end", "2">>, <<"if", "1", "then", "2", "end", "3">>, 
     <<"[", "1", "2">>, <<"a", "[", "1", "2">>, <<"{", "1", "=>", "2", "3">>, <<"1", "+", "end">>, <<"1", "+", ")">>, <<"1", "+", "]">>, 
     <<"1", "+", "}">>, <<"1", "+", "then">>, <<"1", "+", ",">>, <<"1", "+", "&", "1">>, <<"1", "+", "**", "1">>, <<"1", "+", "=>">>, <<"1", "&&", ")">>, 
     <<"1", "==", "end">>, <<"1", "or", "end">>, <<"!", "end">>, <<"-", "end">>, <<"a", "=", "end">>, <<"a", ",", "b", "=", "=">>, 
     <<"a", "=", "b", ",", "=">>, <<"1", "unless", "end">>, <<"1", "until", ")">>, <<"1", "if", "2", "then">>, 
     <<"defined?", "end">>, <<"defined?", ")">>, <<"__FILE__", "1">>, <<"nil", "(">>, <<"true", "{">>, <<"\"s\"", "1">>, <<"\"s\"", "a">>, 
     <<"\"s\"", "@a">>, <<"1", "\"s\"">>, <<"@a", "1">>, <<"$a", "1">>, <<"A", ".", "1">>, <<"A", "::", "\"s\"">>, <<"A", "::", "@a">>, <<"::", "a">>, 
     <<"::", "1">>, <<"(", "1", "..", "2", "..">>, <<"1", "==", "2", "==">>, <<"{", "a:", "1", "b:">>, <<"foo", "a:", "1", "b:">>, <<"foo", "1", "2">>, 
     <<"foo", "1", ":a">>, <<"foo", "1", ",", "end">>, <<"foo", "1", ",", ")">>,
     <<"foo", "(", "a:", "1", ",", "2", ")">>, <<"foo", "(", "a:", "1", ",", "*">>, <<"foo", "(", "**", "@a", ",", "2", ",">>, <<"foo", "(", "**", "@a", ",", "*", "@b">>,
     <<"foo", "(", "1", ",", "a:", "1", ",", "nil", ",">>, <<"yield", "(", "a:", "1", ",", "@b", ")">>, <<"super", "(", "a:", "1", ",", "*">>, <<"yield", "(", "&", "@a", ")">>,
     <<"yield", "(", "1", ",", "&", "@a", ")">>, <<"def", "m", "(", "...", ")", ";", "foo", "(", "...", ",">>, <<"def", "m", "(", "...", ")", ";", "foo", "(", "...", ")", "{", "}">>,
     <<"def", "m", "(", "...", ")", ";", "foo", "(", "...", ")", "do", "end">>, <<"def", "m", "(", "...", ")", ";", "foo", "(", "a:", "1", ",", "...", ")">>,
     <<"def", "m", "(", "...", ")", ";", "foo", "(", "&", "@a", ",">>, <<"def", "m", "(", "...", ")", ";", "foo", "{", "bar", "(", "...", ",">>,
     <<"def", "m", "a", "1">>, <<"def", "m", "a", "end">>, <<"def", "m", "a", ",", "b", "@c">>, <<"def", "m", "*", "1">>, <<"def", "m", "*", "A">>, <<"def", "m", "&", "b", "c">>,
     <<"def", "m", "a", "=", "1", "end">>, <<"def", "m", "a:", "1", "@c">>, <<"def", "m", "end">>, <<"def", "self", ".", "m", "a", "@c">>, <<"class", "<<", "self", "1">>,
     <<"class", "<<", "@a", "end">>, <<"class", "<<", "self", "end">>, <<"class", "<<", "@a", "@b">>, <<"while", "@a", "@b">>, <<"until", "nil", "1">>, <<"until", "@a", "end">>,
     <<"for", "a", "in", "@b", "end">>, <<"if", "@a", "end">>, <<"if", "nil", "2">>, <<"if", "1", "then", "2", "elsif", "@a", "3">>, <<"unless", "@a", "@b">>, <<"unless", "@a", "end">>,
     <<"case", "@a", "2">>, <<"begin", ";", "1", ";", "rescue", "@a", "2">>, <<"begin", ";", "1", ";", "rescue", "=>", "@a", "2">>, <<"if", "1", "2", "then">> >>
BadClsSeqs ==
  << <<"class", "A", ";", "1", "}">>, <<"class", "A", ";", "1", ")">>, <<"class", "A", "<", "B", ";", "1", "end", "2">>, 
     <<"class", "A", ".", "b", ";">>, <<"module", "M", ";", "1", "}">>, <<"module", "M", ";", "1", "]">>, 
     <<"module", "m", ";">>, <<"module", "M", "<">>, <<"class", "A", ";", "def", "m", ";", "1", "}">>, 
     <<"module", "M", ";", "class", "A", ";", "1", "end", "}">>, <<"class", "A", "<", "@b", "1">>, <<"class", "A", "<", "B", "end">>, <<"class", "A", "<", "@b", "end">>, 
     <<"class", "A", "<", "self", "@a">> >>

NumVia == << << <<>>, <<>> >>, << <<"for", "i", "in", "1", "do">>, <<"end">> >>, << <<"if", "1", "then">>, <<"end">> >>, << <<"while", "1", "do">>, <<"end">> >>,
             << <<"begin">>, <<"end">> >>, << <<"(">>, <<")">> >>, << <<"[">>, <<"]">> >>, << <<"case", "1", "when", "2", "then">>, <<"end">> >> >>
FaultItems(t, d, f, r) ==
  LET F == << <<"FAULT", t>> >>
      S == << <<"F0">> >>
      tgt == Draw(BadTargets, r)
      blk(s) == Toks(s)
  IN S \o
  (CASE t = "f_class" -> Toks(<<"class", "K">>)
     [] t = "f_module" -> Toks(<<"module", "K">>)
     [] t = "f_const" -> Toks(<<"C", "=">>)
     [] t = "f_mconst" -> Toks(<<"C", ",">>)
     [] t = "f_opconst" -> Toks(<<"C", Draw(<<"+=", "||=", "<<=">>, r)>>)
     [] t = "f_fwd" -> <<TF("o", "foo", ""), TF("t", "(", ""), TF("o", "...", "")>>
     [] t = "f_num_asg" -> Toks(<<"_1", "=">>)
     [] t = "f_num_op" -> Toks(<<"_2", "+=">>)
     [] t = "f_num_masgn" -> Toks(<<"_1", ",">>)
     [] t = "f_num_par" -> Toks(<<"foo", "{", "|", "_1">>)
     [] t = "f_num_for" -> Toks(<<"for", "_1">>)
     [] t = "f_numname" -> Toks(<<"def", "_1">>)
     \* nested blocks, directly and through other constructs
     [] t = "f_num_nest" -> Toks(<<"foo", "{", "_1", ";">>) \o Toks(Draw(NumVia, r)[1]) \o Toks(Draw(<< <<"bar", "{">>, <<"->", "{">>, <<"bar", "do">> >>, r \div 8))
                            \o Toks(Draw(NumVia, r \div 32)[1]) \o Toks(<<"_2">>)
     [] t = "f_num_nest2" -> Toks(<<"foo", "{">>) \o Toks(Draw(NumVia, r)[1]) \o Toks(<<"->", "{", "_2", "}">>) \o Toks(Draw(NumVia, r)[2]) \o Toks(<<";">>)
                             \o Toks(Draw(NumVia, r \div 8)[1]) \o Toks(<<"_1">>)
     [] t = "f_num_use" -> Toks(<<Draw(<<"_1", "_2", "_9">>, r)>>)
     [] t = "f_blkblk" -> <<TF("o", "foo", "")>> \o Tight(<<"(", "&", "@a", ")">>)
                          \o (IF r % 2 = 0 THEN Toks(<<"{", "}">>) ELSE Toks(<<"do", "end">>))
     [] t = "f_afterblk" -> <<TF("o", "foo", "")>> \o Tight(<<"(", "&", "@a", ",">>)
     [] t = "f_2splat" -> Toks(<<"*", "a", ",", "b", ",", "*">>)
     [] t = "f_nonassoc" -> Toks(<<"1", Draw(<<"==", "!=", "===", "=~", "!~", "<=>">>, r), "2", Draw(<<"!=", "=~", "==", "<=>", "!~", "===">>, r \div 7)>>)
     [] t = "f_nonassocr" -> Toks(<<"1", Draw(<<"..", "...">>, r), "2", Draw(<<"..", "...", "..">>, r)>>)
     [] t = "f_modsup" -> Toks(<<"module", "K", "<">>)
     [] t = "f_target" -> Toks(tgt) \o Toks(<<"=">>)
     [] t = "f_optarget" -> Toks(tgt) \o Toks(<<Draw(<<"+=", "||=", "&&=", "**=">>, r)>>)
     [] t = "f_mtarget" -> (IF r % 2 = 0 THEN Toks(tgt) \o Toks(<<",">>) ELSE Toks(<<"a", ",">>) \o Toks(tgt) \o Toks(<<Draw(<<",", "=">>, r)>>))
     [] t = "f_close" -> Toks(Draw(<< <<"(", "1", "]">>, <<"[", "1", ")">>, <<"{", "1", "=>", "2", ")">>, <<"begin", "1", ")">>, <<"if", "1", "then", "2", "}">>,
                                      <<"while", "1", "do", "2", "]">>, <<"(", "1", "end">>, <<"[", "1", "end">>, <<"def", "m", "(", "end">>,
                                      <<"->", "{", "end">>, <<"foo", "{", "1", "end">>, <<"foo", "do", "1", "}">> >>, r))
     [] t = "f_stray" -> Toks(Draw(<< <<"1", "2">>, <<":a", "1">>, <<"@a", "@b">>, <<"1", "foo">>, <<"nil", "nil">>, <<"1", "{">>, <<"self", "1">>,
                                      <<"[", "1", "]", "2">>, <<"1.5", "do">>, <<"1", "?", "2", ")">>, <<"alias", "a", "1">>, <<"*", "a", ";">>, <<"def", "1">>,
                                      <<"def", "m", "(", ",">>, <<"class", "k", ";">>, <<"class", "1", ";">>, <<"module", "m", ";">>, <<"for", "1">>, <<"for", "A">>, <<"for", "a", "do">>,
                                      <<"&", "1">>, <<"|", "1">>, <<"==", "1">>, <<"=>">>, <<"..", "1">>, <<"->", ";", "1">>, <<"&&">>, <<"a", ",", "b", ";">>,
                                      <<"foo", ".", "1">>, <<"A", "::", "1">>, <<"then", "then">>, <<"in", "in">>, <<"do", "do">>, <<"and", "1">> >>, r))
     [] t = "f_dup" -> (IF r % 3 = 0 THEN Toks(<<"foo", "{", "|">>) ELSE IF r % 3 = 1 THEN Toks(<<"->", "(">>) ELSE <<TF("o", "def", "_"), TF("o", "m", "")>> \o Tight(<<"(">>))
                       \o Toks(Draw(BadParams, r \div 3))
     [] t = "f_order" -> <<TF("o", "def", "_"), TF("o", "m", "")>> \o Tight(<<"(">>) \o Toks(Draw(BadOrder, r))
     [] t = "f_seq" -> Toks(Draw(BadSeqs, r))
     [] t = "f_seqc" -> Toks(Draw(BadClsSeqs, r))
     [] t = "f_rvar" -> Toks(<<"begin", ";", "1", ";", "rescue", "=>", Draw(<<"1", "nil", "self", "a?">>, r), ";">>))
  \o F

-----------------------------------------------------------------------------
Body(x, t, r) ==
  LET n == x[2] l == x[3] d == x[4] f == x[5]
      e == d - 1
      f0 == IF l = 0 THEN f \union {"asg"} ELSE f
  IN
  CASE n = "E" ->
    (CASE t = "leaf" -> <<X("Leaf", 0, d, f)>>
       [] t = "asg" -> <<X("Lhs", 0, e, LeftF(f)), TF("o", "=", "!n"), X("Rhs", 0, e, f \cap {"mul", "cmd", "do"}),
                         R("(asgn ($1;) ($2;))", 2), OA>>
       [] t = "opasg" ->
            LET op == Draw(AsgOps, r) IN
            <<X("Lhs", 0, e, LeftF(f)), TF("o", op \o "=", "!n"), X("E", 0, e, f \cap {"cmd", "do"}), X("RMod", 0, e, DoF(f)),
              IF op \in {"||", "&&"} THEN R("(bin " \o op \o " $1; (asgn ($1;) ($2;)))", 2)
              ELSE R("(opasgn " \o Label(op) \o " $1; $2;)", 2), OA>>
       [] t = "cmdcall" -> LET c == Draw(FnNames, r) IN <<K("o", c), M, X("CA", 0, e, DoF(f)), R("(call - " \o Q(c) \o " $1;)@!", 1)>>
       [] t = "mcmd" -> LET c == Draw(CallNames, r) IN
                        <<X("E", 15, e, LeftF(f) \union {"recv", "mrecv"}), TB("d", "."), TF("t", c, "_"), M, X("CA", 0, e, DoF(f)),
                          R("(send - $1; " \o Q(c) \o " $2;)@!", 2)>>
       [] t = "supercmd" -> <<K("o", "super"), M, X("CA", 0, e, DoF(f)), R("(super $1;)@<", 1)>>
       [] t = "yieldcmd" -> <<K("o", "yield"), M, X("ArgsCY", 0, e, {}), NoB, R("(yield $1;)@!", 1)>>
       [] t = "ambig" -> <<X("Amb", 0, e, f)>>
       [] t = "defd" -> <<TF("o", "defined?", "!_"), X("E", 0, e, DoF(f)), R("(defined $1;)", 1)>>
       [] t = "tern" -> <<X("E", 2, e, LeftF(f)), TF("s", "?", "(!_n"), X("E", 0, e, DoF(f)), TF("sn", ":", ")!_n"),
                          X("E", 0, e, RightF(f0)), R("(if $1; $2; $3;)", 3)>>
       [] t \in Ops \ {"**"} ->
            LET v == Lvl(t) IN
            <<X("E", IF NonAssoc(t) THEN v + 1 ELSE v, e, LeftF(f)),
              TF(GapL(t), t, IF Spaced(t) THEN "!_n" ELSE "!nB"),
              X("E", v + 1, e, RightF(f0)),
              CASE t \in {"..", "..."} -> RC("(range $1; $2; " \o t \o " ", 2, "rng", ")")
                [] t = "!~" -> R("(un ! (bin =~ $1; $2;))", 2)
                [] OTHER -> R("(bin " \o Label(t) \o " $1; $2;)", 2)>>
       [] t = "**" -> <<X("E", 14, e, LeftF(f) \union {"nominus"}), TF("b", "**", "!nB"), X("E", 13, e, RightF(f0) \union {"pr"}),
                        R("(bin ** $1; $2;)", 2)>>
       [] t = "neg" -> <<TB("o", "-"), M, X("E", 12, e, RightF(f0) \union {"nonum"}), R("(un - $1;)@<", 1)>>
       [] t = "negpow" -> <<TB("o", "-"), T("t", "2"), VC("(int 2)", 1, "i"), TF("b", "**", "!nB"), X("E", 13, e, RightF(f0) \union {"pr"}),
                            R("(un - (bin ** $1; $2;))", 2)>>
       [] t \in {"!", "~", "un+"} ->
            LET o == IF t = "un+" THEN "+" ELSE t IN
            <<TB("o", o), M, X("E", 14, e, RightF(f0) \union (f \cap {"nominus"}) \union (IF "nominus" \in f THEN {} ELSE {"pr"})),
              R("(un " \o o \o " $1;)@<", 1)>>
       [] t = "paren" -> <<TOpen("o", "("), X("Stmts", 0, e, InnerF), TC("z", ")"), RC("$1;", 1, "id", "")>>
       [] t = "array" -> <<TOpen("o", "["), M, X("Arr", 0, e, {})>>
       [] t = "hash" -> <<TOpen("o", "{"), M, X("Hash", 0, e, {})>>
       [] t = "lam" -> <<TF("o", "->", "(!"), M, <<"PUSH", "blk">>, X("LamPar", 0, e, f)>>
       [] t = "call" -> LET c == Draw(FnNames, r) IN <<T("o", c), M, X("PA", 0, e, DoF(f)), R("(call - " \o Q(c) \o " $1;)@!", 1)>>
       [] t = "blkcall" -> LET c == Draw(CallNames, r) IN <<T("o", c), M, X("Blk", 0, e, DoF(f)),
                             R("(call - " \o Q(c) \o " (args () (kw) (dsplat) $1; - -))@!", 1)>>
       [] t = "mcall" -> <<X("E", 15, e, LeftF(f) \union {"recv", "mrecv"}), X("MTail", 0, e, DoF(f))>>
       [] t = "mblk" -> LET c == Draw(MNames, r) IN
                        <<X("E", 15, e, LeftF(f) \union {"recv", "mrecv"}), TB("d", "."), T("t", c), M, X("Blk", 0, e, DoF(f)),
                          R("(send - $1; " \o Q(c) \o " (args () (kw) (dsplat) $2; - -))@!", 2)>>
       [] t = "idx" -> <<X("E", 15, e, LeftF(f) \union {"recv"}), TF("t", "[", "(n"), M, X("ArgsI", 0, e, {})>>
       [] t = "ccall" -> LET c == Draw(<<"Kk", "Bc">>, r) IN
                         <<X("E", 15, e, LeftF(f) \union {"recv"}), TB("t", "::"), T("t", c), M, X("PA", 0, e, DoF(f)), R("(send - $1; " \o Q(c) \o " $2;)@!", 2)>>
       [] t = "cpath" ->
            (IF r % 2 = 0
             THEN LET c == Draw(<<"A", "Bc">>, r) IN
                  <<T("o", c), TB("t", "::"), T("t", "Dd"), V("(const - - (" \o Q(c) \o ") 'Dd')", 3)>>
             ELSE <<X("E", 15, e, LeftF(f) \union {"recv", "nocon"}), TB("t", "::"), T("t", "Dd"), TB("t", "::"), T("t", "E2"),
                    R("(const - $1; ('Dd') 'E2')", 1)>>)
       [] t = "topc" -> (IF r % 2 = 0 THEN <<TB("o", "::"), T("t", "A"), V("(const top - () 'A')", 2)>>
                         ELSE <<TB("o", "::"), T("t", "A"), TB("t", "::"), T("t", "Dd"), V("(const top - ('A') 'Dd')", 4)>>)
       [] t = "istr" -> <<X("Istr", 0, e, {})>>
       [] t = "if" -> <<KO("o", "if"), M, X("Expr", 0, e, DoF(f)), Sep("THEN"), X("Stmts", 0, e, InnerF), X("Else", 0, e, DoF(f)),
                        KC("end"), R("(if $1; $2; $3;)@<", 3)>>
       [] t = "unless" -> <<KO("o", "unless"), M, X("Expr", 0, e, DoF(f)), Sep("THEN"), X("Stmts", 0, e, InnerF), X("Else1", 0, e, {}),
                            KC("end"), R("(if $1; $3; $2;)@<", 3)>>
       [] t \in {"while", "until"} -> <<KO("o", t), M, X("Expr", 0, e, {}), Sep("DO"), X("Stmts", 0, e, InnerF), KC("end"),
                            R("(" \o t \o " - $1; $2;)@<", 2)>>
       [] t = "case" -> <<KO("o", "case"), M, X("CaseE", 0, e, DoF(f)), Sep("ZT"), X("Whens", 0, e, DoF(f))>>
       [] t = "begin" -> <<KO("o", "begin"), X("Body", 0, e, {}), KC("end")>>
       [] t = "for" -> <<KO("o", "for"), M, X("ForV", 0, e, {})>>
       [] t = "def" -> <<KO("o", "def"), M, X("DefName", 0, e, f)>>
       [] t = "sdef" -> <<KO("o", "def"), M, X("SRecv", 0, e, f), TB("t", "."), T("t", Draw(SdefNames, r)), <<"PUSH", "def">>, X("DefTail", 0, e, f),
                          X("Body", 0, e, {}), KC("end"), <<"POP">>, R("(sdef $1; " \o QN(Draw(SdefNames, r)) \o " $2; $3; $4;)@!", 4)>>
       [] t = "class" -> <<KO("o", "class"), N, X("ClsPath", 0, e, f), X("Sup", 0, e, f), Sep("TERM"), <<"PUSH", "cls">>,
                           X("Body", 0, e, {}), KC("end"), <<"POP">>, R("(class $1; $2; (params) $3; $4;)@<", 4)>>
       [] t = "module" -> <<KO("o", "module"), N, X("ClsPath", 0, e, f), Sep("TERM"), <<"PUSH", "cls">>,
                           X("Body", 0, e, {}), KC("end"), <<"POP">>, R("(module $1; - (params) $2; $3;)@<", 3)>>
       [] t = "sclass" -> <<KO("o", "class"), M, TB("o", "<<"), X("Expr", 0, e, DoF(f)), Sep("TERM"), <<"PUSH", "cls">>,
                           X("Body", 0, e, {}), KC("end"), <<"POP">>, R("(sclass $1; (params) $2; $3;)@<", 3)>>
       [] t = "defp" -> <<TB("o", "defined?"), TF("t", "(", "(n"), X("Expr", 0, e, DoF(f)), TC("n", ")"), R("(defined $1;)", 1)>>
       [] t = "superp" -> <<T("o", "super"), M, X("PA", 0, e, DoF(f)), R("(super $1;)@<", 1)>>
       [] t = "zsuper" -> <<T("o", "super"), V("(super -)", 1)>>
       [] t = "yieldp" -> <<T("o", "yield"), M, TF("t", "(", "(n"), X("ArgsY", 0, e, InnerF), TC("n", ")"), NoB, R("(yield $1;)@!", 1)>>
       [] t = "yield0" -> <<T("o", "yield"), V("(yield " \o NoArgs \o ")", 1)>>
       [] t = "hdoc" -> <<T("o", Draw(<<"<<T1", "<<-T1", "<<'T1'", "<<\"T1\"">>, r)), VC("(str 'x%20;y%a;')", 0, "s"), <<"H", "x y\nT1\n">> >>
       \* a heredoc with an interpolation; the name tells nested ones apart
       [] t = "hdoci" -> LET id == "T" \o ToString(d) IN
                         <<T("o", Draw(<<"<<", "<<-", "<<~">>, r) \o Draw(<<id, "\"" \o id \o "\"">>, r \div 3)), <<"HO", "s#{", "}t\n" \o id \o "\n">>,
                           X("Stmts", 0, e, InnerF), <<"HC">>, R("(istr (str 's') $1; (str 't%a;'))", 1)>>)
  [] n = "Leaf" -> LeafToks(t, f, r)
  [] n = "Name" -> << UseItem("o", t, f) >>
  [] n = "PLit" -> LeafToks(t, f, r)
  [] n = "Stmts" -> StmtItems(1, Digit[t], d, f) \o << SeqOf(Digit[t]) >>
  [] n = "Prog" -> ProgItems(1, Digit[t], d) \o <<SeqOf(Digit[t]), <<"POP">> >>
  [] n = "Rhs" ->
    (CASE t = "one" -> <<X("E", 0, d, f \cap {"cmd", "do"}), X("RMod", 0, d, DoF(f))>>
       [] t = "two" -> <<X("E", 0, d, DoF(f)), Comma, X("E", 0, d, DoF(f)), RC("(array ", 2, "arr", " $1; $2;)")>>
       [] t = "splat" -> <<TB("o", "*"), M, X("E", 0, d, DoF(f)), R("(splat $1;)@<", 1), R("(array - $1;)", 1)>>
       [] t = "onesplat" -> <<X("E", 0, d, DoF(f)), Comma, TB("o", "*"), M, X("E", 0, d, DoF(f)), R("(splat $1;)@<", 1), R("(array - $1; $2;)", 2)>>)
  [] n = "Stmt" ->
    (CASE t = "expr" -> <<X("Expr", 0, d, f \union {"cmd", "mul"})>>
       [] t = "mod_if" -> <<X("Stmt", 0, e, f), TF("s", "if", "!_"), X("Expr", 0, e, DoF(f)), R("(if $2; $1; (seq))", 2)>>
       [] t = "mod_unless" -> <<X("Stmt", 0, e, f), TF("s", "unless", "!_"), X("Expr", 0, e, DoF(f)), R("(if $2; (seq) $1;)", 2)>>
       [] t = "mod_while" -> <<X("Stmt", 0, e, f), TF("s", "while", "!_"), X("Expr", 0, e, DoF(f)), R("(while post $2; $1;)", 2)>>
       [] t = "mod_until" -> <<X("Stmt", 0, e, f), TF("s", "until", "!_"), X("Expr", 0, e, DoF(f)), R("(until post $2; $1;)", 2)>>
       [] t = "mod_rescue" -> <<X("Stmt", 0, e, f), X("ModR", 0, e, f)>>
       [] t = "masgn" -> <<X("Mlhs", 0, e, f)>>
       [] t = "alias" -> <<TF("o", "alias", "!_k"), M, X("AName", 0, e, f), X("AName", 1, e, f), R("(alias $1; $2;)@<", 2)>>
       [] t \in {"return", "break", "next"} -> <<K("o", t), M, X("JVal", 0, e, f), R("(" \o t \o " $1;)@!", 1)>>
       [] t = "redo" -> <<K("o", "redo"), V("(redo)", 1)>>
       [] t = "fault" -> <<X("Fault", 0, e, f)>>)
  [] n = "RMod" -> IF t = "none" THEN <<>> ELSE <<TF("s", "rescue", "!_"), X("E", 0, d, f), R("(begin $1; (rescue () - $2;) - -)", 2)>>
  [] n = "ModR" -> IF t = "none" THEN <<>> ELSE <<TF("s", "rescue", "!_"), X("Expr", 0, d, DoF(f)), R("(begin $1; (rescue () - $2;) - -)", 2)>>
  [] n = "JVal" ->
    (CASE t = "none" -> <<V("(nil)", 0)>>
       [] t = "one" -> <<X("E", 0, d, DoF(f) \union {"cmd", "nomod"})>>
       [] t = "list" -> <<X("E", 0, d, DoF(f) \union {"nomod"}), Comma, X("E", 0, d, DoF(f)), RC("(array ", 2, "arr", " $1; $2;)")>>
       [] t = "splat" -> <<TB("o", "*"), M, X("E", 0, d, DoF(f)), R("(splat $1;)@<", 1), R("(array - $1;)", 1)>>
       [] t = "array" -> <<TOpen("o", "["), M, X("Arr", 0, d, {})>>)
  [] n = "Expr" ->
    (CASE t = "arg" -> <<X("E", 0, d, f)>>
       [] t = "and" -> <<X("Expr", 0, e, f \ {"mul"}), TF("s", "and", "!_n"), X("E", 0, e, f \ {"mul"}), R("(bin && $1; $2;)", 2)>>
       [] t = "or" -> <<X("Expr", 0, e, f \ {"mul"}), TF("s", "or", "!_n"), X("E", 0, e, f \ {"mul"}), R("(bin || $1; $2;)", 2)>>)
  \* argument lists: one value each
  [] n = "PA" -> <<TF("t", "(", "(n"), X("ArgsP", 0, d, f)>>
  [] n = "ArgsP" -> ArgItems(t, 1, d, InnerF, FALSE, r) \o TrailC(t, r) \o <<TC("n", ")"), ArgsTpl(t, r)>>
                    \o (IF HasEl(t, "b") THEN <<>> ELSE <<X("Blk?", 0, d, f)>>)
  [] n = "ArgsY" -> ArgItems(t, 1, d, InnerF, FALSE, r) \o TrailC(t, r) \o <<ArgsTpl(t, r)>>
  [] n = "CA" -> <<X("ArgsC", 0, d, f)>>
  [] n = "ArgsC" -> ArgItems(t, 1, d, {}, TRUE, r) \o <<ArgsTpl(t, r)>> \o (IF HasEl(t, "b") THEN <<>> ELSE <<X("DoBlk?", 0, d, f)>>)
  [] n = "ArgsCY" -> ArgItems(t, 1, d, {}, TRUE, r) \o <<ArgsTpl(t, r)>>
  [] n \in {"Blk?", "DoBlk?", "Blk"} ->
    LET fill == IF n = "Blk" THEN <<>> ELSE <<FillB>> IN
    (CASE t = "none" -> <<NoB>>
       [] t = "brace" -> <<TF("o", "{", "(n"), M, <<"PUSH", "blk">>, X("BlkPar", 0, d, f), X("Stmts", 0, d, InnerF), TC("z", "}"), <<"POP">>,
                           R("(lambda $1; $2; $3;)@[", 3)>> \o fill
       [] t = "do" -> <<TF("s", "do", "(_n"), M, <<"PUSH", "blk">>, X("BlkPar", 0, d, f), X("Body", 0, d, {}), KC("end"), <<"POP">>,
                           R("(lambda $1; $2; $3;)@[", 3)>> \o fill)
  [] n = "BlkPar" ->
    (CASE t = "-" -> <<V("(params)", 0)>>
       [] t = "||" -> <<TF("o", "||", "n"), V("(params)", 0)>>
       [] t = "np" -> << <<"NP">>, V("(params)", 0)>>
       [] t = "p" -> <<TOpen("o", "|"), X("ParsL", 0, d, f), TF("n", "|", ")n")>>)
  [] n = "ParsL" -> ParList(t, r, d, "lit")
  [] n = "ParsLB" -> ParList(t, r, d, "lit")
  [] n = "ParsB" -> ParList(t, r, d, "arg")
  [] n = "Pars" -> ParList(t, r, d, "arg")
  [] n = "LamPar" ->
    LET tail == <<X("LamBody", 0, d, f), <<"POP">>, R("(lambda $1; $2; $3;)@!", 3)>> IN
    (CASE t = "-" -> <<V("(params)", 0)>> \o tail
       [] t = "np" -> << <<"NP">>, V("(params)", 0)>> \o tail
       [] t = "paren" -> <<TOpen("o", "("), X("Pars", 0, d, {}), TC("n", ")")>> \o tail
       [] t = "bare" -> <<X("ParsLB", 0, d, {})>> \o tail)
  [] n = "LamBody" ->
    (CASE t = "brace" -> <<TF("o", "{", "!n"), X("Stmts", 0, d, InnerF), TC("z", "}")>>   \* opened by "->"
       [] t = "do" -> <<TF("s", "do", "!_n"), X("Stmts", 0, d, InnerF), KC("end")>>)
  [] n = "MTail" ->
    LET c0 == IF t = "margs" /\ Sim THEN Draw(ArgMNames, r) ELSE Draw(MNames, r)
        nav == IF On("safenav") /\ (r % 3 = 1) THEN "&." ELSE IF Sim /\ t # "callargs" /\ (r % 9 = 2) THEN "::" ELSE "."
        c == IF nav = "::" /\ c0 = "Cap" THEN "qux" ELSE c0
        nf == IF nav = "&." THEN "&." ELSE "-"
        dot == TB(IF nav = "::" THEN "t" ELSE "d", nav)
    IN
    (CASE t = "none" -> <<dot, T("t", c), M, R("(send " \o nf \o " $1; " \o Q(c) \o " " \o NoArgs \o ")@!", 1)>>
       [] t = "margs" -> <<dot, T("t", c), M, X("PA", 0, d, f), R("(send " \o nf \o " $1; " \o QN(c) \o " $2;)@!", 2)>>
       [] t = "callargs" -> <<dot, X("PA", 0, d, f), R("(send " \o nf \o " $1; 'call' $2;)", 2)>>)
  [] n = "ArgsI" -> Elems(t, 1, d, InnerF) \o TrailC(t, r) \o <<TC("n", "]"), R("(index $1;" \o (IF t = <<>> THEN "" ELSE " " \o Lst(2, Len(t) + 1)) \o ")@[", Len(t) + 1)>>
  [] n = "Arr" -> Elems(t, 1, d, InnerF) \o TrailC(t, r) \o <<TC("n", "]"), RC("(array ", Len(t), "arr", (IF t = <<>> THEN "" ELSE " " \o Lst(1, Len(t))) \o ")@[")>>
  [] n = "Hash" -> HashItems(t, 1, d, r) \o TrailC(t, r) \o <<TC("n", "}"), RC("(hash ", 2 * Len(t), "arr", PairsTpl(1, Len(t)) \o ")@[")>>
  [] n = "Istr" ->
    LET hole == <<X("Stmts", 0, d, InnerF)>> IN
    (CASE t = "dq" -> <<TOpen("o", "\"s#{"), M>> \o hole \o <<TC("z", "}t\""), R("(istr (str 's') $1; (str 't'))@[", 1)>>
       [] t = "hole" -> <<TOpen("o", "\"#{"), M>> \o hole \o <<TC("z", "}\""), R("(istr $1;)@[", 1)>>
       [] t = "dq2" -> <<TOpen("o", "\"s#{"), M>> \o hole \o <<TF("z", "} #{", "n")>> \o hole \o <<TC("z", "}\""),
                         R("(istr (str 's') $1; (str '%20;') $2;)@[", 2)>>
       [] t = "bt" -> <<TOpen("o", "`s#{"), M>> \o hole \o <<TC("z", "}t`"), R("(cmd (istr (str 's') $1; (str 't')))@[", 1)>>
       [] t = "pc" -> <<TOpen("o", "%Q[s[#{"), M>> \o hole \o <<TC("z", "}]t]"), R("(istr (str 's[') $1; (str ']t'))@[", 1)>>
       [] t = "re" -> <<TOpen("o", "/s#{"), M>> \o hole \o <<TC("z", "}t/i"), RC("(regex 'mi' ", 1, "arr", " (str 's') $1; (str 't'))@[")>>
       [] t = "sym" -> <<TOpen("o", ":\"s#{"), M>> \o hole \o <<TC("z", "}t\""), R("(send - (istr (str 's') $1; (str 't')) 'to_sym' " \o NoArgs \o ")@-", 1)>>
       [] t = "var" -> <<T("o", "\"s#@a t#$b\""), V("(istr (str 's') (ivar '%40;a') (str '%20;t') (gvar '$b'))", 1)>>)
  [] n = "Else" ->
    (CASE t = "none" -> <<V("(seq)", 0)>>
       [] t = "else" -> <<TF("z", "else", "_n"), X("Stmts", 0, d, InnerF)>>
       [] t = "elsif" -> <<TF("z", "elsif", "_"), M, X("Expr", 0, e, f), Sep("THEN"), X("Stmts", 0, e, InnerF), X("Else", 0, e, f), R("(if $1; $2; $3;)@<", 3)>>)
  [] n = "Else1" ->
    (CASE t = "none" -> <<V("(seq)", 0)>>
       [] t = "else" -> <<TF("z", "else", "_n"), X("Stmts", 0, d, InnerF)>>)
  [] n = "CaseE" -> (CASE t = "none" -> <<V("-", 0)>> [] t = "some" -> <<X("Expr", 0, d, f)>>)
  [] n = "Whens" ->
    LET one == <<TF("o", "when", "_"), X("When", 0, d, f), Sep("THEN"), X("Stmts", 0, d, InnerF), R("(when ($1;) $2;)", 2)>> IN
    (CASE t = "1" -> one \o <<X("Else1", 0, d, f), KC("end"), R("(case $1; $2; $3;)@<", 3)>>
       [] t = "2" -> one \o <<Sep("ZT")>> \o one \o <<X("Else1", 0, d, f), KC("end"), R("(case $1; $2; $3; $4;)@<", 4)>>)
  [] n = "When" -> Elems(t, 1, d, f) \o <<R(Lst(1, Len(t)), Len(t))>>
  [] n = "ForV" -> (IF Len(t) > 1 /\ r % 3 = 0 THEN <<TOpen("o", "(")>> \o ForVars(t, 1, r) \o (IF r % 2 = 0 THEN <<TF("o", ",", "!")>> ELSE <<>>) \o <<TC("n", ")")>>
                     ELSE ForVars(t, 1, r))
                    \o <<R("(" \o Lst(1, Len(t)) \o ")", Len(t)), K("s", "in"), X("Expr", 0, d, {}), Sep("DO"), <<"PUSH", "for">>,
                    X("Stmts", 0, d, InnerF), KC("end"), <<"POP">>, R("(for $1; $2; (params) $3; $4;)@[", 4)>>
  [] n = "DefName" ->
    LET m == CASE t = "plain" -> "m1" [] t = "pred" -> "m?" [] t = "bang" -> "m!" [] t = "setter" -> "m=" [] t = "op" -> Draw(DefOps, r)
               [] t = "kw" -> Draw(<<"class", "end", "if">>, r) [] t = "unary" -> Draw(<<"-@", "+@">>, r) [] t = "aref" -> "[]" [] t = "aset" -> "[]=" [] OTHER -> "Mm"
    IN <<T("o", m), <<"PUSH", "def">>, X("DefTail", IF t \in {"op", "unary", "aref", "aset"} THEN 1 ELSE 0, d, f),
         X("Body", 0, d, {}), KC("end"), <<"POP">>, R("(def " \o QN(m) \o " $1; $2; $3;)@!", 3)>>
  [] n = "DefTail" ->
    (CASE t = "paren" -> <<TF("t", "(", "(n"), X("DefPars", 0, d, f), TC("n", ")"), Sep("ZT")>>
       [] t = "bare" -> <<Sep("BL"), X("ParsB", 0, d, f), Sep("TERM")>>
       [] t = "none" -> <<Sep("TERM"), V("(params)", 0)>>)
  [] n = "DefPars" -> ParList(t, r, d, "arg")
  [] n = "SRecv" ->
    (CASE t = "self" -> <<T("o", "self"), V("(self)", 1)>>
       [] t = "name" -> << <<"USE", "o", Draw(Names, r), "recv">> >>
       [] t = "const" -> <<T("o", "A"), V("(const - - () 'A')", 1)>>
       [] t = "ivar" -> <<T("o", "@a"), V("(ivar '%40;a')", 1)>>
       [] t = "gvar" -> <<T("o", "$a"), V("(gvar '$a')", 1)>>
       [] t = "cvar" -> <<T("o", "@@a"), V("(cvar '%40;%40;a')", 1)>>)
  [] n = "ClsPath" ->
    (CASE t = "c" -> <<T("o", "K"), V("- 'K'", 0)>>
       [] t = "cc" -> <<T("o", "A"), TB("t", "::"), T("t", "K"), V("(const - - () 'A') 'K'", 0)>>
       [] t = "top" -> <<TB("o", "::"), T("t", "K"), V("- 'K'", 0)>>
       [] t = "ccc" -> <<T("o", "A"), TB("t", "::"), T("t", "Bc"), TB("t", "::"), T("t", "K"), V("(const - - ('A') 'Bc') 'K'", 0)>>
       [] t = "topc" -> <<TB("o", "::"), T("t", "A"), TB("t", "::"), T("t", "K"), V("(const top - () 'A') 'K'", 0)>>
       [] t = "topcc" -> <<TB("o", "::"), T("t", "A"), TB("t", "::"), T("t", "Bc"), TB("t", "::"), T("t", "K"), V("(const top - ('A') 'Bc') 'K'", 0)>>
       [] t = "expr" -> << <<"USE", "o", Draw(Names, r), "">>, TB("t", "::"), T("t", "K"), R("$1; 'K'", 1)>>)
  [] n = "Sup" -> (CASE t = "none" -> <<V("-", 0)>> [] t = "sup" -> <<TB("s", "<"), X("Expr", 0, d, DoF(f))>>)
  [] n = "Body" ->
    LET st == X("Stmts", 0, d, InnerF)
        el == <<TF("z", "else", "_n"), st>>
        en == <<TF("z", "ensure", "_n"), st>>
    IN
    (CASE t = "plain" -> <<st, R("(begin $1; - -)", 1)>>
       [] t = "r" -> <<st>> \o RescItems(d, f) \o <<R("(begin $1; $2; - -)", 2)>>
       [] t = "rr" -> <<st>> \o RescItems(d, f) \o RescItems(d, f) \o <<R("(begin $1; $2; $3; - -)", 3)>>
       [] t = "re" -> <<st>> \o RescItems(d, f) \o el \o <<R("(begin $1; $2; $3; -)", 3)>>
       [] t = "rn" -> <<st>> \o RescItems(d, f) \o en \o <<R("(begin $1; $2; - $3;)", 3)>>
       [] t = "n" -> <<st>> \o en \o <<R("(begin $1; - $2;)", 2)>>
       [] t = "en" -> <<st>> \o el \o en \o <<R("(begin $1; $2; $3;)", 3)>>
       [] t = "ren" -> <<st>> \o RescItems(d, f) \o el \o en \o <<R("(begin $1; $2; $3; $4;)", 4)>>)
  [] n = "Resc" ->
    LET st == X("Stmts", 0, d, InnerF) IN
    (CASE t = "bare" -> <<Sep("TERM"), st, R("(rescue () - $1;)", 1)>>
       [] t = "list" -> <<X("When", 0, d, {}), Sep("THEN"), st, R("(rescue ($1;) - $2;)", 2)>>
       [] t = "var" -> <<TB("o", "=>"), X("RVar", 0, d, {}), Sep("THEN"), st, R("(rescue () $1; $2;)", 2)>>
       [] t = "listvar" -> <<X("When", 0, d, {}), TB("o", "=>"), X("RVar", 0, d, {}), Sep("THEN"), st, R("(rescue ($1;) $2; $3;)", 3)>>)
  [] n = "RVar" ->
    (CASE t = "name" -> << <<"ASG", "o", Draw(Names, r)>> >>
       [] t = "ivar" -> <<T("o", "@e"), V("(ivar '%40;e')", 1)>>
       [] t = "attr" -> <<T("o", "self"), V("(self)", 1), TB("t", "."), T("t", "err"), R("(send - $1; 'err' " \o NoArgs \o ")", 1)>>
       [] t = "idx" -> <<T("o", "@e"), V("(ivar '%40;e')", 1), T("t", "["), T("t", "0"), V("(int 0)", 1), T("t", "]"), R("(index $1; $2;)", 2)>>)
  [] n = "Lhs" ->
    (CASE t = "name" -> IF Sim THEN << <<"ASG", "o", Draw(Names, r)>> >> ELSE <<X("LName", 0, d, f)>>
       [] t = "lvar" -> LET v == Draw(<< <<"@a", "(ivar '%40;a')">>, <<"$a", "(gvar '$a')">>, <<"@@a", "(cvar '%40;%40;a')">> >>, r) IN
                        <<T("o", v[1]), V(v[2], 1)>>
       [] t = "lconst" -> <<T("o", "C"), V("(const - - () 'C')", 1)>>
       [] t = "lcpath" -> IF InDef THEN << <<"ASG", "o", Draw(Names, r)>> >>
                          ELSE <<T("o", "A"), TB("t", "::"), T("t", "C"), V("(const - - ('A') 'C')", 3)>>
       [] t = "lidx" -> <<X("E", 15, d, f \union {"recv"}), TF("t", "[", "(n"), M, X("ArgsI", 0, d, {})>>
       [] t = "lattr" -> LET c == Draw(<<"foo", "Bar", "class">>, r) IN
                         <<X("E", 15, d, f \union {"recv", "mrecv"}), TB("d", "."), T("t", c), M, R("(send - $1; " \o Q(c) \o " " \o NoArgs \o ")@!", 1)>>
       [] t = "lsafe" -> <<X("E", 15, d, f \union {"recv", "mrecv"}), TB("t", "&."), T("t", "foo"), M, R("(send &. $1; 'foo' " \o NoArgs \o ")@!", 1)>>)
  [] n = "Mlhs" -> MlhsItems(t, 1, d, t[1] = "s")
                    \o (IF t = <<"n">> THEN <<TF("o", ",", "(!"), V("(discard)", 0), R("$1; $2;", 2)>> ELSE <<R(Lst(1, Len(t)), Len(t))>>)
                    \o <<TF("o", "=", ")!n"), X("Mrhs", IF t = <<"s">> THEN 1 ELSE 2, d, f)>>
  [] n = "Mrhs" -> Elems(t, 1, d, DoF(f))
                    \o (IF HasEl(t, "s") \/ (l = 1 /\ Len(t) > 1)
                        THEN <<RC("(array ", Len(t), "arr", " " \o Lst(1, Len(t)) \o ")")>>
                        ELSE <<R(Lst(1, Len(t)), Len(t))>>)
                    \o <<R("(asgn ($1;) ($2;))", 2), OA>>
  [] n = "AName" ->
    LET w == IF l = 0 THEN 1 ELSE 2
        two(a, b) == <<Draw(a, r), Draw(b, r)>>[w]
        v == CASE t = "id" -> two(<<"new1", "new?", "New", "new!">>, <<"old1", "old!", "Old", "old?">>)
               [] t = "sym" -> two(<<":new2", ":new?", ":[]", ":<=>", ":n=">>, <<":old2", ":old!", ":+", ":[]=", ":o=">>)
               [] t = "op" -> Draw(AllOps, r)
               [] t = "set" -> two(<<"n=">>, <<"o=">>)
               [] t = "gv" -> two(<<"$new">>, <<"$old">>)
               [] OTHER -> two(<<"class", "end", "nil">>, <<"if", "self", "do">>)
    IN <<IF l = 0 THEN TF("o", v, "!_k") ELSE T("o", v), V("(sym " \o QN(IF t = "sym" THEN SubSeq(v, 2, Len(v)) ELSE v) \o ")", 1)>>
  [] n = "Amb" ->
    LET nm == Draw(Names, r)
        vis == Resolve(scopes, nm) >= 0
        k == AmbTok(t)
    IN IF vis
       THEN (IF k[3] = "" THEN << UseItem("o", nm, {}) >>
             ELSE << UseItem("o", nm, {}), Sep("BL"), T("t", k[1]), R(k[3], 1)>>)
       ELSE (IF k[2] = "" THEN << UseItem("o", nm, {}) >>
             ELSE <<T("o", nm), Sep("BL"), T("t", k[1]),
                    V("(call - " \o Q(nm) \o " (args (" \o (IF t = "amp" THEN "" ELSE k[2]) \o ") (kw) (dsplat) "
                      \o (IF t = "amp" THEN k[2] ELSE "-") \o " - " \o (IF t = "splat" THEN "splat" ELSE "-") \o "))", 0)>>)
  [] n = "LName" -> << <<"ASG", "o", t>> >>
  [] n = "Fault" -> FaultItems(t, d, f, r)
  [] OTHER -> <<>>

-----------------------------------------------------------------------------
Cost(n, t) ==
  CASE n = "E" -> IF t = "leaf" THEN 0 ELSE 1
    [] n = "Stmt" -> IF t = "expr" THEN 0 ELSE 1
    [] n = "Expr" -> IF t = "arg" THEN 0 ELSE 1
    [] n = "RMod" -> IF t = "none" THEN 0 ELSE 1
    [] n \in {"Blk?", "DoBlk?"} -> IF t = "none" THEN 0 ELSE 1
    [] n = "Body" -> IF t = "plain" THEN 0 ELSE 1
    [] n = "Else" -> IF t = "elsif" THEN 1 ELSE 0
    [] OTHER -> 0

Emit(m) == IF m.w = <<>> THEN PrintT("@" \o ToJson(m.o)) ELSE TRUE

Init ==
  /\ work = <<X(Start, 0, MaxDepth, InnerF)>>
  /\ out = <<>> /\ vk = <<>> /\ scopes = <<NewScope("eval")>>
  /\ fuel = MaxFuel /\ ntok = 0 /\ fault = ""

Apply(x, t, r) ==
  LET m == Run([w |-> Body(x, t, r) \o Tail(work), o |-> out, k |-> vk, s |-> scopes, t |-> ntok, f |-> fault])
  IN /\ work' = m.w /\ out' = m.o /\ vk' = m.k /\ scopes' = m.s /\ ntok' = m.t /\ fault' = m.f
     /\ fuel' = fuel - Cost(x[2], t)
     /\ Emit(m)

Rnd == IF Sim THEN {RandomElement(0..9999)} ELSE {ntok}

Next == \/ /\ work # <<>> /\ Head(work)[2] \notin SetNTs
           /\ \E t \in Pick(Choices(Head(work))) : \E r \in Rnd : Apply(Head(work), t, r)
        \/ /\ work # <<>> /\ Head(work)[2] \in SetNTs
           /\ \E t \in SetPick(SetChoices(Head(work))) : \E r \in Rnd : Apply(Head(work), t, r)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the specification itself.                                 *)
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
\* a variable table never lists a name twice, and its slots name entries
TablesOK == \A i \in 1..Len(scopes) :
              /\ NoDup(scopes[i].nm)
              /\ \A j \in 1..Len(scopes[i].kw) : scopes[i].kw[j] < Len(scopes[i].nm)
\* "for" bodies never hold variables: they belong to the scope around
ForEmpty == \A i \in 1..Len(scopes) : scopes[i].k = "for" => scopes[i].nm = <<>>
\* no variable is declared twice along a chain of scopes which see each
\* other, except by a parameter (tables only grow at the innermost scope)
EndOK == (work = <<>> /\ fault = "") => (Len(scopes) = 0 /\ Len(vk) = 2)
FuelOK == fuel >= 0 - 40
\* tables only grow while a scope is open
Grow == [][\A i \in 1..Len(scopes) : i <= Len(scopes') => \A j \in 1..Len(scopes[i].nm) :
            (Len(scopes') < Len(scopes) \/ (j <= Len(scopes'[i].nm) /\ scopes'[i].nm[j] = scopes[i].nm[j]) \/ i = Len(scopes))]_vars
=============================================================================
