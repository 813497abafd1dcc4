"""Campaigns: instances of the specifications, and which property uses which."""

SCOPE = ["blkcall", "brace", "do", "lam", "bpar", "for", "def", "sdef", "class", "module", "sclass", "asg", "opasg", "masgn",
         "mod_if", "if", "while", "begin", "rescue", "istr", "hdoci", "mcall", "callargs", "cmdcall", "call", "nump", "paren", "lidx", "lattr"]
FLOW = ["if", "unless", "while", "until", "case", "begin", "for", "tern", "mod_if", "mod_unless", "mod_while", "mod_until", "mod_rescue",
        "rescue", "jump", "andor", "asg", "blkcall", "do", "brace", "def", "paren", "cmdcall", "defd"]
CALLS = ["call", "callargs", "margs", "mcall", "ccall", "mblk", "mcmd", "cmdcall", "blkcall", "brace", "do", "safenav", "idx", "superp", "zsuper",
         "supercmd", "yieldp", "yield0", "yieldcmd", "lam", "ambig", "cpath", "asg", "while", "paren", "hash", "array", "bpar", "mod_if", "def", "fwd"]
ASSIGN = ["asg", "opasg", "masgn", "mulrhs", "lvar", "lidx", "lattr", "lsafe", "lcpath", "lconst", "call", "callargs", "array", "hash",
          "paren", "mod_if", "mod_rescue", "tern", "blkcall", "brace", "bpar", "un", "neg", "mcall", "margs", "cpath"]
DEFS = ["def", "sdef", "class", "module", "sclass", "alias", "rescue", "bpar", "asg", "call", "callargs", "cpath", "mod_if", "paren", "fwd", "jump", "begin"]
COLL = ["array", "hash", "lam", "cpath", "topc", "paren", "call", "callargs", "blkcall", "brace", "istr", "mcall", "idx", "un", "neg", "asg", "tern"]
OPS = ["paren", "tern", "neg", "un", "asg", "opasg", "andor", "defd", "mcall", "idx", "call", "callargs", "mod_if", "mod_unless", "lam", "yield0", "cmdcall", "array"]
PARAMS = ["def", "sdef", "lam", "blkcall", "brace", "do", "bpar", "fwd", "asg", "longpar", "call", "callargs"]
FAULTS = ["f_class", "f_module", "f_const", "f_mconst", "f_opconst", "f_fwd", "f_num_asg", "f_num_op", "f_num_par", "f_num_for", "f_num_masgn",
          "f_num_nest", "f_num_nest2", "f_num_use", "f_blkblk", "f_afterblk", "f_2splat", "f_nonassoc", "f_nonassocr", "f_modsup", "f_target", "f_optarget",
          "f_mtarget", "f_close", "f_stray", "f_dup", "f_order", "f_rvar", "f_numname", "f_seq", "f_seqc"]
ALLF = sorted(set(SCOPE + FLOW + CALLS + ASSIGN + DEFS + COLL + OPS) | {"defp", "hdoc", "hdoci", "mod_rescue", "sclass", "supercmd", "superp"})
ALLOPS = ["..", "...", "||", "&&", "==", "!=", "===", "=~", "!~", "<", "<=", ">", ">=", "<=>", "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "%", "**"]
ALLLEAVES = ["int", "flt", "str", "sym", "kwd", "var", "con", "neg", "chr", "num1", "name", "name", "name"]
NAMELEAVES = ["name", "name", "name", "one", "kwd"]
FEWOPS = ["+", "-", "*", "==", "||", "&", "[]"]


def sim(feats, ops=("+", "-", "*", "==", "&&", "<<"), leaves=("int", "str", "sym", "name", "name"), names=("a", "b", "c"), start="Prog",
        depth=5, fuel=12, stmts=3, args=3, host=None, boost=(), quick=8000, thorough=200000, layouts=2):
    return dict(mode="sim", feats=list(feats), ops=list(ops), leaves=list(leaves), names=list(names), start=start, depth=depth, fuel=fuel,
                stmts=stmts, args=args, host=host or {}, boost=list(boost), quick=quick, thorough=thorough, layouts=layouts)


def bfs(feats, ops=("+",), leaves=("name",), names=("a",), start="Prog", depth=4, fuel=3, stmts=2, args=2, host=None, layouts=1,
        thorough=None):
    c = dict(mode="bfs", feats=list(feats), ops=list(ops), leaves=list(leaves), names=list(names), start=start, depth=depth, fuel=fuel,
             stmts=stmts, args=args, host=host or {}, boost=[], layouts=layouts)
    c["thorough"] = thorough or {}
    return c


GRAMMAR = {
    "general": sim(ALLF, ops=ALLOPS, leaves=ALLLEAVES, quick=16000),
    "mutants": sim(ALLF, ops=ALLOPS, leaves=ALLLEAVES, quick=5000, thorough=100000),
    "scope": sim(SCOPE, leaves=NAMELEAVES + ["num1"], fuel=14, depth=6, boost=["asg", "blkcall", "lam", "p"]),
    "scopehost": sim(SCOPE, leaves=NAMELEAVES, host={"a": 0, "c": 2, "zz": 1}, names=["a", "b", "c", "zz"], fuel=12, depth=5, boost=["asg", "blkcall", "lam", "leaf"]),
    "scopebfs": bfs(["blkcall", "brace", "lam", "asg"], ops=[], depth=3, fuel=3, stmts=2, thorough=dict(fuel=4)),
    "scopebfs2": bfs(["blkcall", "brace", "def", "for", "asg", "nodpar", "lam", "class"], ops=[], depth=4, fuel=2, stmts=2, thorough=dict(fuel=3)),
    "scopebfs3": bfs(["blkcall", "brace", "for", "asg", "nodpar"], ops=[], depth=3, fuel=3, stmts=2, thorough=dict(depth=4)),
    "ambig": sim(["ambig", "asg", "blkcall", "brace", "bpar", "lam", "def", "for", "mod_if", "if", "masgn", "opasg", "mcall", "paren"],
                 leaves=["name", "one"], boost=["ambig", "asg"], fuel=10),
    "ops": sim(OPS, ops=ALLOPS, leaves=ALLLEAVES, depth=7, fuel=14, stmts=2, boost=ALLOPS + ["neg", "!", "~", "un+", "negpow", "paren"], quick=16000),
    "opsbfs": bfs([], ops=ALLOPS, leaves=["name"], start="Prog", depth=3, fuel=2, stmts=1, thorough=dict(depth=4, fuel=3)),
    "opsbfs3": bfs(["un", "neg", "paren", "tern", "asg"], ops=["..", "||", "&&", "==", "<", "|", "&", "<<", "+", "*", "**"],
                   leaves=["one"], depth=4, fuel=3, stmts=1),
    "flow": sim(FLOW, fuel=12, depth=5, boost=["if", "while", "case", "begin", "for", "mod_if", "jump", "r", "ren"], quick=12000),
    "flowbfs": bfs(["if", "unless", "while", "until", "case", "begin", "for", "tern", "mod_if", "mod_unless", "mod_while", "mod_until",
                    "mod_rescue", "rescue", "jump", "andor"], ops=[], depth=3, fuel=1, stmts=1, leaves=["one"], thorough=dict(fuel=2)),
    "flowbfs2": bfs(["if", "unless", "while", "until", "tern", "mod_if", "mod_unless", "mod_while", "mod_until", "mod_rescue", "andor"],
                    ops=[], depth=2, fuel=2, stmts=1, leaves=["one"], thorough=dict(fuel=3)),
    "flowbfs3": bfs(["rescue", "begin", "jump"], ops=[], depth=2, fuel=2, stmts=1, leaves=["one"], thorough=dict(fuel=3)),
    "flowbfs5": bfs(["asg", "opasg", "mulrhs", "mod_rescue", "mod_if", "cmdcall", "tern", "paren", "andor"], ops=["+"], depth=4, fuel=3, stmts=1,
                    leaves=["one"], thorough=dict(fuel=4)),
    "flowbfs4": bfs(["if", "tern", "mod_if"], ops=[], depth=3, fuel=3, stmts=1, leaves=["one"], thorough=dict(fuel=4)),
    "calls": sim(CALLS, fuel=12, depth=5, args=4, boost=["call", "mcall", "cmdcall", "mcmd", "margs", "callargs", "blkcall"], quick=12000,
                 leaves=["int", "str", "sym", "name", "name", "con", "var"]),
    "callsbfs": bfs(["call", "cmdcall", "mcall", "margs", "blkcall", "brace", "do", "superp", "yieldp", "supercmd", "yieldcmd", "mcmd"],
                    ops=[], depth=3, fuel=2, stmts=1, args=3, leaves=["one"]),
    "assign": sim(ASSIGN, fuel=12, depth=5, boost=["asg", "opasg", "masgn", "two", "splat"], quick=12000,
                  leaves=["int", "str", "name", "name", "con", "var"]),
    "assignbfs": bfs(["asg", "opasg", "lvar", "lidx", "lattr", "lconst"], ops=[], depth=3, fuel=2, stmts=1, leaves=["one", "name"],
                     thorough=dict(fuel=3)),
    "massignbfs": bfs(["masgn"], ops=[], depth=2, fuel=1, stmts=1, leaves=["one", "name"], thorough=dict(fuel=2)),
    "defs": sim(DEFS, fuel=12, depth=5, boost=["def", "sdef", "class", "module", "sclass", "alias"], quick=12000,
                leaves=["int", "str", "name", "name", "con", "var"]),
    "coll": sim(COLL, ops=ALLOPS, fuel=12, depth=5, boost=["array", "hash", "cpath", "lam", "..", "..."], quick=12000,
                leaves=["int", "flt", "str", "sym", "kwd", "con", "name", "neg", "chr"]),
    "collbfs": bfs(["array", "hash"], ops=["..", "..."], depth=3, fuel=2, stmts=1, leaves=["int", "str", "sym", "kwd", "var"], args=3),
    "params": sim(PARAMS, fuel=8, depth=4, leaves=["int", "str", "kwd", "name", "name"], boost=["def", "lam", "blkcall", "p", "paren", "bare"], quick=12000),
    "parambfs": bfs(["def", "lam", "blkcall", "brace", "bpar", "longpar", "fwd"], ops=[], depth=2, fuel=1, stmts=1, leaves=["one"]),
    "faults": sim(sorted(set(ALLF) - {"hdoc", "hdoci"}) + FAULTS + ["fault"], ops=ALLOPS, leaves=ALLLEAVES, boost=["fault", "fault", "def", "blkcall", "f_seq", "f_seq", "f_seq", "f_stray"], quick=12000),
    "faultsmut": sim(sorted(set(ALLF) - {"hdoc", "hdoci"}) + FAULTS + ["fault"], ops=ALLOPS, leaves=ALLLEAVES, boost=["fault", "def", "blkcall"], quick=2000, thorough=40000),
    "faultsdef": sim(["def", "sdef", "blkcall", "brace", "do", "lam", "class", "if", "paren", "asg", "fwd", "jump", "rescue", "for", "masgn"] + FAULTS + ["fault"],
                     boost=["fault", "def", "if", "paren", "begin", "f_class", "f_module", "f_const", "f_mconst", "f_opconst"], quick=8000, stmts=2),
    "legal": sim(["def", "sdef", "class", "module", "blkcall", "brace", "do", "lam", "nump", "asg", "masgn", "opasg", "lconst", "fwd", "call", "callargs",
                  "array", "paren", "bpar", "if", "mod_if"], ops=ALLOPS, leaves=["num1", "int", "name", "con"], boost=["np", "lconst", "fwd", "f"], quick=8000),
    "nums": sim(["blkcall", "brace", "do", "lam", "nump", "asg", "call", "callargs", "for", "if", "while", "begin", "paren", "array", "istr", "hdoci", "mod_if", "fault",
                 "f_num_use", "f_num_nest", "f_num_nest2"], leaves=["num1", "num1", "one"], boost=["np", "np", "blkcall", "lam", "f_num_use", "for"], fuel=10, quick=8000),
    "onlymods": sim(["mod_if", "mod_unless", "mod_while", "mod_until", "mod_rescue", "onlymods", "asg", "cmdcall", "andor", "jump", "masgn", "alias"],
                    fuel=6, depth=5, quick=4000),
}

# property -> (campaigns of Grammar, aspects given to the harness, kinds of failures that count)
PROPS = {
    "C01": dict(grammar=["scope", "scopehost", "scopebfs", "scopebfs2", "scopebfs3", "ambig", "general"], aspects="ast,accept", kinds=["ast"]),
    "C02": dict(grammar=["scope", "scopehost", "scopebfs", "scopebfs2", "scopebfs3", "params", "assign", "general"], aspects="tbl", kinds=["tbl"]),
    "C03": dict(grammar=["scope", "scopehost", "general", "ambig"], aspects="chunk,ast,tbl", kinds=["chunk"]),
    "C04": dict(grammar=["ops", "opsbfs", "opsbfs3", "general"], aspects="ast", kinds=["ast"]),
    "C05": dict(grammar=["flow", "flowbfs", "flowbfs2", "flowbfs3", "flowbfs4", "flowbfs5", "onlymods", "general"], aspects="ast", kinds=["ast"]),
    "C06": dict(grammar=["general", "faults", "flow", "calls", "defs", "params", "assign"], aspects="eof,neg", kinds=["eof", "neg-eof", "lit-eof", "num-eof", "ambig-eof", "doc-eof", "soup-eof"],
                cases=["soupdecs", "soupbr", "strings", "regsyms", "numbers", "ambig3", "docs"]),
    "C07": dict(grammar=["params", "parambfs", "faultsdef"], aspects="ast,tbl,neg", kinds=["ast", "tbl", "neg:dup", "neg:f_dup", "neg:f_order", "neg:f_num_par", "neg:f_numname"]),
    "C08": dict(grammar=["calls", "callsbfs", "ambig", "general"], aspects="ast", kinds=["ast"]),
    "C09": dict(grammar=["assign", "assignbfs", "massignbfs", "faults", "general"], aspects="ast,neg", kinds=["ast", "neg:f_target", "neg:f_optarget", "neg:f_mtarget", "neg:f_rvar", "neg:f_num_asg", "neg:f_num_op", "neg:f_num_masgn"]),
    "C10": dict(grammar=["general", "flow", "calls", "assign", "coll", "defs"], aspects="layout", kinds=["layout"], layouts=6),
    "C11": dict(cases=["strings", "strbfs", "strbfs2", "pctbfs", "symchr"], kinds=["lit", "lit-eof", "lit-neg"]),
    "C12": dict(cases=["numbers", "numlong", "numbfs", "numruns", "numctx"], kinds=["num", "num-eof", "num-neg"]),
    "C13": dict(grammar=["general", "calls", "coll", "defs", "faults"], aspects="loc,eof", kinds=["loc", "inside", "errloc", "line", "shown", "source"],
                cases=["strings", "regsyms", "numbers", "namebfs", "ambig3", "docs", "srcbfs", "srclong", "charss"]),
    "C14": dict(grammar=["faults", "faultsdef", "legal", "nums"], aspects="neg,accept", kinds=["neg", "ast", "soup-neg"], cases=["soupdecs", "soupbr"]),
    "C15": dict(grammar=["mutants", "faultsmut"], aspects="det,mut", kinds=["det", "panic", "inside", "errloc", "soup", "soup-neg", "soup-eof", "scale"], layouts=0,
                cases=["soupdec", "soupdecs", "soupbr", "soupany", "soupanys", "chars3", "chars4", "charss", "flat", "deep", "strings_m", "regsyms_m", "numbers_m",
                       "ambig3_m", "docs_m", "names_m"], extra=["findings"]),
    "C16": dict(cases=["regsyms", "rebfs", "listbfs", "symchr", "ambig1", "ambig3"], kinds=["lit", "lit-eof", "lit-neg", "ambig", "ambig-eof", "ambig-neg"]),
    "C17": dict(cases=["docs", "docbody", "docqueue"], kinds=["doc", "doc-eof", "doc-neg", "eof"]),
    "C18": dict(grammar=["defs", "scopebfs2", "general"], aspects="ast", kinds=["ast"]),
    "C19": dict(grammar=["coll", "collbfs", "general"], aspects="ast", kinds=["ast"]),
    "C20": dict(cases=["names", "namebfs", "namekw"], kinds=["name", "name-eof", "name-neg"]),
}


TRUST = ("Assumes that the TLA+ specification states the language rules correctly and that the harness projects the public AST faithfully; "
         "bounded: exhaustive up to the sizes in the evidence, seeded random behaviours beyond that.")
NOTES = {
    "C01": "Every identifier of every generated program carries the depth computed by the specification's scope stack; a wrong depth or a variable taken as a call differs in the tree. " + TRUST,
    "C02": "The specification keeps the variable table of every scope; all tables of the real result are compared. " + TRUST,
    "C03": "Programs are also fed statement by statement with the returned table; trees and tables after each piece must equal the specification's. " + TRUST,
    "C04": "Operator expressions are generated from the precedence table; the tree must be the one the table gives. " + TRUST,
    "C05": "Control-flow constructs in all nestings; branches, clauses, values compared with the specification's meaning. " + TRUST,
    "C06": "Every token prefix of every generated program is parsed; the specification knows which prefixes are incomplete; illegal programs must not be reported as end of input. " + TRUST,
    "C07": "Parameter lists come from an automaton over parameter kinds, with its rejected transitions as faults. " + TRUST,
    "C08": "Calls, argument lists, blocks and chains are generated with their attachment; trees compared. " + TRUST,
    "C09": "Assignments of all kinds are generated with their meaning; illegal targets must be rejected. " + TRUST,
    "C10": "Each program is rendered in several random layouts at the places where the specification gives layout no meaning. " + TRUST,
    "C13": "Locations of literals, names and variables, and start and end of composite nodes, are computed from the rendered token spans; nodes must lie within their parents; SourceMap.tla states what the source-location functions return. " + TRUST,
    "C11": "Literals.tla states what every character, escape and interpolation of every string form denotes; the denoted value is compared. " + TRUST,
    "C12": "Numbers.tla computes the exact value of every written number in every radix; compared with the literal of the tree. " + TRUST,
    "C16": "Literals.tla (regexps, symbols, word lists, flags) and Ambig.tla (which token starts at / % : ? << - + * & [ given what precedes and the spacing). " + TRUST,
    "C17": "Heredoc.tla keeps the queue of waiting bodies over whole programs; trees, tables and truncations compared. " + TRUST,
    "C14": "Fault actions of the specification append an illegal construct in a context where it is illegal; the parser must reject it, and accept the legal counterparts. " + TRUST,
    "C15": "All texts of all campaigns, their prefixes and illegal extensions must end in a result or an error, twice the same. " + TRUST,
    "C18": "Definitions of all kinds are generated with names, receivers, paths and bodies; trees compared. " + TRUST,
    "C19": "Collections, ranges, constant paths and constness flags; trees compared. " + TRUST,
    "C20": "Names.tla spells names character by character, gives each its class, and puts it in every kind of place, with the tree it means there or its rejection. " + TRUST,
}
NA = {}


# ---------------------------------------------------------------------------------------------------------------
# Character-level specifications: Literals, Numbers, ...
LITCH = ["a", "Z", "0", "%20;", "%e9;", "%3042;", "%1f600;", "%9;", "%a;", ";", "=", "|", "&", "~", "^", ",", ".", ":", "?", "!", "*", "+", "-", "<", ">",
         "/", "%27;", '"', "`", "%28;", "%29;", "[", "]", "{", "}", "#", "$", "%40;", "%25;", "_"]
STRF = ["dq", "sq", "Q", "pct", "q", "cmd"]
REF = ["re", "ref", "rr", "symd", "syms", "w", "i"]
INNER = ["dq", "sq", "Q", "q", "re", "w", "i", "cmd"]
LITI = ["plain", "esc", "class", "nest", "interp", "bad", "adj"]


def mut(c, quick, thorough):
    """as c, with the neighbours of every text"""
    return dict(c, quick=quick, thorough=thorough, aspects="ast,loc,det,mut", shard=250)


def lit(forms, items=LITI, inner=INNER, chars=LITCH, ctxs="1..26", maxitems=6, depth=3, total=14, quick=None, thorough=None, deep=None):
    """deep: overrides of a bfs instance in the thorough tier"""
    sets = dict(Forms=forms, Inner=inner, Items=items, Chars=chars)
    return dict(module="Literals", sim=quick is not None, quick=quick, thorough=thorough, deep=deep or {}, sets=sets, raw=dict(Ctxs=ctxs),
                ints=dict(MaxItems=maxitems, MaxDepth=depth, MaxTotal=total),
                inv="TypeOK Alternate Closed Levels BytesOK")


FEWCH = ["a", "#", "{", "}", '"', "%27;", "%20;", "%a;", "$", "%40;"]
BRKCH = ["a", "%28;", "%29;", "{", "}", "#", "%20;", "%a;", "<", ">", "|"]
CASES = {
    "strings": lit(STRF, quick=40000, thorough=800000),
    "regsyms": lit(REF + ["chr", "sym"], quick=40000, thorough=800000),
    "strbfs": lit(["dq", "sq", "cmd"], items=["plain", "esc", "bad", "adj"], chars=FEWCH, ctxs="{1}", maxitems=2, depth=1, total=3, deep=dict(MaxItems=3, MaxTotal=4)),
    "strbfs2": lit(["dq", "cmd"], items=["plain", "interp"], chars=["a", "#", "{", "}", '"'], inner=["dq", "sq", "q"], ctxs="{1}", maxitems=3, depth=2, total=4, deep=dict(MaxTotal=5)),
    "pctbfs": lit(["Q", "pct", "q"], items=["plain", "nest", "esc"], chars=BRKCH, ctxs="{1}", maxitems=2, depth=1, total=4, deep=dict(MaxItems=3)),
    "rebfs": lit(["re", "ref", "symd", "syms"], items=["plain", "esc", "class"], chars=FEWCH + ["[", "]"], ctxs="{1}", maxitems=2, depth=1, total=3),
    "listbfs": lit(["rr", "w", "i"], items=["plain", "nest", "esc"], chars=BRKCH + ["[", "]"], ctxs="{1}", maxitems=3, depth=1, total=4),
    "symchr": lit(["chr", "sym"], ctxs="1..26", maxitems=1, depth=1, total=1, deep={}),
}

NK = ["us", "frac", "exp", "imag", "sign", "bad", "run"]


def num(kinds=NK, radices=("10", "16", "8", "0", "2"), ctxs="1..26", digs="0..15", maxlen=8, quick=None, thorough=None, deep=None):
    return dict(module="Numbers", sim=quick is not None, quick=quick, thorough=thorough, deep=deep or {}, sets=dict(Radices=radices, Kinds=kinds),
                raw=dict(Ctxs=ctxs, DigSet=digs), ints=dict(MaxLen=maxlen), inv="TypeOK Canon Pending", props="" if quick else "Step")


CASES.update({
    "numbers": num(quick=60000, thorough=1000000),
    "numlong": num(kinds=["us", "sign", "run", "imag"], maxlen=30, quick=20000, thorough=300000),
    "numbfs": num(kinds=["us", "frac", "exp", "imag", "sign", "bad"], ctxs="{1}", digs="{0, 1, 7, 8, 9, 15}", maxlen=3, deep=dict(MaxLen=4)),
    "numruns": num(kinds=["run", "sign"], ctxs="{1}", digs="{0, 1, 7, 8, 9, 15}", maxlen=4, deep=dict(MaxLen=5)),
    "numctx": num(kinds=["sign", "frac", "exp", "imag", "bad"], digs="{0, 1}", maxlen=2),
})


def ambig(depth, quick=None, thorough=None, deep=None):
    return dict(module="Ambig", sim=quick is not None, quick=quick, thorough=thorough, deep=deep or {}, sets={}, raw={}, ints=dict(Depth=depth),
                inv="TypeOK Total")


CASES.update({
    "ambig1": ambig(1),
    "ambig3": ambig(3, quick=20000, thorough=400000),
})

KWS = ["BEGIN", "END", "alias", "and", "begin", "break", "case", "class", "def", "do", "else", "elsif", "end", "ensure", "for", "if", "in", "module", "next", "or",
       "redo", "rescue", "return", "super", "then", "until", "unless", "when", "while", "yield", "nil", "true", "false", "self", "__LINE__", "__FILE__", "defined"]
GLOBALS = ["LOAD_PATH", "LOADED_FEATURES"]


def names(heads, tails, words, maxlen, sigils=("", "%40;", "%40;%40;", "$"), sufs=("", "?", "!", "="), quick=None, thorough=None, deep=None):
    return dict(module="Names", sim=quick is not None, quick=quick, thorough=thorough, deep=deep or {},
                sets=dict(Heads=heads, Tails=tails, Words=words, Sigils=sigils, Sufs=sufs), raw={}, ints=dict(MaxLen=maxlen), inv="TypeOK Whole Placed")


CASES.update({
    "names": names(["a", "m", "z", "A", "Z", "_", "%e9;", "%3042;", "%1f600;"], ["a", "b", "z", "A", "_", "0", "7", "%e9;", "%3042;", "%1f600;"], KWS + GLOBALS, 3, quick=60000, thorough=1000000),
    "namebfs": names(["a", "A", "_", "%3042;"], ["1", "_"], ["if", "nil", "do", "self", "end", "defined", "LOAD_PATH"], 1, deep=dict(MaxLen=2)),
    "namekw": names(["a"], ["x"], KWS, 0, sigils=[""], deep=dict(MaxLen=1)),
})

HOPENS = ["call", "arr", "paren", "brace", "do", "istr", "puts", "asg", "def"]
HLINES = ["plain", "look", "esc", "interp", "var", "cont", "nest", "blank"]
HEX = ["dot", "modif", "plus", "nlstr", "words", "comment", "cont", "asgn"]


def doc(opens=HOPENS, forms=("", "-", "~"), quotes=("", '"', "%27;", "`"), ids=("A", "EOS", "a_1", "_Q", "end"), lines=HLINES, extras=HEX, docs=3, maxlines=3,
        depth=3, steps=14, quick=None, thorough=None, deep=None):
    return dict(module="Heredoc", sim=quick is not None, quick=quick, thorough=thorough, deep=deep or {},
                sets=dict(Opens=opens, Forms=forms, Quotes=quotes, Ids=ids, Lines=lines, Extras=extras), raw={},
                ints=dict(MaxDocs=docs, MaxLines=maxlines, MaxDepth=depth, MaxSteps=steps), inv="TypeOK Written Scopes", props="" if quick else "Queue")


CASES.update({
    "docs": doc(quick=40000, thorough=600000),
    "docbody": doc(opens=[], extras=[], docs=1, maxlines=2, depth=1, steps=2, ids=["A"], deep=dict(MaxLines=3)),
    "docqueue": doc(opens=["call", "arr", "puts", "brace"], forms=[""], quotes=["", "%27;"], ids=["A"], lines=["interp"], extras=["plus", "dot"], docs=3, maxlines=0, depth=2, steps=6, deep=dict(MaxSteps=7)),
})


def src(chars, runs, maxlen, ask, quick=None, thorough=None, deep=None):
    return dict(module="SourceMap", cmd="src", shard=500, sim=quick is not None, quick=quick, thorough=thorough, deep=deep or {}, sets=dict(Chars=chars),
                raw=dict(Runs=runs), ints=dict(MaxLen=maxlen, MaxAsk=ask, Width=80), inv="TypeOK" + ("" if quick else " Monotone RowsFit"))


SRCCH = ["a", "%a;", "%e9;", "%3042;", "%1f600;", "%9;", "%301;", "%20;"]
CASES.update({
    "srcbfs": src(["a", "%a;", "%e9;", "%3042;", "%9;"], "{1}", 5, 1, deep=dict(MaxLen=6)),
    "srclong": src(SRCCH, "{1, 2, 3, 39, 40, 41, 79, 80, 81}", 250, 3, quick=4000, thorough=100000),
})


def soup(toks, seps=("%20;",), frames="{1}", maxlen=3, decided=False, quick=None, thorough=None, deep=None):
    return dict(module="Soup", sim=quick is not None, quick=quick, thorough=thorough, deep=deep or {}, sets=dict(Toks=list(toks), Seps=list(seps)),
                raw=dict(Frames=frames, Decided="TRUE" if decided else "FALSE"), ints=dict(MaxLen=maxlen), inv="TypeOK", props="" if quick else "Dead Balance",
                aspects="ast,loc,det")


def enc(s):
    return "".join(c if c.isascii() and c.isalnum() else "%%%x;" % ord(c) for c in s)


KWS = ("begin end if unless while until case when then do else elsif rescue ensure def class module for in return break next redo and or alias defined? yield "
       "super self nil true false not").split()
SAFEOPS = "+ - * ** = == => -> . &. :: , ; | & || && ! ~ ^ < > >> <=> .. ... += ||= : != =~ -@".split()
ATOMS = ["a", "A", "@a", "$a", "1", "1.5", '"s"', ":b", "a:", "_1", "a?", "b!", "__LINE__", "'q'", "@@a", ":+"]
SOUPDEC = KWS + [enc(x) for x in SAFEOPS + ATOMS + list("()[]{}")] + ["%a;"]
SOUPANY = SOUPDEC + [enc(x) for x in ["/", "%", "?", "<<", "<<A", "<<~A", "\"", "'", "`", "#", "#{", "\\", "%w(", "%i[", "%q", "/r/", "?a", "1e", "0x", "0b1", "1_", ":\"", "$", "@", "=begin",
              "__END__", "\0", "\r", "\u3042", "\u00e9", "BEGIN", "END", "undef", "retry", "$1", "$'", "1r", "1i", "=>", "**a", "&b", "..1", "<<-'A'", "A\n", "\t", "\ufeff", "1..", "a=", "[]=", "~>"]]
CHARS = [enc(chr(c)) for c in range(32, 127)] + ["%a;", "%9;", "%d;", "%0;", "%3042;", "%e9;", "%1f600;", "%feff;", "%a0;", "%2028;"]
FEWCHARS = [enc(c) for c in "a1A_ \n\"'`#{}()[]<>|%?:/\\$@&*+-=.,;!~^"] + ["%3042;", "%0;"]
CASES.update({
    "soupdec": soup(SOUPDEC, maxlen=3, decided=True),
    "soupdecs": soup(SOUPDEC, seps=["%20;", "%20;", "%a;"], maxlen=14, decided=True, quick=60000, thorough=1000000),
    "soupbr": soup([enc(x) for x in "a ( ) [ ] { } | , -> do end if begin def".split()] + ["%a;"], maxlen=4, decided=True, deep=dict(MaxLen=5)),
    "soupany": soup(SOUPANY, seps=["", "%20;"], maxlen=2, frames="1..28", deep=dict()),
    "soupanys": soup(SOUPANY, seps=["", "", "%20;", "%a;"], maxlen=16, frames="1..28", quick=60000, thorough=2000000),
    "chars3": soup(CHARS, seps=[""], maxlen=2, frames="1..28", deep=dict(MaxLen=3)),
    "chars4": soup(FEWCHARS, seps=[""], maxlen=3, deep=dict(MaxLen=4)),
    "charss": soup(CHARS, seps=[""], maxlen=24, frames="1..28", quick=60000, thorough=2000000),
})


def scale(fams, flat="{1000}", depth=40, deep=None):
    return dict(module="Scale", cmd="scale", sim=False, deep=deep or {}, sets=dict(Fams=fams), raw=dict(FlatSizes=flat), ints=dict(Depth=depth), inv="TypeOK", nomode=True,
                args=["--stack", str(8 << 20)] if fams == ["deep"] else [])


CASES.update({
    "flat": scale(["flat"], flat="{2, 50, 2000, 30000}"),
    "deep": scale(["deep"], depth=40, deep=dict(Depth=100)),
})


def case_module(name, c, tier):
    ints = dict(c["ints"])
    if tier == "thorough" and not c["sim"]:
        ints.update(c["deep"])
    q = lambda v: "{" + ", ".join('"%s"' % x.replace("\\", "\\\\").replace('"', '\\"') for x in v) + "}"
    tla = f"---- MODULE K_{name} ----\nEXTENDS {c['module']}\n"
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + ("" if c.get("nomode") else f' Mode = "{"sim" if c["sim"] else "bfs"}"\n')
    for k, v in c["sets"].items():
        tla += f"c{k} == {q(v)}\n"
        cfg += f" {k} <- c{k}\n"
    for k, v in c["raw"].items():
        tla += f"c{k} == {v}\n"
        cfg += f" {k} <- c{k}\n"
    for k, v in ints.items():
        cfg += f" {k} = {v}\n"
    return tla + "====\n", cfg + f"INVARIANTS {c['inv']}\n" + (f"PROPERTIES {c['props']}\n" if c.get("props") else "")


def case_jobs(K, run, name, tier, seed):
    c = CASES[name]
    tla, cfg = case_module(name, c, tier)
    jobs = []
    if c["sim"]:
        n = c[tier]
        k = min(8, max(1, n // c.get("shard", 2000)))
        for i in range(k):
            s = int(K.hashlib.sha256(f"{name}/{seed}/{i}".encode()).hexdigest()[:12], 16)
            jobs.append(K.Tlc(run, f"{name}-{i}", (f"K_{name}", tla, cfg), "", ["-simulate", f"num={n // k}", "-depth", "400", "-seed", str(s), "-workers", "1"],
                              300 if tier == "quick" else 3000))
    else:
        jobs.append(K.Tlc(run, name, (f"K_{name}", tla, cfg), "", ["-workers", "4"], 400 if tier == "quick" else 3000, mem="6g"))
    return jobs, [c.get("cmd", "case"), "--aspects", c.get("aspects", "ast,loc,eof,det")] + c.get("args", [])


for k in ["strings", "regsyms", "numbers", "ambig3", "docs", "names"]:
    CASES[k + "_m"] = mut(CASES[k], 3000, 60000)


def findings(prop):
    """open findings of KNOWN_FINDINGS.txt: (id, text, description)"""
    import os, re
    out = []
    for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")):
        m = re.match(r'finding: property=(\S+) id=(\S+) text="(.*?)" \+ "(.*?)" x (\d+)  (.*)', l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3) + m.group(4) * int(m.group(5)), m.group(6)))
    return out


def open_findings(K, run, tier, seed):
    """the texts of the open findings, each in a process of its own with the stack a program has"""
    fails, known = [], []
    for fid, text, what in findings("C15"):
        try:
            q = K.subprocess.run([K.HB, "one", "--stack", str(8 << 20)], input=text, stdout=K.subprocess.PIPE, stderr=K.subprocess.PIPE, text=True, timeout=120)
            bad = q.returncode != 0
        except K.subprocess.TimeoutExpired:
            bad = False
            fails.append(dict(kind="hang", text=text[:200], expected="an answer", got="none after 120 s", campaign="findings", args=[], trace=""))
        if bad:
            known.append(fid)
            print(f"KNOWN-FINDING: property=C15 {fid}: {what}")
    return fails, dict(known_findings_seen=known)


EXTRA = {"findings": open_findings}
