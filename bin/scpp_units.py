"""Program templates for the preprocessor (C15)."""
import re
from vp import Unit

F = ["scpp.c:main", "PPMain", "HandleDirective", "NewCond", "CondActive", "EvalExpr", "EvalExpr1", "EvalUnary", "OperatorPrecedence", "GetToken", "ReplaceId", "AddId", "IsDefined", "Accept", "Expect", "SkipWS", "RawSkipWS"]
CALLS = [("RawGetToken", "vp_rawtoken"), ("ReadChar", "vp_readchar"), ("OutputStr", "vp_outputstr")]
TOK = {"<=": "TOK_LTEQ", ">=": "TOK_GTEQ", "==": "TOK_EQEQ", "!=": "TOK_NOTEQ", "&&": "TOK_ANDAND", "||": "TOK_OROR"}

def toks(line):
    """a line of C as calls that append its tokens"""
    out = []
    for m in re.finditer(r"\s+|S(\d+)|[A-Za-z_]\w*|\d\w*|<=|>=|==|!=|&&|\|\||@|.", line):
        x = m.group(0)
        if x.isspace(): out.append("W")
        elif m.group(1): out.append("N(%s);" % m.group(1))
        elif x[0].isdigit(): out.append("C(%s)" % x)
        elif x[0].isalpha() or x[0] == "_": out.append("ID(%s)" % x)
        elif x in TOK: out.append("OPT(%s)" % TOK[x])
        elif x == "@": out.append("OPS")
        else: out.append("OPT('%s')" % x)
    return " ".join(out)

def prog(src):
    out = []
    for l in src.split("\n"):
        l = l.strip()
        if not l: continue
        m = re.match(r"#(\w+)\s*(.*)", l)
        if m: out.append("D(%s) %s NL" % (m.group(1), toks(m.group(2))))
        else: out.append("L(%s);" % l)
    return " ".join(out)

def cexpr(e):
    return re.sub(r"\bS(\d+)", r"S[\1]", e)

def unit(name, src, expect, build=None, **kw):
    b = build or prog(src)
    d = ["BUILD=" + b, "EXPECT=" + "; ".join("X(%d,%s)" % (k, cexpr(c)) for k, c in expect)]
    km = kw.pop("kmax", 1)
    ch = kw.pop("choose", 0)
    if ch: d.append("CHOOSE=%d" % ch); km *= 2 ** ch
    k0 = kw.pop("kmin", 0)
    if k0: d.append("KMIN=%d" % k0)
    km = kw.pop("kto", km)
    if km > 1: d.append("KMAX=%d" % km)
    for k in ("reject", "must", "pre"):
        if k in kw: d.append(k.upper() + "=" + cexpr(kw.pop(k)))
    if kw.pop("nocover", 0): d.append("NOCOVER=1")
    n = len(re.findall(r"\b(t|D|N|ID|C|OPT|OPS|L|W|NL)\b", b))
    return Unit(name, "scpp/cond.c", d, unwind=max(400, 2 * n + 20), fs=600, opts=["--object-bits", "12"], functions=F, calls=CALLS, **kw)

BIN = ["+", "-", "&", "^", "|", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "*", "/", "%"]

LEVEL = {"*": 0, "/": 0, "%": 0, "+": 1, "-": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "==": 3, "!=": 3, "&": 4, "^": 5, "|": 6, "&&": 7, "||": 8}
REP = ["*", "-", "<", "==", "&", "^", "|", "&&", "||"]

def cond_units(tier):
    us = []
    def group(name, src, expect, n, **kw):
        for k in range(0, 2 ** n, 4):
            us.append(unit(name if n < 3 else "%s_%d" % (name, k), src, expect, choose=n, kmin=k, kto=min(k + 4, 2 ** n), **kw))
    def ex(name, e, **kw):
        us.append(unit("e_" + name, "#if %s\n1\n#else\n2\n#endif\n3" % e, [(1, e), (2, "!(%s)" % e), (3, "1")], **kw))
    num = lambda o: {"*": "7", "/": "13", "%": "13"}.get(o)
    # every operator, and every pair of operators (precedence and associativity)
    for i, o in enumerate(BIN):
        ex("bin%d" % i, "S0 %s %s == S2" % (o, num(o) or "S1") if o not in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") else "S0 %s S1" % o)
        for j, p in enumerate(BIN):
            # quick: neighbouring levels of precedence and one operator of each other level
            a, b = LEVEL[o], LEVEL[p]
            if tier == "quick" and abs(a - b) > 1 and not (o == REP[a] and p == REP[b]) : continue
            if tier == "quick" and abs(a - b) == 1 and o != REP[a] and p != REP[b]: continue
            ex("pair%d_%d" % (i, j), "S0 %s %s %s %s == S3" % (o, num(o) or "S1", p, num(p) or "S2") if p not in ("&&", "||", "&", "^", "|", "==", "!=") and o not in ("&&", "||", "&", "^", "|")
               else "(S0 %s %s %s %s) == S3" % (o, num(o) or "S1", p, num(p) or "S2"))
    for n, e in (("neg", "-S0 < S1 - S2"), ("inv", "~S0 == S1 - S2"), ("not", "!S0 == S1"), ("plus", "+S0 == S1"), ("negneg", "- -S0 == S1"), ("notnot", "!!S0 == S1"),
                 ("notneg", "!-S0 + ~-S1 == -S2"), ("par", "(S0 - (S1 - S2)) == S3"), ("par2", "((S0)) == (S1 | S2) - 1"), ("mulneg", "S0 * -3 == S1 - S2"),
                 ("tern", "S0 ? S1 : S2"), ("tern2", "(S0 ? S1 : S2 ? S3 : S4) == S5"), ("tern3", "(S0 ? S1 ? S2 : S3 : S4) == S5"), ("tern4", "S0 == S1 ? S2 < S3 : S4 || S5"),
                 ("tern5", "(S0 < S1 ? S2 + 1 : S3 - 1) == S4"), ("long", "S0 + S1 - S2 + S3 - S4 == S5 - S6"), ("logic", "S0 && !S1 || S2 == S3 && (S4 || S5)"),
                 ("spaces", "S0==S1&&S2<S3")):
        ex(n, e)
    for n, t, v in (("dec", "65535", 65535), ("oct", "0177", 0o177), ("hex", "0xABcd", 0xabcd), ("zero", "0", 0), ("sufu", "10u", 10), ("sufl", "10L", 10), ("sufull", "0x1fULL", 31), ("octl", "017l", 15)):
        us.append(unit("n_" + n, "#if %s == S0\n1\n#else\n2\n#endif" % t, [(1, "S0==%d" % v), (2, "S0!=%d" % v)]))
    for n, e in (("bad8", "08"), ("bada", "1a"), ("badz", "0x1g"), ("two", "S0 S1"), ("none", ""), ("op", "S0 +"), ("par", "(S0"), ("close", "S0)"), ("lt", "S0 < < S1"), ("call", "foo(S0)"), ("colon", "S0 ? S1")):
        us.append(unit("bad_" + n, "#if %s\n1\n#endif" % e, [], must="1", nocover=1))
    # division: never by zero, unless it is not evaluated
    for o in "/%":
        n = "div" if o == "/" else "mod"
        us.append(unit("zero_" + n, "#if 5 %s S0\n1\n#endif" % o, [(1, "5 %s (S0?S0:1)" % o)], must="S0==0", pre="S0<4"))
        us.append(unit("skip_" + n, "#if S0 && 5 %s S0 || S1\n1\n#endif" % o, [(1, "S0 && 5 %s (S0?S0:1) || S1" % o)], pre="S0<4"))
        us.append(unit("skip2_" + n, "#if S1 || 5 %s S0\n1\n#endif" % o, [(1, "S1 || 5 %s (S0?S0:1)" % o)], must="S0==0&&S1==0", pre="S0<4"))
        us.append(unit("skip3_" + n, "#if S1 ? 7 : 5 %s S0\n1\n#endif" % o, [(1, "S1 ? 7 : 5 %s (S0?S0:1)" % o)], must="S0==0&&S1==0", pre="S0<4"))
        us.append(unit("skip4_" + n, "#if (S1 ? 5 %s S0 : 7) + 1 == S2\n1\n#endif" % o, [(1, "(S1 ? 5 %s (S0?S0:1) : 7) + 1 == S2" % o)], must="S0==0&&S1!=0", pre="S0<4"))
        us.append(unit("skip5_" + n, "#if S1 && (S2 || 5 %s S0) || 5 %s 1 == S3\n1\n#endif" % (o, o), [(1, "S1 && (S2 || 5 %s (S0?S0:1)) || 5 %s 1 == S3" % (o, o))], must="S0==0&&S1!=0&&S2==0", pre="S0<4"))
    # names
    us.append(unit("undefined", "#if foo + 1 == S0 && !bar\n1\n#endif", [(1, "S0==1")]))
    us.append(unit("predef", "#if __SCC__\n1\n#endif\n#ifdef __SCC__\n2\n#endif\n#if defined __SCC__\n3\n#endif\n#if defined(__FILE__) && defined(__LINE__)\n4\n#endif", [(1, "1"), (2, "1"), (3, "1"), (4, "1")]))
    DEF = "#define foo S0\n"
    us.append(unit("defined", DEF.replace(" S0", "") + "#if defined(foo) && !defined(bar) && !defined bar\n1\n#endif\n#if defined foo\n2\n#endif\n#if defined( foo ) == S1\n3\n#endif\n#undef foo\n#if defined(foo) || defined foo\n4\n#endif",
                   [(1, "1"), (2, "1"), (3, "S1==1")]))
    us.append(unit("ifdef", "#define foo\n#ifdef foo\n1\n#else\n2\n#endif\n#ifndef foo\n3\n#else\n4\n#endif\n#ifdef bar\n5\n#else\n6\n#endif\n#ifndef bar\n7\n#endif\n#undef foo\n#ifdef foo\n8\n#endif\n#ifndef foo\n9\n#endif\n#define foo\n#ifdef foo\n10\n#endif",
                   [(1, "1"), (4, "1"), (6, "1"), (7, "1"), (9, "1"), (10, "1")]))
    # groups
    group("elif", "#if S0\n1\n#elif S1\n2\n#elif S2\n3\n#else\n4\n#endif\n5", [(1, "S0"), (2, "!S0&&S1"), (3, "!S0&&!S1&&S2"), (4, "!S0&&!S1&&!S2"), (5, "1")], 3)
    us.append(unit("elif1", "#if 0\n1\n#elif S0 < S1\n2\n#else\n3\n#endif", [(2, "S0<S1"), (3, "S0>=S1")]))
    group("noelse", "0\n#if S0\n1\n#elif S1\n2\n#endif\n3", [(0, "1"), (1, "S0"), (2, "!S0&&S1"), (3, "1")], 2)
    group("nest", "#if S0\n1\n#if S1\n2\n#else\n3\n#endif\n4\n#else\n5\n#if S2\n6\n#elif S3\n7\n#endif\n8\n#endif\n9",
                   [(1, "S0"), (2, "S0&&S1"), (3, "S0&&!S1"), (4, "S0"), (5, "!S0"), (6, "!S0&&S2"), (7, "!S0&&!S2&&S3"), (8, "!S0"), (9, "1")], 4)
    group("nest3", "#if S0\n#if S1\n#if S2\n1\n#else\n2\n#endif\n#else\n3\n#endif\n#elif S3\n#ifdef foo\n4\n#else\n5\n#endif\n#else\n6\n#endif",
                   [(1, "S0&&S1&&S2"), (2, "S0&&S1&&!S2"), (3, "S0&&!S1"), (5, "!S0&&S3"), (6, "!S0&&!S3")], 4)
    group("seq", "#if S0\n1\n#endif\n#if S1\n2\n#endif\n#ifndef foo\n#if S2\n3\n#endif\n#endif\n4", [(1, "S0"), (2, "S1"), (3, "S2"), (4, "1")], 3)
    # definitions count only where they are selected
    group("seldef", "#if S0\n#define foo\n#else\n#define bar\n#endif\n#ifdef foo\n1\n#endif\n#ifdef bar\n2\n#endif", [(1, "S0"), (2, "!S0")], 1)
    group("selundef", "#define foo\n#if S0\n#undef foo\n#endif\n#ifdef foo\n1\n#else\n2\n#endif", [(1, "!S0"), (2, "S0")], 1)
    us.append(unit("skipped", "#if 0\n#if foo(1) 2 3\n1\n#elif * / +\n2\n#else\n3\n#endif\n#define x\n#error\n#foo\n#else\n4\n#endif\n#ifdef x\n5\n#endif", [(4, "1")]))
    group("done", "#if S0\n1\n#elif S1\n2\n#elif 1 1 1\n3\n#endif", [(1, "S0"), (2, "!S0&&S1")], 2, must="!S0&&!S1")
    group("error", "#if S0\n#error\n#endif\n1", [(1, "1")], 1, must="S0!=0")
    us.append(unit("pragma", "#pragma foo\n1\n#line 7\n2\n#\n3", [(1, "1"), (2, "1"), (3, "1")], build="D(pragma) ID(foo) NL L(1); D(line) C(7) NL L(2); t('#',\"#\"); NL L(3);"))
    for n, p in (("endif", "#endif"), ("else", "#else\n1\n#endif"), ("elif", "#elif 1\n1\n#endif"), ("unknown", "#foo"), ("if", "#if 1\n1"), ("ifdef", "#ifndef foo\n1\n#if 1\n#endif\n#else")):
        us.append(unit("stray_" + n, p, [], must="1", nocover=1))
    return us

