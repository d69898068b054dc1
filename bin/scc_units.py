"""Units (contract instances) for /repo/scc.c."""
from vp import Unit

CALLS = [("ParseCastExpression", "vp_cast"), ("Printf", "vp_Printf")]
EMIT = [("EmitAddRegConst", "vp_add"), ("EmitScaleAx", "vp_scale"), ("EmitDivAxConst", "vp_divc")]
EXPR_F = ["scc.c:ParseExpr1", "HandleCondOp", "DoBinOp", "DoRhsLvalBinOp", "DoRhsConstBinOp", "DoConstBinOp", "GetSimpleALU", "RemoveAssign",
          "LvalToRval", "GetVal", "GetStoredVal", "ToBool", "HandleLhsLvalLoc", "FlushPushAx", "FlushSpAdj", "EmitChecks", "EmitModrm", "EmitLoadAx",
          "EmitStoreAx", "EmitStoreConst", "EmitAddRegConst", "EmitScaleAx", "EmitDivAxConst", "EmitDivCX", "EmitMovRImm", "EmitMovRR", "EmitLoadAddr",
          "EmitExtend", "EmitJcc", "EmitJmp", "EmitLocalJump", "EmitLocalLabel", "DoFixups", "DoCondHasExpr", "ForceToReg", "ParseMaybeDead", "SizeofType",
          "OpCommutes", "FinishOp", "GetToken"]
SRC = dict(eq="==", ne="!=", le="<=", ge=">=", lt="<", gt=">", add="+", sub="-", mul="*", div="/", mod="%", xor="^", shl="<<", shr=">>", land="&&",
           lor="||", comma=",", cond="?:")
SRC["and"] = "&"; SRC["or"] = "|"
SPEC = dict(eq="TOK_EQEQ", ne="TOK_NOTEQ", le="TOK_LTEQ", ge="TOK_GTEQ", lt="'<'", gt="'>'", add="'+'", sub="'-'", mul="'*'", div="'/'", mod="'%'",
            xor="'^'", shl="TOK_LSH", shr="TOK_RSH", land="TOK_ANDAND", lor="TOK_OROR", comma="','", cond="O_COND")
SPEC["and"] = "'&'"; SPEC["or"] = "'|'"

# operand shapes: kind, type
V = {"lit": ("LIT", "INT"), "bool": ("BOOL", "INT")}
for k, n in (("LOC", "loc"), ("GLOB", "glob"), ("LVAX", "ind")):
    for t, m in (("INT", "i"), ("UINT", "u"), ("CHAR", "c"), ("UCHR", "b"), ("PI", "pi"), ("PC", "pc"), ("PS", "ps"), ("PU", "pu")):
        V[n + "_" + m] = (k, t)
    V[n + "_arr"] = (k, "ARR")
    V[n + "_st"] = (k, "ST")
for t, m in (("INT", "i"), ("UINT", "u"), ("PI", "pi"), ("PC", "pc"), ("PS", "ps")):
    V["ax_" + m] = ("AX", t)

ARITH = ["ax_i", "loc_i", "glob_u", "ind_c", "lit", "ax_u", "loc_c", "glob_i", "ind_b", "bool", "loc_u", "glob_b", "ind_i", "ind_u", "glob_c", "loc_b"]
BINOPS = ["add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr", "lt", "le", "gt", "ge", "eq", "ne"]
REL = ["lt", "le", "gt", "ge", "eq", "ne"]


def ctx_ok(lk, ctx):
    # an operand that already lives in AX cannot coexist with an outer one pending in AX
    return not (ctx & 4 and lk in ("AX", "LVAX", "BOOL"))


def expr(op, l, r, ctx=0, assign=False, r2=None, spill=0, dead=0, extra=(), tag=""):
    lk, lt = V[l]
    rk, rt = V[r]
    if not ctx_ok(lk, ctx):
        ctx &= ~4
    if lk == "BOOL":
        ctx &= 1      # the flags would not survive a pending SP adjustment
    if dead:
        ctx = (0, 2, 8)[(ctx + len(l)) % 3]
    src = (SRC[op] if op else "") + "=" if assign else SRC[op]
    spec = "O_ASSIGN" + ("+" + SPEC[op] if op else "") if assign else SPEC[op]
    d = ['SRC="%s;"' % src, "SPECOP=(%s)" % spec, "LKIND=K_" + lk, "LTYPE=T_" + lt, "RKIND=K_" + rk, "RTYPE=T_" + rt, "CTX=%d" % ctx, "SPILL=%d" % spill]
    name = "%s%s_%s_%s" % (op or "", "=" if assign else "", l, r)
    if r2:
        d += ["R2KIND=K_" + V[r2][0], "R2TYPE=T_" + V[r2][1]]
        name += "_" + r2
    if dead:
        d.append("DEAD=1")
        name += "_dead"
    d += list(extra)
    name += "_x%d" % ctx + ("s%d" % spill if spill else "") + tag
    return Unit(name, "scc/expr.c", d, unwind=30, calls=CALLS + EMIT, paths=True, fs=600, exact="VP_EXACT", functions=EXPR_F, timeout=200)


CTXS = [0, 1, 3, 4, 8, 5, 0, 9, 1, 2]



def binop_units(tier):
    us = []
    n = len(ARITH)
    rounds = 1 if tier == "quick" else 4
    for oi, op in enumerate(BINOPS):
        for rd in range(rounds):
            for li, l in enumerate(ARITH):
                if tier == "quick" and (li + oi // 2) % 2:
                    continue
                r = ARITH[(li + oi + rd * 4) % n]
                if l == "lit" and r == "lit" and op in REL:
                    r = "ax_i"
                extra = []
                i = li + oi + rd
                us.append(expr(op, l, r, ctx=CTXS[i % len(CTXS)], spill=(0, 1, 2)[(li + 2 * oi) % 3], extra=extra))
    # literals next to everything, in both positions
    for op in BINOPS:
        us.append(expr(op, "ax_i", "lit", ctx=1)); us.append(expr(op, "loc_u", "lit", ctx=4))
        us.append(expr(op, "lit", "ax_u", ctx=1, spill=1)); us.append(expr(op, "lit", "loc_i", ctx=4))
    return dedup(us)


def ptr_units(tier):
    us = []
    ints = ["lit", "ax_i", "loc_i", "ind_c", "glob_u", "bool"]
    ptrs = ["ax_pi", "loc_pi", "glob_pc", "ind_ps", "loc_arr", "glob_arr", "ax_pc", "ax_ps", "glob_ps", "ind_pi"]
    for i, p in enumerate(ptrs):
        for j, x in enumerate(ints):
            if tier != "quick" or (i + j) % 3 == 0:
                us.append(expr("add", p, x, ctx=CTXS[(i + j) % len(CTXS)], spill=(i + j) % 3))
                us.append(expr("sub", p, x, ctx=CTXS[(i + j + 1) % len(CTXS)], spill=(i + j) % 2))
                us.append(expr("add", x, p, ctx=CTXS[(i + j + 2) % len(CTXS)], spill=(i + j + 1) % 3))
    for i, (p, q) in enumerate([("ax_pi", "loc_pi"), ("loc_pi", "ax_pi"), ("loc_pc", "glob_pc"), ("ind_ps", "ax_ps"), ("loc_arr", "ax_pi"), ("ax_pi", "glob_arr"),
                                ("glob_pi", "ind_pi"), ("ax_pc", "ax_pc"), ("loc_ps", "glob_ps")]):
        us.append(expr("sub", p, q, ctx=CTXS[i], spill=i % 3))
        for j, op in enumerate(REL):
            if tier != "quick" or (i + j) % 3 == 0:
                us.append(expr(op, p, q, ctx=CTXS[(i + j) % len(CTXS)], spill=(i + j) % 3))
    for i, p in enumerate(["ax_pi", "loc_pc", "glob_ps"]):
        us.append(expr("eq", p, "lit", ctx=CTXS[i])); us.append(expr("ne", p, "lit", ctx=CTXS[i + 1])); us.append(expr("eq", "lit", p, ctx=CTXS[i], extra=["VP_PRE=!opd[0].val"]))
    return dedup(us)


LVALS = ["loc_i", "glob_u", "ind_c", "loc_c", "glob_b", "ind_i", "loc_u", "glob_i", "ind_b", "loc_b", "ind_u", "glob_c"]
def assign_units(tier):
    us = []
    n = len(ARITH)
    for oi, op in enumerate([None, "add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr"]):
        for li, l in enumerate(LVALS):
            if tier == "quick" and op:
                if (li + oi) % 3 == 0:
                    continue
                rs = ["lit" if (li + oi) % 3 == 2 else ARITH[(li + oi) % n]]
            elif tier == "quick":
                rs = [ARITH[(li + oi + k * 7) % n] for k in range(2)] + ["lit"]
            else:
                rs = ARITH
            for r in rs:
                us.append(expr(op, l, r, ctx=CTXS[(li + oi) % len(CTXS)], spill=(li + oi) % 3, assign=True))
    for i, (p, q) in enumerate([("loc_pi", "ax_pi"), ("glob_pc", "loc_pc"), ("ind_ps", "glob_ps"), ("loc_pi", "glob_arr"), ("ind_pi", "lit"), ("loc_pc", "lit")]):
        us.append(expr(None, p, q, assign=True, ctx=CTXS[i], spill=i % 3))
    for i, (p, x) in enumerate([("loc_pi", "lit"), ("loc_pi", "ax_i"), ("glob_pc", "loc_i"), ("ind_ps", "lit"), ("ind_pi", "ind_c"), ("glob_ps", "ax_u"), ("loc_pc", "lit"), ("ind_pc", "bool")]):
        us.append(expr("add", p, x, assign=True, ctx=CTXS[i], spill=i % 3))
        us.append(expr("sub", p, x, assign=True, ctx=CTXS[i + 1], spill=i % 3))
    for i, l in enumerate(("loc_st", "glob_st", "ind_st")):
        for j, r in enumerate(("loc_st", "glob_st", "ind_st")):
            us.append(expr(None, l, r, assign=True, ctx=CTXS[i + j], spill=(i + j) % 3, extra=["STRUCT_SIZE=%d" % (6, 5)[j & 1]]))
    return dedup(us)


def logic_units(tier):
    us = []
    n = len(ARITH)
    O = ARITH + ["ax_pi", "loc_pc"]
    for li, l in enumerate(O):
        for k in range(1 if tier == "quick" else 4):
            r = O[(li + 3 + 5 * k) % len(O)]
            us.append(expr("land", l, r, ctx=CTXS[li % len(CTXS)], spill=li % 2))
            us.append(expr("lor", r, l, ctx=CTXS[(li + 1) % len(CTXS)], spill=(li + 1) % 2))
            us.append(expr("comma", l, r, ctx=CTXS[(li + 2) % len(CTXS)], spill=li % 3))
    for a in ("bool", "ax_i", "loc_i"):
        us.append(expr("land", a, "bool")); us.append(expr("lor", a, "bool")); us.append(expr("land", a, "bool", extra=["RCC=JNL"], tag="_nl"))
        us.append(expr("lor", a, "bool", extra=["RCC=JNL"], tag="_nl")); us.append(expr("lor", a, "lit")); us.append(expr("land", "lit", a))
    R = ["ax_i", "loc_i", "lit", "bool", "ind_c", "glob_u", "ax_u", "loc_b", "glob_c", "ind_i", "loc_arr", "ax_pi", "ind_b", "loc_pi", "glob_pc", "ind_u"]
    CO = ["ax_i", "bool", "loc_i", "glob_b", "ind_i", "ax_pi", "loc_u"]
    def compat(a, b):
        pa, pb = V[a][1] in ("PI", "PC", "ARR"), V[b][1] in ("PI", "PC", "ARR")
        if pa and pb:
            return (V[a][1] == "PC") == (V[b][1] == "PC")
        return pa == pb
    i = 0
    for a in R:
        for b in R:
            i += 1
            if compat(a, b) and (tier != "quick" or i % 9 == 0):
                us.append(expr("cond", CO[i % len(CO)], a, ctx=CTXS[i % len(CTXS)] & ~4 if False else CTXS[i % len(CTXS)], r2=b, spill=i // 3 % 2))
    for l in ("lit",):
        for a, b in (("ax_i", "loc_i"), ("loc_i", "ax_i"), ("ind_c", "ind_c"), ("lit", "ax_i")):
            us += [expr("cond", l, a, r2=b, ctx=c) for c in (0, 1, 5, 8)]
    return dedup(us)


def dead_units(tier):
    us = []
    for i, op in enumerate(BINOPS + ["comma"]):
        us.append(expr(op, ("ax_i", "loc_u", "ind_c")[i % 3], ("ax_i", "loc_i", "ind_u", "lit")[i % 4], ctx=(1, 4, 0, 5)[i % 4], dead=1))
        us.append(expr(op, "loc_i", ("ax_i", "glob_i")[i % 2], ctx=4, dead=1))
    for i, op in enumerate([None, "add", "mul", "div", "shl"]):
        us.append(expr(op, ("loc_i", "ind_c", "ind_i")[i % 3], ("ax_i", "lit", "loc_i")[i % 3], ctx=(4, 1)[i % 2], dead=1, assign=True))
    us.append(expr("sub", "ax_pi", "loc_pi", ctx=1, dead=1)); us.append(expr("add", "ax_i", "loc_pi", ctx=1, dead=1))
    return dedup(us)


def dedup(us):
    seen, r = set(), []
    for u in us:
        if u.name not in seen:
            seen.add(u.name); r.append(u)
    return r


def emit_units(tier):
    us = []
    def e(name, fn, reg, pre, ctx=0, uns=0, const=None):
        d = ["FN=%d" % fn, "REG=%d" % reg, "PRE(n)=%s" % pre, "CTX=%d" % ctx, "UNS=%d" % uns] + (["CONSTN=%d" % const] if const is not None else [])
        us.append(Unit(name, "scc/emit.c", d, unwind=30, calls=[("Printf", "vp_Printf")], paths=True, fs=600, exact="VP_EXACT", timeout=200,
                       functions=["scc.c:" + ("EmitAddRegConst", "EmitScaleAx", "EmitDivAxConst")[fn], "FlushSpAdj", "EmitDivCX", "EmitMovRImm", "Output1Byte", "Output2Bytes",
                                  "Output3Bytes", "OutputWord"]))
    for i, r in enumerate((0, 4, 6)):
        for c in ((0,) if r == 4 else (0, 1, 8)):
            e("addconst_r%d_x%d" % (r, c), 0, r, "1", c)
    for c in (0, 3):
        e("scale_x%d" % c, 1, 0, "(n&(n-1))", c)
        e("udiv_x%d" % c, 2, 0, "(n&(n-1))", c, 1)
        e("sdiv_x%d" % c, 2, 0, "(n&&!(n==-1&&cpu.r[0]==0x8000))", c, 0)
    for k in [0] + [1 << i for i in range(15)]:
        e("scale_%d" % k, 1, 0, "1", 1, 0, k)
        if k > 0:
            e("udiv_%d" % k, 2, 0, "1", 1, 1, k)
    return us


# ---- unary, postfix, calls
UN_CALLS = [("ParsePrimaryExpression", "vp_primary"), ("Printf", "vp_Printf"), ("IsTypeStart", "vp_typestart"), ("ParseAbstractDecl", "vp_abstract")] + EMIT
UN_F = ["scc.c:ParseCastExpression", "ParseUnaryExpression", "ParsePostfixExpression", "DoIncDecOp", "LvalToRval", "GetVal", "ToBool", "EmitLoadAddr",
        "EmitModrm", "EmitLoadAx", "EmitExtend", "EmitScaleAx", "EmitAddRegConst", "GetStoredVal", "SizeofType", "EnterDead", "LeaveDead", "ParseExpr", "Expect", "ExpectId", "GetToken"]
CALL_F = ["scc.c:ParsePostfixExpression", "ParseAssignmentExpression", "EmitStoreConst", "EmitStoreAx", "EmitGlobalRefRel", "SpillBX", "FlushPushAx", "FlushSpAdj", "GetVal",
          "LvalToRval", "EmitExtend", "EmitModrm"]


def un(name, src, form, l, ctx=0, spill=0, r=None, defs=(), functions=UN_F, **kw):
    if isinstance(l, str):
        lk, lt = V[l]
        lname = l
    else:
        lk, lt = l
        lname = (lk + "_" + lt).lower().replace("|", "")
    if not ctx_ok(lk, ctx) and False:
        ctx &= ~4
    d = ['SRC="%s"' % src, "FORM=U_" + form, "LKIND=K_" + lk, "LTYPE=" + ("T_" + lt if lt in TNAMES else lt), "CTX=%d" % ctx, "SPILL=%d" % spill]
    n = "%s_%s" % (name, lname)
    if r:
        d += ["RKIND=K_" + V[r][0], "RTYPE=T_" + V[r][1]]
        n += "_" + r
    n += "_x%d" % ctx + ("s%d" % spill if spill else "")
    kw.setdefault("timeout", 150)
    return Unit(n, "scc/unary.c", d + list(defs), unwind=100 if form == 'CALL' else 30, calls=UN_CALLS, paths=True, fs=1200 if form == "MEMBER" else 600, exact="VP_EXACT", functions=functions, **kw)


TNAMES = {"INT", "UINT", "CHAR", "UCHR", "PI", "PC", "PU", "PS", "PP", "ST", "ARR", "VOID"}
for k, n in (("LOC", "loc"), ("GLOB", "glob"), ("LVAX", "ind")):
    V[n + "_pp"] = (k, "PP")


def unary_units(tier):
    us = []
    q = tier == "quick"
    vals = [v for v in V if V[v][1] in ("INT", "UINT", "CHAR", "UCHR")]
    ptrs = [v for v in V if V[v][1] in ("PI", "PC", "PU", "PS", "PP", "ARR")]
    C = CTXS
    for i, v in enumerate(vals):
        k = V[v][0]
        for j, (n, s, f) in enumerate((("neg", "-1;", "NEG"), ("compl", "~1;", "COMPL"), ("not", "!1;", "NOT"), ("plus", "+1;", "VAL"), ("paren", "(1);", "VAL"))):
            if k == "BOOL" and f in ("NEG", "COMPL"):
                continue
            if q and (i + j) % 2 and k not in ("LIT", "BOOL"):
                continue
            us.append(un(n, s, f, v, ctx=C[(i + j) % len(C)], spill=(i + j) % 3))
        for j, t in enumerate(("INT", "UINT", "CHAR", "UCHR", "PI")):
            if q and (i + j) % 3 and k not in ("LIT", "BOOL"):
                continue
            us.append(un("cast%d" % j, "(1)1;", "CAST", v, ctx=C[(i + j) % len(C)], spill=(i + j) % 2, defs=["CASTTO=T_" + t]))
    for i, v in enumerate(ptrs):
        us.append(un("not", "!1;", "NOT", v, ctx=C[i % len(C)])) if not q or i % 3 == 0 else None
        us.append(un("deref", "*1;", "DEREF", v, ctx=C[(i + 1) % len(C)], spill=i % 3))
        us.append(un("cast5", "(1)1;", "CAST", v, ctx=C[(i + 2) % len(C)], defs=["CASTTO=T_" + ("UINT", "PC")[i % 2]])) if not q or i % 2 == 0 else None
    lv = [v for v in V if V[v][0] in ("LOC", "GLOB", "LVAX")]
    for i, v in enumerate(lv):
        t = V[v][1]
        if t != "ARR":
            if not q or i % 2 == 0:
                us.append(un("addr", "&1;", "ADDR", v, ctx=C[i % len(C)], spill=i % 3))
        if t not in ("ARR", "ST"):
            for j, (n, s, dl, post) in enumerate((("preinc", "++1;", 1, 0), ("predec", "--1;", -1, 0), ("postinc", "1++;", 1, 1), ("postdec", "1--;", -1, 1))):
                if not q or (i + j) % 2 == 0 or t[0] == "P":
                    us.append(un(n, s, "INC", v, ctx=C[(i + j) % len(C)], defs=["DELTA=%d" % dl, "POST=%d" % post] + (["STRUCT_SIZE=200"] if t == "PS" and j % 2 else [])))
    for i, v in enumerate(list(V)):
        if not q or i % 2 == 0 or V[v][1] in ("ARR", "ST"):
            us.append(un("sizeof", "1;", "SIZEOF", v, ctx=C[i % len(C)], defs=["FIRSTTOK=TOK_SIZEOF"]))
            us.append(un("sizeofp", "(1);", "SIZEOF", v, ctx=C[(i + 1) % len(C)], defs=["FIRSTTOK=TOK_SIZEOF"]))
    idx = ["lit", "ax_i", "loc_i", "ind_c", "glob_u", "loc_b", "ind_i", "glob_c"]
    for i, p in enumerate(ptrs):
        for j, x in enumerate(idx):
            if not q or (i + j) % 3 == 0:
                us.append(un("index", "1[1];", "INDEX", p, ctx=C[(i + j) % len(C)], spill=(i + j) % 3, r=x))
    for i, (n, s, f, v, d) in enumerate((("neg", "-1;", "NEG", "loc_i", []), ("not", "!1;", "NOT", "ax_i", []), ("not", "!1;", "NOT", "ind_c", []), ("deref", "*1;", "DEREF", "glob_pi", []),
            ("addr", "&1;", "ADDR", "loc_i", []), ("cast", "(1)1;", "CAST", "ind_c", ["CASTTO=T_INT"]), ("cast", "(1)1;", "CAST", "ax_i", ["CASTTO=T_CHAR"]), ("pre", "++1;", "INC", "ind_i", ["DELTA=1"]),
            ("post", "1--;", "INC", "ind_c", ["DELTA=-1", "POST=1"]), ("post", "1++;", "INC", "loc_ps", ["DELTA=1", "POST=1"]), ("arrow", "1->m;", "MEMBER", "ind_ps", ["MEMI=2", "MTYPE=VT_INT"]),
            ("dot", "1.m;", "MEMBER", "loc_st", ["MEMI=2", "MTYPE=VT_INT"]))):
        us.append(un("dead_" + n, s, f, v, ctx=(0, 2, 8)[i % 3], defs=["DEAD=1"] + d))
    for i, (p, x) in enumerate((("loc_pi", "ax_i"), ("glob_arr", "loc_i"), ("ax_pi", "lit"), ("ind_arr", "ind_c"))):
        us.append(un("dead_index", "1[1];", "INDEX", p, ctx=(0, 2, 8)[i % 3], r=x, defs=["DEAD=1"]))
    m = 0
    for v in ("loc_st", "glob_st", "ind_st"):
        for mi in range(4):
            for un_ in (0, 1):
                t = ("VT_INT", "VT_CHAR", "VT_INT|VT_PTR1", "VT_STRUCT", "VT_CHAR|VT_UNSIGNED", "VT_ARRAY")[m % 6]
                us.append(un("dot%d%s" % (mi, "u" * un_), "1.m;", "MEMBER", v, ctx=C[m % len(C)], defs=["MEMI=%d" % mi, "MTYPE=(%s)" % t] + ["UNION"] * un_))
                m += 1
    for v in ("ax_ps", "loc_ps", "glob_ps", "ind_ps"):
        for mi in range(4):
            t = ("VT_INT", "VT_CHAR", "VT_INT|VT_PTR1", "VT_STRUCT", "VT_CHAR|VT_UNSIGNED", "VT_ARRAY")[m % 6]
            us.append(un("arrow%d" % mi, "1->m;", "MEMBER", v, ctx=C[m % len(C)], spill=m % 3, defs=["MEMI=%d" % mi, "MTYPE=(%s)" % t] + ["UNION"] * (m % 5 == 0)))
            m += 1
    return dedup([u for u in us if u])


FIXN = 3


def call_units(tier):
    us = [un("dead%d" % n, "1(%s);" % ",".join("1" * n), "CALL", f, ctx=c, defs=["DEAD=1", "NOZF=1", "NARGS=%d" % n] + (["AK={K_AX,K_LIT,K_LOC,K_AX,K_LVAX}", "AT={T_INT,T_INT,T_CHAR,T_PI,T_UINT}"] if n else []), functions=CALL_F)
          for n, f, c in ((0, ("FUN", "VT_INT"), 2), (5, ("FUN", "VT_CHAR"), 8), (3, ("LOC", "VT_INT|VT_FUNPTR"), 0), (1, ("GLOB", "VT_INT|VT_FUNPTR"), 2), (2, ("LVAX", "VT_INT|VT_FUNPTR"), 8))]
    q = tier == "quick"
    A = ["lit", "ax_i", "loc_i", "ind_c", "glob_u", "bool", "ax_pi", "loc_b", "glob_arr", "ind_i", "ax_u", "glob_pc", "loc_arr"]
    fns = [("FUN", "VT_INT"), ("FUN", "VT_CHAR"), ("FUN", "VT_INT|VT_UNSIGNED"), ("FUN", "VT_VOID"), ("FUN", "VT_INT|VT_PTR1"), ("FUN", "VT_CHAR|VT_UNSIGNED"),
           ("LOC", "VT_INT|VT_FUNPTR"), ("GLOB", "VT_INT|VT_FUNPTR"), ("LVAX", "VT_INT|VT_FUNPTR"), ("GLOB", "VT_CHAR|VT_FUNPTR")]
    i = 0
    for n in range(0, 10):
        for c in ((0, 1, 5) if q else (0, 1, 2, 3, 4, 5, 8, 9)):
            f = fns[(i * 3 + 2 * n) % len(fns)]
            args = [V[A[(i + k * 5) % len(A)]] for k in range(n)]
            if n > 4:   # keep the solver's aliasing cases few
                args = [V[("lit", "ax_i", "lit", "ax_pi")[(i + k) % 4]] for k in range(n - 1)] + [V["loc_i"]]
            d = ["NARGS=%d" % n, "NOZF=1"] + (["FIXBP=0x8000"] if n > FIXN else []) + (["AK={%s}" % ",".join("K_" + a[0] for a in args), "AT={%s}" % ",".join("T_" + a[1] for a in args)] if n else [])
            us.append(un("call%d" % n, "1(%s);" % ",".join("1" * n), "CALL", f, ctx=c, spill=i % 3 if n < 7 else 0, defs=d, functions=CALL_F, timeout=400, weight=1 + n))
            i += 1
    for f in fns:
        us.append(un("callp", "1(1);", "CALL", f, ctx=(i % 2) * 5, defs=["NARGS=1", "AK={K_LOC}", "AT={T_INT}"], functions=CALL_F))
        us.append(un("callv", "1();", "CALL", f, ctx=(1 - i % 2) * 5, defs=["NARGS=0"], functions=CALL_F))
        us.append(un("callstar", "(*1)(1);", "CALL", f, ctx=(1 - i % 2) * 1, defs=["NARGS=1", "AK={K_AX}", "AT={T_INT}"], functions=CALL_F))
        i += 1
    return dedup(us)


# ---- primary expressions
PRIM_F = ["scc.c:ParsePrimaryExpression", "HandlePrimaryId", "HandleVarArg", "ExpectId", "AddLateGlobalVar", "AddVarDeclScope", "EmitModrm", "EmitLoadAx", "EmitStoreAx",
          "EmitAddRegConst", "EmitJmp", "EmitLocalLabel", "MakeLabel", "DoFixups"]
PRIM_CALLS = [("GetToken", "vp_token"), ("ParseAbstractDecl", "vp_abstract"), ("ParseExpr", "vp_expr"), ("Printf", "vp_Printf")]


def primary_units():
    us = []
    def p(name, form, kind="LOC", type="T_INT", ctx=0, dead=0, **kw):
        d = ["FORM=P_" + form, "LKIND=K_" + kind, "LTYPE=" + type, "CTX=%d" % ctx] + ["%s=%s" % x for x in kw.items()]
        if dead: d.append("DEAD=1")
        n = "prim_%s_x%d%s" % (name, ctx, "d" * dead)
        us.append(Unit(n, "scc/primary.c", d, unwind=30, calls=PRIM_CALLS + EMIT, paths=True, fs=600, functions=PRIM_F, timeout=150))
    for dead in (0, 1):
        for c in (0, 9) if not dead else (0, 8):
            p("num", "NUM", "LIT", ctx=c, dead=dead)
            p("enum", "ENUM", "LIT", ctx=c, dead=dead)
            p("undecl", "UNDECL", "LIT", ctx=c, dead=dead)
            p("paren", "PAREN", "LIT", ctx=c, dead=dead)
        for i, (k, t) in enumerate((("LOC", "T_INT"), ("LOC", "T_CHAR"), ("LOC", "T_PS"), ("LOC", "T_ARR"), ("LOC", "T_ST"), ("LOC", "(VT_INT|VT_FUNPTR)"), ("GLOB", "T_INT"), ("GLOB", "T_UCHR"),
                                    ("GLOB", "T_PP"), ("GLOB", "T_ARR"), ("GLOB", "T_ST"), ("FUN", "T_INT"), ("FUN", "T_PC"), ("FUN", "VT_VOID"))):
            p("var%d" % i, "VAR", k, t, ctx=CTXS[i % len(CTXS)] if not dead else (0, 8)[i % 2], dead=dead)
        for c in ((0, 1, 4, 5, 8, 9, 2, 3) if not dead else (0, 8)):
            p("str", "STR", "LIT", ctx=c, dead=dead)
            p("va_arg", "ARG", "LOC", "T_PC", ctx=c, dead=dead, CASTTO=("VT_INT", "VT_CHAR", "(VT_INT|VT_PTR1)", "VT_STRUCT")[c % 4])
            p("va_start", "START", "LOC", "T_PC", ctx=c, dead=dead)
        p("va_end", "END", "LOC", "T_PC", ctx=5 if not dead else 0, dead=dead)
        p("str1", "STR", "LIT", ctx=0, dead=dead, NSTR=1)
    p("rawstr", "RAWSTR", "LIT")
    return us


LEX_F = ["GetToken", "NextChar", "SkipWhitespace", "GetNum", "Unescape", "GetStringLiteral", "AddBuiltins", "memcmp"]
KEYWORDS = ("auto break case char const continue default do double else enum extern float for goto if int long register return "
            "short signed sizeof static struct switch typedef union unsigned void volatile while va_list va_start va_end va_arg "
            "_emit _start _SBSS _EBSS").split()


def lex_units(tier):
    us = []
    full = tier != "quick"
    B = "the listed source texts"
    def l(name, form, n, split, unwind, bounded=None, **kw):
        d = ["FORM=L_" + form, "NSRC=%d" % n, "SPLIT=%d" % split] + ["%s=%s" % x for x in kw.items()]
        us.append(Unit("lex_%s_s%d" % (name, split), "scc/lex.c", d, unwind=unwind, unwindset=["start.0:1030"], calls=[("Printf", "vp_Printf")],
                       fs=1100 if form in ("ID", "KW") else 600, functions=LEX_F, timeout=200, paths=True, bounded=bounded))
    def cstr(t):
        return '"' + "".join("\\%03o" % ord(c) for c in t) + '"'
    def t(name, form, pre, n, bounded=None):
        n += len(pre)
        for s in (0, (1 << n) - 1):
            l(name, form, n, s, 24, bounded=bounded, PRE=cstr(pre))
    for c in ";(){}[]:~=,?!<>&|^+-*%.\\":
        t("punct%02x" % ord(c), "PUNCT", c, 2)
    for c in "0123456789" if full else "019":
        t("num" + c, "NUM", c, 2)
    t("num0x", "NUM", "0x", 2); t("num0x7f", "NUM", "0x7f", 2)
    t("num65535", "NUM", "65535", 1)
    for i, (p, n) in enumerate((("'", 2), ("'\\", 2), ("'\\x", 3), ("'\\x4", 2), ("'\\0", 2), ("'\\37", 2))):
        t("chr%d" % i, "CHR", p, n)
    for i, p in enumerate(("/", "/=", "/=1", "/ =", "/a", " ;", "\n;", "\t\n ;", "/**/;", "/***/;", "/* * / **/;", "/*/*/;", "/*\n*/;", "/*'*/;", "/**", "/*/", "//",
                           "//\n;", "//*\n;", "// /*\n//\n;", "#", "# 1 \"a\"\n;", " #x\n#y\n;", "\n/**/ //\n\n;", "+/**/+", "+//\n+", "/**//", "/**//=", "/**/ /", " ")):
        t("skip%d" % i, "SKIP", p, 0, bounded=B)
    for i, p in enumerate(('"";', '"a";', '"ab" ;', '"\\n\\r\\t";', '"\\\\\\"\\\'";', '"\\x41\\x7";', '"\\0";', '"\\101";', '"\\377";', '"a""b";', '"a" "b";', '"a"\n"b" /**/"c";',
                           '"//";', '"/*";', '"#";', '"a', '"\\q";', '"a"/', '"a"+')):
        t("str%d" % i, "STR", p, 0, bounded=B)
    for i, p in enumerate(("a b", "a a", "ab ab", "ab ba", "ab ac", "do od", "if do", "ii if", "_a _b", "A0 A1", "Zz zZ", "x9 x9", "z_ z_")):
        for s in (0, (1 << len(p)) - 1):
            l("id%d" % i, "ID", len(p), s, 50, PRE=cstr(p), IDLEN=p.index(" "), bounded=B)
    for k in KEYWORDS:
        for s in (0, 1) if full else (0,):
            l("kw_" + k, "KW", len(k), s, 50, KWTEXT='"%s"' % k, KWTOK="TOK_" + k.upper())
    return us
