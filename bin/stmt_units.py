"""Statement templates and their C semantics (C12).

A template is a small syntax tree.  tokens() prints it as the token list the
real parser reads, Sem computes from the tree alone (never from the code)
which expression follows which, for which value, with which variables in the
frame.  Trees are tuples:
 ("e",)                       expression statement          ("empty",)
 ("if", c, s) ("if", c, s, s) ("while", c, s) ("do", s, c)
 ("for", i, c, it, s)         i, c, it may be None; c an expression or constant
 ("switch", e, s) ("case", k, s) ("default", s)
 ("break",) ("continue",) ("return", e or None)
 ("goto", n) ("label", n, s)
 ("block", s...) ("decl", (ctype, count, init)...)
Expressions: E(kind, pad, spill) or an integer constant."""
from vp import Unit

STMT_F = ["scc.c:ParseStatement", "ParseExternalDefition", "DoLoopStatements", "EnsureSwitchStmt", "DoCond", "DoCondHasExpr", "ToBool", "GetVal", "EmitLocalLabel",
          "EmitJmp", "EmitJcc", "EmitLocalJump", "DoFixups", "AddFixup", "MakeLabel", "GetNamedLabel", "PushScope", "PopScope", "ParseFirstDecl", "NextDecl", "DoDecl",
          "ParseDeclSpecs", "ParseDeclarator", "AddVarDecl", "FlushSpAdj", "FlushPushAx", "EmitChecks", "EmitGlobalLabel", "EmitMovRR", "EmitModrm", "SizeofType"]


FS = 420


class E:
    def __init__(self, kind="AX", pad=0, spill=0):
        self.kind, self.pad, self.spill = kind, pad, spill
        self.n = None


class Node:
    """an expression event or a jump"""
    def __init__(self):
        self.to = None          # jump target (Node)
        self.ev = None          # event index
        self.succ = []          # (mode, const, Node, slot)


EXIT = Node()


class Prog:
    def __init__(self, body, name, tail=False):
        self.name, self.tail = name, tail
        self.toks, self.events, self.levels = [], [], []
        self.labels, self.ids = {}, 0
        self.cases = []
        self.level = 0
        # all templates are complete functions:  int f(void) { body }
        self.entry = self.func(10, body)
        self.entry2 = self.func(11, [V()]) if tail else None
        self.t("0")

    def func(self, i, body):
        self.t("TOK_INT"); self.t("TOK_ID+%d" % i); self.t("'('"); self.t("TOK_VOID"); self.t("')'"); self.t("'{'")
        end = Node(); end.to = EXIT
        self.level = 0
        r = self.seq(list(body), end, None, None, None)
        self.t("'}'")
        return r

    def t(self, tok, v=0):
        self.toks.append((tok, v))

    def ident(self):
        self.ids += 1
        return "TOK_ID+%d" % (20 + self.ids)

    def expr(self, e):
        """returns a fresh event node, or the constant"""
        if isinstance(e, int):
            self.t("TOK_NUM", e)
            return e
        e = E(e.kind, e.pad, e.spill)
        n = Node()
        n.ev = len(self.events)
        self.events.append(e)
        self.levels.append(self.level)
        self.t("TOK_STRLIT")
        return n

    def branch(self, c, yes, no):
        """entry node of a condition"""
        if isinstance(c, int):
            n = Node(); n.to = yes if c else no
            return n
        c.succ = [("R_NONZERO", 0, yes, 0), ("R_ZERO", 0, no, 0)]
        return c

    def seq(self, ss, nxt, brk, cont, sw):
        first = Node()
        cur = first
        for s in ss:
            after = Node()
            cur.to = self.stmt(s, after, brk, cont, sw)
            cur = after
        cur.to = nxt
        return first

    def label(self, n):
        if n not in self.labels:
            self.labels[n] = (Node(), "TOK_ID+%d" % (12 + len(self.labels)))
        return self.labels[n]

    def stmt(self, s, nxt, brk, cont, sw):
        k = s[0]
        t = self.t
        if k == "e":
            n = self.expr(s[1] if len(s) > 1 else E("VOID")); t("';'")
            if isinstance(n, int):
                return nxt
            n.succ = [("R_ANY", 0, nxt, 0)]
            return n
        if k == "empty":
            t("';'"); return nxt
        if k == "block":
            t("'{'")
            old = self.level
            r = self.seq(s[1:], nxt, brk, cont, sw)
            self.level = old
            t("'}'")
            return r
        if k == "decl":
            first = Node(); cur = first
            t("TOK_" + s[1][0].rstrip("*"))
            for i, (ty, count, init) in enumerate(s[1:]):
                if i:
                    t("','")
                ptr = ty.endswith("*")
                if ptr:
                    t("'*'")
                t(self.ident())
                if count:
                    t("'['"); t("TOK_NUM", count); t("']'")
                size = (2 if ptr or not ty.startswith("CHAR") else 1) * (count or 1)
                size = (size + 1) & ~1
                if init is not None:
                    t("'='")
                    n = self.expr(init)
                    self.level -= size
                    if not isinstance(n, int):
                        a = Node()
                        n.succ = [("R_ANY", 0, a, self.level)]
                        cur.to = n
                        cur = a
                else:
                    self.level -= size
            t("';'")
            cur.to = nxt
            return first
        if k == "if":
            t("TOK_IF"); t("'('"); c = self.expr(s[1]); t("')'")
            a = self.stmt(s[2], nxt, brk, cont, sw)
            b = nxt
            if len(s) > 3:
                t("TOK_ELSE")
                b = self.stmt(s[3], nxt, brk, cont, sw)
            return self.branch(c, a, b)
        if k == "while":
            head = Node()
            t("TOK_WHILE"); t("'('"); c = self.expr(s[1]); t("')'")
            b = self.stmt(s[2], head, nxt, head, sw)
            head.to = self.branch(c, b, nxt)
            return head
        if k == "do":
            head, cn = Node(), Node()
            t("TOK_DO")
            head.to = self.stmt(s[1], cn, nxt, cn, sw)
            t("TOK_WHILE"); t("'('"); c = self.expr(s[2]); t("')'"); t("';'")
            cn.to = self.branch(c, head, nxt)
            return head
        if k == "for":
            head, it, body = Node(), Node(), Node()
            t("TOK_FOR"); t("'('")
            i = None if s[1] is None else self.expr(s[1])
            t("';'")
            c = 1 if s[2] is None else self.expr(s[2])
            t("';'")
            n = None if s[3] is None else self.expr(s[3])
            t("')'")
            body.to = self.stmt(s[4], it, nxt, it, sw)
            head.to = self.branch(c, body, nxt)
            if isinstance(n, Node):
                n.succ = [("R_ANY", 0, head, 0)]
                it.to = n
            else:
                it.to = head
            if isinstance(i, Node):
                i.succ = [("R_ANY", 0, head, 0)]
                return i
            return head
        if k == "switch":
            t("TOK_SWITCH"); t("'('"); e = self.expr(s[1]); t("')'")
            my = dict(cases=[], default=None)
            self.stmt(s[2], nxt, nxt, cont, my)
            if isinstance(e, int):
                n = Node(); n.to = nxt
                for v, target in my["cases"]:
                    if v == e:
                        n.to = target
                        return n
                if my["default"]:
                    n.to = my["default"]
                return n
            for v, target in my["cases"]:
                e.succ.append(("R_EQ", v, target, 0))
                self.cases += [e.ev, v]
            e.succ.append(("R_NONE", 0, my["default"] or nxt, 0))
            return e
        if k == "case":
            t("TOK_CASE"); t("TOK_NUM", s[1]); t("':'")
            n = Node()
            sw["cases"].append((s[1], n))
            n.to = self.stmt(s[2], nxt, brk, cont, sw)
            return n
        if k == "default":
            t("TOK_DEFAULT"); t("':'")
            n = Node()
            sw["default"] = n
            n.to = self.stmt(s[1], nxt, brk, cont, sw)
            return n
        if k == "break":
            t("TOK_BREAK"); t("';'"); return brk
        if k == "continue":
            t("TOK_CONTINUE"); t("';'"); return cont
        if k == "return":
            t("TOK_RETURN")
            n = None
            if s[1] is not None:
                n = self.expr(s[1])
            t("';'")
            if isinstance(n, Node):
                n.succ = [("R_ANY", 0, EXIT, 1)]
                return n
            return EXIT
        if k == "goto":
            l = self.label(s[1])
            t("TOK_GOTO"); t(l[1]); t("';'")
            return l[0]
        if k == "label":
            l = self.label(s[1])
            t(l[1]); t("':'")
            l[0].to = self.stmt(s[2], nxt, brk, cont, sw)
            return l[0]
        raise ValueError(k)

    def resolve(self, n):
        seen = 0
        while n is not EXIT and n.ev is None:
            n = n.to
            seen += 1
            if seen > 1000:
                return None     # loops without any expression
        return n

    def rows(self):
        rows, work, seen = [], [], set()

        def add(frm, mode, c, n, slot):
            n = self.resolve(n)
            if n is None:
                return
            rows.append((frm, mode, c, "E_EXIT" if n is EXIT else n.ev, slot))
            if n is not EXIT and n.ev not in seen:
                seen.add(n.ev); work.append(n)
        add("E_START", "R_ANY", 0, self.entry, 0)
        if self.tail:
            add("E_START", "R_ANY", 1, self.entry2, 0)
        while work:
            n = work.pop()
            for mode, c, to, slot in n.succ:
                add(n.ev, mode, c, to, slot)
        return rows

    def unit(self, functions=STMT_F, **kw):
        fmt = lambda l: "{%s}" % ",".join(str(x) for x in l)
        rows = self.rows()
        ev = self.events or [E()]
        d = ["TOKS=" + fmt("%s,%s" % x for x in self.toks), "ROWS=" + fmt(",".join(str(y) for y in r) for r in rows),
             "EKIND=" + fmt("K_" + e.kind for e in ev), "EPAD=" + fmt(e.pad for e in ev), "ESPILL=" + fmt(e.spill for e in ev),
             "ELEVEL=" + fmt(self.levels or [0]), "CASES=" + fmt(self.cases or [-9, 0]), "NEV=%d" % len(self.events)]
        big = sum(e.pad for e in ev)
        if big:
            d.append("VP_OUTPUT=%d" % (400 + big))
        kw.setdefault("timeout", 150)
        return Unit(self.name, "scc/stmt.c", d, unwind=max(110, big + 20), calls=STMT_CALLS, paths=True, fs=FS + big, exact="VP_EXACT", functions=functions, **kw)


STMT_CALLS = [("ParseExpr", "vp_expr"), ("ParseAssignmentExpression", "vp_expr"), ("GetToken", "vp_gettoken"), ("Printf", "vp_Printf")]


def A(spill=0, pad=0):
    return E("AX", pad, spill)


def B(pad=0):
    return E("BOOL", pad)


def V(spill=0, pad=0):
    return ("e", E("VOID", pad, spill))


def basic():
    D = lambda *a: ("decl",) + a
    I = ("INT", 0, None)
    T = []
    t = lambda n, *b: T.append((n, b))
    # conditions
    for n, c in (("ax", A()), ("bool", B()), ("rel", A(2)), ("c0", 0), ("c7", 7)):
        t("if_" + n, ("if", c, V()), V())
        t("ifelse_" + n, ("if", c, V(), V(2)), V())
        t("while_" + n, V(2), ("while", c, ("block", V(), ("if", B(), ("break",)), V(2))), V())
        t("do_" + n, V(), ("do", ("block", V(2), ("if", A(), ("continue",)), ("if", B(), ("break",)), V()), c), V())
        t("for_" + n, ("for", A(2), c, A(2), ("block", V(2), ("if", A(), ("continue",)), ("if", B(), ("break",)), V())), V())
    t("for_noi", ("for", None, B(), A(), V()), V())
    t("for_noc", ("for", A(), None, A(), ("block", ("if", A(), ("break",)), V())), V())
    t("for_noit", ("for", A(), A(), None, ("block", ("if", B(), ("continue",)), V())), V())
    t("for_none", V(), ("for", None, None, None, ("block", V(), ("if", B(), ("break",)), ("if", A(), ("continue",)), V())), V())
    t("for_empty", ("for", A(), B(), A(), ("empty",)), V())
    t("dangling", ("if", A(), ("if", B(), V(), V())), V())
    t("elseif", ("if", A(), V(), ("if", B(), V(), ("if", A(), V(), V()))), V())
    t("ifblk", ("if", A(), ("block", ("if", B(), V())), V()), V())
    return T, t, D, I


def templates(tier):
    T, t, D, I = basic()
    C = lambda *x: ("CHAR",) + x
    arr = ("INT", 5, None); carr = ("CHAR", 3, None); ini = ("INT", 0, A()); ini2 = ("INT", 0, B()); cini = ("CHAR", 0, A(2)); pini = ("INT*", 0, A())
    # blocks and declarations
    t("decl1", D(I), V(), D(I, ("INT", 3, None)), V(), ("block", D(arr), V(), D(ini), V()), V())
    t("declinit", D(ini, I, ini2), V(), ("block", D(cini), V(2), D(pini, ("INT", 0, 5)), V()), V(), D(("CHAR", 0, None)), V(), ("return", A()))
    t("loopdecl", ("while", A(), ("block", D(arr), V(), ("if", B(), ("break",)), D(ini), ("if", A(), ("continue",)), V(2))), V())
    t("dodecl", ("do", ("block", D(arr), ("if", B(), ("continue",)), D(carr), ("if", A(), ("break",)), V()), A(2)), V())
    t("fordecl", D(I), ("for", A(), B(), A(), ("block", D(arr), ("if", B(), ("continue",)), ("block", D(carr), ("if", A(), ("break",)), V()))), V())
    t("ifdecl", ("if", A(), ("block", D(arr), V()), ("block", D(ini), V(2))), V())
    t("big", ("block", D(("INT", 100, None)), V(), ("if", A(), ("return", A())), V()), V())
    # return
    t("ret", ("return", A()))
    t("ret0", V(), ("return", None), V())
    t("retif", ("if", A(), ("return", A(2))), V(), ("return", B()))
    t("retdecl", D(I), ("if", A(), ("return", A())), ("block", D(carr), ("return", A(2)), V()), V())
    t("retloop", D(ini), ("while", 1, ("block", D(arr), ("if", B(), ("return", A())), V())), V())
    t("retvoid", D(I), V(), ("if", B(), ("return", None)), V(2))
    t("retelse", ("if", B(), ("return", A()), ("return", A())), V())
    t("retlast", V(2), D(arr), V(2))
    t("empty")
    # nested loops
    for i, (n, mk) in enumerate((("while", lambda b: ("while", A(), b)), ("do", lambda b: ("do", b, B())), ("for", lambda b: ("for", A(), B(), A(2), b)))):
        for m, mk2 in (("while", lambda b: ("while", B(), b)), ("do", lambda b: ("do", b, A(2))), ("for", lambda b: ("for", A(2), A(), A(), b))):
            t("%s_%s" % (n, m), mk(("block", D(I), ("if", A(), ("break",)), mk2(("block", D(arr), ("if", B(), ("break",)), ("if", A(), ("continue",)), V())), ("if", B(), ("continue",)), V())), V())
    # switch
    def sw(*b, e=None):
        return ("switch", e or A(), ("block",) + b)
    br = ("break",)
    c = lambda k, s=None: ("case", k, s or V())
    d = lambda s=None: ("default", s or V())
    t("sw1", sw(c(1), br, c(2), br), V())
    t("sw_fall", sw(c(1), c(-2), V(2), br, c(300)), V())
    t("sw_def", sw(c(1), br, d(), br, c(2), br), V())
    t("sw_deffirst", sw(d(), c(1), br, c(2)), V())
    t("sw_deflast", sw(c(1), br, c(0x7fff), d()), V())
    t("sw_defmid", sw(c(1), d(), c(2)), V())
    t("sw_defcase", sw(("default", ("case", 3, V())), br, ("case", 4, ("default", V())) if False else c(4)), V())
    t("sw_casedef", sw(c(9), br, ("case", 3, ("default", V())), br, c(4)), V())
    t("sw_multi", sw(("case", 1, ("case", 2, ("case", 3, V()))), br, ("case", 4, ("case", -5, V())), br, d()), V())
    t("sw_bool", sw(c(0), br, c(1), br, e=B()), V())
    t("sw_onlydef", sw(d()), V())
    t("sw_empty", sw(), V())
    t("sw_dead", sw(V(), c(1), br, V(), c(2)), V())
    t("sw_decl", sw(D(arr), V(), c(1), br, c(2), D(I), V(), br, d()), V())
    t("sw_declcase", sw(c(1), D(arr), V(), br, c(2), V(2), d()), V())
    t("sw_block", sw(("case", 1, ("block", D(arr), V(), ("if", B(), br), V(2))), ("case", 2, ("block", D(I), br)), d(("block", D(ini), V()))), V())
    t("sw_ret", sw(("case", 1, ("return", A())), ("case", 2, ("block", D(I), ("return", A()))), d(("return", A(2)))), V())
    t("sw_loop", ("while", A(), sw(("case", 1, ("continue",)), c(2), br, ("case", 3, ("block", D(arr), ("if", A(), ("continue",)), V())), d())), V())
    t("sw_inloop", sw(("case", 1, ("while", B(), ("block", D(I), ("if", A(), br), V()))), br, c(2)), V())
    t("sw_duff", sw(("case", 0, ("do", ("block", V(), ("case", 1, V(2)), ("case", 2, V())), B()))), V())
    t("sw_incase", sw(("case", 1, ("if", A(), ("case", 2, V()), V())), c(3)), V())
    t("sw_nested", sw(("case", 1, sw(c(1), br, d(), br, c(2), e=A(2))), br, ("case", 2, sw(c(3), br)), V(), d()), V())
    t("sw_nesteddecl", sw(("case", 1, ("block", D(arr), sw(c(1), br, c(5), D(I), V(), br, d()), ("if", B(), br), V())), c(2)), V())
    t("sw_nobrace", ("switch", A(), ("case", 4, V())), V())
    t("sw_nobrace2", ("switch", A(2), ("default", ("if", A(), V(), V()))), V())
    n = 24
    chain = V()
    for k in range(n + 2 if tier != "quick" else n + 1):
        chain = ("case", 2 * k + 1, chain)
    t("sw_many", sw(chain, br, c(0), d()), V())
    chain = V()
    for k in range(n - 1):
        chain = ("case", 3 * k, chain)
    t("sw_many23", sw(chain, br, c(1)), V())
    # goto
    t("goto_fwd", ("if", A(), ("goto", "l")), V(), ("label", "l", V()), V())
    t("goto_back", ("label", "l", V(2)), ("if", B(), ("goto", "l")), V())
    t("goto_into", ("if", A(), ("goto", "l")), ("block", D(arr), V(), ("label", "l", V())), V())
    t("goto_out", ("block", D(arr), ("if", A(), ("goto", "l")), ("block", D(I), ("if", B(), ("goto", "l")), V())), V(), ("label", "l", V()))
    t("goto_loop", ("while", A(), ("block", D(I), ("while", B(), ("block", D(arr), ("if", A(), ("goto", "out")), V())), V())), V(), ("label", "out", ("return", A())))
    t("goto_two", ("label", "a", V()), ("if", A(), ("goto", "b")), ("block", D(I), ("if", B(), ("goto", "a")), V()), ("label", "b", V()), ("if", B(), ("goto", "a")))
    t("goto_ret", V(), ("goto", "x"), V(), ("label", "x", ("empty",)), V())
    t("goto_inf", D(arr), ("label", "l", V()), ("goto", "l"))
    t("goto_inf2", ("block", D(arr), ("label", "l", V(2)), ("if", A(), ("goto", "l")), ("goto", "l")))
    t("dead_inf", V(), ("while", 1, ("block", D(arr), V())), V())
    # unreachable code
    t("dead1", ("return", A()), D(ini), ("if", A(), V(), V()), V(), sw(c(1), br, d()), V())
    t("dead2", ("while", 1, ("block", V(), ("if", A(), ("block", br, D(I), V(), br, ("continue",))), D(arr), ("continue",), V())), V())
    t("dead3", ("if", A(), ("block", ("return", None), D(arr), V(2), ("if", B(), V())), V()), V(2), D(I), V())
    t("dead4", ("while", 0, ("block", D(I), V())), V(), ("if", 0, ("block", D(arr), V()), V()), V())
    t("dead5", ("if", 0, ("label", "l", V()), V()), ("if", A(), ("goto", "l")), V())
    # long jumps
    L = lambda n: V(0, n)
    for p in ((60, 61, 62) if tier == "quick" else range(50, 70)) :
        t("long_if%d" % p, ("if", A(), ("block", L(p), L(p)), L(2)), V())
    for p in ((57, 59, 200) if tier == "quick" else list(range(50, 68)) + [200]):
        t("long_while%d" % p, ("while", B(), ("block", L(p), ("if", A(), br), ("if", B(), ("continue",)), L(p))), V())
        t("long_for%d" % p, ("for", A(), A(), A(0, 40), ("block", L(p), ("if", A(), br), ("if", B(), ("continue",)), L(p))), V())
        t("long_sw%d" % p, ("while", A(), sw(c(1, L(p)), br, ("case", 2, ("continue",)), c(3, L(p)), d(), br, c(4, L(p)))), V())
    for p in ((58, 61, 120) if tier == "quick" else range(52, 66)):
        t("long_do%d" % p, ("do", ("block", L(p), ("if", A(), ("continue",)), ("if", B(), br), L(p)), A()), V())
        t("long_else%d" % p, ("while", 1, ("block", ("if", A(), ("block", L(p), ("continue",)), ("block", L(p), ("return", A()))))), V())
    return T


def stmt_units(tier):
    return [Prog(b, n, tail=n.startswith(("dead", "goto", "ret", "decl"))).unit() for n, b in templates(tier)]
