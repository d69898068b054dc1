"""Program templates for the assembler (C13, C14)."""
from vp import Unit

SAS_F = ["sas.c:main", "HandleInstruction", "ParseOperand", "OutputModRM", "OutputImm", "OutputByte", "OutputWord", "TranslateMemMod"]
CALLS = [("GetToken", "vp_gettoken"), ("AddBuiltins", "vp_builtins"), ("IdText", "vp_idtext"), ("ReadChar", "vp_readchar")]

NCH = dict(r8=8, r16=8, sr=4, bas=4, alu=8, simple=12, jcc=28, un=6, sh=3)
def runs(build):
    """number of combinations of choices in a program"""
    import re
    n = 1
    for m in re.findall(r"\b(\w+)\(\d+\)", build):
        n *= NCH.get(m, 1)
    return n

def unit(name, build, expect, functions=(), **kw):
    k = runs(build)
    d = ["BUILD=" + build, "EXPECT=" + expect, "KMAX=%d" % k] + [k.upper() + "=" + kw.pop(k) for k in ("reject", "must", "warn", "pre") if k in kw]
    if "output" in kw:
        d.append("VP_OUTPUT=%d" % kw.pop("output"))
    return Unit(name, "sas/asm.c", d, fs=600, opts=["--object-bits", "12"], unwind=max(20, build.count("(") + build.count("RB") + build.count("COMMA") + 6), unwindset=["runs.0:%d" % (k + 2)], functions=SAS_F + list(functions), calls=CALLS, **kw)

# ParseOperand: name -> tokens, meaning
OPERANDS = {
    "r8":   ("r8(1);", "sp(K_R8,S[1],0,-1,0,0)"),
    "r16":  ("r16(1);", "sp(K_R16,S[1],0,-1,0,0)"),
    "sr":   ("sr(1);", "sp(K_SR,S[1],0,-1,0,0)"),
    "num":  ("imm(1);", "sp(K_LIT,S[1],0,-1,0,0)"),
    "neg":  ("t('-'); imm(1); t('+'); imm(2);", "sp(K_LIT,S[2]-S[1],0,-1,0,0)"),
    "inv":  ("t('~'); imm(1); t('|'); imm(2);", "sp(K_LIT,~S[1]|S[2],0,-1,0,0)"),
    "str":  ("str(\"ab\",2);", "sp(K_LIT,0x6261,0,-1,0,0)"),
    "chr":  ("str(\"A\",1); t('+'); imm(1);", "sp(K_LIT,65+S[1],0,-1,0,0)"),
    "lab":  ("lab(2);", "sp(K_LIT,S[13],0,-1,0,0)"),
    "fwd":  ("lab(0);", "sp(K_LIT,0,1,-1,0,0)"),
    "b":    ("LB bas(10); RB", "MEM(-1,BASE(10),0)"),
    "bn":   ("LB bas(10); t('+'); addr(11); RB", "MEM(-1,BASE(10),S[11])"),
    "bmn":  ("LB bas(10); t('-'); addr(11); RB", "MEM(-1,BASE(10),-S[11])"),
    "bnmn": ("LB bas(10); t('+'); addr(12); t('-'); addr(11); t('+'); addr(14); RB", "MEM(-1,BASE(10),S[12]-S[11]+S[14])"),
    "nb":   ("LB addr(11); t('+'); bas(10); RB", "MEM(-1,BASE(10),S[11])"),
    "n":    ("LB addr(11); RB", "MEM(-1,B_NONE,S[11])"),
    "nn":   ("LB addr(11); t('+'); addr(12); t('-'); addr(14); RB", "MEM(-1,B_NONE,S[11]+S[12]-S[14])"),
    "sibx": ("LB t(TOK_SI); t('+'); t(TOK_BX); t('+'); addr(11); RB", "MEM(-1,B_BXSI,S[11])"),
    "sb":   ("LB sr(12); t(':'); bas(10); RB", "MEM(S[12],BASE(10),0)"),
    "sbn":  ("LB sr(12); t(':'); bas(10); t('+'); addr(11); RB", "MEM(S[12],BASE(10),S[11])"),
    "sn":   ("LB sr(12); t(':'); addr(11); RB", "MEM(S[12],B_NONE,S[11])"),
    "Bb":   ("t(TOK_BYTE); LB bas(10); t('+'); addr(11); RB", "SMEM(1,-1,BASE(10),S[11])"),
    "Wb":   ("t(TOK_WORD); LB bas(10); t('+'); addr(11); RB", "SMEM(2,-1,BASE(10),S[11])"),
    "Wsn":  ("t(TOK_WORD); LB sr(12); t(':'); addr(11); RB", "SMEM(2,S[12],B_NONE,S[11])"),
    "Bl":   ("t(TOK_BYTE); LB lab(2); RB", "SMEM(1,-1,B_NONE,S[13])"),
    "l":    ("LB lab(2); RB", "MEM(-1,B_NONE,S[13])"),
    "bl":   ("LB bas(10); t('+'); lab(2); t('+'); addr(11); RB", "MEM(-1,BASE(10),S[13]+S[11])"),
    "lb":   ("LB lab(2); t('-'); addr(11); t('+'); bas(10); RB", "MEM(-1,BASE(10),S[13]-S[11])"),
    "sl":   ("LB sr(12); t(':'); lab(2); t('+'); addr(11); RB", "MEM(S[12],B_NONE,S[13]+S[11])"),
    "f":    ("LB lab(0); RB", "LMEM(-1,B_NONE,0,1)"),
    "fn":   ("LB lab(0); t('-'); addr(11); RB", "LMEM(-1,B_NONE,-S[11],1)"),
    "bf":   ("LB bas(10); t('+'); lab(0); RB", "LMEM(-1,BASE(10),0,1)"),
    "bnf":  ("LB bas(10); t('+'); addr(11); t('+'); lab(0); RB", "LMEM(-1,BASE(10),S[11],1)"),
    "sfb":  ("LB sr(12); t(':'); lab(0); t('+'); bas(10); t('+'); addr(11); RB", "LMEM(S[12],BASE(10),S[11],1)"),
}
# not operands of the 8086: never assembled into something else
NOT_OPERANDS = {
    "two_bases": "LB t(TOK_SI); t('+'); t(TOK_DI); RB",
    "same_base": "LB t(TOK_BX); t('+'); t(TOK_BX); RB",
    "three":     "LB t(TOK_SI); t('+'); t(TOK_BX); t('+'); t(TOK_SI); RB",
    "minus_reg": "LB addr(11); t('-'); bas(10); RB",
    "minus_lab": "LB addr(11); t('-'); lab(0); RB",
    "ax":        "LB t(TOK_AX); RB",
    "two_labs":  "LB lab(0); t('+'); lab(4); RB",
    "open":      "LB addr(11);",
    "empty":     "LB RB",
    "long_str":  "str(\"abc\",3);",
    "empty_str": "str(\"\",0);",
    "no_bracket": "t(TOK_WORD); addr(11);",
    "inst":      "t(TOK_MOV);",
    "no_colon":  "LB t(TOK_ES); addr(11); RB",
}

def enc_units(tier):
    us = []
    for k, (b, e) in [(k + ("_again" if r else ""), v) for k, v in OPERANDS.items() for r in ((0, 1) if "lab(0)" in v[0] else (0,))]:
        us.append(Unit("operand_" + k, "sas/oper.c", ["REFERENCED=%d" % k.endswith("_again"), "BUILD=" + b, "SPEC=" + e, "KMAX=%d" % runs(b)], unwind=20, fs=600, unwindset=["runs.0:%d" % (runs(b) + 2)],
                       functions=["ParseOperand", "TranslateMemMod", "ReferenceLabel", "ParseNumber", "ParseExpr", "ParseUnary", "ParsePrimary", "NumFromString", "Expect", "Accept", "OutputByte", "IsShort"], calls=CALLS))
    for k, b in NOT_OPERANDS.items():
        us.append(Unit("nooperand_" + k, "sas/oper.c", ["BUILD=" + b, "SPEC=sp(0,0,0,0,0,0)", "MUST=1", "NOCOVER=1", "KMAX=%d" % runs(b)], unwind=20, fs=600, unwindset=["runs.0:%d" % (runs(b) + 2)],
                       functions=["ParseOperand", "TranslateMemMod", "Expect"], calls=CALLS))
    IC = CALLS + [("ParseOperand", "vp_operand")]
    IF = ["HandleInstruction", "OutputModRM", "OutputMR", "OutputMImm", "OutputImm", "OutputImm8", "OutputImm16", "OutputByte", "OutputWord", "AddFixupHere", "IsShort", "Parse2Operands"]
    def ins(n, op, a, b, expect, f, nop=1, **kw):
        """all shapes of the operands: segment override, displacement size, unresolved label"""
        d = ["OP=" + op, "EXPECT=" + expect]
        if a: d.append("AK=K_" + a)
        if b: d.append("BK=K_" + b)
        if nop > 1: d.append("OPC=VP_ASSUME(S[0]>=0&&S[0]<%d)" % nop)
        d += [k.upper() + "=" + v for k, v in kw.items()]
        mem = [(s, f_, l) for s in (0, 1) for f_, l in ((0, 0), (0, 1), (1, 0), (2, 0), (3, 0), (3, 1))] if "MEM" in (a, b) else [(0, 0, 0)]
        for s, f_, l in mem:
            for ll in ((0, 1) if "LIT" in (a, b) else (0,)):
                rejected = kw.get("reject", "0") != "0" and ll
                if rejected and "MEM" in (a, b):
                    continue
                us.append(Unit("%s%s%s" % (n, "_s%df%dl%d" % (s, f_, l) if "MEM" in (a, b) else "", "_lab" if ll else ""), "sas/ins.c",
                               d + ["MEMSEG=%d" % s, "MEMFORM=%d" % f_, "MEMLAB=%d" % l, "LITLAB=%d" % ll] + ["NOCOVER=1"] * bool(rejected), unwind=20, fs=600, functions=IF + list(f), calls=IC))
    def two(n, op, mn, f, combos, nop=1):
        for a, b, w, pre in combos:
            c = [pre] if pre else []
            rej = "0"
            for i, k in enumerate((a, b)):
                if k == "LIT" and w == 0:
                    c.append("sp[%d].val>=-128&&sp[%d].val<256" % (i, i))
                    rej = "sp[%d].lab" % i
            # a size is required with an immediate, otherwise it may be given
            for ms in ([w + 1] if a == "MEM" and b == "LIT" else [0, w + 1] if "MEM" in (a, b) else [0]):
                ins("%s_%s_%s%s" % (n, a, b, "_%d" % ms if ms else ""), op, a, b, "E2(%s,%d)" % (mn, w), f, nop, pre="(" + ")&&(".join(c or ["1"]) + ")", reject=rej, msize=str(ms))
    RM = [("R8", "R8", 0, ""), ("R16", "R16", 1, ""), ("R8", "LIT", 0, ""), ("R16", "LIT", 1, ""), ("R8", "MEM", 0, ""), ("R16", "MEM", 1, ""),
          ("MEM", "R8", 0, ""), ("MEM", "R16", 1, ""), ("MEM", "LIT", 0, ""), ("MEM", "LIT", 1, "")]
    two("alu", "alutok[S[0]]", "M_ADD+S[0]", ("HandleALU",), RM, 8)
    two("mov", "TOK_MOV", "M_MOV", ("HandleMOV",), RM + [("R16", "SR", 1, ""), ("SR", "R16", 1, "sp[0].val!=1"), ("SR", "MEM", 1, "sp[0].val!=1"), ("MEM", "SR", 1, "")])
    ins("mov_SR_LIT", "TOK_MOV", "SR", "LIT", "0", ("HandleMOV",), reject="1", nocover="1")
    two("test", "TOK_TEST", "M_TEST", ("HandleTEST",), [x for x in RM if x[1] == "LIT"])
    two("xchg", "TOK_XCHG", "M_XCHG", ("HandleXCHG",), [("R8", "MEM", 0, ""), ("R16", "MEM", 1, ""), ("R16", "R16", 1, "sp[0].val==0")])
    two("lea", "TOK_LEA", "M_LEA", ("HandleLEA",), [("R16", "MEM", 1, "")])
    for n, k, w in (("R8", "R8", 0), ("R16", "R16", 1), ("MEM8", "MEM", 0), ("MEM16", "MEM", 1)):
        p = str(w + 1) if k == "MEM" else "0"
        ins("inc_" + n, "TOK_INC", k, "", "E1(M_INC,%d)" % w, ("HandleIncDec",), msize=p)
        ins("dec_" + n, "TOK_DEC", k, "", "E1(M_DEC,%d)" % w, ("HandleIncDec",), msize=p)
        if k != "MEM":
            ins("un_" + n, "untok[S[0]]", k, "", "E1(unmn[S[0]],%d)" % w, ("HandleMulDiv", "HandleNotNeg"), 6)
            ins("sh_cl_" + n, "shtok[S[0]]", k, "R8", "ins(0,M_SHL+S[0],%d,op_(O_%s,sp[0].val),op_(O_CL,0))" % (w, n), ("HandleROT",), 3, pre="sp[1].val==1")
            ins("sh_n_" + n, "shtok[S[0]]", k, "LIT", "ins(0,M_SHL+S[0],%d,op_(O_%s,sp[0].val),op_(O_ONE,0))" % (w, n), ("HandleROT",), 3, pre="sp[1].val>=0&&sp[1].val<0x10000", reject="sp[1].lab||sp[1].val!=1")
    for m in ("PUSH", "POP"):
        ins(m.lower() + "_R16", "TOK_" + m, "R16", "", "E1(M_%s,1)" % m, ("Handle" + m,))
        ins(m.lower() + "_SR", "TOK_" + m, "SR", "", "E1(M_%s,1)" % m, ("Handle" + m,), pre="sp[0].val!=1" if m == "POP" else "1")
    ins("push_MEM", "TOK_PUSH", "MEM", "", "E1(M_PUSH,1)", ("HandlePUSH",), msize="2")
    ins("call_R16", "TOK_CALL", "R16", "", "E1(M_CALLR,1)", ("HandleCALL",))
    ins("call_LIT", "TOK_CALL", "LIT", "", "EJ(M_CALL)", ("HandleCALL", "HandleRel16"))
    ins("jmp_LIT", "TOK_JMP", "LIT", "", "EJ(M_JMP)", ("HandleJMP", "HandleRel8", "HandleRel16"))
    ins("jmp_short_LIT", "TOK_JMP", "LIT", "", "if (REACH) EJ(M_JMP); else pos=outlen", ("HandleJMP", "HandleRel8"), shortj="1", warn="!sp[0].lab&&!REACH")
    for s in ("", "_short"):
        ins("jcc%s_LIT" % s, "(TokenType_(jcctok[S[0]]))", "LIT", "", "if (REACH) EJ(M_JCC+jcccc[S[0]]); else pos=outlen", ("HandleJCC", "TranslateIdToken", "HandleRel8"), 28, shortj="1" if s else "0", warn="!sp[0].lab&&!REACH")
    ins("simple", "simpletok[S[0]]", "", "", "ins(0,M_SIMPLE,0,op_(O_I8,simpleop[S[0]]),op_(O_NONE,0))", (), 12)
    # through main: what has no operand to parse, and both contracts together
    def add(n, b, e, f=(), **kw):
        us.append(unit(n, b, e, f, **kw))
    add("rep", "t(TOK_REP); t(TOK_STOSB);", "byte(0xf3); I1(M_SIMPLE,0,N8(0xaa))")
    add("int", "t(TOK_INT); imm(0);", "I1(M_INT,0,N8(S[0]))", ("HandleINT",), reject="S[0]>255")
    add("mov_mfwd_fwd", "t(TOK_MOV); t(TOK_WORD); LB t(TOK_BX); t('+'); lab(0); RB COMMA lab(2); org(14); lab(2); t(':'); org(13); lab(0); t(':');", "I2(M_MOV,1,mem_(-1,B_BX,S[13]),N16(S[14]))")
    add("seq", "t(TOK_MOV); t(TOK_AX); COMMA imm(1); t(TOK_ADD); t(TOK_WORD); LB t(TOK_ES); t(':'); addr(2); RB COMMA imm(3); t(TOK_XOR); t(TOK_CH); COMMA t(TOK_AL); t(TOK_INC); t(TOK_DI); t(TOK_DEC); t(TOK_BYTE); LB t(TOK_DI); RB t(TOK_LODSB);",
        "I2(M_MOV,1,op_(O_R16,0),N16(S[1])); I2(M_ADD,1,mem_(0,B_NONE,S[2]),N16(S[3])); I2(M_XOR,0,op_(O_R8,5),op_(O_R8,0)); I1(M_INC,1,op_(O_R16,7)); I1(M_DEC,0,mem_(-1,B_DI,0)); I1(M_SIMPLE,0,N8(0xac))")
    return us

JF = ("HandleJMP", "HandleJCC", "HandleCALL", "HandleRel8", "HandleRel16", "AddFixupHere", "ReferenceLabel", "HandleDirective", "HandleDx", "HandleResx", "ParseNumber", "ParseExpr", "ParseUnary")
# a jump at address S[1] with target S[2]: does a short one reach?
REACH = "((short)(S[2]-S[1]-2) == (signed char)(S[2]-S[1]-2))"
NOWRAP = "S[1]<0xff00&&S[2]<0xff00&&S[2]>=4&&S[1]>=4"

def label_units(tier):
    us = []
    def add(n, b, e, **kw):
        us.append(unit(n, b, e, JF, **kw))
    for n, pre, post in (("back", "org(2); lab(0); t(':'); org(1); ", ""), ("fwd", "org(1); ", "org(2); lab(0); t(':');")):
        add("jcc_" + n, pre + "t(TOK_JL); lab(0); " + post, "if (%s) IJ(S[1],M_JCC+12,S[2]); else pos=outlen" % REACH, warn="!" + REACH, pre=NOWRAP)
        add("jcc_short_" + n, pre + "t(TOK_JL); t(TOK_SHORT); lab(0); " + post, "if (%s) IJ(S[1],M_JCC+12,S[2]); else pos=outlen" % REACH, warn="!" + REACH, pre=NOWRAP)
        add("jmp_" + n, pre + "t(TOK_JMP); lab(0); " + post, "IJ(S[1],M_JMP,S[2])", pre=NOWRAP)
        add("jmp_short_" + n, pre + "t(TOK_JMP); t(TOK_SHORT); lab(0); " + post, "if (%s) IJ(S[1],M_JMP,S[2]); else pos=outlen" % REACH, warn="!" + REACH, pre=NOWRAP)
        add("call_" + n, pre + "t(TOK_CALL); lab(0); " + post, "IJ(S[1],M_CALL,S[2])", pre=NOWRAP)
        add("dw_" + n, pre + "t(TOK_DW); num(7); COMMA lab(0); COMMA lab(0); " + post, "word(7); word(S[2]); word(S[2])", pre=NOWRAP)
    add("jmp_num", "org(1); t(TOK_JMP); addr(2);", "IJ(S[1],M_JMP,S[2])", pre=NOWRAP)
    add("call_num", "org(1); t(TOK_CALL); addr(2);", "IJ(S[1],M_CALL,S[2])", pre=NOWRAP)
    # several references to the same and to different labels
    add("multi", "t(TOK_ORG); num(256); t(TOK_CALL); lab(0); t(TOK_JMP); lab(2); t(TOK_MOV); t(TOK_DX); COMMA lab(0); t(TOK_CALL); lab(2); lab(0); t(':'); t(TOK_JMP); lab(0); lab(2); t(':'); t(TOK_JMP); lab(0);",
        "IJ(256,M_CALL,256+12); IJ(256+3,M_JMP,256+14); I2(M_MOV,1,op_(O_R16,2),N16(256+12)); IJ(256+9,M_CALL,256+14); IJ(256+12,M_JMP,256+12); IJ(256+14,M_JMP,256+12)", pre=NOWRAP)
    # fixups return to the pool and are used again
    add("pool", "t(TOK_ORG); num(256); t(TOK_CALL); lab(0); t(TOK_CALL); lab(0); lab(0); t(':'); t(TOK_JMP); lab(2); t(TOK_CALL); lab(4); t(TOK_CALL); lab(2); lab(2); t(':'); lab(4); t(':'); t(TOK_RET);",
        "IJ(256,M_CALL,256+6); IJ(256+3,M_CALL,256+6); IJ(256+6,M_JMP,256+15); IJ(256+9,M_CALL,256+15); IJ(256+12,M_CALL,256+15); I1(M_SIMPLE,0,N8(0xc3))", pre=NOWRAP)
    # labels starting with a dot belong to the preceding global label
    add("local", "t(TOK_ORG); num(256); lab(0); t(':'); t(TOK_JMP); lab(1); t(TOK_RET); lab(1); t(':'); t(TOK_CALL); lab(1); lab(2); t(':'); t(TOK_CALL); lab(1); t(TOK_RET); lab(1); t(':'); t(TOK_JMP); lab(1); t(TOK_JMP); lab(0);",
        "IJ(256,M_JMP,256+4); I1(M_SIMPLE,0,N8(0xc3)); IJ(256+4,M_CALL,256+4); IJ(256+7,M_CALL,256+11); I1(M_SIMPLE,0,N8(0xc3)); IJ(256+11,M_JMP,256+11); IJ(256+13,M_JMP,256)", pre=NOWRAP)
    add("undef", "t(TOK_CALL); lab(0); t(TOK_RET);", "0", must="1")
    add("undef_local", "lab(0); t(':'); t(TOK_JMP); lab(1); lab(2); t(':'); lab(1); t(':'); t(TOK_RET);", "0", must="1")
    add("undef_end", "lab(0); t(':'); t(TOK_RET); t(TOK_DW); lab(1);", "0", must="1")
    add("twice", "lab(0); t(':'); t(TOK_RET); lab(0); t(':'); t(TOK_RET);", "0", must="1")
    for u in us[-4:]:
        u.defs.append("NOCOVER")
    # directives
    add("db", "t(TOK_DB); imm8(0); COMMA str(\"ab\",2); COMMA num(13); t(TOK_DB); imm(1);".replace("imm8(0)", "addr(0)"), "byte(S[0]); byte('a'); byte('b'); byte(13); byte(S[1])")
    add("dw", "t(TOK_DW); addr(0); COMMA str(\"abc\",3); COMMA addr(1); t(TOK_DW); str(\"xy\",2);", "word(S[0]); byte('a'); byte('b'); byte('c'); word(S[1]); byte(0); byte('x'); byte('y')")
    add("equ", "lab(0); t(TOK_EQU); imm(1); lab(2); t(TOK_EQU); lab(0); t('+'); imm(3); t(TOK_MOV); t(TOK_CX); COMMA lab(2); t(TOK_MOV); t(TOK_AL); COMMA LB lab(0); RB t(TOK_MOV); t(TOK_CX); COMMA LB t(TOK_BX); t('-'); lab(0); RB",
        "I2(M_MOV,1,op_(O_R16,1),N16(S[1]+S[3])); I2(M_MOV,0,op_(O_R8,0),mem_(-1,B_NONE,S[1])); I2(M_MOV,1,op_(O_R16,1),mem_(-1,B_BX,-S[1]))")
    # reserved space after the program: labels in it have their addresses, nothing is written
    add("res", "org(1); t(TOK_MOV); t(TOK_DX); COMMA lab(2); t(TOK_MOV); t(TOK_AL); COMMA LB lab(4); RB lab(0); t(':'); t(TOK_RESB); addr(4); lab(2); t(':'); t(TOK_RESW); addr(5); lab(4); t(':');",
        "I2(M_MOV,1,op_(O_R16,2),N16(S[1]+6+S[4])); I2(M_MOV,0,op_(O_R8,0),mem_(-1,B_NONE,S[1]+6+S[4]+2*S[5]))", pre="S[4]<0x7000&&S[5]<0x3000&&S[1]<0x1000")
    add("cpu", "t(TOK_CPU); addr(0); t(TOK_RET);", "I1(M_SIMPLE,0,N8(0xc3))", reject="S[0]!=8086", must="S[0]!=8086")
    # capacity: exactly full is fine, one more is a diagnostic, never a wrong file
    full = "t(TOK_DW); " + " COMMA ".join("addr(%d);" % i for i in range(8)) + " COMMA " + " COMMA ".join("num(7);" for i in range(8))
    add("full", full, "; ".join("word(S[%d])" % i for i in range(8)) + "; " + "; ".join("word(7)" for i in range(8)))
    add("too_long", full + " t(TOK_DB); num(1);", "0", must="1")
    calls = lambda n: "t(TOK_ORG); num(256); " + " ".join("t(TOK_CALL); lab(0);" for i in range(n))
    # all of a label's fixups return to the pool
    add("fixups", calls(8) + " lab(0); t(':'); " + calls(8).split(";", 2)[2].replace("lab(0)", "lab(2)") + " lab(2); t(':'); t(TOK_CALL); lab(4); lab(4); t(':'); t(TOK_RET);",
        "; ".join("IJ(%d,M_CALL,280)" % (256 + 3 * i) for i in range(8)) + "; " + "; ".join("IJ(%d,M_CALL,304)" % (280 + 3 * i) for i in range(8)) + "; IJ(304,M_CALL,307); I1(M_SIMPLE,0,N8(0xc3))", output=64)
    add("too_many_fixups", calls(9) + " lab(0); t(':'); t(TOK_RET);", "0", must="1")
    add("res_code", "t(TOK_RESB); addr(1); t(TOK_RET);", "0", must="1")
    add("db_label", "lab(0); t(':'); t(TOK_DB); lab(0);", "0", must="1")
    add("equ_twice", "lab(0); t(TOK_EQU); imm(1); lab(0); t(TOK_EQU); imm(2); t(TOK_RET);", "0", must="1")
    add("stray", "lab(0); t(TOK_RET);", "0", must="1")
    add("reg_first", "t(TOK_AX); t(TOK_RET);", "0", must="1")
    for u in us:
        if u.name in ("too_long", "too_many_fixups", "res_code", "db_label", "equ_twice", "stray", "reg_first"):
            u.defs.append("NOCOVER")
    # a label is what follows it, wherever ORG moves it; equates of labels
    add("org2", "t(TOK_ORG); num(256); t(TOK_JMP); lab(0); org(1); lab(2); t(':'); t(TOK_DW); lab(2); COMMA lab(0); org(3); lab(0); t(':'); t(TOK_DW); lab(0);",
        "IJ(256,M_JMP,S[3]); word(S[1]); word(S[3]); word(S[3])", pre="S[3]>=0&&S[3]<0x10000")
    add("data_code", "t(TOK_ORG); num(256); t(TOK_JMP); lab(0); lab(2); t(':'); t(TOK_DB); addr(1); COMMA str(\"hello\",5); lab(0); t(':'); t(TOK_MOV); t(TOK_SI); COMMA lab(2); t(TOK_MOV); t(TOK_AL); COMMA LB lab(2); t('+'); num(1); RB t(TOK_JMP); lab(0);",
        "IJ(256,M_JMP,265); byte(S[1]); byte('h'); byte('e'); byte('l'); byte('l'); byte('o'); I2(M_MOV,1,op_(O_R16,6),N16(259)); I2(M_MOV,0,op_(O_R8,0),mem_(-1,B_NONE,260)); IJ(271,M_JMP,265)")
    # constant expressions
    V = "t(TOK_MOV); t(TOK_SI); COMMA "
    for n, b, e in (("add", "imm(1); t('+'); imm(2); t('-'); imm(3);", "S[1]+S[2]-S[3]"),
                    ("or", "imm(1); t('|'); imm(2); t('+'); imm(3); t('|'); imm(4);", "S[1]|(S[2]+S[3])|S[4]"),
                    ("lsh", "imm(1); t('+'); imm(2); t(TOK_LSH); num(3); t('|'); imm(3);", "((S[1]+S[2])<<3)|S[3]"),
                    ("lsh2", "num(3); t(TOK_LSH); imm(1); t(TOK_LSH); num(1); t('+'); num(1);", "(3<<S[1])<<2"),
                    ("lsh3", "imm(1); t(TOK_LSH); num(2); t(TOK_LSH); num(3);", "S[1]<<5"),
                    ("sub", "imm(1); t('-'); imm(2); t('-'); imm(3); t('+'); imm(4);", "S[1]-S[2]-S[3]+S[4]"),
                    ("un", "t('-'); imm(1); t('+'); t('~'); imm(2); t('-'); t('-'); imm(3); t('+'); t('+'); imm(4);", "-S[1]+~S[2]+S[3]+S[4]"),
                    ("unun", "t('-'); t('~'); imm(1); t('|'); t('~'); t('~'); imm(2);", "(-~S[1])|S[2]"),
                    ("str", "str(\"A\",1); t('+'); imm(1);", "65+S[1]"),
                    ("str2", "imm(1); t('+'); str(\"AB\",2);", "0x4241+S[1]"),
                    ("lab", "", "")):
        if b:
            add("expr_" + n, V + b, "I2(M_MOV,1,op_(O_R16,6),N16(%s))" % e, pre="S[1]>=0&&S[1]<=%s" % ("8" if n == "lsh2" else "0xffff"))
    return us
