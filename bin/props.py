from vp import Unit
PROPS = {}
NOT_APPLICABLE = {
 "C16": "macro replacement works by pushing linked token lists on a stack of sources and recursing; with any unrestricted token the list pointers become symbolic and the verifier does not terminate, even a concrete program with one function-like macro takes over 200 s; no contract per function is strong enough to imply the whole (the nesting of replacement lists is the argument). It was tested against an independent preprocessor instead, which found the defects recorded in known-findings.jsonl, but that is not this technique.",
}
HOOK_COMMITS = ['c385059fd307166d74404f95330d21878f315608', '4569a109dd6a29ba7dd9dfef3059088366132903']

def prop(pid, level="proof", assumptions=()):
    def deco(f):
        PROPS[pid] = dict(units=f, level=level, assumptions=list(assumptions))
        return f
    return deco

# ---------------------------------------------------------------- sim86
def step(op, pre=None, op1=None, weight=1, functions=("sim86.c:main",), defs_extra=(), **kw):
    defs = list(defs_extra) + ["OPC0=0x%02x" % op] + (["OPC1=0x%02x" % op1] if op1 is not None else [])
    name = "step_%02x" % op + ("_%02x" % op1 if op1 is not None else "")
    if pre:
        defs.append("VP_PRE=" + pre[1]); name += "_" + pre[0]
    return Unit(name, "sim86/step.c", defs, weight=weight, functions=functions, **kw)


SIM_ASSUME = [
 "tracing (-v) and profiling (-p) are off: verbose and do_profile are 0 in the verified step",
 "host int is 32 bit two's complement with wrap-around (as gcc -fwrapv); sprintf/printf text output is not modelled",
 "mem[] is verified as an SMT array indexed by the 20 bit linear address; its host bounds are a separate obligation",
 "encodings without an architected meaning, division overflow/by zero, shift counts above 31 and 32 bit dividends are outside the contract",
]
SIM_F = ["sim86.c:main", "ReadIByte", "Read8", "Read16", "Write8", "Write16"]
ALU_F = SIM_F + ["ModRM", "ReadRM", "WriteRM", "ReadReg", "WriteReg", "ALUOp", "DoOp", "Imm16", "DoIncDec", "INC", "DEC", "MUL", "MulHi"]

@prop("C01", assumptions=SIM_ASSUME)
def _(tier):
    us = [step(o * 8 + f, functions=ALU_F) for o in range(8) for f in range(6)] + [step(o, functions=ALU_F) for o in range(0x40, 0x50)] + \
        [step(o, functions=ALU_F, weight=9) for o in (0x80, 0x81, 0x82, 0x83, 0x98, 0x99, 0xd1, 0xd3, 0xff)]
    for r in range(8):
        us.append(step(0xf7, ("r%d" % r, "((mem[r86_lin(ref.s[1],ref.ip+1)]>>3)&7)==%d" % r), weight=20, functions=ALU_F, backend="uf" if 3 < r else "sat"))
    us.append(step(0xfe, functions=ALU_F))
    return us

MOV_F = SIM_F + ["ModRM", "ReadRM", "WriteRM", "ReadReg", "WriteReg", "MOV", "PUSH", "POP", "DoPush", "DoPop", "DataSeg"]
PREFIX = (0x26, 0x2e, 0x36, 0x3e)
@prop("C02", assumptions=SIM_ASSUME)
def _(tier):
    ops = list(range(0x88, 0x8f)) + list(range(0xa0, 0xa4)) + list(range(0x90, 0x98)) + list(range(0xb0, 0xc0)) + \
        list(range(0x50, 0x60)) + [0xc6, 0xc7] + [0x06, 0x07, 0x0e, 0x16, 0x17, 0x1e, 0x1f]
    us = [step(o, functions=MOV_F) for o in ops]
    for i, o in enumerate((0x01, 0x8b, 0x88, 0xa1, 0xa2, 0xc7, 0xc6, 0x8c, 0x8e, 0xff, 0xd1, 0x81, 0xa0, 0xa3)):
        for j, p in enumerate(PREFIX):
            us.append(step(p, op1=o, weight=10, functions=MOV_F))
    return us

@prop("C03", assumptions=SIM_ASSUME)
def _(tier):
    f = SIM_F + ["JCC", "JMP", "DoPush", "DoPop", "ModRM", "ReadRM"]
    return [step(o, functions=f) for o in list(range(0x70, 0x80)) + [0xc3, 0xe8, 0xe9, 0xeb]] + [step(0xff, weight=10, functions=f)]

@prop("C04", assumptions=SIM_ASSUME)
def _(tier):
    us = []
    f = ["sim86.c:main", "INT", "HandleOpen", "ReadAsciiz", "ReadToMem", "WriteFromMem", "HostBuf", "DoExit"]
    for fn in (0x02, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x4c):
        us.append(Unit("int21_%02x" % fn, "sim86/int.c", ["INTNO=0x21", "FUNC=0x%02x" % fn], unwind=70, functions=f,
                       backend="cvc5" if fn in (0x3c, 0x3d) else "sat"))
    us.append(Unit("int21_other", "sim86/int.c", ["INTNO=0x21"], unwind=70, functions=f))
    us.append(Unit("int20", "sim86/int.c", ["INTNO=0x20"], unwind=70, functions=f))
    us.append(Unit("int_other", "sim86/int.c", [], unwind=70, functions=f))
    for n in (0, 1, 2):
        for v in (0, 1):
            us.append(Unit("start_%dargs%s" % (n, "_v" if v else ""), "sim86/start.c", ["NARGS=%d" % n] + ["WITH_V"] * v, unwind=10,
                           functions=["sim86.c:main", "ReadFile", "ReadToMem", "HostBuf"], bounded="at most 2 arguments of at most 3 characters"))
    return us

@prop("C07", assumptions=SIM_ASSUME[1:])
def _(tier):
    ops = sorted(SUPPORTED - {0xcd, 0xf7, 0xf2, 0xf3, 0x26, 0x2e, 0x36, 0x3e})
    us = [step(o, defs_extra=["VP_TRACE"], functions=ALU_F + MOV_F) for o in ops]
    us += [step(p, op1=0x8b, defs_extra=["VP_TRACE"], functions=ALU_F) for p in PREFIX]
    return us

SUPPORTED = set(range(0x00, 0x40)) - {0x27, 0x2f, 0x37, 0x3f} | set(range(0x40, 0x60)) | (set(range(0x70, 0x84)) - {0x7a, 0x7b}) | \
    set(range(0x88, 0x8f)) | set(range(0x90, 0x9a)) | set(range(0xa0, 0xa4)) | {0xa4, 0xa5, 0xa6, 0xaa, 0xab, 0xac, 0xad, 0xae} | \
    set(range(0xb0, 0xc0)) | {0xc3, 0xc6, 0xc7, 0xcd, 0xd1, 0xd3, 0xe8, 0xe9, 0xeb, 0xf2, 0xf3, 0xf7, 0xfe, 0xff}
@prop("C05", assumptions=SIM_ASSUME)
def _(tier):
    return [step(o, functions=["sim86.c:main", "Fatal"]) for o in range(256) if o not in SUPPORTED]

@prop("C06", assumptions=SIM_ASSUME)
def _(tier):
    n = 3 if tier == "quick" else 6
    us = []
    f = SIM_F + ["DoOp", "WriteReg", "DataSeg"]
    for rep, op in [(0xf3, 0xa4), (0xf3, 0xa5), (0xf3, 0xa6), (0xf2, 0xae), (0xf3, 0xaa), (0xf3, 0xab)]:
        us.append(step(rep, ("cx%d" % n, "ref.r[1]<=%d" % n), op1=op, unwind=n + 9, functions=f, bounded="CX <= %d" % n,
                       defs_extra=["VP_CXMAX=%d" % n]))
    def rep_unit(*opc):
        return Unit("rep_" + "_".join("%02x" % o for o in opc), "sim86/rep.c", ["OPCS=" + ",".join(map(str, opc))], unwind=9, functions=f, optional=True,
                    search=[{1: cx, 15: fill, 0: ax, 13: fl} for cx in (0, 1, 2, 3, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xffff) for fill in (0, 1, 2) for ax, fl in ((0, 0), (0x41, 64), (0x4141, 0))])
    for rep, op in [(0xf3, 0xa4), (0xf3, 0xa5), (0xf3, 0xa6), (0xf2, 0xae), (0xf3, 0xaa), (0xf3, 0xab)]:
        us.append(rep_unit(rep, op))
        for i, p in enumerate(PREFIX):
            if tier != "quick" or (i + op) % 2: us.append(rep_unit(rep, p, op))
            if tier != "quick" or (i + op) % 2 == 0: us.append(rep_unit(p, rep, op))
    us += [step(o, functions=f) for o in (0xa4, 0xa5, 0xa6, 0xaa, 0xab, 0xac, 0xad, 0xae)]
    us += [step(p, op1=o, functions=f) for p in PREFIX for o in (0xac, 0xad)]
    return us

# ---------------------------------------------------------------- scc
import scc_units as S
SCC_ASSUME = [
 "operand combinations are enumerated (kind x type x context, a covering selection in the quick tier); values, addresses, registers, flags and memory are unrestricted within each",
 "the sub-expression parser is assumed to meet its contract (state.h: makes its operand current, saves a live BX, leaves the stack as the compile-time state says); C10 discharges it for unary and primary expressions, C08/C09 for binary ones",
 "products and quotients of two unknown words are uninterpreted functions on both sides (sound: what holds for all functions holds for the real ones)",
 "the emitted code runs with CS=DS=ES=SS (tiny model); objects do not overlap the 48 bytes of scratch stack below the frame",
 "OUTPUT_MAX is scaled to 256 bytes, diagnostics print nothing, file operations are stubs",
 "division by zero, shift counts >= 16 and -32768/-1 are undefined in C and excluded",
 "host int is 32 bit with wrap-around (as gcc -fwrapv)",
]
@prop("C08", assumptions=SCC_ASSUME)
def _(tier):
    return S.emit_units(tier) + S.binop_units(tier) + S.ptr_units(tier)

@prop("C09", assumptions=SCC_ASSUME)
def _(tier):
    return S.assign_units(tier) + S.logic_units(tier) + S.dead_units(tier)

@prop("C10", assumptions=SCC_ASSUME)
def _(tier):
    return S.unary_units(tier) + S.primary_units()

@prop("C11", assumptions=SCC_ASSUME)
def _(tier):
    return S.call_units(tier)

@prop("C17", assumptions=["source text of printable ASCII characters, tabs and newlines, shorter than one read buffer; the text of a unit is at most 6 characters; reads end as the splits say (at no character, at every character)", "host int is 32 bit; values are compared modulo 2^16", "OUTPUT_MAX is scaled to 256 bytes, diagnostics print nothing"])
def _(tier):
    return S.lex_units(tier)

import stmt_units as ST
STMT_ASSUME = [
 "programs are enumerated as templates (every statement form, nested in the others, with declarations, early exits, gotos and switch layouts, at short and long distances); every value, address, register, flag and memory content and every iteration is covered by induction over the control-flow rows",
 "the lexer is replaced by its contract (a token list); expressions by theirs (C08 to C11)",
 "an expression leaves control at its end; loops without any expression are not considered",
 "the emitted code runs with CS=DS=ES=SS; code and stack do not overlap",
]
@prop("C12", assumptions=STMT_ASSUME)
def _(tier):
    return ST.stmt_units(tier)

# ---------------------------------------------------------------- sas
import sas_units as SA
SAS_ASSUME = [
 "programs are enumerated as templates (instruction form x operand form); registers, mnemonics of a group, numbers and addresses are unrestricted within each",
 "the lexer is replaced by its contract (a token list); file operations are stubs, messages print nothing",
 "OUTPUT_MAX is scaled to 32 bytes",
 "lines that are not 8086 instructions (operands of different sizes, byte registers where the instruction has none) are outside the contract",
 "host int is 32 bit with wrap-around (as gcc -fwrapv)",
]
@prop("C13", assumptions=SAS_ASSUME)
def _(tier):
    return SA.enc_units(tier)

@prop("C14", assumptions=SAS_ASSUME + ["addresses do not wrap around 64K"])
def _(tier):
    return SA.label_units(tier)

# ---------------------------------------------------------------- scpp
import scpp_units as SP
SCPP_ASSUME = [
 "programs are enumerated as templates (every operator and pair of operators, every directive, nesting); numbers are unrestricted 16-bit values (written in hexadecimal), so every path through the conditions is covered",
 "the lexer is replaced by its contract (a token list); file operations are stubs, messages print nothing",
 "host int is 32 bit with wrap-around (as gcc -fwrapv)",
]
@prop("C15", assumptions=SCPP_ASSUME)
def _(tier):
    return SP.cond_units(tier)
