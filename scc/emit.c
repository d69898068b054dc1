/* Contracts of the emitters with a constant operand.
 *   requires  state.h; no operand waits in AX; n as per unit
 *   ensures   the emitted code computes the stated value for every register
 *             content, preserves every register it does not name, SP/frame
 *             as the compile-time state says */
#include "common.h"
#include "state.h"

static void fresh_code(int r, int n)
{
    if (FN == 0) EmitAddRegConst(r, n);
    else if (FN == 1) EmitScaleAx(n);
    else EmitDivAxConst(n);
}

void harness(void)
{
    static struct R86 old;
    int n, i, r = REG;
    u16_86 want;
    world();
    n = (short)VP_IN(I_V);
    VP_ASSUME(PRE(n));
#ifdef CONSTN
    n = CONSTN;
#endif
    IsUnsignedOp = UNS;
    LastZFInst = 0;
    read_objects();
    old = cpu;
    VP_COVER("precondition satisfiable");
    fresh_code(r, n);
    VP_ASSERT(!LastZFInst, "no claim about the zero flag");
    if (n == 0 && FN == 0) VP_ASSERT(CodeAddress == CODESTART + 16, "adding 0 emits nothing");
    run_to(CODESTART + 16, CodeAddress);
    if (FN == 0) want = (u16_86)(old.r[r] + n);
    else if (FN == 1) {
#ifdef CONSTN
        want = (u16_86)(old.r[AX86] * (CONSTN));
#else
        want = (u16_86)MUL16(old.r[AX86], n);
#endif
    } else {
#ifdef CONSTN
        want = UNS ? (u16_86)(old.r[AX86] / (u16_86)(CONSTN)) : SDIV16(old.r[AX86], CONSTN);
#else
        want = UNS ? UDIV16(old.r[AX86], n) : SDIV16(old.r[AX86], n);
#endif
    }
    for (i = 0; i < 8; i++) {
        if (i == SP86) continue;
        if (i == r) VP_ASSERT(cpu.r[i] == want, "result");
        else if (FN == 0 || (i != CX86 && i != DX86)) VP_ASSERT(cpu.r[i] == old.r[i], "other registers are preserved");
    }
    if (FN == 0 && n) VP_ASSERT(!(cpu.f & F86_Z) == !!want, "zero flag reflects the result");
    if (r == SP86) { VP_ASSERT(cpu.r[SP86] == want, "result"); return; }
    frame(1);
}
