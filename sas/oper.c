/* Contract of ParseOperand: the operand given as tokens becomes a struct
 * Operand that stands for it (opspec.h), the segment override prefix is
 * emitted, the size override noted, and the tokens consumed.
 *   BUILD   the tokens;  SPEC  the operand they mean */
#include "common.h"
#include "dis.h"
#include "tok.h"
#include "opspec.h"
#ifndef REJECT
#define REJECT 0
#endif
#ifndef REFERENCED
#define REFERENCED 0
#endif
#ifndef MUST
#define MUST 0
#endif
void vp_loud(void)
{
    VP_ASSERT(REJECT || MUST, "a valid operand is accepted");
#ifdef NOCOVER
    VP_COVER("rejected");
#endif
    VP_STOP();
}
long vp_read(int fd, void *p, unsigned long n) { return 0; }
long vp_write(int fd, const void *p, unsigned long n) { return 0; }
static struct Spec sp(int kind, int val, int lab, int seg, int base, int size)
{
    struct Spec s;
    s.kind = kind; s.val = val; s.lab = lab; s.seg = seg; s.base = base; s.size = size;
    return s;
}
#define MEM(seg, base, val) sp(K_MEM, val, 0, seg, base, 0)
#define SMEM(size, seg, base, val) sp(K_MEM, val, 0, seg, base, size)
#define LMEM(seg, base, val, lab) sp(K_MEM, val, lab, seg, base, 0)
static void one(void)
{
    struct Operand o;
    struct Spec s;
    int va, so;
    IdCount = TOK_JNLE + 1 - TOK_ID;
    BUILD;
    VP_ASSERT(kk == 0, "KMAX covers the choices");
    t(TOK_COMMA);
    va = VirtAddress = VP_IN(NSYM); VP_ASSUME(va >= 0 && va < 0xff00);
    so = SizeOverride = VP_IN(NSYM + 1);
    /* Labels[2] has the address S[13], Labels[0] and Labels[4] none yet
     * (REFERENCED: Labels[0] has been referred to before) */
    VP_ASSUME(S[13] >= 0 && S[13] < 0x10000);
    IdCount += 5;
    Labels[2].Type = LABEL_NORMAL; Labels[2].Val = S[13];
    if (REFERENCED) { Labels[0].Type = LABEL_NORMAL; Labels[0].Val = -1; }
    GetToken();
    ParseOperand(&o);
#ifndef NOCOVER
    VP_COVER("accepted");
#endif
    VP_ASSERT(!(MUST), "an invalid operand is rejected");
    s = SPEC;
    VP_ASSERT(TokenType == TOK_COMMA && tkpos == ntk, "the operand's tokens are consumed");
    VP_ASSERT(vp_operand_ok(&o, &s), "the operand means what it says");
    VP_ASSERT(SizeOverride == (s.size ? s.size : so), "size override");
    VP_ASSERT(OutputBufPos == (s.seg >= 0) && VirtAddress == va + OutputBufPos, "segment override prefix");
    VP_ASSERT(s.seg < 0 || OutputBuf[0] == (0x26 | s.seg << 3), "segment override");
    if (s.lab) VP_ASSERT(Labels[s.lab - 1].Type == LABEL_NORMAL && Labels[s.lab - 1].Val == -1, "label is referenced");
    VP_ASSERT(vp_notes == 0, "diagnostics");
}
void harness(void)
{
    int i;
    for (i = 0; i < NSYM; i++) S[i] = VP_IN(i);
    runs();
}
