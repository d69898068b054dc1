/* Contract of HandleInstruction: given operands as ParseOperand delivers them
 * (opspec.h), it emits exactly one instruction that means what the mnemonic
 * says, once the labels it refers to have their addresses.
 *   OP       the mnemonic's token
 *   AK, BK   the operands' kinds
 *   EXPECT   the instruction */
#include "common.h"
#include "dis.h"
#include "tok.h"
#include "opspec.h"
#ifndef REJECT
#define REJECT 0
#endif
#ifndef PRE
#define PRE 1
#endif
#ifndef BK
#define BK K_NONE
#endif
#ifndef AK
#define AK K_NONE
#endif
#ifndef SHORTJ
#define SHORTJ 0
#endif
#ifndef WARN
#define WARN 0
#endif
static struct Spec sp[2];
static int nop, A0, LV[2], form[2];
#ifndef MEMLAB
#define MEMLAB 0
#endif
#ifndef LITLAB
#define LITLAB 0
#endif
#ifndef MEMSEG
#define MEMSEG 0
#endif
#ifndef MEMFORM
#define MEMFORM 0
#endif
#ifndef MSIZE
#define MSIZE 0
#endif
#ifndef OPC
#define OPC
#endif
#define TOK_OPERAND 127
void vp_loud(void)
{
    VP_ASSERT(REJECT, "a valid instruction is accepted");
#ifdef NOCOVER
    VP_COVER("rejected");
#endif
    VP_STOP();
}
long vp_read(int fd, void *p, unsigned long n) { return 0; }
long vp_write(int fd, const void *p, unsigned long n) { return 0; }
/* ParseOperand's contract */
void vp_operand(struct Operand *o)
{
    struct Spec *s;
    struct Operand r;
    int b = 20 + 8 * nop;
    VP_ASSERT(TokenType == TOK_OPERAND && nop < 2, "operand expected");
    s = &sp[nop++];
    r.Type = s->kind == K_LIT ? OPTYPE_LIT : s->kind == K_MEM ? OPTYPE_MEM : OPTYPE_REG;
    r.ModRM = VP_IN(b + 2); r.Disp = VP_IN(b + 3);
    if (s->kind == K_R8) r.Disp = TOK_AL + s->val;
    if (s->kind == K_R16) r.Disp = TOK_AX + s->val;
    if (s->kind == K_SR) r.Disp = TOK_ES + s->val;
    if (s->kind == K_MEM) {       /* ModRM byte by form */
        int f = form[s - sp];
        r.ModRM = f == 0 ? 6 : f == 1 ? s->base : f == 2 ? 0x40 | s->base : s->base - 0x80;
    }
    if (s->kind == K_LIT) r.Disp = s->val;
    r.Fixup = s->lab ? &Labels[s->lab - 1] : 0;
    VP_ASSUME(vp_operand_ok(&r, s));
    if (s->lab) { Labels[s->lab - 1].Type = LABEL_NORMAL; Labels[s->lab - 1].Val = -1; }
    if (s->seg >= 0) OutputByte(0x26 | s->seg << 3);
    if (s->size) SizeOverride = s->size;
    *o = r;
    GetToken();
}
/* a literal that may be a label */
#define LITV(i) (sp[i].val + (sp[i].lab ? LV[sp[i].lab - 1] : 0))
static struct Op oracle(int i, int w)
{
    struct Spec *s = &sp[i];
    switch (s->kind) {
    case K_R8:  return op_(O_R8, s->val);
    case K_R16: return op_(O_R16, s->val);
    case K_SR:  return op_(O_SR, s->val);
    case K_LIT: return w ? op_(O_I16, LITV(i) & 0xffff) : op_(O_I8, LITV(i) & 0xff);
    case K_MEM: return mem_(s->seg, s->base, LITV(i));
    }
    return op_(O_NONE, 0);
}
#define OA oracle(0, W_)
#define OB oracle(1, W_)
#define E2(mn, w) { int W_ = w; ins(A0, mn, w, OA, OB); }
#define E1(mn, w) { int W_ = w; ins(A0, mn, w, OA, op_(O_NONE, 0)); }
#define EJ(mn) ins(A0, mn, 1, op_(O_T, LITV(0) & 0xffff), op_(O_NONE, 0))
/* does a short jump reach? */
#define REACH ((short)(LITV(0) - A0 - 2) == (signed char)(LITV(0) - A0 - 2))
/* token of a mnemonic after the lexer's translation of synonyms */
static int TokenType_(int tok)
{
    int s = TokenType, r;
    TokenType = tok; TranslateIdToken(); r = TokenType; TokenType = s;
    return r;
}
/* an operand of the given kind: register numbers and the form of a memory
 * operand are choices, everything else is unrestricted */
static void spec(int i, int kind)
{
    int b = 40 + 8 * i, f;
    struct Spec *s = &sp[i];
    s->kind = kind; s->lab = 0; s->seg = -1; s->size = 0; s->base = B_NONE;
    s->val = VP_IN(b);
    if (kind == K_R8 || kind == K_R16) { VP_ASSUME(s->val >= 0 && s->val < 8); return; }
    if (kind == K_SR) { VP_ASSUME(s->val >= 0 && s->val < 4); return; }
    if (kind == K_LIT) { if (LITLAB) { s->lab = 1 + i; s->val = 0; } return; }
    if (MEMLAB) s->lab = 1 + i;
    if (MEMSEG) { s->seg = VP_IN(b + 2); VP_ASSUME(s->seg >= 0 && s->seg < 4); }
    f = form[i] = MEMFORM;
    if (f) { s->base = VP_IN(b + 3); VP_ASSUME(s->base == B_BXSI || (s->base >= B_SI && s->base <= B_BX)); }
    s->size = MSIZE;
}
static void one(void)
{
    int i;
    IdCount = TOK_JNLE + 1 - TOK_ID + 2;
    for (i = 0; i < 3; i++) Fixups[i].Next = &Fixups[i + 1];
    NextFixup = &Fixups[0];
    A0 = VirtAddress = VP_IN(56); VP_ASSUME(A0 >= 0 && A0 < 0xff00);
    for (i = 0; i < 2; i++) { LV[i] = VP_IN(57 + i); VP_ASSUME(LV[i] >= 0 && LV[i] < 0x10000); }
    if (AK) spec(0, AK);
    if (BK) spec(1, BK);
    OPC;
    VP_ASSERT(kk == 0, "KMAX covers the choices");
    VP_ASSUME(PRE);
    if (SHORTJ) t(TOK_SHORT);
    if (AK) t(TOK_OPERAND);
    if (BK) { COMMA; t(TOK_OPERAND); }
    GetToken();
    SizeOverride = 0;
    HandleInstruction(OP);
#ifndef NOCOVER
    VP_COVER("accepted");
#else
    VP_ASSERT(0, "an invalid instruction is rejected");
#endif
    VP_ASSERT(TokenType == 0 && nop == (AK != 0) + (BK != 0), "the operands are consumed");
    VP_ASSERT(OutputBufPos > 0 && OutputBufPos <= 10 && VirtAddress == A0 + OutputBufPos, "address advances with the output");
    VP_ASSERT(!!vp_notes == !!(WARN), "diagnostics");
    out = (const unsigned char *)OutputBuf; outlen = OutputBufPos;
    /* labels receive their addresses (main's contract, asm.c) */
    for (i = 0; i < 2; i++) {
        struct Fixup *f = Labels[i].Fixups;
        VP_ASSERT(!f || (sp[0].lab == i + 1) || (sp[1].lab == i + 1), "fixup belongs to the label");
        if (f) {
            int o = f->Offset;
            VP_ASSERT(f->Next == 0, "one fixup per reference");
            VP_ASSERT(o > 0 && o < outlen && f->Address == A0 + o, "fixup position");
            if (o > 0 && o < outlen) {
                if (f->Type == FIXUP_REL8) OutputBuf[o] += LV[i];
                else {
                    int v;
                    VP_ASSERT(o + 1 < outlen && (f->Type == FIXUP_REL16 || f->Type == FIXUP_DISP16), "fixup kind");
                    v = (OutputBuf[o] & 0xff | (OutputBuf[o + 1] & 0xff) << 8) + LV[i];
                    OutputBuf[o] = v; OutputBuf[o + 1] = v >> 8;
                }
            }
        }
    }
    EXPECT;
    VP_ASSERT(pos == outlen, "nothing else is emitted");
}
void harness(void)
{
    int i;
    for (i = 0; i < NSYM; i++) S[i] = VP_IN(i);
    runs();
}
