/* Contract of unary and postfix operators, casts, sizeof, ++/--, indexing,
 * member access and function calls (ParseCastExpression,
 * ParseUnaryExpression, ParsePostfixExpression, DoIncDecOp).
 *
 *   requires  state.h: any outer operand context
 *   callee    ParsePrimaryExpression is replaced by its contract: each
 *             operand token '1' makes the next operand current
 *   ensures   the emitted code yields the C value (or the lvalue: type,
 *             extra and address), the right object and nothing else changes,
 *             operands are evaluated once and in order; a called function
 *             finds its arguments in order above the return address
 */
#define NOPD 12
#if defined(NARGS)
#define VP_CALLEE
#define VP_STEPS 90
#define R86_MAXW 24
#define SCRATCH 80
#endif
#include "common.h"
#include "state.h"

enum { U_VAL, U_NEG, U_COMPL, U_NOT, U_DEREF, U_ADDR, U_CAST, U_SIZEOF, U_INC, U_INDEX, U_MEMBER, U_CALL };
#ifndef LCC
#define LCC JL
#endif
#ifndef RKIND
#define RKIND 0
#define RTYPE 0
#endif
#ifndef AK   /* kinds and types of the call's arguments */
#define AK {0}
#define AT {0}
#endif
#ifndef CASTTO
#define CASTTO 0
#endif
#ifndef MTYPE
#define MTYPE VT_INT
#endif
#ifndef NARGS
#define NARGS 0
#endif
#ifndef DELTA
#define DELTA 0
#endif
#ifndef POST
#define POST 0
#endif
#define MEMBER_ID 60

static const char src[] = SRC;
static int nprim, ncast;
void vp_primary(void)
{
    VP_ASSERT(TokenType == TOK_NUM, "operand expected here");
    GetToken();
    ghost_emit(nprim++);
}
/* type names: the token '1' stands for CASTTO */
int vp_typestart(void) { return CASTTO && TokenType == TOK_NUM && ncast == 0; }
void vp_abstract(void) { ncast++; GetToken(); CurrentType = CASTTO; CurrentTypeExtra = 9; }

static u16_86 retval;
static int calls_made;
static u16_86 fn_addr;
#ifdef VP_CALLEE
static void vp_callee(void)
{
    int k;
    u16_86 ret = rd16(cpu.r[SP86]), sp = cpu.r[SP86];
    calls_made++;
    VP_ASSERT(cpu.ip == fn_addr, "the designated function is called");
    VP_ASSERT(ret == last_push && ret > CODESTART + 16 && ret <= CodeAddress, "return address");
    for (k = 0; k < NARGS; k++)
        VP_ASSERT(rd16(sp + 2 + 2 * k) == oval(&opd[1 + k]), "argument value");
    for (k = 0; k < NARGS; k++) wr16(sp + 2 + 2 * k, junk(5));
    wr16(sp, junk(6));
    cpu.r[AX86] = retval;
    cpu.r[CX86] = junk(0); cpu.r[DX86] = junk(1); cpu.r[SI86] = junk(2); cpu.r[DI86] = junk(3); cpu.r[BX86] = junk(4);
    cpu.f = junk(7) & F86_ALL;
    cpu.r[SP86] = sp + 2;
    cpu.ip = last_push;
}
#else
static void vp_callee(void) {}
#endif

static int is_lval, rt, rx;   /* expected result: lvalue?, type, extra */
static u16_86 want;           /* value or address */
static int check_x, lzclaim;

void harness(void)
{
    void (*real)(void) = ParseCastExpression;
    static const int ak[] = AK, at[] = AT;
    int k, lt, t, changed = 0, sz;
    u16_86 l, nv = 0;

    world();
    declare(0, LKIND, LTYPE, LCC);
    if (RKIND) declare(1, RKIND, RTYPE, JL);
    for (k = 0; k < NARGS; k++) declare(1 + k, ak[k], at[k], JL);
    /* structure with members int, char, MTYPE m, int (or m first) */
#ifdef MEMI
    for (k = 0; k < 4; k++) {
        StructMembers[k].Type = k == 1 ? VT_CHAR : VT_INT;
        StructMembers[k].TypeExtra = 20 + k;
        StructMembers[k].Id = 1 + k;
        StructMembers[k].Next = k < 3 ? &StructMembers[k + 1] : 0;
    }
    StructMembers[MEMI].Type = MTYPE;
    StructMembers[MEMI].Id = MEMBER_ID;
#endif
#ifdef UNION
    StructDecls[0].Id |= IS_UNION_FLAG;
#endif
    IdBufPtr = IdBuffer;
    IdCount = MEMBER_ID;
    IdHashTab['m'] = -1;
    read_objects();
    l = oval(&opd[0]);
    lt = otype(&opd[0]);
    retval = (u16_86)VP_IN(I_X);
    if (opd[0].kind == K_AX) { LastZFInst = 0; }
    start_tokens(src);
#ifdef FIRSTTOK
    InBufPtr = InBuf; CopyStr(InBuf, src); NextChar();
    TokenType = FIRSTTOK; OperatorPrecedence = PREC_STOP;
#endif
#ifdef VP_CALLEE
    fn_addr = LKIND == K_FUN ? opd[0].addr : opd[0].val;
    VP_ASSUME(fn_addr < CODESTART || fn_addr >= CODESTART + VP_OUTPUT);
#endif
#ifdef VP_PRE
    VP_ASSUME(VP_PRE);
#endif
    dead_pre();
    VP_COVER("precondition satisfiable");
    real();
    VP_ASSERT(TokenType == ';', "operator and operands are consumed");
    VP_ASSERT(nprim == 1 + (RKIND != 0) + NARGS, "every operand is parsed");

    rt = lt; rx = opd[0].extra; is_lval = 0; want = l;
    check_x = ISPTR(lt);
    switch (FORM) {
    case U_VAL: break;
    case U_NEG: want = -l; break;
    case U_COMPL: want = ~l; break;
    case U_NOT: want = !l; rt = T_INT; check_x = 0; break;
    case U_DEREF:
        is_lval = 1; rt = (LTYPE == T_ARR ? VT_INT : LTYPE - VT_PTR1); if (LTYPE == T_ARR) rx = 0; break;
    case U_ADDR: want = opd[0].addr; rt = LTYPE + VT_PTR1; check_x = 1; break;
    case U_CAST: rt = ptype(CASTTO); want = promote(CASTTO, l); rx = 9; check_x = ISPTR(CASTTO); break;
    case U_SIZEOF: rt = T_INT; check_x = 0;
        want = LTYPE == T_ST ? STRUCT_SIZE : LTYPE == T_ARR ? 2 * ABOUND : opd[0].kind == K_LIT || opd[0].kind == K_BOOL ? 2 : is_char(LTYPE) ? 1 : 2;
        break;
    case U_INDEX:
        is_lval = 1; rt = (LTYPE == T_ARR ? VT_INT : LTYPE - VT_PTR1);
        if (LTYPE == T_ARR) rx = 0;
        sz = psize(lt);
        want = l + (RKIND == K_LIT ? opd[1].val * sz : MUL16(oval(&opd[1]), sz));
        break;
#ifdef MEMI
    case U_MEMBER:
        is_lval = 1; rt = MTYPE; rx = 20 + MEMI;
        want = LTYPE == T_ST ? opd[0].addr : l;
#ifndef UNION
        if (MEMI > 0) want += 2;
        if (MEMI > 1) want += 1;
        if (MEMI > 2) want += 2;
#endif
        break;
#endif
    case U_INC:
        sz = ISPTR(LTYPE) ? psize(LTYPE) : 1;
        changed = is_char(LTYPE) ? 1 : 2;
        nv = opd[0].val + (DELTA) * sz;
        if (POST) want = l; else { is_lval = 1; rt = LTYPE; want = opd[0].addr; }
        break;
    case U_CALL:
        want = promote(LTYPE & ~VT_FUNPTR, retval); rt = ptype(LTYPE & ~VT_FUNPTR); check_x = ISPTR(rt);
        break;
    }
#if DEAD
    dead_post();
    return;
#endif
    if (is_lval) {
        int loc = CurrentType & VT_LOCMASK;
        VP_ASSERT(CurrentType & VT_LVAL, "result is an lvalue");
        VP_ASSERT((CurrentType & ~(VT_LVAL|VT_LOCMASK)) == rt, "result type");
        VP_ASSERT(CurrentTypeExtra == rx || !(ISPTR(rt) || (rt & VT_BASEMASK) >= VT_STRUCT), "result type details");
        VP_ASSERT(!(Pending & PENDING_PUSHAX) || (CTX & 4), "no operand is left pending");
        lzclaim = !loc && LastZFInst == CodeAddress;
        if (loc) { VP_ASSERT(loc == VT_LOCOFF || loc == VT_LOCGLOB, "place"); EmitLoadAddr(R_AX, loc, CurrentVal); }
    } else {
        VP_ASSERT(!(CurrentType & VT_LVAL) || FORM == U_VAL, "result is a value");
        VP_ASSERT(!check_x || CurrentTypeExtra == rx, "result type details");
        if (rt == VT_VOID) VP_ASSERT(CurrentType == VT_VOID, "result type");
        else { get_result(); VP_ASSERT(rtype == rt, "result type"); }
    }
    run_to(CODESTART + 16, CodeAddress);
    if (rt != VT_VOID || is_lval) VP_ASSERT(cpu.r[AX86] == want, "result value or address");
    VP_ASSERT(!(is_lval ? lzclaim : zclaim) || !(cpu.f & F86_Z) == !!cpu.r[AX86], "zero flag reflects the value where it is relied on");
    for (k = 0; k < nprim; k++)
        VP_ASSERT(opd[k].kind < K_AX || opd[k].kind > K_BOOL || opd[k].runs == (FORM != U_SIZEOF), "operand evaluated once (never by sizeof)");
    VP_ASSERT(calls_made == (FORM == U_CALL), "the function is called once");
    if (changed) {
        VP_ASSERT(promote(LTYPE, rd16(opd[0].addr)) == promote(LTYPE, nv), "object is updated");
        VP_ASSERT((u16_86)(kaddr - opd[0].addr) < changed || m86[kaddr] == kv, "only the object changes");
    }
    frame(!changed);
}
