/* Contract of ParsePrimaryExpression (HandlePrimaryId, HandleVarArg, string
 * literals): discharges what unary.c and expr.c assume of an operand.
 *
 *   requires  state.h: any outer operand context, live or dead code
 *   callee    GetToken: the next token of the list
 *   ensures   the operand the token designates is current: a number or
 *             enumerator is its value; an identifier is its object or
 *             function (type, details, place); an undeclared identifier is a
 *             new function returning int; a string literal leaves in AX the
 *             address of a copy of its bytes; va_start(ap, p) stores p's
 *             address in ap; va_arg(ap, T) steps ap by a word and designates
 *             the T it then points to; nothing else changes */
#include "common.h"
#include "state.h"
#define P_NUM 1
#define P_ENUM 2
#define P_VAR 3
#define P_UNDECL 4
#define P_STR 5
#define P_RAWSTR 6
#define P_START 7
#define P_ARG 8
#define P_END 9
#define P_PAREN 10

static int tok[8], val[8], ntok, tpos;
void vp_token(void)
{
    VP_ASSERT(tpos < ntok, "only the operand's tokens are read");
    TokenType = tok[tpos]; TokenNumVal = val[tpos];
    OperatorPrecedence = PREC_STOP;
    tpos++;
}
static void t(int type, int v) { tok[ntok] = type; val[ntok] = v; ntok++; }
#ifndef CASTTO
#define CASTTO VT_INT
#endif
#ifndef NSTR
#define NSTR 4
#endif
static int nabs, nexpr;
void vp_abstract(void) { nabs++; VP_ASSERT(TokenType == TOK_INT, "type name"); GetToken(); CurrentType = CASTTO; CurrentTypeExtra = 9; }
void vp_expr(void) { nexpr++; VP_ASSERT(TokenType == TOK_NUM, "operand"); GetToken(); ghost_emit(0); }
enum { ID = 40, ID2 = 41 };
#define TID (TOK_KEYWORD + ID)
#define TID2 (TOK_KEYWORD + ID2)

void harness(void)
{
    static char str[8];
    int k, s0, n0, a, undecl, base = CODESTART + 16;
    u16_86 p, v;
    struct VarDecl *vd;

    world();
    declare(0, LKIND, LTYPE, JL);
#if FORM == P_ARG || FORM == P_START || FORM == P_END
    declare(1, K_LOC, T_INT, JL);
    VP_ASSUME((u16_86)(opd[1].addr - opd[0].addr) >= 2 && (u16_86)(opd[0].addr - opd[1].addr) >= 2);
#endif
    read_objects();
    vd = &VarDecls[0];
    if (LKIND == K_LOC) { vd->Type = LTYPE|VT_LOCOFF; vd->Offset = (short)(opd[0].addr - bp0); }
    if (FORM == P_ENUM) { vd->Type = VT_INT|VT_LOCLIT; vd->Offset = (short)opd[0].val; }
    if (LKIND == K_FUN) vd->Type = LTYPE|VT_FUN|VT_LOCGLOB;
    VarLookup[ID] = FORM == P_UNDECL ? 0 : vd;
    VarDecls[1].Type = VT_INT|VT_LOCOFF;
    VarDecls[1].Offset = (short)(opd[1].addr - bp0);
    VarLookup[ID2] = &VarDecls[1];
    Scopes[0] = NOPD;
    switch (FORM) {
    case P_NUM: t(TOK_NUM, (short)opd[0].val); break;
    case P_ENUM: case P_VAR: case P_UNDECL: t(TID, 0); break;
    case P_PAREN: t('(', 0); t(TOK_NUM, 0); t(')', 0); break;
    case P_STR: case P_RAWSTR:
        t(TOK_STRLIT, NSTR);
        for (k = 0; k < NSTR; k++) str[k] = (char)VP_IN(I_X + k);
        TokenStrLit = str;
        break;
    case P_START: t(TOK_VA_START, 0); t('(', 0); t(TID, 0); t(',', 0); t(TID2, 0); t(')', 0); break;
    case P_ARG: t(TOK_VA_ARG, 0); t('(', 0); t(TID, 0); t(',', 0); t(TOK_INT, 0); t(')', 0); break;
    case P_END: t(TOK_VA_END, 0); t('(', 0); t(TID, 0); t(')', 0); break;
    }
    t(';', 0);
    if (FORM == P_RAWSTR) ScopeCount = 1;
    dead_pre();
    VP_COVER("precondition satisfiable");
    GetToken();
    s0 = ScopeCount; n0 = ArrayCount;
    ParsePrimaryExpression();
    VP_ASSERT(tpos == ntok && TokenType == ';', "exactly the operand is consumed");
    VP_ASSERT(ScopeCount == s0, "scopes unchanged");
    switch (FORM) {
    case P_NUM: case P_ENUM:
        VP_ASSERT(CurrentType == (VT_INT|VT_LOCLIT) && CurrentVal == (short)opd[0].val, "literal");
        break;
    case P_VAR:
        VP_ASSERT(CurrentTypeExtra == opd[0].extra, "type details");
        VP_ASSERT(CurrentType == (opd[0].type | VT_LVAL | (LKIND == K_LOC ? VT_LOCOFF : VT_LOCGLOB) | (LKIND == K_FUN ? VT_FUN : 0)), "type and place");
        VP_ASSERT(CurrentVal == (LKIND == K_LOC ? (short)(opd[0].addr - bp0) : 0), "object");
        break;
    case P_UNDECL:
        VP_ASSERT((CurrentType & ~VT_LVAL) == (VT_LOCGLOB|VT_FUN|VT_INT), "function returning int");
        undecl = CurrentVal;
        if (!DEAD) {
            VP_ASSERT(undecl == NOPD && Scopes[0] == NOPD + 1, "a new global");
            VP_ASSERT(VarLookup[ID] == &VarDecls[undecl] && VarDecls[undecl].Id == ID, "found by its name from now on");
            VP_ASSERT(VarDecls[undecl].Type == (VT_LOCGLOB|VT_FUN|VT_INT) && VarDecls[undecl].Offset == 0, "defined later");
        } else VP_ASSERT(Scopes[0] == NOPD && !VarLookup[ID], "dead code declares nothing");
        break;
    case P_STR: case P_RAWSTR:
        VP_ASSERT((CurrentType & ~VT_LVAL) == VT_ARRAY && CurrentTypeExtra == n0 && ArrayCount == n0 + 1, "an array");
        VP_ASSERT(ArrayDecls[n0].Bound == NSTR && ArrayDecls[n0].Type == VT_CHAR, "of the literal's size");
        break;
    case P_PAREN: VP_ASSERT(nexpr == 1 && opd[0].calls == 1, "the expression is parsed"); return;
    case P_ARG: VP_ASSERT(nabs == 1 && CurrentType == (CASTTO|VT_LVAL) && CurrentTypeExtra == 9, "type"); break;
    }
#if DEAD
    dead_post();
    return;
#endif
    if (FORM == P_RAWSTR) {   /* initialises a global: just the bytes */
        VP_ASSERT(CodeAddress == base + NSTR, "only the bytes");
        for (k = 0; k < NSTR; k++) VP_ASSERT(Output[16 + k] == (unsigned char)str[k], "bytes");
        VP_ASSERT(!IsDeadCode, "live");
        return;
    }
    if (FORM == P_NUM || FORM == P_ENUM || FORM == P_VAR || FORM == P_UNDECL || FORM == P_END)
        VP_ASSERT(CodeAddress == base, "no code");
    VP_ASSERT(!IsDeadCode, "live");
    run_to(base, CodeAddress);
    p = cpu.r[AX86];
    a = opd[0].addr;
    if (FORM == P_STR) {
        VP_ASSERT(p >= base && p + NSTR <= CodeAddress, "a string inside the image");
        for (k = 0; k < NSTR; k++) VP_ASSERT(Output[p - CODESTART + k] == (unsigned char)str[k], "bytes");
    }
    if (FORM == P_ARG) VP_ASSERT(p == (u16_86)(opd[0].val + 2), "the next argument is designated");
    if (FORM == P_START || FORM == P_ARG) {
        v = rd16(a);
        VP_ASSERT(v == (FORM == P_START ? opd[1].addr : (u16_86)(opd[0].val + 2)), "the argument pointer");
        VP_ASSERT((u16_86)(kaddr - a) < 2 || m86[kaddr] == kv, "only the argument pointer changes");
        VP_ASSERT(LastZFInst != CodeAddress || FORM == P_START || !(cpu.f & F86_Z) == !!p, "zero flag claim");
    }
    frame(FORM != P_START && FORM != P_ARG);
}
