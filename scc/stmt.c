/* Contract of ParseStatement / ParseExternalDefition: the code of a function
 * body moves from one expression to the next exactly as C prescribes.
 *
 *   input     a token list (the lexer is replaced by its contract); the token
 *             TOK_STRLIT stands for an expression, compiled by the contract of
 *             ParseExpr (state.h) and numbered in order of appearance
 *   ROWS      the C semantics of the program (from bin/stmt_units.py, a small
 *             independent semantics): from which expression, for which of
 *             its values, control goes to which expression (or leaves)
 *   ensures   for every row and every machine state that satisfies the
 *             invariant (SP = BP + size of the declared variables): running
 *             the emitted code from the end of the first expression reaches
 *             the start of the second one, the invariant holds again, every
 *             live byte of memory is unchanged, an initialised variable has
 *             its value, a return leaves BP, SP and AX as a caller expects.
 *             Rows chain, so this covers every iteration of every loop. */
#define NOPD 40
#define NOZF 1
static const int espill[] = ESPILL;
static int cur;
#define SPILL (espill[cur])
#ifndef VP_STEPS
#define VP_STEPS 60
#endif
#include "common.h"
#include "state.h"

enum { R_ANY, R_ZERO, R_NONZERO, R_EQ, R_NONE };
enum { E_START = -1, E_EXIT = -2 };
static const int toks[] = TOKS;       /* type, value */
static const int ekind[] = EKIND;     /* K_AX, K_BOOL or K_VOID */
static const int epad[] = EPAD;       /* bytes of further code in the expression */
static const int elevel[] = ELEVEL;   /* what the frame holds at the expression */
static const int rows[] = ROWS;       /* from, mode, constant (function at E_START), to, slot */

static const int cases[] = CASES;     /* event, constant */

static int tokpos, nev, entry[2], nfun;
static struct { int addr, dead; } ev[NEV + 1];

void vp_gettoken(void)
{
    TokenType = toks[tokpos];
    TokenNumVal = toks[tokpos + 1];
    if (TokenType) tokpos += 2;
    OperatorPrecedence = TokenType == '=' ? PREC_ASSIGN : TokenType == ',' ? PREC_COMMA : PREC_STOP;
}
void vp_expr(void)
{
    int i, v = TokenNumVal;
    if (TokenType == TOK_NUM) {
        vp_gettoken();
        CurrentType = VT_INT|VT_LOCLIT; CurrentVal = v;
        return;
    }
    VP_ASSERT(TokenType == TOK_STRLIT && nev < NEV, "expression expected here");
    vp_gettoken();
    i = cur = nev++;
    VP_ASSERT(!(Pending & PENDING_PUSHAX) && !RegUse, "no operand waits between statements");
    VP_ASSERT(LocalOffset == elevel[i], "the frame holds the variables in scope");
    EmitChecks();
    ev[i].addr = CodeAddress;
    ev[i].dead = IsDeadCode;
    ghost_emit(i);
    if (!IsDeadCode) for (v = 0; v < epad[i]; v++) Output[CodeAddress++ - CODESTART] = 0x90;
    if (epad[i]) LastZFInst = 0;
}

/* run until an expression starts or the function returns */
static int run_until(void)
{
    int n, op;
    for (n = 0; n < VP_STEPS; n++) {
        VP_ASSERT(cpu.ip >= CODESTART + 16 && cpu.ip < CodeAddress, "control stays in the emitted code");
        op = vp_code(cpu.ip);
        if (op == VP_GHOST) return 1;
        run_one();
        if (op == 0xC3) return 0;
    }
    VP_ASSERT(0, "control reaches an expression or leaves");
    return 2;
}

static void segment(const int *row)
{
    int from = row[0], to = row[3], top, k, bx;
    u16_86 v = 0, ret, obp;

    cpu.ip = entry[from == E_START ? row[2] : 0];
    for (k = 0; k < 8; k++) cpu.r[k] = junk(12 + k);
    cpu.r[SP86] = bp0 + 2;
    cpu.f = VP_IN(I_FLAGS) & F86_ALL;
    obp = cpu.r[BP86];
    top = 2;
    if (from >= 0) {
        VP_ASSERT(!ev[from].dead, "reachable code is emitted");
        v = (u16_86)VP_IN(I_V);
        if (ekind[from] == K_BOOL) v &= 1;
        for (k = 0; k < (int)(sizeof(cases) / sizeof(*cases)); k += 2)
            if (row[1] == R_NONE && cases[k] == from) VP_ASSUME(v != (u16_86)cases[k + 1]);
        if (row[1] == R_ZERO) { VP_ASSUME(v == 0); v = 0; }
        if (row[1] == R_NONZERO) VP_ASSUME(v != 0);
        if (row[1] == R_EQ) { VP_ASSUME(v == (u16_86)row[2]); v = row[2]; }
        cpu.r[BP86] = bp0;
        cpu.r[SP86] = bp0 + elevel[from] - (espill[from] == 2 && ekind[from] != K_BOOL ? 8 : 0);
        if (ekind[from] == K_AX) cpu.r[AX86] = v;
        if (ekind[from] == K_BOOL) VP_ASSUME(r86_cond(&cpu, opd[from].cc) == v);
        cpu.ip = ev[from].addr + 2 + epad[from];
        top = elevel[from];
    }
    if (to >= 0) { if (elevel[to] > top || from == E_START) top = from == E_START ? 2 : elevel[to]; }
    else top = from == E_START ? 2 : 0;
    VP_ASSUME((u16_86)(kaddr - (bp0 - 400)) >= 400 + top);
#ifdef VP_REPLAY
    wr16(bp0 + 2, vp_in[I_V + 2]);
    if (from != E_START) wr16(bp0, vp_in[I_V + 3]);
#endif
    kv = m86[kaddr];
    VP_SET(I_KV, kv);
    obp = from == E_START ? obp : rd16(bp0);
    ret = rd16(bp0 + 2);
    VP_SET(I_V + 2, ret);
    VP_SET(I_V + 3, obp);
    VP_COVER("row reachable");
    bx = run_until();
    if (to == E_EXIT) {
        VP_ASSERT(bx == 0, "control leaves the function");
        VP_ASSERT(cpu.ip == ret && cpu.r[SP86] == (u16_86)(bp0 + 4), "return to the caller with the stack balanced");
        VP_ASSERT(cpu.r[BP86] == obp, "the caller's frame pointer is restored");
        if (row[4] == 1) VP_ASSERT(cpu.r[AX86] == v, "returned value");
    } else {
        VP_ASSERT(bx == 1 && !ev[to].dead && cpu.ip == ev[to].addr, "control goes where C says");
        VP_ASSERT(cpu.r[SP86] == (u16_86)(bp0 + elevel[to]) && cpu.r[BP86] == bp0, "stack and frame pointer at the next expression");
        VP_ASSERT(from != E_START || rd16(bp0) == obp, "the caller's frame pointer is saved");
        if (row[4] < 0) VP_ASSERT(rd16(bp0 + row[4]) == v, "initialised variable");
    }
    VP_ASSERT(m86[kaddr] == kv, "live memory unchanged");
}

void harness(void)
{
    void (*real)(void) = ParseExternalDefition;
    static char name[] = "f";
    int i, which;

#ifndef VP_REPLAY
    __CPROVER_havoc_object(m86);
#endif
    CodeAddress = CODESTART + 16;
    LastFixup = 0;
    Scopes[0] = 0; ScopeCount = 1;
    IdBufPtr = IdBuffer + 64;
    for (i = 0; i < 64; i++) IdText[i] = name;
    bp0 = (u16_86)VP_IN(I_BP);
    kaddr = VP_IN(I_K) & 0xffff;
    undef0 = VP_IN(I_UNDEF) & F86_ALL;
    run_undef = undef0;
    for (i = 0; i < NEV; i++) {
        opd[i].kind = ekind[i]; opd[i].type = T_INT; opd[i].cc = (int[]){JZ, JL, JC, JNZ, JNG, JA}[i % 6];
    }
    vp_gettoken();
    while (TokenType) { entry[nfun++] = CodeAddress; real(); }
    VP_ASSERT(nev == NEV, "every expression is parsed");
    VP_ASSERT(ScopeCount == 1 && LocalLabelCounter == 0 && NamedLabelCount == 0, "nothing of the function is left open");
#ifdef VP_REPLAY
    m86[kaddr] = vp_in[I_KV];
#endif
    which = VP_IN(I_X);
    for (i = 0; i < (int)(sizeof(rows) / sizeof(*rows)); i += 5)
        if (which == i) { segment(rows + i); return; }
}
