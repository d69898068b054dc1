/* Token lists, the stubs that deliver them, and the description of emitted
 * instructions: shared by the assembler's contracts. */
enum { NSYM = 16 };
static int S[NSYM];
static struct { int type, val; const char *str; } tk[64];
static int ntk, tkpos;

static void t(int type) { tk[ntk].type = type; ntk++; }
static void num(int v) { tk[ntk].val = v; t(TOK_NUMBER); }
static void str(const char *s, int n) { tk[ntk].str = s; tk[ntk].val = n; t(TOK_STRING); }
static void lab(int n) { t(TOK_USER_ID + n); }
/* Every combination of choices is a run of its own, on which the choices are
 * constants: run k of KMAX. */
#ifndef KMAX
#define KMAX 1
#endif
static int kk;
static void one(void);
static int pick(int i, int n)
{
    int r = kk % n;
    kk /= n;
    VP_ASSUME(S[i] == r); S[i] = r;
    return r;
}
static void runs(void)
{
    int c = VP_IN(59), k;
    for (k = 0; k < KMAX; k++)
        if (c == k) { kk = k; one(); VP_STOP(); }
    VP_STOP();
}
static void r8(int i)  { t(TOK_AL + pick(i, 8)); }
static void r16(int i) { t(TOK_AX + pick(i, 8)); }
static void sr(int i)  { t(TOK_ES + pick(i, 4)); }
static void imm8(int i)  { VP_ASSUME(S[i] >= -128 && S[i] < 256); if (S[i] >= 0) num(S[i]); else { t(TOK_MINUS); num(-S[i]); } }
static void imm(int i) { VP_ASSUME(S[i] >= 0 && S[i] < 0x10000); num(S[i]); }
static void addr(int i) { VP_ASSUME(S[i] >= 0 && S[i] < 0x10000); num(S[i]); }
static void org(int i) { t(TOK_ORG); addr(i); }
static const int basetok[4] = { TOK_BX, TOK_BP, TOK_SI, TOK_DI };
static const int basenum[4] = { B_BX, B_BP, B_SI, B_DI };
static void bas(int i) { t(basetok[pick(i, 4)]); }
#define BASE(i) basenum[S[i]]
static const int alutok[8] = { TOK_ADD, TOK_OR, TOK_ADC, TOK_SBB, TOK_AND, TOK_SUB, TOK_XOR, TOK_CMP };
static void alu(int i) { t(alutok[pick(i, 8)]); }
static const int simpletok[] = { TOK_CBW, TOK_CLC, TOK_CLI, TOK_CMPSB, TOK_CWD, TOK_LODSB, TOK_MOVSB, TOK_RET, TOK_STC, TOK_STI, TOK_STOSB, TOK_STOSW };
static const int simpleop[] =  { 0x98,    0xf8,    0xfa,    0xa6,      0x99,    0xac,      0xa4,      0xc3,    0xf9,    0xfb,    0xaa,      0xab };
static void simple(int i) { t(simpletok[pick(i, 12)]); }
/* all conditional jump mnemonics with their condition codes */
static const int jcctok[28] = { TOK_JO, TOK_JNO, TOK_JC, TOK_JNC, TOK_JZ, TOK_JNZ, TOK_JNA, TOK_JA, TOK_JS, TOK_JNS, TOK_JPE, TOK_JPO, TOK_JL, TOK_JNL, TOK_JNG, TOK_JG,
    TOK_JB, TOK_JNAE, TOK_JNB, TOK_JAE, TOK_JE, TOK_JNE, TOK_JBE, TOK_JNBE, TOK_JNGE, TOK_JGE, TOK_JLE, TOK_JNLE };
static const int jcccc[28] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 2, 2, 3, 3, 4, 5, 6, 7, 12, 13, 14, 15 };
static void jcc(int i) { t(jcctok[pick(i, 28)]); }
static const int untok[6] = { TOK_NOT, TOK_NEG, TOK_MUL, TOK_IMUL, TOK_DIV, TOK_IDIV };
static const int unmn[6] = { M_NOT, M_NEG, M_MUL, M_IMUL, M_DIV, M_IDIV };
static void un(int i) { t(untok[pick(i, 6)]); }
static const int shtok[3] = { TOK_SHL, TOK_SHR, TOK_SAR };
static void sh(int i) { t(shtok[pick(i, 3)]); }
#define COMMA t(TOK_COMMA);
#define LB t(TOK_LBRACKET);
#define RB t(TOK_RBRACKET);

void vp_gettoken(void)
{
    if (tkpos == ntk) { TokenType = 0; return; }
    TokenType = tk[tkpos].type;
    if (TokenType == TOK_NUMBER) TokenVal.Num = tk[tkpos].val;
    if (TokenType == TOK_STRING) { TokenVal.Str.Len = tk[tkpos].val; TokenVal.Str.Data = tk[tkpos].str; }
    tkpos++;
    if (TokenType >= TOK_USER_ID) {
        if (TokenType - TOK_ID >= IdCount) IdCount = TokenType - TOK_ID + 1;
    }
    if (TokenType >= TOK_ID) TranslateIdToken();
}
void vp_builtins(const char *s) { (void)s; IdCount = TOK_JNLE + 1 - TOK_ID; }
const char *vp_idtext(int id) { return id >= TOK_USER_ID && (id - TOK_USER_ID) % 2 ? ".l" : "g"; }
void vp_readchar(void) { CurrentChar = ' '; }

static const unsigned char *out;
static int outlen, pos, failed;
static void ins(int ip, int mn, int w, struct Op a, struct Op b)
{
    struct Ins i = d_ins(out + pos, ip);
    VP_ASSERT(pos + i.len <= outlen, "instruction is complete");
    VP_ASSERT(i.mn == mn, "instruction");
    VP_ASSERT(i.w == w, "operand size");
    VP_ASSERT(same_(i.a, a), "first operand");
    VP_ASSERT(same_(i.b, b), "second operand");
    pos += i.len;
}
static void byte(int v) { VP_ASSERT(pos < outlen && out[pos] == (v & 0xff), "data byte"); pos++; }
static void word(int v) { VP_ASSERT(pos + 2 <= outlen && out[pos] == (v & 0xff) && out[pos + 1] == ((v >> 8) & 0xff), "data word"); pos += 2; }
#define I1(mn, w, a) ins(0, mn, w, a, op_(O_NONE, 0))
#define I2(mn, w, a, b) ins(0, mn, w, a, b)
#define IJ(ip, mn, target) ins(ip, mn, 1, op_(O_T, (target) & 0xffff), op_(O_NONE, 0))
#define R8(i) op_(O_R8, S[i])
#define R16(i) op_(O_R16, S[i])
#define SR(i) op_(O_SR, S[i])
#define N8(v) op_(O_I8, (v) & 0xff)
#define N16(v) op_(O_I16, (v) & 0xffff)

