/* Contract of conditional compilation (HandleDirective, EvalExpr and PPMain):
 * the lines of a program given as a token list that C selects come out, in
 * order, and no others.  The lexer delivers the tokens (its contract); numbers
 * are unrestricted.
 *   BUILD   the program: tokens, N(i) a number token with value S[i],
 *           L(k) a line with the marker k
 *   EXPECT  the markers: X(k, c) marker k comes out if and only if c, and
 *           where c is true it is the next one
 *   CHOOSE  numbers S[0..CHOOSE-1] are each 0 or 0xff00 (all combinations)
 *   MUST / REJECT  condition under which a diagnostic is required / allowed */
#include "common.h"
#ifndef REJECT
#define REJECT 0
#endif
#ifndef MUST
#define MUST 0
#endif
#ifndef PRE
#define PRE 1
#endif
#ifndef KMIN
#define KMIN 0
#endif
#ifndef KMAX
#define KMAX 1
#endif
enum { NSYM = 16, NTK = 140 };
static int S[NSYM], kk;
static struct Token tk[NTK];
static int ntk, tkpos;
static char numtext[NSYM][8];
static int got[16], ngot;
static const char *const marker[16] = { "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11", "m12", "m13", "m14", "m15" };

static void t(int type, const char *text) { tk[ntk].Type = type; tk[ntk].Text = text; ntk++; }
#define W t(TOK_WHITESPACE, "");
#define NL t(TOK_NEWLINE, "");
#define D(name) t('#', "#"); t(TOK_RAW_ID, #name); W
#define ID(name) t(TOK_RAW_ID, #name);
#define OPT(type) t(type, "?");
#define C(n) t(TOK_NUM, #n);
/* a number: unrestricted digits; the text is hexadecimal */
static void N(int i)
{
    int k;
    numtext[i][0] = '0'; numtext[i][1] = 'x';
    for (k = 0; k < 4; k++) {
        int d = (S[i] >> 4 * (3 - k)) & 15;
        numtext[i][2 + k] = d < 10 ? '0' + d : 'a' + d - 10;
    }
    t(TOK_NUM, numtext[i]);
}
static void L(int k) { t(TOK_CHARLIT, marker[k]); NL }
static int pick(int n) { int r = kk % n; kk /= n; return r; }

void vp_rawtoken(void)
{
    if (tkpos == ntk) { CurTok.Type = CurTok.Type == TOK_EOF ? TOK_NEWLINE : TOK_EOF; return; }
    CurTok = tk[tkpos++];
    CurHash = ID_HASH_MAX;
}
void vp_readchar(void) { CurrentChar = 0; }
void vp_outputstr(const char *s)
{
    int k;
    for (k = 0; k < 16; k++)
        if (s == marker[k]) { VP_ASSERT(ngot < 16, "output"); got[ngot++] = k; }
}
static int done(void);
void vp_loud(void)
{
    VP_ASSERT(REJECT || MUST, "a valid program is accepted");
#ifdef NOCOVER
    VP_COVER("rejected");
#endif
    VP_STOP();
}
long vp_read(int fd, void *p, unsigned long n) { return 0; }
long vp_write(int fd, const void *p, unsigned long n)
{
    int pos = 0;
#ifndef NOCOVER
    VP_COVER("accepted");
#endif
    VP_ASSERT(!(MUST), "an invalid program is rejected");
#define X(k, c) if (c) { VP_ASSERT(pos < ngot && got[pos] == k, "the line is selected"); pos++; }
    EXPECT;
    VP_ASSERT(pos == ngot, "no other line is selected");
    VP_STOP();
    return (long)n;
}
static void one(void)
{
    char *argv[4] = { "scpp", "a.c", "a.i", 0 };
#ifdef CHOOSE
    static const int value[2] = { 0, 0xff00 };
    for (int i = 0; i < CHOOSE; i++) S[i] = value[pick(2)];
#endif
    BUILD
    VP_ASSERT(kk == 0, "KMAX covers the choices");
    VP_ASSUME(PRE);
    (void)scpp_main(3, argv);
    VP_ASSERT(0, "the output is written");
}
void harness(void)
{
    int i, c, k;
    for (i = 0; i < NSYM; i++) { S[i] = VP_IN(i); VP_ASSUME(S[i] >= 0 && S[i] < 0x10000); }
    c = VP_IN(59);
    for (k = KMIN; k < KMAX; k++)
        if (c == k) { kk = k; one(); VP_STOP(); }
    VP_STOP();
}
