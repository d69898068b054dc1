/* Contract of scc's GetToken (NextChar, SkipWhitespace, GetNum, Unescape,
 * GetStringLiteral, AddBuiltins): discharges the token contract the other
 * units assume.
 *
 *   requires  any source text, delivered by read() in any of the listed
 *             splits; nothing looked ahead but one character
 *   ensures   white space, comments and # lines are skipped; the longest C
 *             token there is recognised, with its kind, precedence and value;
 *             the source goes on right after it; characters that start no
 *             token, bad literals and unterminated comments are diagnosed */
#include "common.h"
typedef unsigned short u16_86;
#define L_PUNCT 1
#define L_NUM 2
#define L_SKIP 3
#define L_CHR 4
#define L_STR 5
#define L_ID 6
#define L_KW 7
#ifndef IDLEN
#define IDLEN 1
#endif
#ifndef NSRC
#define NSRC 4
#endif
#ifndef SPLIT
#define SPLIT 0              /* bit i: a read ends after character i */
#endif
static char src[NSRC + 2];
static int fpos, reject, done, bytesread;
static int e, otype, oval, oprec;
static char ostr[NSRC + 1];
static int onstr;
void vp_exit(int c)
{
    VP_ASSERT(c == 1, "the failure is reported to the caller");
    VP_ASSERT(reject, "a C token is accepted");
    VP_STOP(); for (;;) {}
}
int vp_open(const char *name, int flags, int mode) { (void)name; (void)flags; (void)mode; return 3; }
int vp_close(int fd) { (void)fd; return 0; }
long vp_write(int fd, const void *p, unsigned long n) { (void)fd; (void)p; return (long)n; }
long vp_read(int fd, void *p, unsigned long n)
{
    long k = 0;
    (void)fd;
    VP_ASSERT(n == INBUF_MAX, "a whole buffer is asked for");
    while (fpos < NSRC) {
        ((char *)p)[k++] = src[fpos++];
        if (SPLIT >> (fpos - 1) & 1) break;
    }
    return k;
}
static int C(int i) { return i < NSRC ? src[i] : 0; }
static int alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int digit(int c) { return c >= '0' && c <= '9'; }
static int hexv(int c) { return digit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static int odd;              /* outside what is specified */
static int echar(void)       /* one character of a literal */
{
    int c = C(e++), v, n;
    if (c == '\n' || c == 0) { odd = 1; return 0; }
    if (c != '\\') return c;
    c = C(e++);
    if (c == 'n') return 10;
    if (c == 'r') return 13;
    if (c == 't') return 9;
    if (c == '\'' || c == '"' || c == '\\') return c;
    if (c == 'x') {
        if (hexv(C(e)) > 15) odd = 1;
        for (v = 0, n = 0; n < 2 && hexv(C(e)) < 16; n++) v = v * 16 + hexv(C(e++));
        if (hexv(C(e)) < 16) odd = 1;
        return (signed char)v;
    }
    if (c >= '0' && c <= '7') {
        v = c - '0';
        for (n = 0; n < 2 && C(e) >= '0' && C(e) <= '7'; n++) v = v * 8 + C(e++) - '0';
        if (v > 255) odd = 1;
        return (signed char)v;
    }
    if (c == 'a' || c == 'b' || c == 'f' || c == 'v' || c == '?' || c == 0 || c == '\n') odd = 1; /* not supported */
    reject = 1;
    return 0;
}
static void skip(void)
{
    int again = 1, k;
    for (k = 0; k < NSRC && again; k++) {
        again = 0;
        if (C(e) == ' ' || C(e) == '\t' || C(e) == '\n' || C(e) == '\r') { e++; again = 1; }
        else if (C(e) == '/' && C(e + 1) == '*') {
            e += 2; again = 1;
            while (e < NSRC && !(C(e) == '*' && C(e + 1) == '/')) e++;
            if (e >= NSRC) { reject = 1; again = 0; } else e += 2;
        } else if ((C(e) == '/' && C(e + 1) == '/') || C(e) == '#') {
            while (e < NSRC && C(e) != '\n') e++;
            again = 1;
        }
    }
}
static void tk(int n, int type, int prec) { if (C(e + n - 1) || n == 1) { e += n; otype = type; oprec = prec; } }
static void oracle(void)
{
    int c, d, x, base;
    skip();
    if (reject) return;
    otype = 0; oprec = PREC_STOP;
    c = C(e); d = C(e + 1); x = C(e + 2);
    if (c == 0) return;
    if (digit(c)) {
        base = 10;
        if (c == '0') {
            base = 8;
            if (d == 'x' || d == 'X') { base = 16; e += 2; if (hexv(C(e)) > 15) odd = 1; }
        }
        oval = 0;
        while (hexv(C(e)) < base) oval = oval * base + hexv(C(e++));
        if (alpha(C(e)) || digit(C(e)) || C(e) == '.') odd = 1;
        otype = TOK_NUM;
        return;
    }
    if (alpha(c)) { while (alpha(C(e)) || digit(C(e))) e++; otype = TOK_KEYWORD; return; }
    switch (c) {
    case ';': case '(': case ')': case '{': case '}': case '[': case ']': case ':': case '~': tk(1, c, PREC_STOP); return;
    case ',': tk(1, c, 15); return;
    case '?': tk(1, c, 13); return;
    case '=': if (d == '=') tk(2, TOK_EQEQ, 7); else tk(1, c, 14); return;
    case '!': if (d == '=') tk(2, TOK_NOTEQ, 7); else tk(1, c, PREC_STOP); return;
    case '<': if (d == '<' && x == '=') tk(3, TOK_LSHEQ, 14); else if (d == '<') tk(2, TOK_LSH, 5);
              else if (d == '=') tk(2, TOK_LTEQ, 6); else tk(1, c, 6); return;
    case '>': if (d == '>' && x == '=') tk(3, TOK_RSHEQ, 14); else if (d == '>') tk(2, TOK_RSH, 5);
              else if (d == '=') tk(2, TOK_GTEQ, 6); else tk(1, c, 6); return;
    case '&': if (d == '&') tk(2, TOK_ANDAND, 11); else if (d == '=') tk(2, TOK_ANDEQ, 14); else tk(1, c, 8); return;
    case '|': if (d == '|') tk(2, TOK_OROR, 12); else if (d == '=') tk(2, TOK_OREQ, 14); else tk(1, c, 10); return;
    case '^': if (d == '=') tk(2, TOK_XOREQ, 14); else tk(1, c, 9); return;
    case '+': if (d == '+') tk(2, TOK_PLUSPLUS, PREC_STOP); else if (d == '=') tk(2, TOK_PLUSEQ, 14); else tk(1, c, 4); return;
    case '-': if (d == '-') tk(2, TOK_MINUSMINUS, PREC_STOP); else if (d == '=') tk(2, TOK_MINUSEQ, 14);
              else if (d == '>') tk(2, TOK_ARROW, PREC_STOP); else tk(1, c, 4); return;
    case '*': if (d == '=') tk(2, TOK_STAREQ, 14); else tk(1, c, 3); return;
    case '/': if (d == '=') tk(2, TOK_SLASHEQ, 14); else tk(1, c, 3); return;
    case '%': if (d == '=') tk(2, TOK_MODEQ, 14); else tk(1, c, 3); return;
    case '.': if (digit(d)) odd = 1; if (d != '.') tk(1, c, PREC_STOP); else if (x == '.') tk(3, TOK_ELLIPSIS, PREC_STOP); else reject = 1; return;
    case '\'':
        e++;
        if (C(e) == '\'') { odd = 1; return; }
        oval = echar();
        otype = TOK_NUM;
        if (C(e) != '\'') reject = 1;
        e++;
        return;
    case '"':
        otype = TOK_STRLIT;
        do {
            e++;
            while (C(e) && C(e) != '"' && !reject) ostr[onstr++] = (char)echar();
            if (!C(e)) reject = 1;
            if (reject) return;
            e++;
            skip();
        } while (C(e) == '"' && !reject);
        return;
    }
    reject = 1;
}
static int rest(void)        /* where the source goes on */
{
    return fpos - (int)(InBufEnd - InBufPtr) - (CurChar != 0);
}
static void start(void)      /* as main does */
{
    int k;
    IdBufPtr = IdBuffer;
#if FORM == L_ID || FORM == L_KW
    for (k = 0; k < ID_HASHMAX; k++) IdHashTab[k] = -1;
#endif
    InBufPtr = InBufEnd = InBuf;
    CodeAddress = CODESTART + 8;
}
#ifndef PRE
#define PRE ""          /* the text starts with this */
#endif
#ifndef KWTEXT
#define KWTEXT "auto"
#define KWTOK TOK_AUTO
#endif
void harness(void)
{
    int k, t1, e1, same;
    for (k = 0; k < NSRC; k++) {
#if FORM == L_KW
        src[k] = KWTEXT[k];
#else
        if (k < (int)sizeof PRE - 1) { src[k] = PRE[k]; continue; }
        src[k] = (char)VP_IN(k);
        VP_ASSUME(src[k] == '\t' || src[k] == '\n' || (src[k] >= ' ' && src[k] <= '~' && src[k] != '`' && src[k] != '@' && src[k] != '$'));
#endif
    }
    start();
#if FORM == L_ID || FORM == L_KW
    AddBuiltins();
#else
#endif
#if FORM == L_ID
    VP_ASSUME(alpha(src[0]) && src[IDLEN] == ' ');
    for (k = 1; k < NSRC; k++) if (k < IDLEN) VP_ASSUME(alpha(src[k]) || digit(src[k]));
    for (k = IDLEN + 1; k < NSRC; k++) VP_ASSUME(k == IDLEN + 1 ? alpha(src[k]) : alpha(src[k]) || digit(src[k]));
#endif
    oracle();
    VP_ASSUME(!odd);
#if FORM == L_SKIP || FORM == L_STR || FORM == L_PUNCT || FORM == L_NUM || FORM == L_CHR
    VP_ASSUME(otype != TOK_KEYWORD || reject);
#endif
#if FORM == L_SKIP
    VP_ASSUME(reject || (otype != TOK_STRLIT && otype != TOK_NUM && C(e) != '\'' && C(e) != '"'));
#endif
    VP_COVER("precondition satisfiable");
    GetToken();
    VP_ASSERT(!reject, "what is not C is diagnosed");
#if FORM == L_KW
    VP_ASSERT(TokenType == KWTOK && IdCount == TOK__EBSS - TOK_KEYWORD + 1, "keyword");
    VP_ASSERT(OperatorPrecedence == PREC_STOP, "precedence");
    return;
#endif
    VP_ASSERT(rest() == e && CurChar == C(e), "the source goes on after the token");
    VP_ASSERT(OperatorPrecedence == oprec, "precedence");
    if (FORM != L_ID) {
        VP_ASSERT(TokenType == otype, "kind of token");
        if (otype == TOK_NUM) VP_ASSERT((u16_86)TokenNumVal == (u16_86)oval, "value");
        if (otype == TOK_STRLIT) {
            VP_ASSERT(TokenNumVal == onstr + 1, "length of the string");
            VP_ASSERT(TokenStrLit >= Output + 8 && TokenStrLit + TokenNumVal <= Output + VP_OUTPUT, "place for the string");
            for (k = 0; k < NSRC; k++) if (k < onstr) VP_ASSERT((char)TokenStrLit[k] == ostr[k], "bytes of the string");
            VP_ASSERT(!TokenStrLit[onstr], "end of the string");
        }
        return;
    }
    t1 = TokenType; e1 = e;
    VP_ASSERT(t1 >= TOK_KEYWORD, "a name");
    if (IDLEN == 2) {
        VP_ASSERT((t1 == TOK_DO) == (src[0] == 'd' && src[1] == 'o'), "do");
        VP_ASSERT((t1 == TOK_IF) == (src[0] == 'i' && src[1] == 'f'), "if");
        VP_ASSERT(t1 == TOK_DO || t1 == TOK_IF || t1 > TOK__EBSS, "no other name is a keyword");
    }
    if (IDLEN == 1) VP_ASSERT(t1 > TOK__EBSS, "not a keyword");
    VP_ASSERT(IdText[t1 - TOK_KEYWORD][0] == src[0] && !IdText[t1 - TOK_KEYWORD][IDLEN], "its spelling is kept");
    oracle();
    GetToken();
    same = e - e1 == IDLEN + 1;
    for (k = 0; k < IDLEN; k++) if (C(IDLEN + 1 + k) != src[k]) same = 0;
    VP_ASSERT((TokenType == t1) == same, "one name, one token");
    VP_ASSERT(rest() == e && CurChar == C(e), "the source goes on after the second name");
}
