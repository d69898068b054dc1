/* Contract of program start-up: the state in which the first instruction of
 * a .COM image executes, for any image contents and arguments (bounded length).
 */
#include "common.h"
void VerifyLoop(int *count, int left) {}
enum { I_ARG = 0, I_K = 20, I_RD = 21, I_KV = 22, I_NARGS = 23 };
static int loaded, nargs, opt;
static unsigned k_addr;
static char k_val;
static char arg[2][4];
static unsigned lin(unsigned s, unsigned o) { return ((s & 0xffff) * 16 + (o & 0xffff)) & 0xfffff; }
static int B(unsigned s, unsigned o) { return mem[lin(s, o)] & 0xff; }
int VerifyOpcode(int op) { return op; }

void VerifyStep(void)
{
    unsigned cs = sreg[1] & 0xffff, i, j, p, n;
    VP_COVER("start-up completes");
    VP_ASSERT(loaded == 1, "image read exactly once");
    VP_ASSERT(((sreg[0] ^ sreg[1]) & 0xffff) == 0 && ((sreg[2] ^ sreg[1]) & 0xffff) == 0 && ((sreg[3] ^ sreg[1]) & 0xffff) == 0, "CS=DS=ES=SS");
    VP_ASSERT((ip & 0xffff) == 0x100, "IP=0100h");
    VP_ASSERT((reg[4] & 0xffff) == 0xfffe, "SP=FFFEh");
    VP_ASSERT(B(cs, 0xfffe) == 0 && B(cs, 0xffff) == 0, "zero return address on the stack");
    VP_ASSERT(B(cs, 0) == 0xCD && B(cs, 1) == 0x20, "INT 20h at PSP:0000");
    VP_ASSERT(mem[lin(cs, k_addr)] == k_val, "image bytes unchanged by start-up");
    /* command tail: arguments separated by blanks, CR right after */
    n = B(cs, 0x80);
    VP_ASSERT(n <= 127, "tail length");
    VP_ASSERT(B(cs, 0x81 + n) == 13, "tail ends with CR");
    p = 0;
    for (i = 0; i < 2; i++) {
        if ((int)i >= nargs) break;
        for (j = 0; j < 2; j++)
            if (p < n && B(cs, 0x81 + p) == ' ') p++;
        for (j = 0; j < 4 && arg[i][j]; j++) {
            VP_ASSERT(B(cs, 0x81 + p) == (arg[i][j] & 0xff), "argument text in the tail");
            p++;
        }
        VP_ASSERT(p == n || ((int)i + 1 < nargs && B(cs, 0x81 + p) == ' '), "argument ends where the token ends");
    }
    VP_ASSERT(p == n, "tail holds nothing but the arguments");
    VP_STOP();
}
void vp_loud(void) { VP_ASSERT(0, "start-up does not stop"); VP_STOP(); for (;;) {} }
void vp_exit(int code) { vp_loud(); for (;;) {} }
int vp_open(const char *name, int f, int mode)
{
    VP_ASSERT(!strcmp(name, "x.com"), "opens the named image");
    VP_ASSERT((f & O_ACCMODE) == O_RDONLY && !(f & (O_CREAT | O_TRUNC)), "image opened for reading only");
    return 3;
}
int vp_close(int fd) { return 0; }
long vp_read(int fd, void *p, unsigned long n)
{
    VP_ASSERT(fd == 3, "reads the image");
    VP_ASSERT(p == mem + lin(sreg[1], 0x100), "image loaded at CS:0100h");
    VP_ASSERT(n <= 65536 - 256 && n >= 65536 - 256 - 16, "image limited to the segment");
    loaded++;
    k_addr = VP_IN(I_K);
    VP_ASSUME(k_addr >= 0x100 && k_addr < 0xff00);
    mem[lin(sreg[1], k_addr)] = k_val = (char)VP_IN(I_KV);
    return 65536 - 256;
}
long vp_write(int fd, const void *p, unsigned long n) { VP_ASSERT(0, "no write"); return 0; }
int vp_putchar(int c) { VP_ASSERT(0, "no output"); return 0; }

void harness(void)
{
    static char a0[] = "sim86", a1[] = "x.com", v[] = "-v";
    char *av[6];
    int n = 0, i, j;
    nargs = NARGS;
    av[n++] = a0;
#ifdef WITH_V
    av[n++] = v;
#endif
    av[n++] = a1;
#define ARGCH(i, j) arg[i][j] = (char)VP_IN(I_ARG + (i) * 4 + (j));
    ARGCH(0, 0) ARGCH(0, 1) ARGCH(0, 2) ARGCH(1, 0) ARGCH(1, 1) ARGCH(1, 2)
    for (i = 0; i < 2; i++) {
        for (j = 0; j < 3; j++) {
            VP_ASSUME(j == 0 || arg[i][j - 1] || !arg[i][j]);
            VP_ASSUME(arg[i][j] == 0 || (arg[i][j] & 0xff) > ' ');
        }
        VP_ASSUME(arg[i][0]);
        if (i < NARGS) av[n++] = arg[i];
    }
    av[n] = 0;
    sim_main(n, av);
    VP_ASSERT(0, "main does not return");
}
