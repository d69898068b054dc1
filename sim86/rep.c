/* Contract of the repeated string instructions, for every count.
 *
 * The loop of the instruction is cut at its head (VerifyLoop in sim86.c):
 *   invariant  registers, segments, ip, defined flags and memory equal those
 *              of the 8086 specification after as many iterations, and the
 *              loop counter equals the specification's CX
 *   base       the invariant holds on the first arrival
 *   step       from any state satisfying it with CX != 0, one iteration of the
 *              real body either leads back to the head with the invariant for
 *              CX-1 (so the loop terminates), or leaves the loop exactly where
 *              the specification ends, with the specified final state
 *   exit       a loop not entered leaves everything unchanged (CX = 0)
 * Run natively (replay) the instruction is executed in full, for any count. */
#include "common.h"
static int vp_opcs[] = { OPCS };
enum { NOPC = sizeof vp_opcs / sizeof *vp_opcs };
static int repmax;
#define R86_REPMAX repmax
#define R86_OPC(c, k) ((c)->ip++, (k) < NOPC ? vp_opcs[(k) < NOPC ? (k) : 0] : 0)
#ifdef VP_REPLAY
static unsigned char refmem[1024 * 1024];
#define R86_MEM(a) refmem[a]
#define R86_WMEM(a, v) (refmem[a] = (v))
#else
#define R86_MEM(a) ((u8_86)mem[a])
#endif
#include "ref86.h"

enum { I_REG = 0, I_SREG = 8, I_IP = 12, I_FLAGS = 13, I_K = 14, I_FILL = 15, I_CX = 16, I_SI = 17, I_DI = 18, I_FLAGS2 = 19, I_UP = 20 };
static struct R86 ref;
static int step_no, opc_no, hooks, op, rep, ovr = -1, done;
static unsigned k_addr;
static u8_86 k_old;

static u8_86 flags4(int f)
{
    return (f & FC ? F86_C : 0) | (f & FZ ? F86_Z : 0) | (f & FS ? F86_S : 0) | (f & FO ? F86_O : 0);
}
int VerifyOpcode(int b)
{
    int n = opc_no++;
    VP_ASSERT(n < NOPC, "no further opcode byte");
    VP_ASSERT(b == vp_opcs[n], "opcode byte fetched from CS:IP");
    return vp_opcs[n];
}
static void pre(void)
{
    int i;
#ifndef VP_REPLAY
    __CPROVER_havoc_object(mem);
#else
    unsigned x = vp_in[I_FILL];
    for (i = 0; i < 0x100000; i++) {
        x = x * 1103515245u + 12345u;
        mem[i] = vp_in[I_FILL] % 4 == 1 ? (char)(x >> 16) : vp_in[I_FILL] % 4 == 2 && (x >> 18) % 8192 == 0 ? (char)(x >> 10) : 0;
    }
#endif
#define IN_REG(i) ref.r[i] = (u16_86)(reg[i] = VP_IN(I_REG + i));
    IN_REG(0) IN_REG(1) IN_REG(2) IN_REG(3) IN_REG(4) IN_REG(5) IN_REG(6) IN_REG(7)
#define IN_SREG(i) ref.s[i] = (u16_86)(sreg[i] = VP_IN(I_SREG + i));
    IN_SREG(0) IN_SREG(1) IN_SREG(2) IN_SREG(3)
    ref.ip = (u16_86)(ip = VP_IN(I_IP));
    flags = VP_IN(I_FLAGS);
    ref.f = flags4(flags);
    for (i = 0; i < NOPC; i++) {
        unsigned a = r86_lin(ref.s[1], ref.ip + i);
#ifdef VP_REPLAY
        mem[a] = (char)vp_opcs[i];
#else
        VP_ASSUME((u8_86)mem[a] == vp_opcs[i]);
#endif
        op = vp_opcs[i];
        if (op == 0xF2 || op == 0xF3) rep = op;
        else if (op < 0x40) ovr = (op >> 3) & 3;
    }
#ifdef VP_REPLAY
    memcpy(refmem, mem, sizeof refmem);
    repmax = 0x10000;
    r86_step(&ref);
#else
    k_addr = VP_IN(I_K);
    VP_ASSUME(k_addr < 0x100000);
    k_old = (u8_86)mem[k_addr];
    repmax = 0;
    r86_step(&ref);
    VP_COVER("precondition satisfiable");
#endif
}

static void equal(int count)
{
    u8_86 m;
#define EQ_REG(i, n) VP_ASSERT(((reg[i] ^ ref.r[i]) & 0xffff) == 0, n);
    EQ_REG(0, "AX") EQ_REG(2, "DX") EQ_REG(3, "BX")
    EQ_REG(4, "SP") EQ_REG(5, "BP") EQ_REG(6, "SI") EQ_REG(7, "DI")
    VP_ASSERT(((count ^ ref.r[1]) & 0xffff) == 0, "CX");
#define EQ_SREG(i, n) VP_ASSERT(((sreg[i] ^ ref.s[i]) & 0xffff) == 0, n);
    EQ_SREG(0, "ES") EQ_SREG(1, "CS") EQ_SREG(2, "SS") EQ_SREG(3, "DS")
    VP_ASSERT(((ip ^ ref.ip) & 0xffff) == 0, "IP");
    m = flags4(flags) ^ ref.f;
    VP_ASSERT(!(m & ref.fdef & F86_C), "CF");
    VP_ASSERT(!(m & ref.fdef & F86_Z), "ZF");
    VP_ASSERT(!(m & ref.fdef & F86_S), "SF");
    VP_ASSERT(!(m & ref.fdef & F86_O), "OF");
#ifdef VP_REPLAY
    VP_ASSERT(!memcmp(mem, refmem, sizeof refmem), "memory");
#else
    VP_ASSERT((u8_86)mem[k_addr] == r86_final(&ref, k_addr, k_old), "memory");
#endif
}

void VerifyLoop(int *count, int left)
{
#ifndef VP_REPLAY
    int in_cx = count == &reg[R_CX], n;
    if (!in_cx) VP_ASSERT((reg[R_CX] & 0xffff) == 0, "CX is used up by the counter");
    if (hooks++ == 0) {
        equal(*count + left);
        VP_ASSERT(ref.r[1] != 0, "no iteration when CX is 0");
        VP_COVER("loop entered");
        /* an arbitrary iteration */
        __CPROVER_havoc_object(mem);
        n = VP_IN(I_CX);
        VP_ASSUME(n > 0 && n < 0x10000);
        ref.r[1] = n;
        if (in_cx) { reg[R_CX] = VP_IN(I_UP); VP_ASSUME((reg[R_CX] & 0xffff) == n); }
        else *count = n - left;
        ref.r[6] = (u16_86)(reg[R_SI] = VP_IN(I_SI));
        ref.r[7] = (u16_86)(reg[R_DI] = VP_IN(I_DI));
        flags = VP_IN(I_FLAGS2);
        ref.f = flags4(flags);
        ref.fdef = F86_ALL;
        ref.nw = ref.nl = 0;
        k_old = (u8_86)mem[k_addr];
        repmax = 1;
        r86_string(&ref, op, rep, ovr);
        done = ref.r[1] == 0 || (op == 0xA6 && !(ref.f & F86_Z)) || (op == 0xAE && (ref.f & F86_Z));
        return;
    }
    VP_ASSERT(!done, "the loop ends");
    VP_COVER("next iteration");
    equal(*count + left);
    VP_STOP();
#endif
}

void VerifyStep(void)
{
    if (step_no++ == 0) { pre(); return; }
#ifndef VP_REPLAY
    if (hooks) { VP_ASSERT(done, "the loop goes on"); VP_COVER("left after an iteration"); }
    else { VP_ASSUME(ref.r[1] == 0); VP_COVER("not entered"); }   /* CX != 0 reaches the head or the bounded units */
#endif
    VP_ASSERT(ref.status == R86_OK, "instruction executes");
    equal(reg[R_CX]);
    VP_STOP();
}

void vp_loud(void)
{
    VP_ASSERT(0, "supported instruction executes");
    VP_STOP();
    for (;;) {}
}
void vp_exit(int code) { vp_loud(); }
int vp_open(const char *name, int f, int mode) { VP_ASSERT(step_no == 0, "no open"); return 3; }
int vp_close(int fd) { VP_ASSERT(step_no == 0, "no close"); return 0; }
long vp_read(int fd, void *p, unsigned long n) { VP_ASSERT(step_no == 0, "no read"); return 0; }
long vp_write(int fd, const void *p, unsigned long n) { VP_ASSERT(0, "no write"); return 0; }
int vp_putchar(int c) { VP_ASSERT(0, "no output"); return 0; }

void harness(void)
{
    static char a0[] = "sim86", a1[] = "x.com";
    char *av[3];
    av[0] = a0; av[1] = a1; av[2] = 0;
    sim_main(2, av);
    VP_ASSERT(0, "main does not return");
}
