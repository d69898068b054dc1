/* Contract of one simulated instruction.
 *
 *   requires  true  (any register, segment, ip, flag and memory contents; the
 *             first opcode bytes are fixed by -DOPC0 [-DOPC1] per obligation set)
 *   ensures   registers, ip, defined flags and every memory byte equal the
 *             8086 specification (ref86.h), or the simulator stopped loudly
 *             where the specification says the instruction is not supported
 *   frame     memory: all bytes not written by the specification unchanged;
 *             no operating system call is made
 */
#include "common.h"
void VerifyLoop(int *count, int left) {}

#define R86_MEM(a) ((u8_86)mem[a])
static int vp_opc(int k, int v);
#ifdef OPC1
#define R86_OPC(c, k) (r86_imm8(c), vp_opc(k, (k) == 0 ? OPC0 : (k) == 1 ? OPC1 : \
    ((c)->status = R86_UNDEF, 0)))
#else
#define R86_OPC(c, k) (r86_imm8(c), OPC0)
#endif
static int vp_opc(int k, int v) { (void)k; return v; }
#ifdef VP_CXMAX
#define R86_REPMAX VP_CXMAX
#define R86_MAXW (2*VP_CXMAX+2)
#define R86_FORWARD
#endif
#include "ref86.h"

enum { I_REG = 0, I_SREG = 8, I_IP = 12, I_FLAGS = 13, I_K = 14, I_OPV = 15,
       I_LA = 16, I_LV = 24, I_KV = 32, I_VERBOSE = 33 };

static struct R86 ref;
static int step_no, opc_no, post_on;
static unsigned k_addr;
static u8_86 k_old;

static u8_86 flags4(int f)
{
    return (f & FC ? F86_C : 0) | (f & FZ ? F86_Z : 0) | (f & FS ? F86_S : 0) | (f & FO ? F86_O : 0);
}

int VerifyOpcode(int op)
{
    int n = opc_no++;
    if (n == 0) {
        VP_ASSERT((op & 0xff) == OPC0 && op < 0x100 && op >= 0, "opcode byte fetched from CS:IP");
        return OPC0;
    }
#ifdef OPC1
    if (n == 1) {
        VP_ASSERT((op & 0xff) == OPC1 && op < 0x100 && op >= 0, "opcode byte after prefix fetched from CS:IP+1");
        return OPC1;
    }
#endif
    return op;
}

static void pre(void)
{
    int i;
    unsigned a;
#ifndef VP_REPLAY
    __CPROVER_havoc_object(mem);
#endif
#define IN_REG(i) ref.r[i] = (u16_86)(reg[i] = VP_IN(I_REG + i));
    IN_REG(0) IN_REG(1) IN_REG(2) IN_REG(3) IN_REG(4) IN_REG(5) IN_REG(6) IN_REG(7)
#define IN_SREG(i) ref.s[i] = (u16_86)(sreg[i] = VP_IN(I_SREG + i));
    IN_SREG(0) IN_SREG(1) IN_SREG(2) IN_SREG(3)
    ref.ip = (u16_86)(ip = VP_IN(I_IP));
    flags = VP_IN(I_FLAGS);
    ref.f = flags4(flags);
#ifdef VP_TRACE
    verbose = VP_IN(I_VERBOSE) & 1;
#endif
    k_addr = VP_IN(I_K);
    VP_ASSUME(k_addr < 0x100000);
#ifdef VP_REPLAY
    mem[k_addr] = (char)VP_IN(I_KV);
    for (i = 0; i < 8; i++) if (vp_in[I_LA + i] >= 0) mem[vp_in[I_LA + i] & 0xfffff] = (char)vp_in[I_LV + i];
    mem[r86_lin(ref.s[1], ref.ip)] = (char)OPC0;
#ifdef OPC1
    mem[r86_lin(ref.s[1], ref.ip + 1)] = (char)OPC1;
#endif
#endif
    k_old = (u8_86)mem[k_addr];
    VP_SET(I_KV, k_old);
    a = r86_lin(ref.s[1], ref.ip);
    VP_ASSUME((u8_86)mem[a] == OPC0);
#ifdef OPC1
    a = r86_lin(ref.s[1], ref.ip + 1);
    VP_ASSUME((u8_86)mem[a] == OPC1);
#endif
#ifdef VP_PRE
    VP_ASSUME(VP_PRE);
#endif
    r86_step(&ref);
    for (i = 0; i < 8; i++) {
        VP_SET(I_LA + i, i < ref.nl ? (int)ref.la[i] : -1);
        VP_SET(I_LV + i, ref.lv[i]);
    }
    VP_ASSUME(ref.status != R86_UNDEF && ref.status != R86_DIVERR && ref.status != R86_INT);
    VP_COVER("precondition satisfiable");
}

void VerifyStep(void)
{
    u8_86 m;
    if (step_no++ == 0) { pre(); return; }
    VP_ASSERT(ref.status == R86_OK, "unsupported instruction does not execute");
    if (ref.status == R86_OK) {
#define EQ_REG(i, n) VP_ASSERT(((reg[i] ^ ref.r[i]) & 0xffff) == 0, n);
        EQ_REG(0, "AX") EQ_REG(1, "CX") EQ_REG(2, "DX") EQ_REG(3, "BX")
        EQ_REG(4, "SP") EQ_REG(5, "BP") EQ_REG(6, "SI") EQ_REG(7, "DI")
#define EQ_SREG(i, n) VP_ASSERT(((sreg[i] ^ ref.s[i]) & 0xffff) == 0, n);
        EQ_SREG(0, "ES") EQ_SREG(1, "CS") EQ_SREG(2, "SS") EQ_SREG(3, "DS")
        VP_ASSERT(((ip ^ ref.ip) & 0xffff) == 0, "IP");
        m = flags4(flags) ^ ref.f;
        VP_ASSERT(!(m & ref.fdef & F86_C), "CF");
        VP_ASSERT(!(m & ref.fdef & F86_Z), "ZF");
        VP_ASSERT(!(m & ref.fdef & F86_S), "SF");
        VP_ASSERT(!(m & ref.fdef & F86_O), "OF");
        VP_ASSERT((u8_86)mem[k_addr] == r86_final(&ref, k_addr, k_old), "memory");
    }
    VP_STOP();
}

/* Loud stop: exit with a nonzero code or a failed internal assertion */
void vp_loud(void)
{
    VP_ASSERT(step_no == 1, "start-up does not stop");
    VP_ASSERT(ref.status != R86_OK || ref.wide, "supported instruction executes");
    VP_STOP();
    for (;;) {}
}
void vp_exit(int code)
{
    VP_ASSERT(code != 0, "no silent success exit");
    vp_loud();
}

/* environment contracts: only the loader may call them, before the step */
int vp_open(const char *name, int f, int mode) { VP_ASSERT(step_no == 0, "no open"); return 3; }
int vp_close(int fd) { VP_ASSERT(step_no == 0, "no close"); return 0; }
long vp_read(int fd, void *p, unsigned long n) { VP_ASSERT(step_no == 0, "no read"); return 0; }
long vp_write(int fd, const void *p, unsigned long n) { VP_ASSERT(0, "no write"); return 0; }
int vp_putchar(int c) { VP_ASSERT(0, "no output"); return 0; }

void harness(void)
{
    static char a0[] = "sim86", a1[] = "x.com";
    char *av[3];
    av[0] = a0; av[1] = a1; av[2] = 0;
    sim_main(2, av);
    VP_ASSERT(0, "main does not return");
}
