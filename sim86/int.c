/* Contract of the DOS services: INT 20h and INT 21h.
 *   requires  any machine state; the instruction is CD -DINTNO
 *   ensures   the host operation DOS documents is performed exactly once with
 *             the operands DOS documents, its result is delivered in AX/CF,
 *             nothing else in the machine changes; any service that is not
 *             implemented stops loudly
 */
#include "common.h"
void VerifyLoop(int *count, int left) {}
enum { I_REG = 0, I_SREG = 8, I_IP = 12, I_FLAGS = 13, I_K = 14, I_RES = 15, I_KV = 16, I_CB = 17, I_NAME = 20 };
static unsigned short r0[8], s0[4], ip0;
#ifndef INTNO
static int INTNO;     /* any other interrupt number */
#define INTSYM
#endif
#ifndef NAME_MAX86
#define NAME_MAX86 64
#endif
static int step_no, opc_no, func, result, ncalls;
static unsigned k_addr;
static unsigned char k_old;
static unsigned lin(unsigned s, unsigned o) { return ((s & 0xffff) * 16 + (o & 0xffff)) & 0xfffff; }

int VerifyOpcode(int op) { return opc_no++ == 0 ? 0xCD : op; }

static int known(void)
{
    return func == 0x02 || (func >= 0x3C && func <= 0x40) || func == 0x4C;
}
static int name_len;
static void pre(void)
{
    int i;
#ifndef VP_REPLAY
    __CPROVER_havoc_object(mem);
#endif
#define IN_REG(i) r0[i] = (unsigned short)(reg[i] = VP_IN(I_REG + i));
    IN_REG(0) IN_REG(1) IN_REG(2) IN_REG(3) IN_REG(4) IN_REG(5) IN_REG(6) IN_REG(7)
#define IN_SREG(i) s0[i] = (unsigned short)(sreg[i] = VP_IN(I_SREG + i));
    IN_SREG(0) IN_SREG(1) IN_SREG(2) IN_SREG(3)
    ip0 = (unsigned short)(ip = VP_IN(I_IP));
    flags = VP_IN(I_FLAGS);
    result = VP_IN(I_RES);
#ifdef INTSYM
    INTNO = VP_IN(I_CB);
    VP_ASSUME(INTNO >= 0 && INTNO < 256 && INTNO != 0x20 && INTNO != 0x21);
#endif
    k_addr = VP_IN(I_K);
    VP_ASSUME(k_addr < 0x100000);
#ifdef VP_REPLAY
    mem[k_addr] = (char)vp_in[I_KV];
    for (i = 0; i < 40; i++) mem[lin(s0[3], r0[2] + i)] = (char)vp_in[I_NAME + i];
    mem[lin(s0[1], ip0)] = (char)0xCD;
    mem[lin(s0[1], ip0 + 1)] = (char)INTNO;
#endif
    k_old = mem[k_addr];
    VP_SET(I_KV, k_old);
    VP_ASSUME((unsigned char)mem[lin(s0[1], ip0)] == 0xCD);
    VP_ASSUME((unsigned char)mem[lin(s0[1], ip0 + 1)] == INTNO);
    func = r0[0] >> 8;
#ifdef FUNC
    VP_ASSUME(func == FUNC);
#elif INTNO == 0x21
    VP_ASSUME(!known());
#endif
    VP_COVER("precondition satisfiable");
}

void VerifyStep(void)
{
    int changed;
    if (step_no++ == 0) { pre(); return; }
    VP_ASSERT(INTNO == 0x21 && known() && func != 0x4C, "only implemented DOS services continue");
    VP_ASSERT(ncalls == 1, "service performed exactly once");
#define EQ(i, n) VP_ASSERT(((reg[i] ^ r0[i]) & 0xffff) == 0, n);
    EQ(1, "CX preserved") EQ(2, "DX preserved") EQ(3, "BX preserved") EQ(4, "SP preserved")
    EQ(5, "BP preserved") EQ(6, "SI preserved") EQ(7, "DI preserved")
    for (int i = 0; i < 4; i++) VP_ASSERT(((sreg[i] ^ s0[i]) & 0xffff) == 0, "segment registers preserved");
    VP_ASSERT((((ip0 + 2) ^ ip) & 0xffff) == 0, "IP advances past INT");
    if (func >= 0x3C && func <= 0x40 && func != 0x3E) {
        VP_ASSERT(!(flags & FC) == (result >= 0), "CF reports failure");
        if (result >= 0) VP_ASSERT((reg[0] & 0xffff) == (result & 0xffff), "AX is the result");
        else if (func <= 0x3D) VP_ASSERT((reg[0] & 0xffff) != 0, "AX is an error code");
    }
    if (func == 0x3E) VP_ASSERT(!(flags & FC), "CF clear after close");
    VP_ASSERT((unsigned char)mem[k_addr] == k_old, "memory unchanged by the simulator");
    VP_STOP();
}
void vp_loud(void)
{
    VP_ASSERT(step_no == 1, "start-up does not stop");
    /* over-long names and buffers past the end of memory are refused */
    VP_ASSERT(!(INTNO == 0x21 && known()) || func == 0x3C || func == 0x3D || func == 0x3F || func == 0x40, "implemented service executes");
    if (INTNO == 0x21 && (func == 0x3C || func == 0x3D))
        for (int i = 0; i < 16; i++) VP_ASSERT(mem[lin(s0[3], r0[2] + i)] != 0 , "names shorter than 16 characters are accepted");
    if (INTNO == 0x21 && (func == 0x3F || func == 0x40))
        VP_ASSERT(lin(s0[3], r0[2]) + r0[1] > 0x100000, "buffers inside memory are accepted");
    VP_STOP();
    for (;;) {}
}
void vp_exit(int code)
{
    if (INTNO == 0x20 && step_no == 1) VP_ASSERT(code == 0, "INT 20h exits with status 0");
    else if (INTNO == 0x21 && step_no == 1 && func == 0x4C) VP_ASSERT(code == (r0[0] & 0xff), "INT 21h/4Ch exits with status AL");
    else { VP_ASSERT(code != 0, "no silent success exit"); vp_loud(); }
    VP_STOP();
    for (;;) {}
}
int vp_open(const char *name, int f, int mode)
{
    if (step_no == 0) return 3;
    ncalls++;
    VP_ASSERT(INTNO == 0x21 && (func == 0x3C || func == 0x3D), "open only for 3Ch/3Dh");
    if (func == 0x3C) VP_ASSERT((f & O_ACCMODE) != O_RDONLY && (f & O_CREAT) && (f & O_TRUNC), "3Ch creates or truncates for writing");
    if (func == 0x3D) VP_ASSERT(!(f & (O_CREAT | O_TRUNC)) && ((r0[0] & 0xff) != 0 || (f & O_ACCMODE) != O_WRONLY), "3Dh opens an existing file");
    for (int i = 0; i < NAME_MAX86; i++) {
        VP_ASSERT(name[i] == mem[lin(s0[3], r0[2] + i)], "file name is the ASCIIZ string at DS:DX");
        if (!name[i]) break;
    }
    return result;
}
int vp_close(int fd)
{
    if (step_no == 0) return 0;
    ncalls++;
    VP_ASSERT(INTNO == 0x21 && func == 0x3E, "close only for 3Eh");
    VP_ASSERT(fd == r0[3], "close handle BX");
    return 0;
}
long vp_read(int fd, void *p, unsigned long n)
{
    if (step_no == 0) return 0;
    ncalls++;
    VP_ASSERT(INTNO == 0x21 && func == 0x3F, "read only for 3Fh");
    VP_ASSERT(fd == r0[3], "read from handle BX");
    VP_ASSERT(n == r0[1], "read CX bytes");
    VP_ASSERT(p == mem + lin(s0[3], r0[2]), "read into DS:DX");
    VP_ASSERT(lin(s0[3], r0[2]) + n <= 0x100000, "read stays inside simulated memory");
    VP_ASSUME(result >= -1 && result <= (int)n);
    return result;
}
long vp_write(int fd, const void *p, unsigned long n)
{
    ncalls++;
    VP_ASSERT(step_no == 1 && INTNO == 0x21 && func == 0x40, "write only for 40h");
    VP_ASSERT(fd == r0[3], "write to handle BX");
    VP_ASSERT(n == r0[1], "write CX bytes");
    VP_ASSERT(p == mem + lin(s0[3], r0[2]), "write from DS:DX");
    VP_ASSERT(lin(s0[3], r0[2]) + n <= 0x100000, "write stays inside simulated memory");
    VP_ASSUME(result >= -1 && result <= (int)n);
    return result;
}
int vp_putchar(int c)
{
    ncalls++;
    VP_ASSERT(step_no == 1 && INTNO == 0x21 && func == 0x02, "character output only for 02h");
    VP_ASSERT((c & 0xff) == (r0[2] & 0xff), "outputs DL");
    return c;
}
void harness(void)
{
    static char a0[] = "sim86", a1[] = "x.com";
    char *av[3];
    av[0] = a0; av[1] = a1; av[2] = 0;
    sim_main(2, av);
    VP_ASSERT(0, "main does not return");
}
