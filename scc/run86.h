/* Executes the machine code emitted into Output[] on the independent 8086
 * specification, from an arbitrary machine state.  CS=DS=ES=SS as SCC
 * programs assume; memory is an arbitrary 64 KB array.
 *
 * Products and quotients of two unknown words are abstracted to uninterpreted
 * functions (commutative for the product): what holds for every function
 * holds for the real one.  Native replay uses the real operations. */
#include <stddef.h>
#ifdef VP_REPLAY
static unsigned char m86[65536];
#else
unsigned char m86[__CPROVER_constant_infinity_uint];
#endif
#if defined(VP_REPLAY) || defined(VP_EXACT)
#define MUL16(a, b) ((unsigned)(unsigned short)(a) * (unsigned short)(b))
#define UDIV16(a, b) ((unsigned short)(a) / (unsigned short)(b))
#define UMOD16(a, b) ((unsigned short)(a) % (unsigned short)(b))
#define SDIV16(a, b) ((unsigned short)((short)(a) / (short)(b)))
#define SMOD16(a, b) ((unsigned short)((short)(a) % (short)(b)))
#else
unsigned __CPROVER_uninterpreted_mul(unsigned short, unsigned short);
unsigned short __CPROVER_uninterpreted_udiv(unsigned short, unsigned short);
unsigned short __CPROVER_uninterpreted_umod(unsigned short, unsigned short);
unsigned short __CPROVER_uninterpreted_sdiv(unsigned short, unsigned short);
unsigned short __CPROVER_uninterpreted_smod(unsigned short, unsigned short);
static unsigned MUL16(unsigned short a, unsigned short b)
{
    if (!a || !b) return 0;
    return __CPROVER_uninterpreted_mul(a < b ? a : b, a < b ? b : a);
}
#define UDIV16(a, b) __CPROVER_uninterpreted_udiv(a, b)
#define UMOD16(a, b) __CPROVER_uninterpreted_umod(a, b)
#define SDIV16(a, b) __CPROVER_uninterpreted_sdiv(a, b)
#define SMOD16(a, b) __CPROVER_uninterpreted_smod(a, b)
#endif
#define R86_MUL(a, b) MUL16(a, b)
#define R86_UDIV(n, v, ax) UDIV16(ax, v)
#define R86_UMOD(n, v, ax) UMOD16(ax, v)
#define R86_SDIV(n, d, ax) SDIV16(ax, d)
#define R86_SMOD(n, d, ax) SMOD16(ax, d)
#ifndef R86_MAXW
#define R86_MAXW 8
#endif
#define R86_REPMAX 8
struct R86;
static int vp_opc(struct R86 *c);
static void vp_callee(void);
static unsigned char vp_code(unsigned ip);
#define R86_MEM(a) m86[(a) & 0xffff]
#define R86_FETCH(c) vp_code((c)->ip)
#define R86_OPC(c, k) vp_opc(c)
#include "ref86.h"

#ifndef VP_STEPS
#define VP_STEPS 40
#endif
/* opcodes standing for the code of a contract-stubbed sub-expression */
enum { VP_GHOST = 0xF1, VP_GADD = 0x62, VP_GMUL = 0x63, VP_GDIV = 0x64 };
static struct R86 cpu;
static int run_undef = 56;
static u16_86 last_push;                     /* the word the last instruction pushed (a known return address) */
static void vp_ghost(struct R86 *c, int n);  /* its run-time effect */
static void vp_gcode(struct R86 *c, int op, int a, int imm);

static unsigned char vp_code(unsigned ip)
{
    return Output[ip - CODESTART];
}
static int vp_opc(struct R86 *c)
{
    int op = vp_code(c->ip);
    c->ip++;
    if (op == VP_GHOST) { op = vp_code(c->ip); c->ip++; vp_ghost(c, op); return 0x90; }
    if (op >= VP_GADD && op <= VP_GDIV) {
        vp_gcode(c, op, vp_code(c->ip), vp_code(c->ip + 1) | vp_code(c->ip + 2) << 8);
        c->ip += 3;
        return 0x90;
    }
    return op;
}
static u16_86 rd16(unsigned a) { return m86[a & 0xffff] | m86[(a + 1) & 0xffff] << 8; }
static void wr16(unsigned a, unsigned v) { m86[a & 0xffff] = v; m86[(a + 1) & 0xffff] = v >> 8; }

static void run_one(void)
{
    int i;
    r86_step(&cpu);
    VP_ASSERT(cpu.status == R86_OK && !cpu.wide, "emitted instruction is well defined");
    for (i = 0; i < R86_MAXW; i++)
        if (i < cpu.nw) m86[cpu.wa[i] & 0xffff] = cpu.wv[i];
    if (cpu.nw == 2) last_push = cpu.wv[0] | cpu.wv[1] << 8;
    if (~cpu.fdef & F86_ALL) cpu.f = (cpu.f & cpu.fdef) | (VP_IN(run_undef) & (F86_ALL & ~cpu.fdef));
}

/* run from cpu.ip to end; obligation: every instruction is a legal, defined
 * one and control stays inside the emitted code */
static void run_to(unsigned start, unsigned end)
{
    int n;
    cpu.ip = start;
    for (n = 0; n < VP_STEPS; n++) {
        if (cpu.ip == end) return;
        VP_ASSERT(cpu.ip >= start && cpu.ip < end, "control stays in the emitted code");
#ifdef VP_CALLEE
        if (vp_code(cpu.ip) == 0xE8 || (vp_code(cpu.ip) == 0xFF && (vp_code(cpu.ip + 1) & 0x38) == 0x10)) {
            run_one();
            vp_callee();
            continue;
        }
#endif
        run_one();
    }
    VP_ASSERT(cpu.ip == end, "emitted code terminates");
}
