/* The correspondence between the code generator's compile-time state and the
 * run-time machine state, used as pre- and postcondition by every expression
 * contract:
 *   - the current operand is where CurrentType/CurrentVal say
 *   - SP == BP + LocalOffset - (pending SP adjustment)
 *   - an outer operand may wait in AX (Pending bit 0), in BX (RegUse) or on
 *     the stack, and comes back unchanged from GetStoredVal */
#include "run86.h"

/* operand kinds */
#define K_LIT  1
#define K_LOC  2   /* variable in the frame */
#define K_GLOB 3   /* global variable */
#define K_AX   4   /* value in AX */
#define K_LVAX 5   /* lvalue whose address is in AX */
#define K_BOOL 6   /* condition code */
#define K_FWD  7   /* global variable whose address is not known yet */
#define K_VOID 8   /* no value */
#define K_FUN  9   /* function designator */
#define ISMEM(k) ((k) == K_LOC || (k) == K_GLOB || (k) == K_LVAX)

#define T_INT  VT_INT
#define T_UINT (VT_INT|VT_UNSIGNED)
#define T_CHAR VT_CHAR
#define T_UCHR (VT_CHAR|VT_UNSIGNED)
#define T_PI   (VT_INT|VT_PTR1)
#define T_PC   (VT_CHAR|VT_PTR1)
#define T_PU   (VT_INT|VT_UNSIGNED|VT_PTR1)
#define T_PS   (VT_STRUCT|VT_PTR1)
#define T_PP   (VT_INT|VT_PTR1+VT_PTR1)
#define T_ST   VT_STRUCT
#define T_ARR  VT_ARRAY     /* int[ABOUND] */
#define T_VOID VT_VOID

#ifndef STRUCT_SIZE
#define STRUCT_SIZE 6
#endif
#ifndef ABOUND
#define ABOUND 3
#endif
/* context at entry: 1 outer operand saved in BX, 2 pending allocation,
 * 4 outer operand pending in AX, 8 pending release */
#ifndef CTX
#define CTX 0
#endif
/* what the stubbed right operand does: 1 spills a live BX, 2 leaves a pending release */
#ifndef SPILL
#define SPILL 0
#endif
/* 1: the code is generated for a dead region */
#ifndef DEAD
#define DEAD 0
#endif
#ifndef VP_OPCC
#define VP_OPCC JL
#endif

enum { I_BP = 0, I_OUTER, I_OUTER2, I_FLAGS, I_ZF, I_UNDEF, I_K, I_KV, I_JUNK = 8, I_V = 32, I_A = 48, I_MISC = 64, I_CV = 80, I_X = 88 };
#ifndef NOPD
#define NOPD 3
#endif
#ifndef NOZF   /* 1: operands never claim that the zero flag reflects them */
#define NOZF 0
#endif

struct Opd {
    int kind, type, extra, cc;
    u16_86 val, addr;   /* value in the contract's sense (before the operation), address for K_LOC/GLOB/LVAX */
    int runs, calls, live, release, zf;
};
static struct Opd opd[NOPD];
static u16_86 bp0, outer, outer2, kv;
static unsigned kaddr;
static int loff0, undef0;

int vp_open(const char *n, int f, int m) { return 3; }
int vp_close(int fd) { return 0; }
long vp_read(int fd, void *p, unsigned long n) { return 0; }
long vp_write(int fd, const void *p, unsigned long n) { return n; }
#ifndef VP_OWN_EXIT
void vp_exit(int c) { VP_ASSERT(0, "supported input compiles"); VP_STOP(); for (;;) {} }
#endif

static u16_86 junk(int i) { return (u16_86)VP_IN(I_JUNK + i); }
static int is_char(int t) { return (t & ~VT_UNSIGNED) == VT_CHAR; }
#define ISPTR(t) (((t) & VT_PTRMASK) != 0)

/* value of an object of type t whose representation is v, after promotion */
static u16_86 promote(int t, u16_86 v)
{
    if (t == T_CHAR) return v & 0x80 ? 0xff00 | (v & 0xff) : v & 0xff;
    if (t == T_UCHR) return v & 0xff;
    return v;
}
static int ptype(int t) { return is_char(t) ? T_INT : t; }
static unsigned psize(int t)          /* size of what t points to */
{
    t -= VT_PTR1;
    if (t & VT_PTRMASK) return 2;
    if ((t & VT_BASEMASK) == VT_STRUCT) return STRUCT_SIZE;
    return is_char(t) ? 1 : 2;
}
static unsigned tsize(int t, int arr)
{
    if (t & VT_PTRMASK) return 2;
    if (t == T_ST) return STRUCT_SIZE;
    if (t == T_ARR) return 2 * ABOUND;
    return is_char(t) ? 1 : 2;
}
/* the value a use of operand o sees: arrays decay */
static u16_86 oval(struct Opd *o)
{
    if (o->type == T_ARR) return o->addr;
    return ISMEM(o->kind) || o->kind == K_FWD ? promote(o->type, o->val) : o->val;
}
static int otype(struct Opd *o)
{
    if (o->kind == K_LIT || o->kind == K_BOOL) return T_INT;
    if (o->type == T_ARR) return T_PI;
    return ptype(o->type);
}

/* make operand o the current one at compile time */
static void set_operand(int i)
{
    struct Opd *o = &opd[i];
    CurrentTypeExtra = o->extra;
    switch (o->kind) {
    case K_LIT:  CurrentType = VT_INT|VT_LOCLIT; CurrentVal = (short)o->val; break;
    case K_LOC:  CurrentType = o->type|VT_LVAL|VT_LOCOFF; CurrentVal = (short)(o->addr - bp0); break;
    case K_FWD:
    case K_GLOB: CurrentType = o->type|VT_LVAL|VT_LOCGLOB; CurrentVal = i; break;
    case K_AX:   CurrentType = o->type; break;
    case K_LVAX: CurrentType = o->type|VT_LVAL; break;
    case K_BOOL: CurrentType = VT_BOOL; CurrentVal = o->cc; break;
    case K_VOID: CurrentType = VT_VOID; break;
    case K_FUN:  CurrentType = o->type|VT_FUN|VT_LVAL|VT_LOCGLOB; CurrentVal = i; break;
    }
}

/* the scratch stack area below the frame's locals */
#ifndef SCRATCH
#define SCRATCH 48
#endif
#define OUTSIDE(a) ((u16_86)((a) - (bp0 + loff0 - SCRATCH)) >= SCRATCH)

/* contract of a sub-expression parser: makes operand i current */
static void ghost_emit(int i)
{
    struct Opd *o = &opd[i];
    o->calls++;
    if (IsDeadCode) VP_ASSERT(!(Pending & PENDING_PUSHAX) && !RegUse, "no operand waits in dead code");
    if (o->kind >= K_AX && o->kind != K_FWD && o->kind != K_FUN) {
        if (SPILL && !IsDeadCode) {
            FlushSpAdj();
            FlushPushAx();
            if (RegUse) {
                Output1Byte(I_PUSH|R_BX);
                LocalOffset -= 2;
                RegUse = 0;
            }
        }
        Output2Bytes(VP_GHOST, i);
        o->live = RegUse;
        if (SPILL == 2 && !IsDeadCode && o->kind != K_BOOL) { Pending += 8; o->release = 1; }
        LastZFInst = 0;
        if (o->kind != K_AX) LastZFInst = CodeAddress;
        if (o->kind == K_LVAX) o->zf = 1;
        else if (!NOZF && !o->release && VP_IN(I_MISC + i) & 1) { LastZFInst = CodeAddress; o->zf = 1; }
    }
    set_operand(i);
}

/* run-time effect of the operand's code: its value is produced, every
 * register the contract does not preserve is trashed */
static void ghost_run(struct R86 *c, int i)
{
    struct Opd *o = &opd[i];
    o->runs++;
    c->r[CX86] = junk(0); c->r[DX86] = junk(1); c->r[SI86] = junk(2); c->r[DI86] = junk(3);
    if (!o->live) c->r[BX86] = junk(4);
    if (o->release) c->r[SP86] -= 8;
    wr16(c->r[SP86] - 2, junk(5));
    c->r[AX86] = o->kind == K_AX ? o->val : o->kind == K_LVAX ? o->addr : junk(6);
    c->f = junk(7) & F86_ALL;
    if (o->kind == K_BOOL) VP_ASSUME(r86_cond(c, o->cc) == o->val);
    if (o->zf) VP_ASSUME(!(c->f & F86_Z) == !!c->r[AX86]);
}
static void vp_ghost(struct R86 *c, int n) { ghost_run(c, n); }

/* Contracts of the emitters with a constant operand (discharged in emit.c),
 * used in place of calls to them:
 *   EmitAddRegConst(r, n)  r += n; no code if n == 0, else ZF reflects the result
 *   EmitScaleAx(n)         AX *= n;  trashes CX, DX, flags
 *   EmitDivAxConst(n)      AX /= n in the signedness of IsUnsignedOp; trashes CX, DX, flags */
static void ghost_code(int op, int a, int imm) { Output3Bytes(op, a, imm); Output1Byte(imm >> 8); }
void vp_add(int r, int n) { if (n) ghost_code(VP_GADD, r, n); }
void vp_scale(int n) { ghost_code(VP_GMUL, 0, n); }
void vp_divc(int n) { ghost_code(VP_GDIV, IsUnsignedOp != 0, n); }
static void vp_gcode(struct R86 *c, int op, int a, int imm)
{
    c->f = junk(7) & F86_ALL;
    if (op == VP_GADD) {
        c->r[a] += imm;
        c->f = (c->f & ~F86_Z) | (c->r[a] ? 0 : F86_Z);
        return;
    }
    c->r[CX86] = junk(0); c->r[DX86] = junk(1);
    if (op == VP_GMUL) c->r[AX86] = MUL16(c->r[AX86], imm);
    else c->r[AX86] = a ? UDIV16(c->r[AX86], imm) : SDIV16(c->r[AX86], imm);
}

/* declare operand i; memory content and addresses are arbitrary */
static void declare(int i, int kind, int type, int cc)
{
    struct Opd *o = &opd[i];
    o->kind = kind; o->type = type; o->cc = cc;
    o->extra = type == T_ARR || (type & VT_BASEMASK) == VT_STRUCT ? 0 : 9 + i;
    o->addr = (u16_86)VP_IN(I_A + i);
    o->val = (u16_86)VP_IN(I_V + i);
    if (kind == K_BOOL) o->val &= 1;
    VarDecls[i].Type = type|VT_LOCGLOB;
    VarDecls[i].TypeExtra = o->extra;
    VarDecls[i].Offset = o->addr;
    if (kind == K_GLOB || kind == K_FUN) VP_ASSUME(o->addr != 0);
    if (ISMEM(kind)) {
        unsigned n = tsize(type, 0), k;
        for (k = 0; k < n; k++) VP_ASSUME(OUTSIDE((u16_86)(o->addr + k)));
        if (n > 1 && n <= 2) VP_ASSUME(o->addr != 0xffff);
#ifdef VP_REPLAY
        wr16(o->addr, o->val);
#endif
    }
    if (kind == K_LOC) VP_ASSUME((u16_86)(o->addr - (bp0 + loff0)) < (u16_86)(64 - loff0));
}
static void read_objects(void)
{
    int i;
    for (i = 0; i < NOPD; i++)
        if (ISMEM(opd[i].kind)) { opd[i].val = rd16(opd[i].addr); VP_SET(I_V + i, opd[i].val); }
    kv = m86[kaddr];
    VP_SET(I_KV, kv);
}

static void world(void)
{
    int i;
#ifndef VP_REPLAY
    __CPROVER_havoc_object(m86);
#endif
    CodeAddress = CODESTART + 16;
    LastFixup = 0;
    loff0 = LocalOffset = -200;
#ifdef FIXBP
    bp0 = FIXBP;
#else
    bp0 = (u16_86)VP_IN(I_BP);
#endif
    outer = (u16_86)VP_IN(I_OUTER);
    outer2 = (u16_86)VP_IN(I_OUTER2);
    kaddr = VP_IN(I_K) & 0xffff;
    VP_ASSUME(OUTSIDE(kaddr));
    undef0 = VP_IN(I_UNDEF) & F86_ALL;
    run_undef = undef0;
#ifdef VP_REPLAY
    m86[kaddr] = vp_in[I_KV];
#endif
    Scopes[0] = NOPD; Scopes[1] = NOPD + 4; ScopeCount = 2;
    StructCount = 1; ArrayCount = 1;
    StructDecls[0].Members = &StructMembers[0];
#if STRUCT_SIZE > 20
    StructMembers[0].Type = VT_ARRAY;
    StructMembers[0].TypeExtra = 1;
    ArrayDecls[1].Bound = STRUCT_SIZE / 2; ArrayDecls[1].Type = VT_INT;
    ArrayCount = 2;
#else
    for (i = 0; i < (STRUCT_SIZE + 1) / 2; i++) {
        StructMembers[i].Type = (i + 1) * 2 > STRUCT_SIZE ? VT_CHAR : VT_INT;
        StructMembers[i].Next = (i + 1) * 2 < STRUCT_SIZE ? &StructMembers[i + 1] : 0;
    }
#endif
    ArrayDecls[0].Bound = ABOUND; ArrayDecls[0].Type = VT_INT;

    for (i = 0; i < 8; i++) cpu.r[i] = junk(12 + i);
    cpu.s[0] = cpu.s[1] = cpu.s[2] = cpu.s[3] = 0;
    cpu.r[BP86] = bp0;
    cpu.f = VP_IN(I_FLAGS) & F86_ALL;
    if (CTX & 1) { RegUse = 1; cpu.r[BX86] = outer; }
    if (CTX & 2) Pending -= 6;
    if (CTX & 8) Pending += 8;
    if (CTX & 4) { Pending |= PENDING_PUSHAX; cpu.r[AX86] = outer2; }
    cpu.r[SP86] = (u16_86)(bp0 + LocalOffset - (Pending & ~PENDING_PUSHAX));
    IsDeadCode = DEAD;
    LastZFInst = CodeAddress;
}

/* establish the run-time state operand 0 claims */
static void operand0(void)
{
    struct Opd *o = &opd[0];
    if (o->kind == K_AX) {
        cpu.r[AX86] = o->val;
        LastZFInst = 0;
        if (!Pending && VP_IN(I_ZF) & 1) { LastZFInst = CodeAddress; VP_ASSUME(!(cpu.f & F86_Z) == !!o->val); }
    }
    if (o->kind == K_LVAX) cpu.r[AX86] = o->addr;
    if (o->kind == K_BOOL) VP_ASSUME(r86_cond(&cpu, o->cc) == o->val);
    set_operand(0);
}

static void start_tokens(const char *s)
{
    InBufPtr = InBuf;
    CopyStr(InBuf, s);
    NextChar();
    GetToken();
}

static int start_addr;

/* Observe the new current operand: its C type and its value through GetVal().
 * want_kind 0: any place. */
static int zclaim, rtype;
static void get_result(void)
{
    int t = CurrentType;
    zclaim = CodeAddress == LastZFInst && t != VT_BOOL && !(t & (VT_LVAL|VT_LOCMASK));
    rtype = t & ~(VT_LVAL|VT_LOCMASK);
    if (rtype == VT_BOOL || (t & VT_LOCMASK) == VT_LOCLIT) rtype = T_INT;
    if (rtype == T_ARR) rtype = T_PI;
    rtype = ptype(rtype);
    VP_ASSERT(!(Pending & PENDING_PUSHAX) || (CTX & 4), "no operand is left pending");
    GetVal();
}

/* frame conditions after execution of the emitted code */
static void frame(int mem_too)
{
    int s;
    VP_ASSERT(cpu.r[BP86] == bp0, "frame pointer preserved");
    VP_ASSERT(cpu.r[SP86] == (u16_86)(bp0 + LocalOffset - (Pending & ~PENDING_PUSHAX)), "stack pointer matches the compile-time state");
    if (CTX & 4) {
        s = CodeAddress;
        Output1Byte(0x90);                     /* flushes a pending operand */
        GetStoredVal(R_DX);
        run_to(s, CodeAddress);
        VP_ASSERT(cpu.r[DX86] == outer2, "pending outer operand preserved");
    }
    if (CTX & 1) {
        s = CodeAddress;
        GetStoredVal(R_DX);
        run_to(s, CodeAddress);
        VP_ASSERT(cpu.r[DX86] == outer, "outer operand preserved");
    }
    VP_ASSERT(LocalOffset == loff0 && !RegUse, "saved operands are released");
    if (mem_too) VP_ASSERT(m86[kaddr] == kv, "memory unchanged");
}

/* nothing may be emitted and no run-time bookkeeping may change in dead code */
static int pend0, reg0;
static void dead_pre(void) { pend0 = Pending; reg0 = RegUse; }
static void dead_post(void)
{
    VP_ASSERT(CodeAddress == CODESTART + 16, "dead code emits nothing");
    VP_ASSERT(IsDeadCode == 1, "dead code stays dead");
    VP_ASSERT(LocalOffset == loff0, "dead code leaves the frame layout alone");
    /* the SP adjustment in Pending is meaningless in dead code: labels drop it */
    VP_ASSERT(!((Pending ^ pend0) & PENDING_PUSHAX) && RegUse == reg0, "dead code leaves saved operands alone");
}
