/* Specification of one 8086 instruction, written from the Intel manual; it is
 * the oracle the contracts refer to, and shares no code with /repo.
 *
 * Before including, define
 *   R86_MEM(lin)     value (0..255) of pre-state memory byte at linear address
 * State is 16 bit exact (unsigned short); flags are kept as CF ZF SF OF, the
 * ones sim86 models.  fdef says which of them the architecture defines.
 */
#ifndef REF86_H
#define REF86_H

enum { F86_C = 1, F86_Z = 2, F86_S = 4, F86_O = 8, F86_ALL = 15 };
/* UNSUP: sim86 documents no support (must stop loudly); UNDEF: the encoding
 * has no architected meaning, nothing is specified */
enum { R86_OK, R86_UNSUP, R86_INT, R86_DIVERR, R86_UNDEF };
enum { AX86, CX86, DX86, BX86, SP86, BP86, SI86, DI86 };
enum { ES86, CS86, SS86, DS86 };

typedef unsigned char  u8_86;
typedef unsigned short u16_86;

#ifndef R86_MAXW
#define R86_MAXW 4
#endif

/* arithmetic of MUL/DIV, replaceable by an abstraction */
#ifndef R86_MUL
#define R86_MUL(a, b) ((unsigned)(a) * (b))
#endif
#ifndef R86_UDIV
#define R86_UDIV(n, v, ax) ((n) / (v))
#define R86_UMOD(n, v, ax) ((n) % (v))
#define R86_SDIV(n, d, ax) ((n) / (d))
#define R86_SMOD(n, d, ax) ((n) % (d))
#endif

struct R86 {
    u16_86 r[8], s[4], ip;
    u8_86 f, fdef;
    int status, intno;
    int wide;            /* DIV/IDIV with a dividend wider than 16 bits */
    int nw;
    unsigned wa[R86_MAXW];
    u8_86 wv[R86_MAXW];
    int nl;              /* data bytes read, for replay */
    unsigned la[8];
    u8_86 lv[8];
};

static unsigned r86_lin(u16_86 s, u16_86 off)
{
    return ((unsigned)s * 16u + off) & 0xfffffu;
}

static u8_86 r86_rd(struct R86 *c, u16_86 s, u16_86 off)
{
    unsigned a = r86_lin(s, off);
    u8_86 v = R86_MEM(a);
    if (c->nl < 8) { c->la[c->nl] = a; c->lv[c->nl] = v; c->nl++; }
#ifdef R86_FORWARD
    for (int i = 0; i < c->nw; i++)
        if (c->wa[i] == a) v = c->wv[i];
#endif
    return v;
}
static u16_86 r86_rd16(struct R86 *c, u16_86 s, u16_86 off)
{
    u8_86 l = r86_rd(c, s, off);
    return l | r86_rd(c, s, (u16_86)(off + 1)) << 8;
}
static void r86_wr(struct R86 *c, u16_86 s, u16_86 off, u8_86 v)
{
#ifdef R86_WMEM
    unsigned a = r86_lin(s, off);
    R86_WMEM(a, v);
#else
    c->wa[c->nw] = r86_lin(s, off);
    c->wv[c->nw] = v;
    c->nw++;
#endif
}
static void r86_wr16(struct R86 *c, u16_86 s, u16_86 off, u16_86 v)
{
    r86_wr(c, s, off, (u8_86)v);
    r86_wr(c, s, (u16_86)(off + 1), v >> 8);
}

/* final value of memory byte a, given its initial value */
static u8_86 r86_final(struct R86 *c, unsigned a, u8_86 v)
{
    for (int i = 0; i < R86_MAXW; i++)
        if (i < c->nw && c->wa[i] == a) v = c->wv[i];
    return v;
}

#ifndef R86_FETCH
#define R86_FETCH(c) r86_rd((c), (c)->s[CS86], (c)->ip)
#endif
static u8_86 r86_imm8(struct R86 *c)
{
    u8_86 v = R86_FETCH(c);
    c->ip++;
    return v;
}
static u16_86 r86_imm16(struct R86 *c)
{
    u8_86 l = r86_imm8(c);
    return l | r86_imm8(c) << 8;
}
static u16_86 r86_sext(u8_86 v) { return v & 0x80 ? 0xff00 | v : v; }

static u8_86 r86_get8(struct R86 *c, int r)
{
    return r < 4 ? (u8_86)c->r[r] : c->r[r - 4] >> 8;
}
static void r86_set8(struct R86 *c, int r, u8_86 v)
{
    if (r < 4) c->r[r] = (c->r[r] & 0xff00) | v;
    else c->r[r - 4] = (c->r[r - 4] & 0xff) | v << 8;
}

struct EA86 { int isreg, rm, reg; u16_86 seg, off; };

static void r86_modrm(struct R86 *c, struct EA86 *e, int ovr)
{
    u8_86 m = r86_imm8(c);
    int mod = m >> 6, rm = m & 7, seg = DS86;
    u16_86 off = 0;
    e->reg = (m >> 3) & 7;
    e->rm = rm;
    e->isreg = mod == 3;
    e->seg = e->off = 0;
    if (mod == 3) return;
    if (mod == 0 && rm == 6) {
        off = r86_imm16(c);
    } else {
        if (rm == 0) off = c->r[BX86] + c->r[SI86];
        else if (rm == 1) off = c->r[BX86] + c->r[DI86];
        else if (rm == 2) { off = c->r[BP86] + c->r[SI86]; seg = SS86; }
        else if (rm == 3) { off = c->r[BP86] + c->r[DI86]; seg = SS86; }
        else if (rm == 4) off = c->r[SI86];
        else if (rm == 5) off = c->r[DI86];
        else if (rm == 6) { off = c->r[BP86]; seg = SS86; }
        else off = c->r[BX86];
        if (mod == 1) off += r86_sext(r86_imm8(c));
        else if (mod == 2) off += r86_imm16(c);
    }
    if (ovr >= 0) seg = ovr;
    e->seg = c->s[seg];
    e->off = off;
}
static u16_86 r86_getrm(struct R86 *c, struct EA86 *e, int w)
{
    if (e->isreg) return w ? c->r[e->rm] : r86_get8(c, e->rm);
    return w ? r86_rd16(c, e->seg, e->off) : r86_rd(c, e->seg, e->off);
}
static void r86_setrm(struct R86 *c, struct EA86 *e, int w, u16_86 v)
{
    if (e->isreg) {
        if (w) c->r[e->rm] = v; else r86_set8(c, e->rm, (u8_86)v);
    } else {
        if (w) r86_wr16(c, e->seg, e->off, v); else r86_wr(c, e->seg, e->off, (u8_86)v);
    }
}
static u16_86 r86_getreg(struct R86 *c, int r, int w)
{
    return w ? c->r[r] : r86_get8(c, r);
}
static void r86_setreg(struct R86 *c, int r, int w, u16_86 v)
{
    if (w) c->r[r] = v; else r86_set8(c, r, (u8_86)v);
}

static void r86_szf(struct R86 *c, u16_86 res, int w)
{
    unsigned sign = w ? 0x8000u : 0x80u, mask = w ? 0xffffu : 0xffu;
    c->f &= ~(F86_Z | F86_S);
    c->f |= ((res & mask) == 0 ? F86_Z : 0) | (res & sign ? F86_S : 0);
}
/* signed/unsigned value-based definition of carry and overflow */
static u16_86 r86_alu(struct R86 *c, int op, u16_86 l, u16_86 r, int w)
{
    unsigned mask = w ? 0xffffu : 0xffu;
    int sl = w ? (short)l : (signed char)l, sr = w ? (short)r : (signed char)r;
    int ul = l & mask, ur = r & mask, cin = c->f & F86_C;
    int umax = (int)mask, smin = w ? -32768 : -128, smax = w ? 32767 : 127;
    int u, s;
    c->fdef = F86_ALL;
    if (op == 1 || op == 4 || op == 6) {
        u = op == 1 ? ul | ur : op == 4 ? ul & ur : ul ^ ur;
        c->f &= ~(F86_C | F86_O);
        r86_szf(c, (u16_86)u, w);
        return u & mask;
    }
    if (op == 0) { u = ul + ur; s = sl + sr; }
    else if (op == 2) { u = ul + ur + cin; s = sl + sr + cin; }
    else if (op == 3) { u = ul - ur - cin; s = sl - sr - cin; }
    else { u = ul - ur; s = sl - sr; }
    c->f = (u < 0 || u > umax ? F86_C : 0) | (s < smin || s > smax ? F86_O : 0);
    r86_szf(c, (u16_86)u, w);
    return u & mask;
}
static u16_86 r86_incdec(struct R86 *c, u16_86 v, int d, int w)
{
    unsigned mask = w ? 0xffffu : 0xffu;
    int s = (w ? (short)v : (signed char)v) + d;
    c->fdef = F86_ALL;               /* CF is defined: unchanged */
    c->f = (c->f & ~F86_O) | (s < (w ? -32768 : -128) || s > (w ? 32767 : 127) ? F86_O : 0);
    r86_szf(c, (u16_86)s, w);
    return (u16_86)s & mask;
}
static int r86_cond(struct R86 *c, int cc)
{
    int C = !!(c->f & F86_C), Z = !!(c->f & F86_Z), S = !!(c->f & F86_S), O = !!(c->f & F86_O), j = 0;
    switch (cc >> 1) {
    case 0: j = O; break;
    case 1: j = C; break;
    case 2: j = Z; break;
    case 3: j = C || Z; break;
    case 4: j = S; break;
    case 6: j = S != O; break;
    case 7: j = Z || S != O; break;
    }
    return (cc & 1) ? !j : j;
}
static void r86_push(struct R86 *c, u16_86 v)
{
    c->r[SP86] -= 2;
    r86_wr16(c, c->s[SS86], c->r[SP86], v);
}
static u16_86 r86_pop(struct R86 *c)
{
    u16_86 v = r86_rd16(c, c->s[SS86], c->r[SP86]);
    c->r[SP86] += 2;
    return v;
}

/* Shift by n (0..31).  CF: last bit out.  OF only defined for n==1. */
static void r86_shift(struct R86 *c, struct EA86 *e, unsigned n)
{
    u16_86 v = r86_getrm(c, e, 1), res;
    int k = e->reg, cf, of;
    u8_86 f0 = c->f;
    if (k != 4 && k != 5 && k != 7) { c->status = R86_UNSUP; return; }
    c->fdef = F86_ALL;
    if (k == 4) {
        res = n > 15 ? 0 : (u16_86)(v << n);
        cf = n > 16 ? 0 : (v >> (16 - n)) & 1;
        of = cf != (res >> 15);
    } else if (k == 5) {
        res = n > 15 ? 0 : v >> n;
        cf = n > 16 ? 0 : (v >> (n - 1)) & 1;
        of = v >> 15;
    } else {
        u16_86 fill = v & 0x8000 ? 0xffff : 0;
        res = n > 15 ? fill : (u16_86)((v >> n) | (fill << (16 - n)));
        cf = n > 15 ? fill & 1 : (v >> (n - 1)) & 1;
        of = 0;
    }
    c->f = (cf ? F86_C : 0) | (of ? F86_O : 0);
    c->fdef &= n > 1 ? ~F86_O : F86_ALL;
    r86_szf(c, res, 1);
    c->f = n == 0 ? f0 : c->f;             /* count 0: nothing changes */
    r86_setrm(c, e, 1, n == 0 ? v : res);
}

#ifndef R86_OPC
#define R86_OPC(c, k) r86_imm8(c)
#endif
#ifndef R86_REPMAX
#define R86_REPMAX 0
#endif

static void r86_string(struct R86 *c, int op, int rep, int ovr)
{
    u16_86 src = c->s[ovr >= 0 ? ovr : DS86], es = c->s[ES86];
    int w = op & 1, d = w ? 2 : 1, left;
    switch (op) {
    case 0xA4: case 0xA5:
        if (rep != 0xF3) { c->status = R86_UNSUP; return; }
        for (left = 0; left < R86_REPMAX && c->r[CX86]; left++) {
            if (w) r86_wr16(c, es, c->r[DI86], r86_rd16(c, src, c->r[SI86]));
            else r86_wr(c, es, c->r[DI86], r86_rd(c, src, c->r[SI86]));
            c->r[SI86] += d; c->r[DI86] += d; c->r[CX86]--;
        }
        break;
    case 0xA6: case 0xAE:
        if (rep != (op == 0xA6 ? 0xF3 : 0xF2)) { c->status = R86_UNSUP; return; }
        for (left = 0; left < R86_REPMAX && c->r[CX86]; left++) {
            u8_86 a = op == 0xA6 ? r86_rd(c, src, c->r[SI86]) : (u8_86)c->r[AX86];
            u8_86 b = r86_rd(c, es, c->r[DI86]);
            r86_alu(c, 7, a, b, 0);
            if (op == 0xA6) c->r[SI86]++;
            c->r[DI86]++; c->r[CX86]--;
            if (!(c->f & F86_Z) == (rep == 0xF3)) break;
        }
        break;
    case 0xAA: case 0xAB:
        if (rep == 0xF2) { c->status = R86_UNDEF; return; }
        if (rep == 0) {
            if (w) r86_wr16(c, es, c->r[DI86], c->r[AX86]); else r86_wr(c, es, c->r[DI86], (u8_86)c->r[AX86]);
            c->r[DI86] += d;
            break;
        }
        for (left = 0; left < R86_REPMAX && c->r[CX86]; left++) {
            if (w) r86_wr16(c, es, c->r[DI86], c->r[AX86]); else r86_wr(c, es, c->r[DI86], (u8_86)c->r[AX86]);
            c->r[DI86] += d; c->r[CX86]--;
        }
        break;
    case 0xAC: case 0xAD:
        if (rep) { c->status = R86_UNSUP; return; }
        if (w) c->r[AX86] = r86_rd16(c, src, c->r[SI86]);
        else r86_set8(c, 0, r86_rd(c, src, c->r[SI86]));
        c->r[SI86] += d;
        break;
    default: c->status = R86_UNSUP;
    }
}

static void r86_step(struct R86 *c)
{
    struct EA86 e;
    int ovr = -1, rep = 0, op, w, k = 0;
    c->status = R86_OK; c->wide = 0; c->nw = 0; c->nl = 0;
    c->fdef = F86_ALL;
    op = R86_OPC(c, k);
    for (k = 1; k < 3; k++) {
        if (op == 0x26 || op == 0x2E || op == 0x36 || op == 0x3E) ovr = (op >> 3) & 3;
        else if (op == 0xF2 || op == 0xF3) rep = op;
        else break;
        op = R86_OPC(c, k);
    }
    w = op & 1;
    if (rep && !(op >= 0xA4 && op <= 0xAF)) { c->status = R86_UNDEF; return; }

    if (op < 0x40) {
        int o = op >> 3 & 7, t = op & 7;
        u16_86 res;
        if (t < 4) {
            r86_modrm(c, &e, ovr);
            if (t & 2) {
                res = r86_alu(c, o, r86_getreg(c, e.reg, w), r86_getrm(c, &e, w), w);
                if (o != 7) r86_setreg(c, e.reg, w, res);
            } else {
                res = r86_alu(c, o, r86_getrm(c, &e, w), r86_getreg(c, e.reg, w), w);
                if (o != 7) r86_setrm(c, &e, w, res);
            }
        } else if (t < 6) {
            u16_86 imm = w ? r86_imm16(c) : r86_imm8(c);
            res = r86_alu(c, o, r86_getreg(c, 0, w), imm, w);
            if (o != 7) r86_setreg(c, 0, w, res);
        } else if (op < 0x20) {
            if (op & 1) c->s[op >> 3 & 3] = r86_pop(c);
            else r86_push(c, c->s[op >> 3 & 3]);
        } else c->status = R86_UNSUP;                  /* DAA DAS AAA AAS */
    } else if (op < 0x48) c->r[op & 7] = r86_incdec(c, c->r[op & 7], 1, 1);
    else if (op < 0x50) c->r[op & 7] = r86_incdec(c, c->r[op & 7], -1, 1);
    else if (op < 0x58) {
        u16_86 v = c->r[op & 7];                       /* PUSH SP: 286 and later */
        r86_push(c, v);
    } else if (op < 0x60) {
        u16_86 v = r86_pop(c);
        c->r[op & 7] = v;
    } else if (op >= 0x70 && op < 0x80) {
        u16_86 rel = r86_sext(r86_imm8(c));
        if ((op & 0xE) == 0xA) { c->status = R86_UNSUP; return; }  /* parity */
        if (r86_cond(c, op & 15)) c->ip += rel;
    } else if (op >= 0x80 && op < 0x84) {
        u16_86 imm, res;
        r86_modrm(c, &e, ovr);
        imm = op == 0x81 ? r86_imm16(c) : r86_sext(r86_imm8(c));
        res = r86_alu(c, e.reg, r86_getrm(c, &e, w), imm, w);
        if (e.reg != 7) r86_setrm(c, &e, w, res);
    } else if (op >= 0x88 && op < 0x8C) {
        r86_modrm(c, &e, ovr);
        if (op & 2) r86_setreg(c, e.reg, w, r86_getrm(c, &e, w));
        else r86_setrm(c, &e, w, r86_getreg(c, e.reg, w));
    } else if (op == 0x8C || op == 0x8E) {
        r86_modrm(c, &e, ovr);
        if (e.reg > 3) { c->status = R86_UNDEF; return; }
        if (op == 0x8C) r86_setrm(c, &e, 1, c->s[e.reg]);
        else c->s[e.reg] = r86_getrm(c, &e, 1);
    } else if (op == 0x8D) {
        r86_modrm(c, &e, ovr);
        if (e.isreg) { c->status = R86_UNDEF; return; }
        c->r[e.reg] = e.off;
    } else if (op >= 0x90 && op < 0x98) {
        u16_86 t = c->r[op & 7];
        c->r[op & 7] = c->r[AX86];
        c->r[AX86] = t;
    } else if (op == 0x98) c->r[AX86] = r86_sext((u8_86)c->r[AX86]);
    else if (op == 0x99) c->r[DX86] = c->r[AX86] & 0x8000 ? 0xffff : 0;
    else if (op >= 0xA0 && op < 0xA4) {
        u16_86 off = r86_imm16(c), sg = c->s[ovr >= 0 ? ovr : DS86];
        if (op & 2) { if (w) r86_wr16(c, sg, off, c->r[AX86]); else r86_wr(c, sg, off, (u8_86)c->r[AX86]); }
        else if (w) c->r[AX86] = r86_rd16(c, sg, off);
        else r86_set8(c, 0, r86_rd(c, sg, off));
    } else if (op >= 0xA4 && op < 0xB0) r86_string(c, op, rep, ovr);
    else if (op >= 0xB0 && op < 0xB8) r86_set8(c, op & 7, r86_imm8(c));
    else if (op >= 0xB8 && op < 0xC0) c->r[op & 7] = r86_imm16(c);
    else if (op == 0xC3) c->ip = r86_pop(c);
    else if (op == 0xC6 || op == 0xC7) {
        u16_86 imm;
        r86_modrm(c, &e, ovr);
        imm = w ? r86_imm16(c) : r86_imm8(c);
        if (e.reg != 0) { c->status = R86_UNDEF; return; }
        r86_setrm(c, &e, w, imm);
    } else if (op == 0xCD) { c->intno = r86_imm8(c); c->status = R86_INT; }
    else if (op == 0xD1) { r86_modrm(c, &e, ovr); r86_shift(c, &e, 1); }
    else if (op == 0xD3) {
        unsigned n = c->r[CX86] & 0xff;
        r86_modrm(c, &e, ovr);
        if (n > 31) { c->status = R86_UNDEF; return; }  /* 8086 and 80186+ differ */
        r86_shift(c, &e, n);
    } else if (op == 0xE8) {
        u16_86 rel = r86_imm16(c);
        r86_push(c, c->ip);
        c->ip += rel;
    } else if (op == 0xE9) { u16_86 rel = r86_imm16(c); c->ip += rel; }
    else if (op == 0xEB) { u16_86 rel = r86_sext(r86_imm8(c)); c->ip += rel; }
    else if (op == 0xF7) {
        u16_86 v;
        r86_modrm(c, &e, ovr);
        v = r86_getrm(c, &e, 1);
        if (e.reg == 2) r86_setrm(c, &e, 1, ~v);
        else if (e.reg == 3) r86_setrm(c, &e, 1, r86_alu(c, 5, 0, v, 1));
        else if (e.reg == 4) {
            unsigned p = R86_MUL(c->r[AX86], v);
            c->r[AX86] = (u16_86)p; c->r[DX86] = p >> 16;
            c->fdef = F86_C | F86_O;
            c->f = p >> 16 ? F86_C | F86_O : 0;
        } else if (e.reg == 5) {
            /* signed product = unsigned product - 2^16 (a<0 ? v : 0) - 2^16 (v<0 ? a : 0) mod 2^32 */
            unsigned p = (unsigned)c->r[AX86] * v;
            if (c->r[AX86] & 0x8000) p -= (unsigned)v << 16;
            if (v & 0x8000) p -= (unsigned)c->r[AX86] << 16;
            c->r[AX86] = (u16_86)p; c->r[DX86] = (u16_86)(p >> 16);
            c->fdef = F86_C | F86_O;
            c->f = c->r[DX86] != (c->r[AX86] & 0x8000 ? 0xffff : 0) ? F86_C | F86_O : 0;
        } else if (e.reg == 6) {
            unsigned n = (unsigned)c->r[DX86] << 16 | c->r[AX86];
            c->fdef = 0;
            c->wide = c->r[DX86] != 0;
            if (v == 0 || c->r[DX86] >= v) { c->status = R86_DIVERR; return; }
            u16_86 ax = c->r[AX86];
            c->r[AX86] = (u16_86)R86_UDIV(n, v, ax); c->r[DX86] = (u16_86)R86_UMOD(n, v, ax);
        } else if (e.reg == 7) {
            int n = (int)((unsigned)c->r[DX86] << 16 | c->r[AX86]), d = (short)v;
            c->fdef = 0;
            c->wide = c->r[DX86] != (c->r[AX86] & 0x8000 ? 0xffff : 0);
            if (v == 0 || (d == -1 && (n < -32767 || n > 32767))) { c->status = R86_DIVERR; return; }
            if (!c->wide) {
                u16_86 ax = c->r[AX86];
                c->r[AX86] = (u16_86)R86_SDIV(n, d, ax); c->r[DX86] = (u16_86)R86_SMOD(n, d, ax);
            }
        } else c->status = R86_UNSUP;
    } else if (op == 0xFE || op == 0xFF) {
        u16_86 v;
        r86_modrm(c, &e, ovr);
        v = r86_getrm(c, &e, w);
        if (e.reg == 0) r86_setrm(c, &e, w, r86_incdec(c, v, 1, w));
        else if (e.reg == 1) r86_setrm(c, &e, w, r86_incdec(c, v, -1, w));
        else if (e.reg == 2 && w) { r86_push(c, c->ip); c->ip = v; }
        else c->status = w && e.reg < 7 ? R86_UNSUP : R86_UNDEF;
    } else c->status = R86_UNSUP;
}
#endif
