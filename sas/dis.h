/* An 8086 disassembler written from the Intel opcode map: the oracle for the
 * assembler (shares nothing with sas.c). */
enum { O_NONE, O_R8, O_R16, O_SR, O_M, O_I8, O_I16, O_CL, O_ONE, O_T };
struct Op { int k, v, seg, base; };
enum { M_BAD, M_ADD, M_OR, M_ADC, M_SBB, M_AND, M_SUB, M_XOR, M_CMP,      /* in opcode order */
       M_MOV, M_XCHG, M_LEA, M_TEST, M_PUSH, M_POP, M_INC, M_DEC, M_NOT, M_NEG, M_MUL, M_IMUL, M_DIV, M_IDIV,
       M_SHL, M_SHR, M_SAR, M_JMP, M_CALL, M_CALLR, M_INT, M_SIMPLE, M_JCC };  /* M_JCC + cc */
struct Ins { int mn, w, rep, len; struct Op a, b; };

static struct Op op_(int k, int v) { struct Op o; o.k = k; o.v = v; o.seg = -1; o.base = -1; return o; }
static struct Op mem_(int seg, int base, int disp)
{
    struct Op o;
    o.k = O_M; o.seg = seg; o.base = base; o.v = disp & 0xffff;
    return o;
}
enum { B_BXSI, B_BXDI, B_BPSI, B_BPDI, B_SI, B_DI, B_BP, B_BX, B_NONE };
static int same_(struct Op a, struct Op b) { return a.k == b.k && a.v == b.v && a.seg == b.seg && a.base == b.base; }

static int d_sx(int b) { return b & 0x80 ? (b | 0xff00) & 0xffff : b & 0xff; }

/* ModRM operand of width w at p[i]; returns the next index */
static int d_rm(const unsigned char *p, int i, int w, int seg, struct Op *o)
{
    int m = p[i++], mod = m >> 6, rm = m & 7, disp = 0, base = rm;
    if (mod == 3) { *o = op_(w ? O_R16 : O_R8, rm); return i; }
    if (mod == 0 && rm == 6) { base = B_NONE; disp = p[i] | p[i + 1] << 8; i += 2; }
    else if (mod == 1) { disp = d_sx(p[i]); i++; }
    else if (mod == 2) { disp = p[i] | p[i + 1] << 8; i += 2; }
    *o = mem_(seg, base, disp);
    return i;
}
static int d_imm(const unsigned char *p, int i, int w, struct Op *o)
{
    *o = w ? op_(O_I16, p[i] | p[i + 1] << 8) : op_(O_I8, p[i]);
    return i + 1 + w;
}

/* instruction at p, whose address is ip */
static struct Ins d_ins(const unsigned char *p, int ip)
{
    struct Ins r;
    int i = 0, seg = -1, b, w, m, reg;
    r.mn = M_BAD; r.rep = 0; r.a = r.b = op_(O_NONE, 0);
    b = p[i++];
    if (b == 0xF2 || b == 0xF3) { r.rep = b; b = p[i++]; }
    if ((b & 0xe7) == 0x26) { seg = (b >> 3) & 3; b = p[i++]; }
    w = b & 1;
    m = p[i]; reg = (m >> 3) & 7;
    if (b < 0x40 && (b & 7) < 6) {
        r.mn = M_ADD + (b >> 3);
        if ((b & 7) >= 4) { r.a = op_(w ? O_R16 : O_R8, 0); i = d_imm(p, i, w, &r.b); }
        else {
            i = d_rm(p, i, w, seg, &r.a);
            r.b = op_(w ? O_R16 : O_R8, reg);
            if (b & 2) { struct Op t = r.a; r.a = r.b; r.b = t; }
        }
    } else if (b < 0x20 && (b & 7) >= 6) { r.mn = b & 1 ? M_POP : M_PUSH; r.a = op_(O_SR, b >> 3); w = 1; }
    else if (b >= 0x40 && b < 0x60) { r.mn = b < 0x48 ? M_INC : b < 0x50 ? M_DEC : b < 0x58 ? M_PUSH : M_POP; r.a = op_(O_R16, b & 7); w = 1; }
    else if (b >= 0x70 && b < 0x80) { r.mn = M_JCC + (b & 15); r.a = op_(O_T, (ip + i + 1 + d_sx(p[i])) & 0xffff); i++; w = 1; }
    else if (b == 0x80 || b == 0x81 || b == 0x83) {
        r.mn = M_ADD + reg;
        i = d_rm(p, i, w, seg, &r.a);
        if (b == 0x83) { r.b = op_(O_I16, d_sx(p[i])); i++; }
        else i = d_imm(p, i, w, &r.b);
    } else if (b == 0x86 || b == 0x87) { r.mn = M_XCHG; i = d_rm(p, i, w, seg, &r.b); r.a = op_(w ? O_R16 : O_R8, reg); }
    else if (b >= 0x88 && b < 0x8c) {
        r.mn = M_MOV;
        i = d_rm(p, i, w, seg, &r.a); r.b = op_(w ? O_R16 : O_R8, reg);
        if (b & 2) { struct Op t = r.a; r.a = r.b; r.b = t; }
    } else if (b == 0x8c || b == 0x8e) {
        if (reg < 4) r.mn = M_MOV;
        w = 1;
        i = d_rm(p, i, 1, seg, &r.a); r.b = op_(O_SR, reg);
        if (b == 0x8e) { struct Op t = r.a; r.a = r.b; r.b = t; if (reg == 1) r.mn = M_BAD; }
    } else if (b == 0x8d) { if (m < 0xc0) r.mn = M_LEA; w = 1; i = d_rm(p, i, 1, seg, &r.b); r.a = op_(O_R16, reg); }
    else if (b >= 0x90 && b < 0x98) { r.mn = M_XCHG; w = 1; r.a = op_(O_R16, 0); r.b = op_(O_R16, b & 7); }
    else if (b >= 0xa0 && b < 0xa4) {
        r.mn = M_MOV;
        r.a = op_(w ? O_R16 : O_R8, 0); r.b = mem_(seg, B_NONE, p[i] | p[i + 1] << 8); i += 2;
        if (b & 2) { struct Op t = r.a; r.a = r.b; r.b = t; }
    } else if (b == 0xa8 || b == 0xa9) { r.mn = M_TEST; r.a = op_(w ? O_R16 : O_R8, 0); i = d_imm(p, i, w, &r.b); }
    else if (b >= 0xb0 && b < 0xc0) { w = b >= 0xb8; r.mn = M_MOV; r.a = op_(w ? O_R16 : O_R8, b & 7); i = d_imm(p, i, w, &r.b); }
    else if (b == 0xc6 || b == 0xc7) { if (!reg) r.mn = M_MOV; i = d_rm(p, i, w, seg, &r.a); i = d_imm(p, i, w, &r.b); }
    else if (b == 0xcd) { r.mn = M_INT; w = 0; r.a = op_(O_I8, p[i++]); }
    else if (b >= 0xd0 && b < 0xd4) {
        r.mn = reg == 4 ? M_SHL : reg == 5 ? M_SHR : reg == 7 ? M_SAR : M_BAD;
        i = d_rm(p, i, w, seg, &r.a); r.b = op_(b & 2 ? O_CL : O_ONE, 0);
    } else if (b == 0xe8 || b == 0xe9) { r.mn = b & 1 ? M_JMP : M_CALL; w = 1; r.a = op_(O_T, (ip + i + 2 + (p[i] | p[i + 1] << 8)) & 0xffff); i += 2; }
    else if (b == 0xeb) { r.mn = M_JMP; w = 1; r.a = op_(O_T, (ip + i + 1 + d_sx(p[i])) & 0xffff); i++; }
    else if (b == 0xf6 || b == 0xf7) {
        static const int f[8] = { M_TEST, M_BAD, M_NOT, M_NEG, M_MUL, M_IMUL, M_DIV, M_IDIV };
        r.mn = f[reg];
        i = d_rm(p, i, w, seg, &r.a);
        if (!reg) i = d_imm(p, i, w, &r.b);
    } else if (b == 0xfe || b == 0xff) {
        i = d_rm(p, i, w, seg, &r.a);
        if (reg < 2) r.mn = reg ? M_DEC : M_INC;
        else if (w && reg == 2) r.mn = M_CALLR;
        else if (w && reg == 6) r.mn = M_PUSH;
    } else if (b == 0x98 || b == 0x99 || b == 0xc3 || b == 0xf8 || b == 0xf9 || b == 0xfa || b == 0xfb ||
               (b >= 0xa4 && b < 0xa8) || (b >= 0xaa && b < 0xb0)) { r.mn = M_SIMPLE; w = 0; r.a = op_(O_I8, b); }
    if (seg >= 0 && r.a.k != O_M && r.b.k != O_M) r.mn = M_BAD;
    r.w = w; r.len = i;
    return r;
}
