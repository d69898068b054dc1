/* What an operand means, and the data invariant of struct Operand: the
 * contract between ParseOperand (checked in oper.c) and the instruction
 * handlers (checked in ins.c). */
enum { K_NONE, K_R8, K_R16, K_SR, K_LIT, K_MEM };
struct Spec {
    int kind;
    int val;          /* register number, literal or displacement */
    int lab;          /* unresolved label (0: none, 1: Labels[0], 2: Labels[1]) */
    int seg, base;    /* memory: segment override (-1: none), base */
    int size;         /* memory: 0 none, 1 byte, 2 word */
};
/* base registers in ModRM order */
static int vp_modrm_ok(int modrm, int base, int disp, int fixup)
{
    int mod = modrm & 0xc0, rm = modrm & 7, d = disp & 0xffff;
    if (modrm & 0x38) return 0;
    if (base == B_NONE) return mod == 0 && rm == 6;
    if (rm != base) return 0;
    if (mod == 0x80) return 1;
    if (fixup) return 0;
    if (mod == 0x40) return d < 0x80 || d >= 0xff80;
    return mod == 0 && base != B_BP && d == 0;
}
/* struct Operand o stands for s */
static int vp_operand_ok(const struct Operand *o, const struct Spec *s)
{
    struct Label *l = s->lab ? &Labels[s->lab - 1] : 0;
    switch (s->kind) {
    case K_R8:  return o->Type == OPTYPE_REG && o->Disp == TOK_AL + s->val;
    case K_R16: return o->Type == OPTYPE_REG && o->Disp == TOK_AX + s->val;
    case K_SR:  return o->Type == OPTYPE_REG && o->Disp == TOK_ES + s->val;
    case K_LIT: return o->Type == OPTYPE_LIT && ((o->Disp ^ s->val) & 0xffff) == 0 && o->Fixup == l;
    case K_MEM: return o->Type == OPTYPE_MEM && ((o->Disp ^ s->val) & 0xffff) == 0 && o->Fixup == l &&
                       vp_modrm_ok(o->ModRM, s->base, o->Disp, !!l);
    }
    return 0;
}
