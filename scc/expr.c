/* Contract of one binary, assignment, logical, comma or conditional operator
 * step of the expression code generator (ParseExpr1, HandleCondOp).
 *
 *   requires  state.h: the left operand (kind and type per unit, any value,
 *             any address) is current; any outer operand context
 *   callee    ParseCastExpression is replaced by its contract: it makes some
 *             operand (kind/type per unit, any value) current, saving what it
 *             has to and trashing everything else
 *   ensures   executing the emitted code yields the C value of the operation
 *             in the place the new compile-time state describes, the type is
 *             the C type, the assigned object and nothing else changes, and
 *             operands are evaluated exactly when C says so
 */
#include "common.h"
#include "state.h"

#ifndef LCC
#define LCC JL
#endif
#ifndef RCC
#define RCC JNZ
#endif
#ifndef R2KIND
#define R2KIND 0
#define R2TYPE 0
#endif
#define O_COND '?'
#define O_ASSIGN 0x1000      /* flag: assignment form */

static const char src[] = SRC;
static int nrhs;
void vp_cast(void)
{
    nrhs++;
    VP_ASSERT(nrhs <= (SPECOP == O_COND ? 2 : 1), "no extra operand is parsed");
    ghost_emit(nrhs == 1 ? 1 : 2);
}

/* C value and type of L op R */
static u16_86 c_value(int op, int lt, u16_86 l, int rt, u16_86 r, int *type)
{
    int sl, sr, uns = lt == T_UINT || rt == T_UINT || ISPTR(lt) || ISPTR(rt), b = -1;
    sl = (short)l; sr = (short)r;
    *type = uns ? T_UINT : T_INT;
#define SCALE(i, v, n) (opd[i].kind != K_LIT ? (u16_86)MUL16(v, n) : (u16_86)((v) * (n)))
    switch (op) {
    case '+':
        if (ISPTR(lt)) { *type = lt; return (u16_86)(l + SCALE(1, r, psize(lt))); }
        if (ISPTR(rt)) { *type = rt; return (u16_86)(r + SCALE(0, l, psize(rt))); }
        return (u16_86)(l + r);
    case '-':
        if (ISPTR(lt) && ISPTR(rt)) {
            *type = T_INT;
            if (psize(lt) & (psize(lt) - 1)) return SDIV16((u16_86)(l - r), psize(lt));
            VP_ASSUME((short)(l - r) % (int)psize(lt) == 0);   /* same array */
            return (u16_86)((short)(l - r) / (int)psize(lt));
        }
        if (ISPTR(lt)) { *type = lt; return (u16_86)(l - SCALE(1, r, psize(lt))); }
        return (u16_86)(l - r);
    case '*': return (u16_86)MUL16(l, r);
    case '/': case '%':
        VP_ASSUME(r != 0);
        if (uns) return op == '/' ? UDIV16(l, r) : UMOD16(l, r);
        VP_ASSUME(!(sl == -32768 && sr == -1));
        return op == '/' ? SDIV16(l, r) : SMOD16(l, r);
    case '&': return l & r;
    case '|': return l | r;
    case '^': return l ^ r;
    case TOK_LSH:
        VP_ASSUME(r < 16);
        *type = lt;
        return (u16_86)(l << r);
    case TOK_RSH:
        VP_ASSUME(r < 16);
        *type = lt;
        return lt == T_UINT ? l >> r : (u16_86)(sl >> r);
    case '<':       b = uns ? l < r : sl < sr; break;
    case TOK_LTEQ:  b = uns ? l <= r : sl <= sr; break;
    case '>':       b = uns ? l > r : sl > sr; break;
    case TOK_GTEQ:  b = uns ? l >= r : sl >= sr; break;
    case TOK_EQEQ:  b = l == r; break;
    case TOK_NOTEQ: b = l != r; break;
    case TOK_ANDAND: b = l && r; break;
    case TOK_OROR:   b = l || r; break;
    case ',': *type = rt; return r;
    }
    *type = T_INT;
    return (u16_86)b;
}

void harness(void)
{
    void (*real)(int) = ParseExpr1;
    int t, i, lt, rt, once = 1, r2 = 0;
    u16_86 l, r, expv, got;

    world();
    declare(0, LKIND, LTYPE, LCC);
    declare(1, RKIND, RTYPE, RCC);
    if (R2KIND) declare(2, R2KIND, R2TYPE, RCC);
    read_objects();
#if SPECOP & O_ASSIGN
    u8_86 scopy = kv;
    if (LTYPE == T_ST) {
        u16_86 d = (u16_86)(kaddr - opd[0].addr);
        if (d < STRUCT_SIZE) {
            scopy = m86[(u16_86)(opd[1].addr + d)];
#ifdef VP_REPLAY
            m86[(u16_86)(opd[1].addr + d)] = vp_in[I_CV]; scopy = vp_in[I_CV];
#endif
            VP_SET(I_CV, scopy);
        }
        d = (u16_86)(opd[1].addr - opd[0].addr);
        VP_ASSUME(d == 0 || (d >= STRUCT_SIZE && (u16_86)-d >= STRUCT_SIZE));
    }
#endif
    start_tokens(src);
    operand0();
#ifdef VP_PRE
    VP_ASSUME(VP_PRE);
#endif
    VP_COVER("precondition satisfiable");
    dead_pre();
    real(PREC_COMMA);
    VP_ASSERT(nrhs == (SPECOP == O_COND ? 2 : 1), "every operand is parsed");
    VP_ASSERT(TokenType == ';', "operator and operands are consumed");

    lt = otype(&opd[0]); l = oval(&opd[0]);
    rt = otype(&opd[1]); r = oval(&opd[1]);
    if (SPECOP == O_COND) {
        int xt = otype(&opd[2]);
        expv = l ? r : oval(&opd[2]);
        t = ISPTR(rt) ? rt : ISPTR(xt) ? xt : rt == T_UINT || xt == T_UINT ? T_UINT : rt;
        once = l != 0;
        r2 = 1;
    } else if (SPECOP & O_ASSIGN) {
        int op = SPECOP & ~O_ASSIGN;
        expv = op ? c_value(op, lt, l, rt, r, &t) : r;
        expv = promote(LTYPE, expv);
        t = lt;
    } else {
        expv = c_value(SPECOP, lt, l, rt, r, &t);
        if (SPECOP == TOK_ANDAND) once = l != 0;
        if (SPECOP == TOK_OROR) once = l == 0;
    }
#if DEAD
    rtype = CurrentType & ~(VT_LVAL|VT_LOCMASK);
    if (rtype == VT_BOOL) rtype = T_INT;
    VP_ASSERT(ptype(rtype == T_ARR ? T_PI : rtype) == t, "result type");
    dead_post();
    (void)got; (void)i; (void)expv; (void)once; (void)r2;
#else
#if SPECOP & O_ASSIGN
    if (LTYPE == T_ST) {
        run_to(CODESTART + 16, CodeAddress);
        if ((u16_86)(kaddr - opd[0].addr) < STRUCT_SIZE) {
            VP_ASSERT(m86[kaddr] == scopy, "struct member assigned");
        } else VP_ASSERT(m86[kaddr] == kv, "only the assigned object changes");
        frame(0);
        return;
    }
#endif
    get_result();
    VP_ASSERT(rtype == t, "result type");
    run_to(CODESTART + 16, CodeAddress);
    VP_ASSERT(cpu.r[AX86] == expv, "result value");
    VP_ASSERT(!zclaim || !(cpu.f & F86_Z) == !!cpu.r[AX86], "zero flag reflects the value where it is relied on");
    VP_ASSERT(opd[1].kind < K_AX || opd[1].runs == once, "operand evaluated exactly when C says");
    VP_ASSERT(!r2 || opd[2].kind < K_AX || opd[2].runs == !once, "third operand evaluated exactly when C says");
#if SPECOP & O_ASSIGN
    i = is_char(LTYPE) ? 1 : 2;
    got = rd16(opd[0].addr);
    VP_ASSERT(promote(LTYPE, got) == expv, "assigned object has the value");
    VP_ASSERT((u16_86)(kaddr - opd[0].addr) < i || m86[kaddr] == kv, "only the assigned object changes");
    frame(0);
#else
    (void)i; (void)got;
    frame(1);
#endif
#endif
}
