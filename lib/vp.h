/* Executable-contract support, shared by every harness in /verif.
 *
 * Under CBMC a contract clause is an obligation (VP_ASSERT) or a precondition
 * (VP_ASSUME), and every symbolic input is drawn through vp_in[] so that a
 * counterexample can be written out as a list of integers.
 * Under gcc (-DVP_REPLAY) the same file is compiled together with the same
 * /repo sources and executed on that list: the obligation is then evaluated
 * on the real, natively running code.
 */
#ifndef VP_H
#define VP_H

#define VP_NIN 160
#ifdef VP_REPLAY
extern int vp_in[VP_NIN];
void vp_fail(const char *name);
void vp_vacuous(void);
void vp_done(void);
#define VP_IN(k)        (vp_in[k])
#define VP_SET(k, v)    ((void)0)
#define VP_ASSERT(c, name) do { if (!(c)) vp_fail(name); } while (0)
#define VP_ASSUME(c)    do { if (!(c)) vp_vacuous(); } while (0)
#define VP_COVER(name)  ((void)0)
#define VP_STOP()       vp_done()
#else
int nondet_int(void);
int vp_in[VP_NIN];
#define VP_IN(k)        (vp_in[k] = nondet_int())
#define VP_SET(k, v)    (vp_in[k] = (v))
#define VP_ASSERT(c, name) __CPROVER_assert(c, name)
#define VP_ASSUME(c)    __CPROVER_assume(c)
/* reachability (vacuity) guard: this assertion has to FAIL */
#ifdef VP_NOCOVER
#define VP_COVER(name)  ((void)0)
#else
#define VP_COVER(name)  __CPROVER_assert(0, "cover:" name)
#endif
#define VP_STOP()       __CPROVER_assume(0)
#endif

#endif
