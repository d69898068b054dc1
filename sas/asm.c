/* Contract of the assembler's main loop (HandleInstruction, HandleDirective,
 * label definition and fixups): a program given as a token list (the lexer is
 * replaced by its contract, C15) with unrestricted registers, numbers and
 * addresses assembles to exactly the bytes that mean what it says.
 *   BUILD    the program
 *   EXPECT   its meaning: instructions (checked with the disassembler in
 *            dis.h), bytes and words, in order
 *   REJECT   condition under which a diagnostic (and no output) is allowed
 *   MUST     condition under which one is required
 *   WARN     condition under which a message is required */
#include "common.h"
#include "dis.h"
#ifndef REJECT
#define REJECT 0
#endif
#ifndef MUST
#define MUST 0
#endif
#ifndef WARN
#define WARN 0
#endif
#ifndef PRE
#define PRE 1
#endif
#include "tok.h"

void vp_loud(void)
{
    VP_ASSERT(REJECT || MUST, "a valid program is accepted");
#ifdef NOCOVER
    VP_COVER("rejected");
#endif
    VP_STOP();
}
long vp_read(int fd, void *p, unsigned long n) { return 0; }
long vp_write(int fd, const void *p, unsigned long n)
{
    VP_ASSERT(fd == 3, "output file");
#ifndef NOCOVER
    VP_COVER("accepted");
#endif
    VP_ASSERT(!(MUST), "an invalid program is rejected");
    out = p; outlen = (int)n;
    VP_ASSERT(outlen >= 0 && outlen <= VP_OUTPUT, "output size");
    VP_ASSERT(!!vp_notes == !!(WARN), "diagnostics");
    EXPECT;
    VP_ASSERT(pos == outlen, "nothing else is emitted");
    VP_STOP();
    return (long)n;
}
static void one(void)
{
    char *argv[4] = { "sas", "a.asm", "a.com", 0 };
    BUILD;
    VP_ASSERT(kk == 0, "KMAX covers the choices");
#ifdef VP_REPLAY
    InBufSize = 0;
#endif
    (void)sas_main(3, argv);
    VP_ASSERT(0, "the output file is written");
}
void harness(void)
{
    int i;
    for (i = 0; i < NSYM; i++) S[i] = VP_IN(i);
    VP_ASSUME(PRE);
    runs();
}
