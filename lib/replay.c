/* Native replay driver: runs a harness's contract on the real code, compiled
 * by gcc, on the inputs of a counterexample (one integer per vp_in slot). */
#define VP_REPLAY
#include "vp.h"
int vp_in[VP_NIN];
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static int failures;
void vp_fail(const char *name) { dprintf(1, "VIOLATED %s\n", name); failures++; }
void vp_done(void) { _exit(failures ? 1 : 0); }
void vp_vacuous(void) { dprintf(1, "PRECONDITION NOT MET\n"); _exit(failures ? 1 : 3); }
extern void harness(void);
int main(int argc, char **argv)
{
    FILE *f = argc > 1 ? fopen(argv[1], "r") : stdin;
    int i;
    long v;
    if (!f) return 4;
    for (i = 0; i < VP_NIN && fscanf(f, "%ld", &v) == 1; i++) vp_in[i] = (int)v;
    alarm(10);
    harness();
    vp_done();
}
