/* Loads the real /repo/scc.c (main renamed, operating system calls
 * redirected to the stubs below; nothing else is dropped). */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vp.h"

__attribute__((noreturn)) void vp_exit(int code);
int  vp_open(const char *name, int flags, int mode);
int  vp_close(int fd);
long vp_read(int fd, void *p, unsigned long n);
long vp_write(int fd, const void *p, unsigned long n);

#ifndef VP_OUTPUT
#define VP_OUTPUT 256
#endif
/* The output buffer is declared with VP_OUTPUT bytes instead of OUTPUT_MAX
 * (the code is parametric in it): every use of OUTPUT_MAX after its definition
 * names the smaller constant. */
enum { OUTPUT_MAX_1 = VP_OUTPUT, OUTPUT_MAX_2 = VP_OUTPUT, OUTPUT_MAX_3 = VP_OUTPUT, OUTPUT_MAX_4 = VP_OUTPUT,
       OUTPUT_MAX_5 = VP_OUTPUT, OUTPUT_MAX_6 = VP_OUTPUT, OUTPUT_MAX_7 = VP_OUTPUT, OUTPUT_MAX_8 = VP_OUTPUT,
       OUTPUT_MAX_9 = VP_OUTPUT, OUTPUT_MAX_10 = VP_OUTPUT, OUTPUT_MAX_11 = VP_OUTPUT, OUTPUT_MAX_12 = VP_OUTPUT,
       OUTPUT_MAX_13 = VP_OUTPUT, OUTPUT_MAX_14 = VP_OUTPUT, OUTPUT_MAX_15 = VP_OUTPUT, OUTPUT_MAX_16 = VP_OUTPUT,
       OUTPUT_MAX_17 = VP_OUTPUT, OUTPUT_MAX_18 = VP_OUTPUT, OUTPUT_MAX_19 = VP_OUTPUT, OUTPUT_MAX_20 = VP_OUTPUT,
       OUTPUT_MAX_21 = VP_OUTPUT, OUTPUT_MAX_22 = VP_OUTPUT, OUTPUT_MAX_23 = VP_OUTPUT, OUTPUT_MAX_24 = VP_OUTPUT,
       OUTPUT_MAX_25 = VP_OUTPUT, OUTPUT_MAX_26 = VP_OUTPUT, OUTPUT_MAX_27 = VP_OUTPUT, OUTPUT_MAX_28 = VP_OUTPUT,
       OUTPUT_MAX_29 = VP_OUTPUT, OUTPUT_MAX_30 = VP_OUTPUT, OUTPUT_MAX_31 = VP_OUTPUT, OUTPUT_MAX_32 = VP_OUTPUT };
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define OUTPUT_MAX VP_CAT(OUTPUT_MAX_, __COUNTER__)
#define main      scc_main
#define exit      vp_exit
#define open(n, ...) vp_open(n, 0, 0)
#define close     vp_close
#define read      vp_read
#define write     vp_write
#define putchar(c) ((void)(c))
#include "scc.c"
#undef main
#undef OUTPUT_MAX
#undef exit
#undef open
#undef close
#undef read
#undef write
#undef putchar

/* diagnostics: no text (call sites redirected here by the driver) */
void vp_Printf(const char *format, ...) { (void)format; }
#undef Fail
