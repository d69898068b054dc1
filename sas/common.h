/* Loads the real /repo/sas.c (main renamed, operating system calls and text
 * output redirected to the stubs below, the buffer sizes scaled down; nothing
 * else is dropped). */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vp.h"
void vp_loud(void);
static int vp_notes;                 /* messages printed */
static int vp_note(void) { vp_notes++; return 0; }
long vp_read(int fd, void *p, unsigned long n);
long vp_write(int fd, const void *p, unsigned long n);
#ifndef VP_OUTPUT
#define VP_OUTPUT 32
#endif
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
/* each use gets its own name; the definitions take numbers 0 and 1 */
enum { OUTPUT_MAX_2 = VP_OUTPUT, FIXUP_MAX_2 = 8, OUTPUT_MAX_3 = VP_OUTPUT, FIXUP_MAX_3 = 8, OUTPUT_MAX_4 = VP_OUTPUT, FIXUP_MAX_4 = 8, OUTPUT_MAX_5 = VP_OUTPUT, FIXUP_MAX_5 = 8, OUTPUT_MAX_6 = VP_OUTPUT, FIXUP_MAX_6 = 8, OUTPUT_MAX_7 = VP_OUTPUT, FIXUP_MAX_7 = 8, OUTPUT_MAX_8 = VP_OUTPUT, FIXUP_MAX_8 = 8, OUTPUT_MAX_9 = VP_OUTPUT, FIXUP_MAX_9 = 8, OUTPUT_MAX_10 = VP_OUTPUT, FIXUP_MAX_10 = 8, OUTPUT_MAX_11 = VP_OUTPUT, FIXUP_MAX_11 = 8, OUTPUT_MAX_12 = VP_OUTPUT, FIXUP_MAX_12 = 8, OUTPUT_MAX_13 = VP_OUTPUT, FIXUP_MAX_13 = 8, OUTPUT_MAX_14 = VP_OUTPUT, FIXUP_MAX_14 = 8, OUTPUT_MAX_15 = VP_OUTPUT, FIXUP_MAX_15 = 8, OUTPUT_MAX_16 = VP_OUTPUT, FIXUP_MAX_16 = 8 };
#define OUTPUT_MAX VP_CAT(OUTPUT_MAX_, __COUNTER__)
#define FIXUP_MAX VP_CAT(FIXUP_MAX_, __COUNTER__)
#define main      sas_main
#define exit(c)   vp_loud()
#define open(...) 3
#define close(f)  ((void)0)
#define read      vp_read
#define write     vp_write
#define printf(...) ((void)vp_note())
#define sprintf(...) ((void)0)
#define vsprintf(...) ((void)0)
#include "sas.c"
#undef main
#undef FIXUP_MAX
#undef OUTPUT_MAX
#undef exit
#undef open
#undef close
#undef read
#undef write
#undef printf
#undef sprintf
#undef vsprintf
