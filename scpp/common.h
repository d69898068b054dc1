/* Loads the real /repo/scpp.c (main renamed, operating system calls and
 * messages redirected to stubs; nothing else is dropped). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vp.h"
void vp_loud(void);
static int vp_notes;                 /* messages printed */
static int vp_note(void) { vp_notes++; return 0; }
long vp_read(int fd, void *p, unsigned long n);
long vp_write(int fd, const void *p, unsigned long n);
#define main      scpp_main
#define exit(c)   vp_loud()
#define open(...) 3
#define close(f)  ((void)0)
#define read      vp_read
#define write     vp_write
#define printf(...) ((void)vp_note())
#include "scpp.c"
#undef main
#undef exit
#undef open
#undef close
#undef read
#undef write
#undef printf
