/* Loads the real /repo/sim86.c with its operating-system calls interposed.
 * Nothing in sim86.c is dropped: main() is renamed, and the libc names below
 * are redirected to the contract stubs each harness defines. */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <assert.h>
#include <time.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include "vp.h"

#define SCC_VERIFY
#ifdef VP_REPLAY
#define MEM_SIZE 1024*1024
#else
/* same 20 bit address space, as an SMT array instead of a flattened one;
 * that no access leaves 1024*1024 is a separate obligation (membound) */
#define MEM_SIZE __CPROVER_constant_infinity_uint
#endif
void VerifyStep(void);
int VerifyOpcode(int op);
void VerifyLoop(int *count, int left);

__attribute__((noreturn)) void vp_exit(int code);
int  vp_open(const char *name, int flags, int mode);
int  vp_close(int fd);
long vp_read(int fd, void *p, unsigned long n);
long vp_write(int fd, const void *p, unsigned long n);
int  vp_putchar(int c);
static int vp_printf(const char *f, ...) { (void)f; return 0; }
static int vp_puts(const char *s) { (void)s; return 0; }

#define main      sim_main
#define exit      vp_exit
#define open(n, f, ...) vp_open(n, f, 0)
#define close     vp_close
#define read      vp_read
#define write     vp_write
#define putchar   vp_putchar
#define printf    vp_printf
#define puts      vp_puts
#ifndef VP_FORMAT
/* text formatting: some non-empty string of at most 4 characters */
static int vp_text(char *b) { b[0] = '?'; b[1] = 0; return 1; }
#define vsprintf(b, f, v) ((void)(f), (void)(v), vp_text(b))
#define sprintf(b, ...) vp_text(b)
#endif
#include "sim86.c"
#undef main
#undef exit
#undef open
#undef close
#undef read
#undef write
#undef putchar
#undef printf
#undef puts
#undef sprintf
#undef vsprintf

__attribute__((noreturn)) void vp_loud(void);
void __assert_fail(const char *e, const char *f, unsigned int l, const char *fn)
{
    vp_loud();
}
