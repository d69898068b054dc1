From c385059fd307166d74404f95330d21878f315608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 01/67] Add SCC_VERIFY hooks around the simulated instruction
 step

---
 sim86.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0589925..e28944e 100644
--- a/sim86.c
+++ b/sim86.c
@@ -43,12 +43,18 @@ enum {
     LOAD_OFFSET     = 0x100,
 };
 
+#ifndef SCC_VERIFY
+#define MEM_SIZE 1024*1024
+#define VerifyStep()
+#define VerifyOpcode(op) op
+#endif
+
 int reg[8];
 int sreg[4];
 int ip;
 int flags;
 #ifndef __SCC__
-char mem[1024*1024];
+char mem[MEM_SIZE];
 enum { DEFAULT_SEGMENT = 0x2000 };
 #else
 int memseg;
@@ -753,6 +759,7 @@ int main(int argc, char** argv)
 
     int start_ip = ip;
     for (;;) {
+        VerifyStep();
 #ifdef PROFILING
         const int orig_ip = TRIM(ip);
         int remove_verbose = 0;
@@ -783,7 +790,7 @@ int main(int argc, char** argv)
         int rep = 0;
 
     Restart: ;
-        const int inst = ReadIByte();
+        const int inst = VerifyOpcode(ReadIByte());
 
         if (inst < 0x40) {
             const int type = inst&6;
-- 
2.43.0


From edd4fb9fb17d8c146ea35495c53ec7ea287cc07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 02/67] fix: sim86: set ZF from the low byte after 8-bit ALU
 operations

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index e28944e..e86a6a7 100644
--- a/sim86.c
+++ b/sim86.c
@@ -380,7 +380,7 @@ void DoOp(int op, unsigned l, unsigned r)
     flags = 0;
     if (res & mask)
         flags |= FS;
-    if (!TRIM(res))
+    if (!(res & (mask | (mask - 1))))
         flags |= FZ;
     if (carry & mask)
         flags |= FC;
-- 
2.43.0


From c5795f4e166c1258d5a259cf4790811d6152785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 03/67] fix: sim86: INC, DEC and NEG update the flags

---
 sim86.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sim86.c b/sim86.c
index e86a6a7..0cec97d 100644
--- a/sim86.c
+++ b/sim86.c
@@ -523,23 +523,23 @@ void JCC(int cc)
         ip += rel;
 }
 
-// TODO: INC/DEC shouldn't modify carry(?)
-void DoIncDec(int v)
+void DoIncDec(int op)
 {
-    const int s = ReadRM();
-    WriteRM(s+v);
+    const int carry = flags & FC; // INC/DEC don't modify carry
+    DoOp(op, ReadRM(), 1);
+    flags = (flags & ~FC) | carry;
 }
 
 void INC(void)
 {
     if (verbose) sprintf(insttext, "INC %s", rmtext);
-    DoIncDec(1);
+    DoIncDec(OP_ADD);
 }
 
 void DEC(void)
 {
     if (verbose) sprintf(insttext, "DEC %s", rmtext);
-    DoIncDec(-1);
+    DoIncDec(OP_SUB);
 }
 
 void ReadAsciiz(char* dest, int sr, int off)
@@ -1146,7 +1146,7 @@ int main(int argc, char** argv)
                         break;
                     case 3: // NEG r/m16
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
-                        WriteRM(-ReadRM());
+                        DoOp(OP_SUB, 0, ReadRM());
                         break;
                     case 4: // MUL (TODO: Full 32-bit result)
                     case 5: // IMUL (TODO: Full 32-bit result)
-- 
2.43.0


From e572dbf2ac4b5191455f42e58462c5531c59f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 04/67] fix: sim86: shifts use the 16-bit operand and set all
 flags

---
 sim86.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0cec97d..1c24bb0 100644
--- a/sim86.c
+++ b/sim86.c
@@ -99,8 +99,10 @@ struct Stack max_stack;
 
 #ifdef __SCC__
 #define TRIM(x) x
+#define SEXT(x) x
 #else
 #define TRIM(x) ((x)&0xffff)
+#define SEXT(x) ((TRIM(x)^0x8000)-0x8000)
 #define MAKEADDR(sr, off) ((TRIM(sreg[sr])*16+TRIM(off))&0xfffff)
 #endif
 
@@ -1059,7 +1061,7 @@ int main(int argc, char** argv)
             case 0xD1:
                 {
                     ModRM();
-                    const unsigned v = ReadRM();
+                    const unsigned v = TRIM(ReadRM());
                     unsigned res, c;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, 1
@@ -1074,7 +1076,7 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, 1
                         if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
-                        res = (int)v>>1;
+                        res = SEXT((int)v)>>1;
                         c = v&1;
                         break;
                     default:
@@ -1083,14 +1085,16 @@ int main(int argc, char** argv)
                     WriteRM(res);
                     flags = 0;
                     if (c) flags |= FC;
-                    if (!res) flags |= FZ;
+                    if (!TRIM(res)) flags |= FZ;
+                    if (res & 0x8000) flags |= FS;
+                    if ((res ^ v) & 0x8000) flags |= FO;
                 }
                 break;
             case 0xD3:
                 {
                     ModRM();
-                    const unsigned v = ReadRM();
-                    const unsigned a = reg[R_CX]&15;
+                    const unsigned v = TRIM(ReadRM());
+                    const unsigned a = reg[R_CX]&31;
                     unsigned res, c=0;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, CL
@@ -1105,16 +1109,20 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, CL
                         if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
-                        res = (int)v >> a;
-                        if (a) c = (v >> (a-1)) & 1;
+                        res = SEXT((int)v) >> a;
+                        if (a) c = (SEXT((int)v) >> (a-1)) & 1;
                         break;
                     default:
                         Fatal("TODO: D3/%d", modrm>>3&7);
                     }
+                    if (!a)
+                        break;
                     WriteRM(res);
                     flags = 0;
                     if (c) flags |= FC;
-                    if (!res) flags |= FZ;
+                    if (!TRIM(res)) flags |= FZ;
+                    if (res & 0x8000) flags |= FS;
+                    if ((res ^ v) & 0x8000) flags |= FO;
                 }
                 break;
             case 0xE8:
-- 
2.43.0


From 1bd376965cb4e5e288680be88404d6f9c17e4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 05/67] fix: sim86: DIV and IDIV divide the 16-bit register
 values

---
 sim86.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index 1c24bb0..041e91c 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1168,19 +1168,21 @@ int main(int argc, char** argv)
                     case 6: // DIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "DIV %s", rmtext);
-                            const unsigned int d = ReadRM();
-                            assert(reg[R_DX] == 0);
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const unsigned int d = TRIM(ReadRM());
+                            assert(TRIM(reg[R_DX]) == 0);
+                            const unsigned int n = TRIM(reg[R_AX]);
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     case 7: // IDIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "IDIV %s", rmtext);
-                            const int d = ReadRM();
-                            assert(reg[R_DX] == (reg[R_AX] & 0x8000 ? -1 : 0));
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const int d = SEXT(ReadRM());
+                            const int n = SEXT(reg[R_AX]);
+                            assert(SEXT(reg[R_DX]) == (n < 0 ? -1 : 0));
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     default:
-- 
2.43.0


From 061ccc6a588feebe0551de1549d468f9ce387203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:12 +0000
Subject: [PATCH 06/67] fix: sim86: MUL and IMUL produce the high word and
 CF/OF

---
 sim86.c | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index 041e91c..e16ae15 100644
--- a/sim86.c
+++ b/sim86.c
@@ -532,6 +532,35 @@ void DoIncDec(int op)
     flags = (flags & ~FC) | carry;
 }
 
+// High word of the 32-bit product
+unsigned MulHi(unsigned a, unsigned b)
+{
+#ifdef __SCC__
+    const unsigned t1 = (a & 0xff) * (b >> 8) + ((a & 0xff) * (b & 0xff) >> 8);
+    const unsigned t2 = (a >> 8) * (b & 0xff) + (t1 & 0xff);
+    return (a >> 8) * (b >> 8) + (t1 >> 8) + (t2 >> 8);
+#else
+    return a * b >> 16;
+#endif
+}
+
+void MUL(void)
+{
+    const unsigned m = TRIM(ReadRM());
+    const unsigned a = TRIM(reg[R_AX]);
+    unsigned hi = MulHi(a, m);
+    unsigned ext = 0;
+    reg[R_AX] = TRIM(a * m);
+    if (modrm & 8) {
+        // IMUL
+        if (a & 0x8000) hi -= m;
+        if (m & 0x8000) hi -= a;
+        if (reg[R_AX] & 0x8000) ext = 0xffff;
+    }
+    reg[R_DX] = TRIM(hi);
+    flags = TRIM(hi) != ext ? FC | FO : 0;
+}
+
 void INC(void)
 {
     if (verbose) sprintf(insttext, "INC %s", rmtext);
@@ -1156,14 +1185,10 @@ int main(int argc, char** argv)
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
                         DoOp(OP_SUB, 0, ReadRM());
                         break;
-                    case 4: // MUL (TODO: Full 32-bit result)
-                    case 5: // IMUL (TODO: Full 32-bit result)
-                        {
-                            if (verbose) sprintf(insttext, "%sMUL %s", modrm&8?"I":"", rmtext);
-                            const unsigned int m = ReadRM();
-                            reg[R_AX] *= m;
-                            reg[R_DX] = 0;
-                        }
+                    case 4: // MUL
+                    case 5: // IMUL
+                        if (verbose) sprintf(insttext, "%sMUL %s", modrm&8?"I":"", rmtext);
+                        MUL();
                         break;
                     case 6: // DIV (TODO: Full 32-bit divide)
                         {
-- 
2.43.0


From 21748813aad0be9dede5faf00ed490378711bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 07/67] fix: sim86: segment override prefix doesn't change the
 operand size

---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index e16ae15..22a5473 100644
--- a/sim86.c
+++ b/sim86.c
@@ -849,6 +849,7 @@ int main(int argc, char** argv)
                 } else {
                     assert(!(inst&1));
                     seg = (inst-0x26)>>3;
+                    dsize = 1;
                     goto Restart;
                 }
             } else {
-- 
2.43.0


From dc506274c5b6cb29a0979e7909110fd94d3f4267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 08/67] fix: sim86: string and direct-address instructions
 honour overrides, 16-bit CX and byte compares

---
 sim86.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/sim86.c b/sim86.c
index 22a5473..d72915d 100644
--- a/sim86.c
+++ b/sim86.c
@@ -392,6 +392,12 @@ void DoOp(int op, unsigned l, unsigned r)
         WriteRM(res);
 }
 
+// Segment for operands without ModRM byte
+int DataSeg(void)
+{
+    return seg == -1 ? SR_DS : seg;
+}
+
 void ALUOp(int op, int swap)
 {
     ModRM();
@@ -952,15 +958,15 @@ int main(int argc, char** argv)
                     if (inst & 2) {
                         // Store
                         if (inst & 1) {
-                            Write16(SR_DS, Off, reg[R_AX]);
+                            Write16(DataSeg(), Off, reg[R_AX]);
                         } else {
-                            Write8(SR_DS, Off, reg[R_AX] & 0xff);
+                            Write8(DataSeg(), Off, reg[R_AX] & 0xff);
                         }
                     } else {
                         if (inst & 1) {
-                            reg[R_AX] = Read16(SR_DS, Off);
+                            reg[R_AX] = Read16(DataSeg(), Off);
                         } else {
-                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(SR_DS, Off);
+                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(DataSeg(), Off);
                         }
                     }
                 }
@@ -969,8 +975,8 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSB");
-                    while (reg[R_CX]) {
-                        Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
+                    while (TRIM(reg[R_CX])) {
+                        Write8(SR_ES, reg[R_DI], Read8(DataSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -981,8 +987,8 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSW");
-                    while (reg[R_CX]) {
-                        Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
+                    while (TRIM(reg[R_CX])) {
+                        Write16(SR_ES, reg[R_DI], Read16(DataSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 2;
                         reg[R_SI] += 2;
@@ -993,12 +999,14 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
-                    flags = FZ;
-                    while ((flags & FZ) && reg[R_CX]) {
-                        DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
+                    dsize = 0;
+                    while (TRIM(reg[R_CX])) {
+                        DoOp(OP_CMP, Read8(DataSeg(), reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
+                        if (!(flags & FZ))
+                            break;
                     }
                 }
                 break;
@@ -1007,7 +1015,7 @@ int main(int argc, char** argv)
                     int iter = 1;
                     if (rep == 0xF3) {
                         if (verbose) sprintf(insttext, "REP STOSB");
-                        iter = reg[R_CX];
+                        iter = TRIM(reg[R_CX]);
                         reg[R_CX] -= iter;
                     } else {
                         if (verbose) sprintf(insttext, "STOSB");
@@ -1023,7 +1031,7 @@ int main(int argc, char** argv)
                     int iter = 1;
                     if (rep == 0xF3) {
                         if (verbose) sprintf(insttext, "REP STOSW");
-                        iter = reg[R_CX];
+                        iter = TRIM(reg[R_CX]);
                         reg[R_CX] -= iter;
                     } else {
                         if (verbose) sprintf(insttext, "STOSW");
@@ -1040,7 +1048,7 @@ int main(int argc, char** argv)
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSB");
                     dsize = 0;
-                    WriteReg(R_AX, Read8(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read8(DataSeg(), reg[R_SI]));
                     reg[R_SI] += 1;
                 }
                 break;
@@ -1048,7 +1056,7 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSW");
-                    WriteReg(R_AX, Read16(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read16(DataSeg(), reg[R_SI]));
                     reg[R_SI] += 2;
                 }
                 break;
@@ -1056,11 +1064,13 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
-                    flags = 0;
-                    while (!(flags & FZ) && reg[R_CX]) {
+                    dsize = 0;
+                    while (TRIM(reg[R_CX])) {
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
+                        if (flags & FZ)
+                            break;
                     }
                 }
                 break;
-- 
2.43.0


From 2b19b39882e3e02ec2cc179c72f58c514ec6b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 09/67] fix: sim86: indirect CALL reads its target before
 pushing

---
 sim86.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sim86.c b/sim86.c
index d72915d..78af7b6 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1240,9 +1240,12 @@ int main(int argc, char** argv)
                         DEC();
                         break;
                     case 2:
-                        if (verbose) sprintf(insttext, "CALL %s", rmtext);
-                        DoPush(ip);
-                        ip = ReadRM();
+                        {
+                            if (verbose) sprintf(insttext, "CALL %s", rmtext);
+                            const int target = ReadRM();
+                            DoPush(ip);
+                            ip = target;
+                        }
                         break;
                     default:
                         Fatal("TODO: %02X/%X", inst, modrm>>3&7);
-- 
2.43.0


From 8b34a8c9a91685cb887b748b3f370acd989783bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 10/67] fix: sim86: don't overflow the filename buffer in DOS
 open/create

---
 sim86.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 78af7b6..0b48785 100644
--- a/sim86.c
+++ b/sim86.c
@@ -579,10 +579,12 @@ void DEC(void)
     DoIncDec(OP_SUB);
 }
 
-void ReadAsciiz(char* dest, int sr, int off)
+void ReadAsciiz(char* dest, int size, int sr, int off)
 {
     int ch;
     do {
+        if (!size--)
+            Fatal("String too long");
         ch = Read8(sr, off++);
         *dest++ = (char)ch;
     } while (ch); 
@@ -591,7 +593,7 @@ void ReadAsciiz(char* dest, int sr, int off)
 void HandleOpen(int oflags)
 {
     char fname[64];
-    ReadAsciiz(fname, SR_DS, reg[R_DX]);
+    ReadAsciiz(fname, sizeof(fname), SR_DS, reg[R_DX]);
     int fd = open(fname, O_BINARY | oflags, 0600);
     if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     if (fd < 0) {
-- 
2.43.0


From 19f7e74e12373ffcc94b5338a44594ca36475abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 11/67] fix: sim86: reading at end of file isn't an error

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0b48785..5b11c57 100644
--- a/sim86.c
+++ b/sim86.c
@@ -701,7 +701,7 @@ void INT(void)
         flags &= ~FC;
     } else if (func == 0x3F) {
         int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
             r = 0;
         } else {
@@ -710,7 +710,7 @@ void INT(void)
         reg[R_AX] = r;
     } else if (func == 0x40) {
         int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
             r = 0;
         } else {
-- 
2.43.0


From 5ffa9f74da7ed7382781e6dd7e1d9a3d2dec1959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 12/67] fix: sim86: DOS read/write/close use the 16-bit
 register values

---
 sim86.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index 5b11c57..48ee985 100644
--- a/sim86.c
+++ b/sim86.c
@@ -696,11 +696,11 @@ void INT(void)
     } else if (func == 0x3D) {
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
-        if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
-        close(reg[R_BX]);
+        if (verbose) printf("\nclose(%d)\n", TRIM(reg[R_BX]));
+        close(TRIM(reg[R_BX]));
         flags &= ~FC;
     } else if (func == 0x3F) {
-        int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
+        int r = ReadToMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX]));
         if (r < 0) {
             flags |= FC;
             r = 0;
@@ -709,7 +709,7 @@ void INT(void)
         }
         reg[R_AX] = r;
     } else if (func == 0x40) {
-        int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
+        int r = WriteFromMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX]));
         if (r < 0) {
             flags |= FC;
             r = 0;
-- 
2.43.0


From 36eff8973feaff581879de215c556c9c6f08e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 13/67] fix: sim86: DOS read/write can't access outside the
 simulated memory

---
 sim86.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 48ee985..2e20d2f 100644
--- a/sim86.c
+++ b/sim86.c
@@ -428,6 +428,17 @@ void MOV(int swap)
     }
 }
 
+#ifndef __SCC__
+// Host pointer to DS:off
+char* HostBuf(int off, int size)
+{
+    const int a = MAKEADDR(SR_DS, off);
+    if (size > 1024*1024 - a)
+        Fatal("Buffer extends past end of memory");
+    return mem+a;
+}
+#endif
+
 int ReadToMem(int fd, int off, int size)
 {
 #ifdef __SCC__
@@ -438,7 +449,7 @@ int ReadToMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
-    return read(fd, mem+MAKEADDR(SR_DS, off), size);
+    return read(fd, HostBuf(off, size), size);
 #endif
 }
 
@@ -452,7 +463,7 @@ int WriteFromMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
-    return write(fd, mem+MAKEADDR(SR_DS, off), size);
+    return write(fd, HostBuf(off, size), size);
 #endif
 }
 
-- 
2.43.0


From 5af8affef736f2af47be88ccbde575da29b9e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 14/67] fix: sim86: rmtext has room for an operand with
 override and 16-bit displacement

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 2e20d2f..231da3a 100644
--- a/sim86.c
+++ b/sim86.c
@@ -66,7 +66,7 @@ char dsize;
 signed char seg;
 
 int verbose;
-char rmtext[16];
+char rmtext[20];
 char insttext[64];
 const char* filename;
 
-- 
2.43.0


From 42cd032b8c21ae59a334da9ce108f4886f99e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 15/67] fix: sim86: terminate the command tail right after its
 text and reject overlong ones

---
 sim86.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 231da3a..ac90525 100644
--- a/sim86.c
+++ b/sim86.c
@@ -801,7 +801,9 @@ int main(int argc, char** argv)
         const char* s = argv[i];
         while (*s) Write8(SR_DS, 0x81+(p++), *s++);
     }
-    Write8(SR_DS, 0x82+p, '\r');
+    if (p > 126)
+        Fatal("Command line too long");
+    Write8(SR_DS, 0x81+p, '\r');
     Write8(SR_DS, 0x80, p);
 
     DoPush(0);
-- 
2.43.0


From 1683d16367cc55daf7e2ca131648c9c43f62a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 16/67] fix: only trust the zero flag after operations that set
 it from the result

---
 scc.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 9f267b3..78d3513 100644
--- a/scc.c
+++ b/scc.c
@@ -1140,6 +1140,7 @@ void EmitLocalLabel(int l)
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
     IsDeadCode = 0;
+    LastZFInst = 0;
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
     Labels[l].Ref = 0;
@@ -2169,6 +2170,8 @@ int GetSimpleALU(int Op)
 
 void FinishOp(int Inst)
 {
+    if ((Inst & 0xff) < 0x40 && !IsDeadCode)
+        LastZFInst = CodeAddress; // ALU operation, ZF reflects the result
     if (Inst >>= 8) {
         CurrentType = VT_BOOL;
         CurrentVal  = Inst;
@@ -2236,8 +2239,15 @@ int DoRhsLvalBinOp(int Op)
 void DoRhsConstBinOp(int Op)
 {
     switch (Op) {
-    case '+': EmitAddRegConst(R_AX, CurrentVal); return;
-    case '-': EmitAddRegConst(R_AX, -CurrentVal); return;
+    case '-':
+        CurrentVal = -CurrentVal;
+        // Fall through
+    case '+':
+        if (CurrentVal) {
+            EmitAddRegConst(R_AX, CurrentVal);
+            FinishOp(0);
+        }
+        return;
     case '*': EmitScaleAx(CurrentVal); return;
     case '/': EmitDivAxConst(CurrentVal); return;
     }
@@ -2545,7 +2555,6 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-                LastZFInst = CodeAddress;
             } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
                 if (!LhsLoc) {
@@ -2627,7 +2636,6 @@ BinOpOut:
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-        LastZFInst = CodeAddress;
     } while (OperatorPrecedence <= OuterPrecedence);
 }
 
-- 
2.43.0


From 396d56d5baec754799706f42098eaddd1d59af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 17/67] fix: results of unsigned operations are unsigned,
 shifts follow the left operand

---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 78d3513..40301e1 100644
--- a/scc.c
+++ b/scc.c
@@ -2494,7 +2494,9 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
 
-        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT);
+        // The type of a shift only depends on its left operand
+        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) ||
+            (Op != TOK_LSH && Op != TOK_RSH && (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT));
 
         if (Prec == PREC_ASSIGN) {
             HandleLhsLvalLoc(LhsLoc);
@@ -2635,6 +2637,8 @@ BinOpOut:
         if (Op == '-' && LhsPointeeSize) {
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
+        } else if (CurrentType != VT_BOOL && !(CurrentType & VT_PTRMASK)) {
+            CurrentType = IsUnsignedOp ? VT_UNSIGNED|VT_INT : VT_INT;
         }
     } while (OperatorPrecedence <= OuterPrecedence);
 }
-- 
2.43.0


From 19801ee746a598b211fc2f4fa68beb8d459fb136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 18/67] fix: multiplication by the constant 0

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 40301e1..280eaf4 100644
--- a/scc.c
+++ b/scc.c
@@ -1274,7 +1274,7 @@ void EmitMovRImm(int r, int val)
 
 void EmitScaleAx(int Scale)
 {
-    if (Scale & (Scale-1)) {
+    if (!Scale || Scale & (Scale-1)) {
         EmitMovRImm(R_CX, Scale);
         Output2Bytes(0xF7, MODRM_REG|(4<<3)|R_CX); // MUL CX
     } else {
-- 
2.43.0


From c3bdf132173346bf8bd8b7baa0ed9f0080663b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 19/67] fix: signed division by powers of two truncates towards
 zero

---
 scc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 280eaf4..e198991 100644
--- a/scc.c
+++ b/scc.c
@@ -1296,13 +1296,13 @@ void EmitDivCX(void)
 
 void EmitDivAxConst(int Amm)
 {
-    if (Amm & (Amm-1)) {
+    // Signed division must truncate towards zero, so shifting won't do
+    if (!IsUnsignedOp || Amm & (Amm-1)) {
         EmitMovRImm(R_CX, Amm);
         EmitDivCX();
     } else {
-        const int ModRM = IsUnsignedOp ? MODRM_REG|SHROT_SHR<<3 : MODRM_REG|SHROT_SAR<<3;
         while (Amm /= 2) {
-            Output2Bytes(0xD1, ModRM);
+            Output2Bytes(0xD1, MODRM_REG|SHROT_SHR<<3);
         }
     }
 }
-- 
2.43.0


From 39361d55421a0cfd40cab374c35bfb6ca0f70e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 20/67] fix: pointer arithmetic scaling (p - n, n + p, p += n,
 p -= n, signed differences)

---
 scc.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index e198991..0985c48 100644
--- a/scc.c
+++ b/scc.c
@@ -2526,6 +2526,15 @@ void ParseExpr1(int OuterPrecedence)
                 if (!LhsLoc)
                     EmitMovRR(R_SI, R_DI); // TODO: Can sometimes be avoided
                 Temp = CurrentType == (VT_INT|VT_LOCLIT);
+                if (LhsType & VT_PTRMASK) {
+                    const int PointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+                    if (Temp) {
+                        CurrentVal *= PointeeSize;
+                    } else {
+                        GetVal();
+                        EmitScaleAx(PointeeSize);
+                    }
+                }
                 if (Size == 2) {
                     int Inst = GetSimpleALU(Op);
                     if (Inst) {
@@ -2573,10 +2582,12 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
         int LhsPointeeSize = 0;
+        int PtrDiff = 0;
         if (LhsType & VT_PTRMASK) {
             LhsPointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
             if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
                 LvalToRval(); // Decay array before overwriting CurrentTypeExtra
+            PtrDiff = Op == '-' && CurrentType & VT_PTRMASK;
             CurrentTypeExtra = LhsTypeExtra;
             IsUnsignedOp = 1;
         }
@@ -2584,7 +2595,7 @@ void ParseExpr1(int OuterPrecedence)
             if (!((Pending&PENDING_PUSHAX)|IsDeadCode)) Fail();
             Pending &= ~PENDING_PUSHAX;
             CurrentType = VT_INT;
-            if (LhsType & VT_PTRMASK) {
+            if (LhsPointeeSize && (Op == '+' || Op == '-')) {
                 CurrentVal *= LhsPointeeSize;
                 CurrentType = LhsType;
             }
@@ -2598,16 +2609,25 @@ RhsConst:
                 GetVal();
                 if (Temp) {
                     CurrentVal = LhsVal;
+                    if (CurrentType & VT_PTRMASK)
+                        CurrentVal *= SizeofType(CurrentType-VT_PTR1, CurrentTypeExtra);
                     goto RhsConst;
                 } else {
                     EmitMovRImm(R_CX, LhsVal);
                 }
             } else {
                 if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize) Fail();
-                if (Op == '+' && LhsPointeeSize) {
+                if ((Op == '+' || Op == '-') && LhsPointeeSize && !PtrDiff) {
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
                     CurrentType = LhsType;
+                } else if (Op == '+' && (CurrentType & VT_PTRMASK || (CurrentType & VT_BASEMASK) == VT_ARRAY)) {
+                    // integer + pointer
+                    GetVal();
+                    R = GetStoredVal(R_BX);
+                    Output1Byte(I_XCHG_AX|R_BX);
+                    EmitScaleAx(SizeofType(CurrentType-VT_PTR1, CurrentTypeExtra));
+                    goto DoNormal;
                 } else if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY) {
                     if ((CurrentType&(VT_BASEMASK|VT_PTRMASK)) != VT_CHAR) {
                         if (!(CurrentType&VT_LVAL)) Fail();
@@ -2634,8 +2654,15 @@ DoNormal:
             DoBinOp(Op, R);
         }
 BinOpOut:
-        if (Op == '-' && LhsPointeeSize) {
-            EmitDivAxConst(LhsPointeeSize);
+        if (PtrDiff) {
+            IsUnsignedOp = 0;
+            if (LhsPointeeSize & (LhsPointeeSize-1)) {
+                EmitDivAxConst(LhsPointeeSize);
+            } else {
+                // Always a multiple of the size
+                while (LhsPointeeSize /= 2)
+                    Output2Bytes(0xD1, MODRM_REG|SHROT_SAR<<3);
+            }
             CurrentType = VT_INT;
         } else if (CurrentType != VT_BOOL && !(CurrentType & VT_PTRMASK)) {
             CurrentType = IsUnsignedOp ? VT_UNSIGNED|VT_INT : VT_INT;
-- 
2.43.0


From f6f5d7d1418d1e2fd93a29af798094b684c40228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 21/67] fix: the value of an assignment is that of the left
 operand

---
 scc.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/scc.c b/scc.c
index 0985c48..981a6f7 100644
--- a/scc.c
+++ b/scc.c
@@ -2512,9 +2512,14 @@ void ParseExpr1(int OuterPrecedence)
                     EmitLoadAddr(R_SI, Temp, CurrentVal);
                 else
                     Output1Byte(I_XCHG_AX|R_SI);
-                EmitMovRImm(R_CX, SizeofCurrentType());
+                Temp = SizeofCurrentType();
+                EmitMovRImm(R_CX, Temp);
                 Output2Bytes(0xF3, 0xA4); // REP MOVSB
-                continue;
+                if (!LhsLoc) {
+                    EmitMovRR(R_AX, R_DI);
+                    EmitAddRegConst(R_AX, -Temp);
+                }
+                goto LhsPlace;
             }
 
             LvalToRval();
@@ -2547,12 +2552,11 @@ void ParseExpr1(int OuterPrecedence)
                         }
                         if (!LhsLoc)
                             Output1Byte(I_XCHG_AX|R_DI);
-                        CurrentType = LhsType | LhsLoc | VT_LVAL;
-                        CurrentVal = LhsVal;
-                        continue;
+                        goto LhsPlace;
                     }
                 }
                 if (!Temp) {
+                    GetVal();
                     if ((CurrentType&~VT_UNSIGNED) != VT_INT) Fail();
                     Output1Byte(I_XCHG_AX|R_CX);
                 }
@@ -2562,23 +2566,30 @@ void ParseExpr1(int OuterPrecedence)
                 }
                 if (Temp) {
                     DoRhsConstBinOp(Op);
-                    CurrentType &= ~VT_LOCMASK;
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-            } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
+            } else if (LhsLoc && CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
-                if (!LhsLoc) {
-                    GetVal();
-                    Output1Byte(I_STOSB-1+Size);
-                } else {
-                    EmitStoreConst(Size, LhsLoc, LhsVal);
-                }
-                continue;
+                EmitStoreConst(Size, LhsLoc, LhsVal);
+                goto LhsPlace;
             } else {
                 GetVal();
             }
             EmitStoreAx(Size, LhsLoc, LhsVal);
+            if (Size == 1) {
+                // The value is that of the (narrower) left operand
+                if (LhsLoc) goto LhsPlace;
+                EmitExtend(LhsType&VT_UNSIGNED);
+                LhsType = VT_INT;
+            }
+            CurrentType = LhsType;
+            CurrentTypeExtra = LhsTypeExtra;
+            continue;
+LhsPlace:
+            CurrentType = LhsType | LhsLoc | VT_LVAL;
+            CurrentTypeExtra = LhsTypeExtra;
+            CurrentVal = LhsVal;
             continue;
         }
         int LhsPointeeSize = 0;
-- 
2.43.0


From 3fa669d301aa3a3f0a7de3ba544adef26b66ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 22/67] fix: literal operands of && and ||, constant do-while
 conditions

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 981a6f7..764201e 100644
--- a/scc.c
+++ b/scc.c
@@ -1990,7 +1990,7 @@ void ParseCastExpression(void);
 
 void ToBool(void)
 {
-    LvalToRval();
+    GetVal();
     if (CodeAddress != LastZFInst)
         Output2Bytes(I_AND|1, MODRM_REG); // AND AX, AX
     CurrentType = VT_BOOL;
@@ -2301,7 +2301,7 @@ void DoCondHasExpr(int Label, int Forward) // forward => jump if label is false
 {
     if (CurrentType == (VT_LOCLIT|VT_INT)) {
         // Constant condition
-        if (!CurrentVal && Forward)
+        if (!CurrentVal == Forward)
             EmitJmp(Label);
         return;
     }
-- 
2.43.0


From 361a88eddf501fdf11fdc2ce7c3535ee64597403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 23/67] fix: conditional operator with comparison operands and
 mixed types

---
 scc.c | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/scc.c b/scc.c
index 764201e..aa34e27 100644
--- a/scc.c
+++ b/scc.c
@@ -2320,15 +2320,10 @@ void DoCond(int Label, int Forward) // forward => jump if label is false
 
 void ForceToReg(void)
 {
-    // Always decay arrays
-    if ((CurrentType & VT_BASEMASK) == VT_ARRAY)
-        LvalToRval();
-
     const int Loc = CurrentType & VT_LOCMASK;
-    if (!Loc) return;
-    if (Loc == VT_LOCGLOB || Loc == VT_LOCOFF) {
-        EmitLoadAddr(R_AX, Loc, CurrentVal);
-        CurrentType &= ~VT_LOCMASK;
+    if (CurrentType - Loc == (VT_STRUCT|VT_LVAL)) {
+        if (Loc) EmitLoadAddr(R_AX, Loc, CurrentVal);
+        CurrentType -= Loc;
     } else {
         GetVal();
     }
@@ -2370,25 +2365,17 @@ void HandleCondOp(void)
     ParseAssignmentExpression();
     ForceToReg();
     const int LhsType = CurrentType;
+    const int LhsExtra = CurrentTypeExtra;
     EmitJmp(EndLabel);
     Expect(':');
     EmitLocalLabel(FalseLabel);
     ParseAssignmentExpression();
     ForceToReg();
-    // Check if type unification is needed.
-    // This is certainly the case if only one side is an lvalue
-    // or if the types are "too different".
-    int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & VT_LVAL) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
-        const int RealEnd = MakeLabel();
-        LvalToRval();
-        EmitJmp(RealEnd);
-        EmitLocalLabel(EndLabel);
+    EmitLocalLabel(EndLabel);
+    // The result is a pointer/unsigned if either side is
+    if (CurrentType == VT_INT || LhsType & VT_PTRMASK) {
         CurrentType = LhsType;
-        LvalToRval();
-        EmitLocalLabel(RealEnd);
-    } else {
-        EmitLocalLabel(EndLabel);
+        CurrentTypeExtra = LhsExtra;
     }
 }
 
-- 
2.43.0


From 2601fb2b1afa1c290db1f0ab71b68cd91e97fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 24/67] fix: unevaluated operands don't disturb operands that
 are waiting

---
 scc.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/scc.c b/scc.c
index aa34e27..c45496d 100644
--- a/scc.c
+++ b/scc.c
@@ -1772,6 +1772,7 @@ void ParseAssignmentExpression(void);
 
 int GetStoredVal(int Reg)
 {
+    if (IsDeadCode) return R_CX;
     if (Pending&PENDING_PUSHAX) Fail();
     if (RegUse) {
         RegUse = 0;
@@ -1794,6 +1795,25 @@ int GetStoredVal(int Reg)
     return Reg;
 }
 
+// Generate no code until LeaveDead. Saves and clears the bookkeeping for
+// operands that are waiting, as it must not be changed.
+void EnterDead(int* Save)
+{
+    Save[0] = IsDeadCode;
+    Save[1] = Pending;
+    Save[2] = RegUse;
+    IsDeadCode = 1;
+    Pending = RegUse = 0;
+}
+
+void LeaveDead(int* Save)
+{
+    if (!IsDeadCode) Fail();
+    IsDeadCode = Save[0];
+    Pending    = Save[1];
+    RegUse     = Save[2];
+}
+
 void ParsePostfixExpression(void)
 {
     while (OperatorPrecedence == PREC_STOP) {
@@ -2080,8 +2100,8 @@ void ParseUnaryExpression(void)
     case TOK_SIZEOF:
         {
             GetToken();
-            const int WasDead = IsDeadCode;
-            IsDeadCode = 1;
+            int Save[3];
+            EnterDead(Save);
             if (TokenType == '(') {
                 GetToken();
                 if (IsTypeStart()) {
@@ -2094,8 +2114,7 @@ void ParseUnaryExpression(void)
             } else {
                 ParseUnaryExpression();
             }
-            if (!IsDeadCode) Fail();
-            IsDeadCode = WasDead;
+            LeaveDead(Save);
             CurrentVal = SizeofCurrentType();
             CurrentType = VT_LOCLIT | VT_INT;
             return;
@@ -2337,11 +2356,10 @@ void ParseMaybeDead(int Live)
         const int OldType  = CurrentType;
         const int OldVal   = CurrentVal;
         const int OldExtra = CurrentTypeExtra;
-        const int WasDead  = IsDeadCode;
-        IsDeadCode = 1;
+        int Save[3];
+        EnterDead(Save);
         ParseAssignmentExpression();
-        if (!IsDeadCode) Fail();
-        IsDeadCode       = WasDead;
+        LeaveDead(Save);
         CurrentType      = OldType;
         CurrentVal       = OldVal;
         CurrentTypeExtra = OldExtra;
-- 
2.43.0


From a41ae8c6191067c34a1c76c50b058e1f71a66d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 25/67] fix: loads of function pointers, calls through function
 designators

---
 scc.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/scc.c b/scc.c
index c45496d..1b0e8cd 100644
--- a/scc.c
+++ b/scc.c
@@ -1533,7 +1533,7 @@ LoadAddrRet:
             return;
         }
 
-        if (CurrentType & VT_FUNPTR)
+        if ((CurrentType & VT_FUNPTR) == VT_FUN)
             goto LoadAddrRet;
 
         const int sz = (CurrentType&~VT_UNSIGNED) != VT_CHAR;
@@ -1833,11 +1833,8 @@ void ParsePostfixExpression(void)
                     Func = &VarDecls[CurrentVal];
                     RetExtra = Func->TypeExtra;
                     break;
-                case 0:
-                    Output1Byte(I_XCHG_AX|R_SI);
-                    // Fall through
                 default:
-                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
+                    LvalToRval();
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                     LocalOffset -= 2;
                 }
-- 
2.43.0


From 4c4d9ca2405dafd915ce4c029630087e86ece196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 26/67] fix: value of prefix ++/-- of an indirect operand,
 steps of more than 127 bytes

---
 scc.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 1b0e8cd..270359a 100644
--- a/scc.c
+++ b/scc.c
@@ -1576,11 +1576,13 @@ void DoIncDecOp(int Op, int Post)
     Op = Op == TOK_MINUSMINUS;
 
     if (Size > 1) {
-        EmitModrm(I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
-        Output1Byte(Size);
-        return;
+        EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
+        OutputWord(Size);
+    } else {
+        EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
     }
-    EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
+    if (!Post && !Loc)
+        Output1Byte(I_XCHG_AX|R_SI); // Restore address
 }
 
 struct VarDecl* AddVarDeclScope(int Scope, int Id)
-- 
2.43.0


From f83da53603882c3105f695ce5391ad5db851b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 27/67] fix: save operands before conditionally evaluated code

---
 scc.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/scc.c b/scc.c
index 270359a..d5bdb99 100644
--- a/scc.c
+++ b/scc.c
@@ -1388,14 +1388,21 @@ void FlushSpAdj(void)
     }
 }
 
+// Save operand waiting in BX
+void SpillBX(void)
+{
+    if (RegUse) {
+        Output1Byte(I_PUSH|R_BX);
+        LocalOffset -= 2;
+        RegUse = 0;
+    }
+}
+
 void FlushPushAx(void)
 {
     if (Pending & PENDING_PUSHAX) {
         Pending &= ~PENDING_PUSHAX;
-        if (RegUse) {
-            Output1Byte(I_PUSH|R_BX);
-            LocalOffset -= 2;
-        }
+        SpillBX();
         Output1Byte(I_XCHG_AX|R_BX);
         RegUse = 1;
     }
@@ -1841,22 +1848,13 @@ void ParsePostfixExpression(void)
                     LocalOffset -= 2;
                 }
 
-                int RU = RegUse;
                 if (Pending & PENDING_PUSHAX) {
                     Pending &= ~PENDING_PUSHAX;
-                    if (RU) {
-                        Output1Byte(I_PUSH|R_BX);
-                        LocalOffset -= 2;
-                        RegUse = 0;
-                    }
+                    SpillBX();
                     Output1Byte(I_PUSH|R_AX);
                     LocalOffset -= 2;
                 }
-                if (RegUse) {
-                    Output1Byte(I_PUSH|R_BX);
-                    LocalOffset -= 2;
-                    RegUse = 0;
-                }
+                SpillBX();
 
                 int ArgSize = 0;
                 enum { ArgChunkSize = 8 }; // Must be power of 2
@@ -2378,6 +2376,9 @@ void HandleCondOp(void)
 
     const int FalseLabel = MakeLabel();
     const int EndLabel = MakeLabel();
+    if (CurrentType != VT_BOOL)
+        ToBool();
+    SpillBX(); // Only one of the operands would save it
     DoCondHasExpr(FalseLabel, 1);
     ParseAssignmentExpression();
     ForceToReg();
@@ -2450,6 +2451,7 @@ void ParseExpr1(int OuterPrecedence)
             LEnd = MakeLabel();
             if (CurrentType != VT_BOOL)
                 ToBool();
+            SpillBX(); // The right operand might not get to do it
             EmitJcc(CurrentVal ^ !Temp, LEnd);
         } else {
             LEnd = -1;
-- 
2.43.0


From 902720ef72f7eec9ae79e012d17037a018643e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 28/67] fix: variables declared with a global typedef are not
 themselves global

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index d5bdb99..0f57d8f 100644
--- a/scc.c
+++ b/scc.c
@@ -2847,7 +2847,7 @@ void ParseDeclSpecs(void)
             {
                 struct VarDecl* Typedef = LookupTypedef();
                 if (Typedef) {
-                    CurrentType      = Typedef->Type & ~VT_TYPEDEF;
+                    CurrentType      = Typedef->Type & ~(VT_TYPEDEF|VT_LOCMASK);
                     CurrentTypeExtra = Typedef->TypeExtra;
                     break;
                 }
-- 
2.43.0


From 7b49fcaa7a158ea5c2f07ce640aef32862ccd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 29/67] fix: unused static local variables

---
 scc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc.c b/scc.c
index 0f57d8f..5bf90c9 100644
--- a/scc.c
+++ b/scc.c
@@ -1648,6 +1648,9 @@ void PopScope(void)
             CurrentType = vd->Type;
             CurrentTypeExtra = vd->TypeExtra;
             AddLateGlobalVar(-2)->Ref = vd->Ref;
+        } else if ((vd->Type & (VT_LOCMASK|VT_TYPEDEF)) == VT_LOCGLOB) {
+            // Unused static variable
+            BssSize -= SizeofType(vd->Type, vd->TypeExtra);
         }
         VarLookup[vd->Id] = vd->Prev;
     }
-- 
2.43.0


From 307a996d8320ef2d5bb2eb1c24268cebc6b3f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 30/67] fix: case labels after declarations keep the stack
 level

---
 scc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scc.c b/scc.c
index 5bf90c9..23b2774 100644
--- a/scc.c
+++ b/scc.c
@@ -396,6 +396,7 @@ int LocalOffset;
 // Break/Continue stack level (== LocalOffset of block)
 int BStackLevel;
 int CStackLevel;
+int SwitchStackLevel;
 int ReturnLabel;
 int BreakLabel;
 int ContinueLabel;
@@ -3105,6 +3106,8 @@ Redo:
         Stmt:
             EmitLocalLabel(NextSwitchStmt);
             NextSwitchStmt = -1;
+            if (LocalOffset != SwitchStackLevel)
+                EmitModrm(I_LEA, R_SP, VT_LOCOFF, LocalOffset); // Jumped past a declaration
             goto Redo;
         }
     }
@@ -3254,10 +3257,12 @@ Redo:
 
             const int OldBreakLevel  = BStackLevel;
             const int OldBreakLabel  = BreakLabel;
+            const int OldSwitchLevel = SwitchStackLevel;
             const int LastSwitchCase = NextSwitchCase;
             const int LastSwitchStmt = NextSwitchStmt;
             const int LastSwitchDef  = SwitchDefault;
             BStackLevel    = LocalOffset;
+            SwitchStackLevel = LocalOffset;
             BreakLabel     = MakeLabel();
             NextSwitchCase = MakeLabel();
             NextSwitchStmt = MakeLabel();
@@ -3283,6 +3288,7 @@ Redo:
             SwitchDefault  = LastSwitchDef;
             BStackLevel    = OldBreakLevel;
             BreakLabel     = OldBreakLabel;
+            SwitchStackLevel = OldSwitchLevel;
         }
         return;
     }
-- 
2.43.0


From 0be0b0aeb77b8d59b329d2f8ca4df5a76daeb002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 31/67] fix: report goto to undefined labels

---
 scc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 23b2774..00b1133 100644
--- a/scc.c
+++ b/scc.c
@@ -3388,9 +3388,9 @@ void ParseExternalDefition(void)
         }
         Output2Bytes(I_POP|R_BP, I_RET);
 
-        // When debugging:
-        //int l;for (l = 0; l < LocalLabelCounter; ++l)if (!(Labels[l].Ref == 0)) Fail();
-        LocalLabelCounter = 0;
+        while (LocalLabelCounter) {
+            if (Labels[--LocalLabelCounter].Ref) Fatal("Undefined label");
+        }
         NamedLabelCount = 0;
         PopScope();
         return;
-- 
2.43.0


From c2feabd069502d6026031a1877f6eff33800402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 32/67] fix: calling through a function pointer with an operand
 saved in BX

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 00b1133..2f51d16 100644
--- a/scc.c
+++ b/scc.c
@@ -1848,6 +1848,7 @@ void ParsePostfixExpression(void)
                     break;
                 default:
                     LvalToRval();
+                    SpillBX(); // Must be below the function address
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                     LocalOffset -= 2;
                 }
-- 
2.43.0


From 78c2a10939b1c5872c8853fc6aa137d3349f9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 33/67] fix: functions returning char return a char value

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 2f51d16..70b80da 100644
--- a/scc.c
+++ b/scc.c
@@ -1905,6 +1905,7 @@ void ParsePostfixExpression(void)
                 LocalOffset  += ArgSize;
                 CurrentType = RetType;
                 if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
+                    EmitExtend(CurrentType&VT_UNSIGNED);
                     CurrentType = VT_INT;
                 }
                 CurrentTypeExtra = RetExtra;
-- 
2.43.0


From 3cc2ef97dc36acf82ac31d898e9dd8cfab1b075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 34/67] fix: calls through global function pointers

---
 scc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 70b80da..d7b8a5a 100644
--- a/scc.c
+++ b/scc.c
@@ -1841,12 +1841,10 @@ void ParsePostfixExpression(void)
                 const int RetType  = CurrentType & ~(VT_FUNPTR|VT_LOCMASK|VT_LVAL);
                 int RetExtra = CurrentTypeExtra;
                 struct VarDecl* Func = 0;
-                switch (CurrentType & VT_LOCMASK) {
-                case VT_LOCGLOB:
+                if ((CurrentType & (VT_LOCMASK|VT_FUNPTR)) == (VT_LOCGLOB|VT_FUN)) {
                     Func = &VarDecls[CurrentVal];
                     RetExtra = Func->TypeExtra;
-                    break;
-                default:
+                } else {
                     LvalToRval();
                     SpillBX(); // Must be below the function address
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
-- 
2.43.0


From 855922bef49ab558f2e9561156d3a0b1f9b34af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 35/67] fix: global function pointers

---
 scc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index d7b8a5a..89743a3 100644
--- a/scc.c
+++ b/scc.c
@@ -1153,7 +1153,7 @@ void EmitGlobalLabel(struct VarDecl* vd)
     if (vd->Offset) Fail();
     vd->Offset = CodeAddress;
     IsDeadCode = 0;
-    DoFixups(vd->Ref, vd->Type & VT_FUN);
+    DoFixups(vd->Ref, (vd->Type & VT_FUNPTR) == VT_FUN);
 
     char* P = CvtHex(IdBufPtr, CodeAddress);
     *P++ = ' ';
@@ -3354,7 +3354,7 @@ void ParseExternalDefition(void)
 
     vd->Type &= ~VT_STATIC;
 
-    if (vd->Type & VT_FUN) {
+    if ((vd->Type & VT_FUNPTR) == VT_FUN) {
         vd->Type |= VT_LOCGLOB;
         if (TokenType != '{') {
             goto End;
@@ -3516,7 +3516,7 @@ int main(int argc, char** argv)
     for (; vd != end; ++vd) {
         if (((CurrentType = vd->Type) & VT_LOCMASK) != VT_LOCGLOB || vd->Offset || vd == EBSS)
             continue;
-        if (CurrentType & VT_FUN) {
+        if ((CurrentType & VT_FUNPTR) == VT_FUN) {
             Printf("%s is undefined\n", IdText[vd->Id]);
             Fatal("Undefined function");
         }
-- 
2.43.0


From 2a042a707c93fcc4f85c04657142c41d7cee0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 36/67] fix: stack adjustments left over from dead code leaked
 into the next function

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 89743a3..a0ac862 100644
--- a/scc.c
+++ b/scc.c
@@ -1153,6 +1153,7 @@ void EmitGlobalLabel(struct VarDecl* vd)
     if (vd->Offset) Fail();
     vd->Offset = CodeAddress;
     IsDeadCode = 0;
+    Pending = 0; // May be left over from dead code
     DoFixups(vd->Ref, (vd->Type & VT_FUNPTR) == VT_FUN);
 
     char* P = CvtHex(IdBufPtr, CodeAddress);
-- 
2.43.0


From 85699143462e3d5fb34cc4c22f165e558ddd50a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 37/67] fix: each declarator starts from the declared base type

---
 scc.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/scc.c b/scc.c
index a0ac862..1185aae 100644
--- a/scc.c
+++ b/scc.c
@@ -2708,13 +2708,8 @@ void ParseAssignmentExpression(void)
 
 void SaveBaseType(void)
 {
-    BaseType      = CurrentType & ~VT_PTRMASK;
+    BaseType      = CurrentType;
     BaseTypeExtra = CurrentTypeExtra;
-    if ((CurrentType & VT_BASEMASK) == VT_ARRAY) {
-        struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
-        BaseType      = AD->Type;
-        BaseTypeExtra = AD->TypeExtra;
-    }
 }
 
 void ParseDeclarator(int* Id);
@@ -2987,9 +2982,8 @@ struct VarDecl* ParseFirstDecl(void)
     ParseDeclSpecs();
     if (TokenType == ';')
         return 0;
-    struct VarDecl* VD = DoDecl();
     SaveBaseType();
-    return VD;
+    return DoDecl();
 }
 
 // Remember to reset CurrentType/CurrentTypeExtra before calling
-- 
2.43.0


From f3f75c6a60843741d11053ed9df654ee86c78628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 38/67] fix: local arrays and structs cannot be initialised
 like scalars; address of a variable in its own initialiser

---
 scc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 1185aae..ceaa711 100644
--- a/scc.c
+++ b/scc.c
@@ -3300,7 +3300,9 @@ Skip:
             } else {
                 vd->Type |= VT_LOCOFF;
                 size = (size+1)&-2;
+                vd->Offset = LocalOffset - size;
                 if (TokenType == '=') {
+                    if (size != 2) Fail();
                     GetToken();
                     ParseAssignmentExpression();
                     GetVal();
@@ -3309,7 +3311,6 @@ Skip:
                     Pending -= size;
                 }
                 LocalOffset -= size;
-                vd->Offset = LocalOffset;
             }
             vd = NextDecl();
         }
-- 
2.43.0


From fa1cd554fcb320c043d19ed8bbb2d26484ea6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 39/67] fix: sas: CS and SS and DS segment overrides

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 450f35f..051edd5 100644
--- a/sas.c
+++ b/sas.c
@@ -897,7 +897,7 @@ DoMem:
         for (;;) {
             if (TokenType >= TOK_ES && TokenType <= TOK_DS) {
                 // Segment override
-                OutputByte(0x26 | (TokenType-TOK_ES));
+                OutputByte(0x26 | (TokenType-TOK_ES)<<3);
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
-- 
2.43.0


From 53ab1b5de935c6975ce947f9025ca960b35113b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 40/67] fix: sas: [bp+label] with a forward reference

---
 sas.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index 051edd5..9b5e6ae 100644
--- a/sas.c
+++ b/sas.c
@@ -931,14 +931,11 @@ DoMem:
         }
         Expect(TOK_RBRACKET);
 
-        if (Oper->ModRM == 6 && !Oper->Disp)
-            Oper->ModRM |= 0x40;
-
         if (Oper->ModRM == -1)
             Oper->ModRM = 6;
         else if (Oper->Fixup)
             Oper->ModRM |= 0x80; // Disp16
-        else if (Oper->Disp) {
+        else if (Oper->Disp || Oper->ModRM == 6) {
             if (IsShort(Oper->Disp))
                 Oper->ModRM |= 0x40; // Disp8
             else
-- 
2.43.0


From f7e2f1d5a99755a1ed76bcc2bbe4cab30c042d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 41/67] fix: sas: shift counts other than 1 were assembled as 1

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index 9b5e6ae..a4ed70e 100644
--- a/sas.c
+++ b/sas.c
@@ -1205,6 +1205,8 @@ void HandleROT(int r)
     if (op2.Type == OPTYPE_REG) {
         assert(op2.Disp == TOK_CL);
         Inst |= 2;
+    } else {
+        assert(op2.Type == OPTYPE_LIT && op2.Disp == 1); // Only form available on the 8086
     }
     OutputByte(Inst | W);
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
-- 
2.43.0


From a4df1c71345f2e64f84509196f5cb837d8f71da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 42/67] fix: sas: report short jumps that are out of range

---
 sas.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sas.c b/sas.c
index a4ed70e..1b0cec8 100644
--- a/sas.c
+++ b/sas.c
@@ -379,6 +379,7 @@ enum {
 struct Fixup {
     char Type;
     int  Offset;
+    int  Address;
     struct Fixup* Next;
 };
 struct Fixup Fixups[FIXUP_MAX];
@@ -1046,6 +1047,7 @@ void AddFixupHere(struct Label* L, char Type)
     NextFixup = NextFixup->Next;
     F->Type   = Type;
     F->Offset = OutputBufPos;
+    F->Address = VirtAddress;
     F->Next   = L->Fixups;
     L->Fixups = F;
 }
@@ -1212,10 +1214,18 @@ void HandleROT(int r)
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
 }
 
+void CheckRel8(int Rel)
+{
+    if (!IsShort(Rel))
+        printf("Line %d: Warning: Jump out of range (%d)\n", Line, Rel);
+}
+
 void HandleRel8(struct Operand* Op)
 {
     if (Op->Fixup)
         AddFixupHere(Op->Fixup, FIXUP_REL8);
+    else
+        CheckRel8(Op->Disp-(VirtAddress+1));
     OutputByte(Op->Disp-(VirtAddress+1));
 }
 
@@ -1264,12 +1274,7 @@ void HandleJCC(int CC)
     ParseOperand(&op);
     assert(op.Type == OPTYPE_LIT);
     OutputByte(0x70|CC);
-    if (op.Fixup) {
-        AddFixupHere(op.Fixup, FIXUP_REL8);
-        OutputByte(-(VirtAddress+1));
-    } else {
-        OutputByte(op.Disp-(VirtAddress+1));
-    }
+    HandleRel8(&op);
 }
 
 void HandleIncDec(int Dec)
@@ -1629,6 +1634,7 @@ int main(int argc, char** argv)
                         while (F) {
                             switch (F->Type) {
                             case FIXUP_REL8:
+                                CheckRel8(VirtAddress - (F->Address+1));
                                 OutputBuf[F->Offset] += VirtAddress;
                                 break;
                             case FIXUP_REL16:
-- 
2.43.0


From d300037967c29fba490211377a7bd0bdfef570b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 43/67] fix: sas: report undefined labels

---
 sas.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sas.c b/sas.c
index 1b0cec8..7c08399 100644
--- a/sas.c
+++ b/sas.c
@@ -1582,6 +1582,12 @@ void MakeOutputFilename(char* dest, const char* n)
 }
 
 
+void CheckDefined(int i)
+{
+    if (Labels[i].Type == LABEL_NORMAL && Labels[i].Val == -1)
+        Fatal("Undefined label %s", IdText(i+TOK_USER_ID));
+}
+
 int main(int argc, char** argv)
 {
     if (argc < 2) {
@@ -1658,6 +1664,7 @@ int main(int argc, char** argv)
                     // Retire local labels
                     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i) {
                         if (Labels[i].Type && *IdText(i+TOK_USER_ID) == '.') {
+                            CheckDefined(i);
                             Labels[i].Type = LABEL_NONE;
                         }
                     }
@@ -1685,6 +1692,9 @@ int main(int argc, char** argv)
         }
     }
 
+    for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i)
+        CheckDefined(i);
+
     if (argv[2])
        strcpy(StringBuf, argv[2]);
     else
-- 
2.43.0


From 54a7ed2db21ad849faf9d8d371d920717e1cba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 44/67] fix: sas: forward references in dw

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 7c08399..2e93bd0 100644
--- a/sas.c
+++ b/sas.c
@@ -994,8 +994,8 @@ void HandleDx(int size)
             if (L->Val != -1) {
                 OutputWord(L->Val);
             } else {
+                AddFixupHere(L, FIXUP_DISP16);
                 OutputWord(0);
-                printf("TODO: Need DISP16 fixup for DW\n");
             }
         } else {
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
-- 
2.43.0


From 49ab87b821cbdc7fa3410111071924b51e8deb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 45/67] fix: sas: subtracted registers and labels were added in
 memory operands

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index 2e93bd0..49b635f 100644
--- a/sas.c
+++ b/sas.c
@@ -902,6 +902,8 @@ DoMem:
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
+            } else if (neg && TokenType != TOK_NUMBER) {
+                Fatal("Cannot subtract %s in memory operand", TokenText());
             } else if (TokenType == TOK_BX || TokenType == TOK_BP || TokenType == TOK_SI || TokenType == TOK_DI) {
                 Oper->ModRM = TranslateMemMod(Oper->ModRM);
                 GetToken();
-- 
2.43.0


From 18f569d6e3195acce4cc2bcf1a750103981cfca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 46/67] fix: sas: check identifier count, string and file name
 lengths

---
 sas.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 49b635f..429276c 100644
--- a/sas.c
+++ b/sas.c
@@ -493,7 +493,7 @@ int HashStr(const char* Str)
 int AddId(const char* Str)
 {
     int l = (int)strlen(Str) + 1;
-    assert(IdBufferIndex + l <= IDBUFFER_MAX);
+    assert(IdCount < ID_MAX && IdBufferIndex + l <= IDBUFFER_MAX);
     memcpy(IdBuffer + IdBufferIndex, Str, l);
     IdOffset[IdCount] = IdBufferIndex;
     IdBufferIndex += l;
@@ -679,7 +679,7 @@ SkipSpaces:
         int Len = 0;
         ReadChar();
         while (CurrentChar != '\'') {
-            assert(Len < (int)sizeof(StringBuf));
+            assert(Len < (int)sizeof(StringBuf)-1);
             if (!CurrentChar) Fatal("Unexpected EOF in string literal");
             StringBuf[Len++] = CurrentChar;
             ReadChar();
@@ -1697,6 +1697,7 @@ int main(int argc, char** argv)
     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i)
         CheckDefined(i);
 
+    assert(strlen(argv[argv[2] ? 2 : 1]) < (int)sizeof(StringBuf)-4);
     if (argv[2])
        strcpy(StringBuf, argv[2]);
     else
-- 
2.43.0


From 0729022335f90f7dacaf3cb0f41f8745c0092990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 47/67] fix: sas: there is no move of an immediate to a segment
 register

---
 sas.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sas.c b/sas.c
index 429276c..8b2083a 100644
--- a/sas.c
+++ b/sas.c
@@ -1130,6 +1130,7 @@ void HandleMOV(void)
             OutputByte(Inst);
             OutputByte(0xC0 | ModRM);
         } else if (op2.Type == OPTYPE_LIT) {
+            assert(op1.Disp < TOK_ES);
             OutputByte(0xB0 + op1.Disp - TOK_AL);
             OutputImm(&op2, W);
         } else {
-- 
2.43.0


From a0569dc904be54dc20d7dca9024fde878265035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 48/67] fix: scpp: > in #if compared the wrong way round

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index bff8b44..3b301be 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1318,7 +1318,7 @@ int EvalExpr1(int LHS, int OuterPrec)
         case '+': LHS += RHS; break;
         case '-': LHS -= RHS; break;
         case '<': LHS = LHS < RHS; break;
-        case '>': LHS = LHS < RHS; break;
+        case '>': LHS = LHS > RHS; break;
         case TOK_LTEQ: LHS = LHS <= RHS; break;
         case TOK_GTEQ: LHS = LHS >= RHS; break;
         case TOK_EQEQ: LHS = LHS == RHS; break;
-- 
2.43.0


From f2d4aa07012e5a52865eb4ec64658019dc45ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 49/67] fix: scpp: operators in #if associated to the right

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 3b301be..b4f0104 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1307,7 +1307,7 @@ int EvalExpr1(int LHS, int OuterPrec)
             if (LookAheadOp <= ' ' || LookAheadOp >= TOK_ID)
                 break;
             const int LookAheadPrec = OperatorPrecedence(LookAheadOp);
-            if (LookAheadPrec > Prec)
+            if (LookAheadPrec >= Prec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
-- 
2.43.0


From 20fe935a77e348dd71890c73501863ca8c0ba52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 50/67] fix: scpp: unary -, + and ~ were missing in #if

---
 scpp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scpp.c b/scpp.c
index b4f0104..7f27856 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1245,6 +1245,12 @@ int EvalUnary(void)
         return n;
     } else if (Accept('!')) {
         return !EvalUnary();
+    } else if (Accept('-')) {
+        return -EvalUnary();
+    } else if (Accept('+')) {
+        return EvalUnary();
+    } else if (Accept('~')) {
+        return ~EvalUnary();
     } else if (Accept('(')) {
         n = EvalExpr();
         Expect(')');
-- 
2.43.0


From 17385922c71079b0603095a9b59f1a0972d079d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 51/67] fix: scpp: suffixes were taken for digits in #if

---
 scpp.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index 7f27856..2a8747b 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1218,12 +1218,16 @@ int EvalUnary(void)
         }
         int ch;
         while ((ch = *s++)) {
-            n *= base;
             if (ch >= '0' && ch <= '9')
-                n += ch - '0';
+                ch -= '0';
             else {
-                n += (ch & 0xdf) - ('A' - 10);
+                ch &= 0xdf;
+                if (ch == 'U' || ch == 'L')
+                    continue;
+                ch -= 'A' - 10;
             }
+            assert(ch >= 0 && ch < base);
+            n = n * base + ch;
         }
         GetToken();
         return n;
-- 
2.43.0


From 5e6df3990c9c933192434dbdaaa65294b67b5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 52/67] fix: scpp: #undef left the parameters and freed the
 replacement of a macro already undefined

---
 scpp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index 2a8747b..90a5d91 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1422,8 +1422,11 @@ void HandleDirective(void)
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 // HACK: Just hide #undef'ed macros
-                Macros[CurTok.Type - TOK_USER_ID].Hide = 2;
-                FreeTokenList(Macros[CurTok.Type - TOK_USER_ID].Replacement);
+                struct Macro* M = &Macros[CurTok.Type - TOK_USER_ID];
+                M->Hide = 2;
+                FreeTokenList(M->Replacement);
+                M->Replacement = 0;
+                M->Arguments = 0;
             }
             GetToken();
         }
-- 
2.43.0


From 987a18d44e76251ffc5e4d392551e09e8d93c004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 53/67] fix: scpp: #if was evaluated in skipped groups

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 90a5d91..0183471 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1453,7 +1453,7 @@ void HandleDirective(void)
 
         char* S = CondCount ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
-            NewCond(EvalExpr());
+            NewCond(CondActive() && EvalExpr());
         } else if (Directive == TOK_ELIF) {
             assert(S);
             if (*S == COND_TRUE)
-- 
2.43.0


From 74a4b07969d68b6ffb331f2fd41b44503ecd53b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 54/67] fix: scpp: division by zero in #if crashed

---
 scpp.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/scpp.c b/scpp.c
index 0183471..fb02f8b 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1200,6 +1200,7 @@ int IsDefined(int Tok)
 }
 
 int EvalExpr(void);
+int Unevaluated; // Inside an operand that && || or ?: does not evaluate
 
 int EvalUnary(void)
 {
@@ -1304,12 +1305,17 @@ int EvalExpr1(int LHS, int OuterPrec)
             break;
         GetToken();
         if (Op == '?') {
+            Unevaluated += !LHS;
             const int L = EvalExpr1(EvalUnary(), 14);
             Expect(':');
+            Unevaluated += !!LHS - !LHS;
             const int R = EvalExpr1(EvalUnary(), 14);
+            Unevaluated -= !!LHS;
             LHS = LHS ? L : R;
             continue;
         }
+        const int Skip = Op == TOK_ANDAND ? !LHS : Op == TOK_OROR && LHS;
+        Unevaluated += Skip;
         int RHS = EvalUnary();
         for (;;) {
             SkipWS();
@@ -1321,6 +1327,14 @@ int EvalExpr1(int LHS, int OuterPrec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
+        Unevaluated -= Skip;
+        if ((Op == '/' || Op == '%') && !RHS) {
+            if (!Unevaluated) {
+                printf("Division by zero in %s:%d\n", CurFile->Filename, Line);
+                exit(1);
+            }
+            RHS = 1;
+        }
         switch (Op) {
         case '*': LHS *= RHS; break;
         case '/': LHS /= RHS; break;
-- 
2.43.0


From 52f6fb4fa839e574de11f6200aef153edddfdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 55/67] fix: scpp: the rest of an #if line that is no
 expression was ignored

---
 scpp.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index fb02f8b..e703797 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1365,6 +1365,16 @@ int EvalExpr(void)
     return EvalExpr1(EvalUnary(), 15);
 }
 
+int EvalCond(void)
+{
+    const int n = EvalExpr();
+    if (CurTok.Type != TOK_NEWLINE && CurTok.Type != TOK_EOF) {
+        printf("Garbage after expression in %s:%d\n", CurFile->Filename, Line);
+        exit(1);
+    }
+    return n;
+}
+
 int CondActive(void)
 {
     return !CondCount || CondState[CondCount-1] == COND_TRUE;
@@ -1467,12 +1477,12 @@ void HandleDirective(void)
 
         char* S = CondCount ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
-            NewCond(CondActive() && EvalExpr());
+            NewCond(CondActive() && EvalCond());
         } else if (Directive == TOK_ELIF) {
             assert(S);
             if (*S == COND_TRUE)
                 *S = COND_DONE;
-            else if (*S == COND_FALSE && EvalExpr())
+            else if (*S == COND_FALSE && EvalCond())
                 *S = COND_TRUE;
         } else if (Directive == TOK_ELSE) {
             assert(S);
-- 
2.43.0


From ef99887b7338344a026e933bd8449cf64414cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 56/67] fix: scpp: a macro in the replacement of one without
 parameters crashed

---
 scpp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index e703797..199134a 100644
--- a/scpp.c
+++ b/scpp.c
@@ -884,6 +884,7 @@ struct Argument* GetArg(int Id)
 {
     if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
         struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
+        if (A == (struct Argument*)1) return 0;
         for (; A; A = A->Next) {
             if (A->Id == Id) {
                 if (Debug) {
@@ -1141,7 +1142,7 @@ void HandleDefine(void)
             if (PendWS == 0) PendWS = 1;
             continue;
         }
-        if (M->Arguments && CurTok.Type == TOK_RAW_ID) {
+        if (M->Arguments && M->Arguments != (struct Argument*)1 && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 struct Argument* A = M->Arguments;
-- 
2.43.0


From 00b48df2494e0fd3fe671c638fb888c31e37fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 57/67] fix: scpp: pasting to an empty argument crashed

---
 scpp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 199134a..3a8c117 100644
--- a/scpp.c
+++ b/scpp.c
@@ -560,8 +560,15 @@ void PrintToken(const struct Token* T);
 
 void PasteAppend(struct Token* Tok)
 {
-    CurTok = *SimpleExpand(&CurTok);
+    struct Token* LTok = SimpleExpand(&CurTok);
     Tok = SimpleExpand(Tok);
+    if (!LTok) {
+        // Nothing on the left hand side
+        if (Tok)
+            CurTok = *Tok;
+        return;
+    }
+    CurTok = *LTok;
     if (Debug) { printf("Paste "); if(Tok)PrintToken(Tok); printf(" to "); PrintToken(&CurTok); printf("\n"); }
     const char* T2 = Tok ? Tok->Text : "";
     const int l1 = (int)strlen(CurTok.Text);
-- 
2.43.0


From 8ba2163d581851eda6299089dc446db32114aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 58/67] fix: scpp: an unterminated #if was accepted

---
 scpp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scpp.c b/scpp.c
index 3a8c117..e68588c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -357,6 +357,7 @@ struct File {
     char* BufPtr;
     int BufSize;
     int OldLine;
+    int Conds;
     char LastChar;
     char Buf[FILE_BUF_SIZE];
 };
@@ -438,6 +439,7 @@ struct File* OpenFile(const char* Filename, int Write)
     memset(F, 0, sizeof(*F));
     F->BufPtr = F->Buf;
     F->Filename = Filename;
+    F->Conds = CondCount;
     F->FD = open(F->Filename, Write ? O_WRONLY | O_CREAT | O_TRUNC | O_BINARY : O_RDONLY | O_BINARY, 0600);
     if (F->FD < 0) {
         printf("Error opening %s\n", F->Filename);
@@ -1549,6 +1551,7 @@ void PPMain(void)
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
+            assert(CondCount == CurFile->Conds);
             Line = CurFile->OldLine;
             CloseFile();
             CurFile = &Files[NumFiles-1];
-- 
2.43.0


From 6b69b9773b5342315e3ca53275bec9c3b9c1553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 59/67] fix: scpp: white space before the ) of defined was
 rejected

---
 scpp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index e68588c..23517a3 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1256,7 +1256,10 @@ int EvalUnary(void)
         ReplaceId();
         n = IsDefined(CurTok.Type);
         GetToken();
-        if (Par) Expect(')');
+        if (Par) {
+            SkipWS();
+            Expect(')');
+        }
         return n;
     } else if (Accept('!')) {
         return !EvalUnary();
-- 
2.43.0


From 62494300bde5321c98cd529401a4283d317c966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 60/67] fix: scpp: tokens after a function-like macro's name
 without ( were moved behind the rest of the expansion

---
 scpp.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scpp.c b/scpp.c
index 23517a3..dd52d46 100644
--- a/scpp.c
+++ b/scpp.c
@@ -590,6 +590,12 @@ const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xF
 
 void RawGetToken(void)
 {
+    if (TokenQueueHead != TokenQueueTail) {
+        CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
+        CurHash = ID_HASH_MAX;
+        return;
+    }
+
     while (ReplaceNest) {
         struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest-1];
         assert(!RS->M || RS->M->Hide == 1);
@@ -623,12 +629,6 @@ void RawGetToken(void)
         }
     }
 
-    if (TokenQueueHead != TokenQueueTail) {
-        CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
-        CurHash = ID_HASH_MAX;
-        return;
-    }
-
 Restart:
     TokenDataPos = NextTokenDataPos;
     CurTok.Text = TokenData + TokenDataPos;
@@ -975,7 +975,7 @@ void GetToken(void)
             RawSkipWS();
             if (CurTok.Type != '(') {
                 // Undo consumption of ID and any whitespace
-                if (WS < ' ') {
+                if (WS == TOK_WHITESPACE) {
                     struct Token WSToken;
                     WSToken.Type = WS;
                     TokenQueuePush(&WSToken);
-- 
2.43.0


From b25a9bdc48068616ca4483dca2765799164deded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 61/67] fix: scpp: macro parameters named like a directive were
 not replaced

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index dd52d46..ccbc7fe 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1153,7 +1153,7 @@ void HandleDefine(void)
         }
         if (M->Arguments && M->Arguments != (struct Argument*)1 && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
-            if (CurTok.Type >= TOK_USER_ID) {
+            if (CurTok.Type != TOK_RAW_ID) {
                 struct Argument* A = M->Arguments;
                 while (A) {
                     if (A->Id == CurTok.Type) {
-- 
2.43.0


From 64a9c61b252a6397b711394902558f7da054778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 62/67] fix: scpp: macro arguments were not expanded on their
 own before substitution, # dropped quotes

---
 scpp.c | 258 +++++++++++++++++++++++++++++----------------------------
 1 file changed, 132 insertions(+), 126 deletions(-)

diff --git a/scpp.c b/scpp.c
index ccbc7fe..3cfe3e3 100644
--- a/scpp.c
+++ b/scpp.c
@@ -289,7 +289,7 @@ enum {
     TOKEN_DATA_MAX  = 2048,
     MAX_NEST        = 10,   // Maximum nesting of replacments
     COND_MAX        = 16,
-    TOKEN_LIST_MAX  = 128,
+    TOKEN_LIST_MAX  = 256,
     TOKEN_QUEUE_MAX = 16,
     ARGUMENT_MAX    = 32,
     FILES_MAX       = 4,
@@ -402,6 +402,7 @@ struct Argument {
     int Id;
     struct Argument* Next;
     struct TokenList* Replacement;
+    struct TokenList* Expanded;
 };
 struct Argument Argument[ARGUMENT_MAX];
 int ArgumentCount;
@@ -535,7 +536,8 @@ void FreeArgs(struct Argument* Args)
         return;
     while (Args) {
         FreeTokenList(Args->Replacement);
-        Args->Replacement = 0;
+        FreeTokenList(Args->Expanded);
+        Args->Replacement = Args->Expanded = 0;
         Args = Args->Next;
     }
 }
@@ -582,6 +584,8 @@ void PasteAppend(struct Token* Tok)
     TokenDataPos+=l1+l2;
     if (CurTok.Type > ' ' && CurTok.Type < TOK_RAW_ID) {
         CurTok.Type = TOK_CREATED_OP;
+    } else if (CurTok.Type > TOK_RAW_ID) {
+        CurTok.Type = TOK_RAW_ID;
     }
     if (Debug) { printf(" --> "); PrintToken(&CurTok); printf("\n"); }
 }
@@ -884,65 +888,66 @@ void PushHandleArg(struct Argument* A)
     }
     assert(ReplaceNest < MAX_NEST);
     ReplaceStack[ReplaceNest].M  = 0;
-    ReplaceStack[ReplaceNest].TL = A->Replacement;
+    ReplaceStack[ReplaceNest].TL = A->Expanded;
     ReplaceStack[ReplaceNest].Stop = 0;
     ++ReplaceNest;
 }
 
-struct Argument* GetArg(int Id)
+// Like RawGetToken, but with the arguments of the macro being expanded substituted
+void SubstGetToken(void)
 {
-    if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
-        struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
-        if (A == (struct Argument*)1) return 0;
-        for (; A; A = A->Next) {
-            if (A->Id == Id) {
-                if (Debug) {
-                    printf("Matched argument %s\n", IdText[Id-TOK_ID]);
-                    struct TokenList* TL = A->Replacement;
-                    while (TL) {
-                        printf("\t"); PrintToken(&TL->Tok); printf("\n");
-                        TL = TL->Next;
-                    }
-                }
-                return A;
+    for (;;) {
+        RawGetToken();
+        if (CurTok.Type == TOK_ARG) {
+            PushHandleArg((struct Argument*)CurTok.Text);
+        } else {
+            if (CurTok.Type == '#' && ReplaceNest) {
+                RawGetToken();
+                RawSkipWS();
+                assert(CurTok.Type == TOK_ARG);
+                Stringify(((struct Argument*)CurTok.Text)->Replacement);
             }
+            return;
         }
     }
-    return 0;
 }
 
-void GetToken(void)
+void GetToken(void);
+
+struct TokenList* ExpandArg(struct TokenList* TL)
 {
+    struct TokenList* Res = 0;
+    struct TokenList** L = &Res;
+    assert(ReplaceNest < MAX_NEST);
+    ReplaceStack[ReplaceNest].M  = 0;
+    ReplaceStack[ReplaceNest].TL = TL;
+    ReplaceStack[ReplaceNest].Stop = 1;
+    ++ReplaceNest;
     for (;;) {
-        RawGetToken();
+        GetToken();
+        if (CurTok.Type == TOK_EOF)
+            return Res;
+        L = AddToken(L, &CurTok);
+        NextTokenDataPos = TokenDataPos; // Preserve the token data
+    }
+}
 
-        switch (CurTok.Type) {
-        case TOK_RAW_ID:
-            break;
-        case '#':
-            if (!ReplaceNest)
-                return;
-            if (Debug) printf("Stringify!\n");
-            RawGetToken();
-            RawSkipWS();
-            assert(CurTok.Type == TOK_ARG);
-            Stringify(((struct Argument*)CurTok.Text)->Replacement);
-            return;
-        case TOK_ARG:
-            PushHandleArg((struct Argument*)CurTok.Text);
-            continue;
-        default:
+void GetToken(void)
+{
+    for (;;) {
+        SubstGetToken();
+        if (CurTok.Type != TOK_RAW_ID)
             return;
-        }
 
         ReplaceId();
         if (CurTok.Type < TOK_USER_ID) {
             if (CurTok.Type > TOK_DEFINED) {
                 if (Debug) printf("Special token! %s\n", CurTok.Text);
                 if (CurTok.Type == TOK___LINE__) {
-                    char* T = &TokenData[NextTokenDataPos];
+                    char* T = &TokenData[TokenDataPos];
+                    assert(TokenDataPos < TOKEN_DATA_MAX-8);
                     sprintf(T, "%d", Line);
-                    NextTokenDataPos += (int)strlen(T) + 1;
+                    TokenDataPos += (int)strlen(T) + 1;
                     CurTok.Text = T;
                     CurTok.Type = TOK_NUM;
                 } else if (CurTok.Type == TOK___FILE__) {
@@ -956,72 +961,82 @@ void GetToken(void)
             return;
         }
         const int Id = CurTok.Type;
-        struct Argument* A = GetArg(Id);
-        if (A) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = 0;
-            ReplaceStack[ReplaceNest].TL = A->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            ++ReplaceNest;
-            continue;
-        }
         struct Macro* M = &Macros[Id - TOK_USER_ID];
         if (M->Hide)
             return;
         if (Debug) printf("Start expanding macro %s\n", IdText[Id-TOK_ID]);
         if (M->Arguments) {
-            RawGetToken();
-            int WS = CurTok.Type;
-            RawSkipWS();
+            int WS = 0;
+            for (;;) {
+                SubstGetToken();
+                if (CurTok.Type != TOK_WHITESPACE)
+                    break;
+                WS = 1;
+            }
             if (CurTok.Type != '(') {
                 // Undo consumption of ID and any whitespace
-                if (WS == TOK_WHITESPACE) {
+                if (WS) {
                     struct Token WSToken;
-                    WSToken.Type = WS;
+                    WSToken.Type = TOK_WHITESPACE;
                     TokenQueuePush(&WSToken);
                 }
                 TokenQueuePush(&CurTok);
-                CurTok.Type = Id;
+                CurTok.Type = TOK_RAW_ID; // May yet be followed by ( when rescanned
                 CurTok.Text = IdText[Id - TOK_ID];
+                CurHash = ID_HASH_MAX;
                 return;
             }
-            RawGetToken();
-            RawSkipWS();
-            if (CurTok.Type != ')') {
-                assert(M->Arguments != (struct Argument*)1);
-                A = M->Arguments;
-                while (A) {
-                    struct TokenList** ArgL = &A->Replacement;
-                    int Nest = 0;
-                    int PendWS = -1;
-                    for (;; RawGetToken()) {
-                        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
-                            if (PendWS == 0) PendWS = 1;
-                            continue;
-                        }
-                        if (CurTok.Type == '(')
-                            ++Nest;
-                        else if (CurTok.Type == ')' && !Nest--)
-                            break;
-                        else if (!CurTok.Type || (!Nest && CurTok.Type == ','))
-                            break;
-                        if (PendWS == 1) {
-                            struct Token WSTok;
-                            WSTok.Type = TOK_WHITESPACE;
-                            ArgL = AddToken(ArgL, &WSTok);
-                        }
-                        PendWS = 0;
-                        ArgL = AddToken(ArgL, &CurTok);
-                        assert(TokenDataPos >= NextTokenDataPos);
-                        NextTokenDataPos = TokenDataPos; // Preserve the token data
+            struct TokenList* Args[ARGUMENT_MAX];
+            struct Argument* A = M->Arguments;
+            int ArgCnt = 0;
+            if (A == (struct Argument*)1) {
+                A = 0;
+                do {
+                    SubstGetToken();
+                } while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE);
+            }
+            while (A) {
+                struct TokenList** ArgL = &Args[ArgCnt++];
+                int Nest = 0;
+                int PendWS = -1;
+                for (;;) {
+                    SubstGetToken();
+                    if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
+                        if (PendWS == 0) PendWS = 1;
+                        continue;
                     }
-                    *ArgL = 0;
-                    A = A->Next;
-                    if (CurTok.Type != ',')
+                    if (CurTok.Type == '(')
+                        ++Nest;
+                    else if (CurTok.Type == ')' && !Nest--)
+                        break;
+                    else if (!CurTok.Type || (!Nest && CurTok.Type == ','))
                         break;
-                    RawGetToken();
+                    if (PendWS == 1) {
+                        struct Token WSTok;
+                        WSTok.Type = TOK_WHITESPACE;
+                        ArgL = AddToken(ArgL, &WSTok);
+                    }
+                    PendWS = 0;
+                    ArgL = AddToken(ArgL, &CurTok);
+                    assert(TokenDataPos >= NextTokenDataPos);
+                    NextTokenDataPos = TokenDataPos; // Preserve the token data
                 }
-                assert(!A && CurTok.Type == ')');
+                *ArgL = 0;
+                A = A->Next;
+                if (CurTok.Type != ',')
+                    break;
+            }
+            assert(!A && CurTok.Type == ')');
+            // Expand all arguments before assigning any, they may use this macro
+            struct TokenList* Expanded[ARGUMENT_MAX];
+            int i;
+            for (i = 0; i < ArgCnt; ++i)
+                Expanded[i] = ExpandArg(Args[i]);
+            A = M->Arguments;
+            for (i = 0; i < ArgCnt; ++i) {
+                A->Replacement = Args[i];
+                A->Expanded = Expanded[i];
+                A = A->Next;
             }
         }
         if (Debug) printf("Start expanding macro body of %s\n", IdText[Id-TOK_ID]);
@@ -1038,53 +1053,44 @@ void GetToken(void)
     }
 }
 
-char StrBuf[256]; // HACK HACK
+void AddTokenChar(int Ch)
+{
+    assert(TokenDataPos < TOKEN_DATA_MAX);
+    TokenData[TokenDataPos++] = Ch;
+}
 
 void Stringify(struct TokenList* TL)
 {
-    int StrPos = 0;
+    const char* Res = &TokenData[TokenDataPos];
     int PendWS = 0;
-    int FromS = 0;
-    while (TL || FromS) {
-        if (!FromS) {
-            CurTok = TL->Tok;
-            TL = TL->Next;
-        } else {
-            GetToken();
-            if (CurTok.Type == TOK_EOF) {
-                --FromS;
-                if (Debug) printf("Hit stop: FromS=%d\n", FromS);
-                continue;
-            }
-        }
-        if (CurTok.Type == TOK_ARG) {
-            ++FromS;
-            if (Debug) printf("Switching to arg list FromS=%d\n", FromS);
-            PushHandleArg((struct Argument*)CurTok.Text);
-            ReplaceStack[ReplaceNest-1].Stop = 1;
+    for (; TL; TL = TL->Next) {
+        const int T = TL->Tok.Type;
+        if (T == TOK_WHITESPACE || T == TOK_NEWLINE) {
+            PendWS = 1;
             continue;
         }
-
-        if (Debug) { printf("Stringifying: "); PrintToken(&CurTok); printf("\n"); }
-        if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
-            PendWS = 1;
-        } else {
-            if (PendWS) {
-                assert(StrPos < (int)sizeof(StrBuf));
-                StrBuf[StrPos++] = ' ';
-                PendWS = 0;
-            }
-            const int l = (int)strlen(CurTok.Text);
-            assert(StrPos+l < (int)sizeof(StrBuf));
-            memcpy(&StrBuf[StrPos], CurTok.Text, l);
-            StrPos += l;
+        if (PendWS) AddTokenChar(' ');
+        PendWS = 0;
+        int Quote = 0;
+        if (T == TOK_STRLIT) {
+            Quote = '"';
+            AddTokenChar('\\');
+        } else if (T == TOK_CHARLIT) {
+            Quote = '\'';
+        }
+        if (Quote) AddTokenChar(Quote);
+        const char* Text = TL->Tok.Text;
+        while (*Text) {
+            if (Quote && (*Text == '"' || *Text == '\\')) AddTokenChar('\\');
+            AddTokenChar(*Text++);
         }
+        if (T == TOK_STRLIT) AddTokenChar('\\');
+        if (Quote) AddTokenChar(Quote);
     }
-    assert(StrPos < (int)sizeof(StrBuf));
-    StrBuf[StrPos] = 0;
+    AddTokenChar(0);
 
     CurTok.Type = TOK_STRLIT;
-    CurTok.Text = StrBuf;
+    CurTok.Text = Res;
 }
 
 void HandleDefine(void)
-- 
2.43.0


From 8f6f3a341fdf621bded0aec07025fe0d118bd317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:43 +0000
Subject: [PATCH 63/67] fix: scpp: tokens merged at the ends of an expansion

---
 scpp.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 3cfe3e3..cdd7b5c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -393,6 +393,7 @@ int TokenQueueHead, TokenQueueTail;
 
 struct TokenList {
     struct Token Tok;
+    char Gap; // Preceded by the end or start of an expansion
     struct TokenList* Next;
 };
 struct TokenList TokenListElems[TOKEN_LIST_MAX];
@@ -421,6 +422,7 @@ struct ReplaceStackElem {
     int Stop;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
+int ListChange; // Set when CurTok need not follow the previous token in the source
 
 enum {
     COND_TRUE,        // In active block
@@ -502,6 +504,7 @@ struct TokenList** AddToken(struct TokenList** L, struct Token* Tok)
     E->Next = 0;
     *L = E;
     E->Tok = *Tok;
+    E->Gap = 0;
     return &E->Next;
 }
 
@@ -597,6 +600,7 @@ void RawGetToken(void)
     if (TokenQueueHead != TokenQueueTail) {
         CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
         CurHash = ID_HASH_MAX;
+        ListChange = 1;
         return;
     }
 
@@ -605,6 +609,7 @@ void RawGetToken(void)
         assert(!RS->M || RS->M->Hide == 1);
         if (RS->TL) {
             CurTok = RS->TL->Tok;
+            ListChange |= RS->TL->Gap;
             RS->TL = RS->TL->Next;
 
             // Look for paste operation
@@ -626,6 +631,7 @@ void RawGetToken(void)
             FreeArgs(RS->M->Arguments);
         }
         --ReplaceNest;
+        ListChange = 1;
         if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
         if (RS->Stop) {
             CurTok.Type = TOK_EOF;
@@ -888,6 +894,7 @@ void PushHandleArg(struct Argument* A)
     }
     assert(ReplaceNest < MAX_NEST);
     ReplaceStack[ReplaceNest].M  = 0;
+    ListChange = 1;
     ReplaceStack[ReplaceNest].TL = A->Expanded;
     ReplaceStack[ReplaceNest].Stop = 0;
     ++ReplaceNest;
@@ -924,10 +931,13 @@ struct TokenList* ExpandArg(struct TokenList* TL)
     ReplaceStack[ReplaceNest].Stop = 1;
     ++ReplaceNest;
     for (;;) {
+        ListChange = 0;
         GetToken();
         if (CurTok.Type == TOK_EOF)
             return Res;
-        L = AddToken(L, &CurTok);
+        struct TokenList** Next = AddToken(L, &CurTok);
+        (*L)->Gap = ListChange;
+        L = Next;
         NextTokenDataPos = TokenDataPos; // Preserve the token data
     }
 }
@@ -1043,6 +1053,7 @@ void GetToken(void)
         if (M->Replacement) {
             assert(ReplaceNest < MAX_NEST);
             ReplaceStack[ReplaceNest].M  = M;
+            ListChange = 1;
             ReplaceStack[ReplaceNest].TL = M->Replacement;
             ReplaceStack[ReplaceNest].Stop = 0;
             M->Hide = 1;
@@ -1535,6 +1546,22 @@ void OutputStr(const char* Str)
     OutFile->BufPtr = Buf;
 }
 
+int IsIdPart(int Ch)
+{
+    return (IsIdChar[(unsigned char)Ch>>3]>>(Ch&7)) & 1;
+}
+
+// Would a token starting with Ch become part of one ending with Last if output right behind it?
+int WouldMerge(int Last, int Ch)
+{
+    if (IsIdPart(Last))
+        return IsIdPart(Ch);
+    if (Ch == '=')
+        return Last != ')' && Last != ']' && Last != '"' && Last != '\'';
+    return (Last == Ch && (Ch == '+' || Ch == '-' || Ch == '&' || Ch == '|' || Ch == '<' || Ch == '>' || Ch == '/' || Ch == '#'))
+        || (Last == '-' && Ch == '>') || (Last == '/' && Ch == '*');
+}
+
 void PPMain(void)
 {
     ReadChar();
@@ -1544,6 +1571,7 @@ void PPMain(void)
     int WS = WS_NONE;
     int StartOfLine = 1;
     int Active = 1;
+    int Last = ' '; // Last character output
     for (;;) {
         switch (CurTok.Type) {
         case '#':
@@ -1597,7 +1625,10 @@ void PPMain(void)
                 OutputStr(" ");
             }
             WS = 0;
+        } else if (ListChange && WouldMerge(Last, *CurTok.Text) && CurTok.Type != TOK_STRLIT && CurTok.Type != TOK_CHARLIT) {
+            OutputStr(" ");
         }
+        ListChange = 0;
         switch (CurTok.Type) {
         case TOK_STRLIT:
         case TOK_CHARLIT:
@@ -1606,10 +1637,12 @@ void PPMain(void)
                 OutputStr(S);
                 OutputStr(CurTok.Text);
                 OutputStr(S);
+                Last = *S;
             }
             break;
         default:
             OutputStr(CurTok.Text);
+            if (*CurTok.Text) Last = CurTok.Text[strlen(CurTok.Text)-1];
         }
         GetToken();
     }
-- 
2.43.0


From 4825e8e5d9884a2e2eac8818b112a316538c8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 64/67] fix: scpp: white space after a pasted token was lost

---
 scpp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index cdd7b5c..114f352 100644
--- a/scpp.c
+++ b/scpp.c
@@ -618,8 +618,8 @@ void RawGetToken(void)
                 TL = SkipWsNL(TL->Next);
                 assert(TL);
                 PasteAppend(&TL->Tok);
-                TL = SkipWsNL(TL->Next);
-                RS->TL = TL;
+                RS->TL = TL->Next;
+                TL = SkipWsNL(RS->TL);
             }
 
             CurHash = ID_HASH_MAX;
-- 
2.43.0


From 02475930a4a5e25765866dbc01152cda0d0a96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 65/67] fix: sas: AddFixupHere was used before its declaration

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index 8b2083a..fa1dd14 100644
--- a/sas.c
+++ b/sas.c
@@ -973,6 +973,8 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     ParseOperand(op2);
 }
 
+void AddFixupHere(struct Label* L, char Type);
+
 void HandleDx(int size)
 {
     int n = 0; // Keep count of string output for alignment
-- 
2.43.0


From 4569a109dd6a29ba7dd9dfef3059088366132903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 66/67] Add SCC_VERIFY hooks at the heads of the repeated
 string loops

---
 sim86.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sim86.c b/sim86.c
index ac90525..ff5fb49 100644
--- a/sim86.c
+++ b/sim86.c
@@ -47,6 +47,7 @@ enum {
 #define MEM_SIZE 1024*1024
 #define VerifyStep()
 #define VerifyOpcode(op) op
+#define VerifyLoop(count, left)
 #endif
 
 int reg[8];
@@ -991,6 +992,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSB");
                     while (TRIM(reg[R_CX])) {
+                        VerifyLoop(&reg[R_CX], 0);
                         Write8(SR_ES, reg[R_DI], Read8(DataSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
@@ -1003,6 +1005,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSW");
                     while (TRIM(reg[R_CX])) {
+                        VerifyLoop(&reg[R_CX], 0);
                         Write16(SR_ES, reg[R_DI], Read16(DataSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 2;
@@ -1016,6 +1019,7 @@ int main(int argc, char** argv)
                     if (verbose) sprintf(insttext, "REPE CMPSB");
                     dsize = 0;
                     while (TRIM(reg[R_CX])) {
+                        VerifyLoop(&reg[R_CX], 0);
                         DoOp(OP_CMP, Read8(DataSeg(), reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
@@ -1037,6 +1041,7 @@ int main(int argc, char** argv)
                     }
                     const int v = reg[R_AX];
                     while (iter--) {
+                        VerifyLoop(&iter, 1);
                         Write8(SR_ES, reg[R_DI]++, v);
                     }
                 }
@@ -1053,6 +1058,7 @@ int main(int argc, char** argv)
                     }
                     const int v = reg[R_AX];
                     while (iter--) {
+                        VerifyLoop(&iter, 1);
                         Write16(SR_ES, reg[R_DI], v);
                         reg[R_DI] += 2;
                     }
@@ -1081,6 +1087,7 @@ int main(int argc, char** argv)
                     if (verbose) strcpy(insttext, "REPNE SCASB");
                     dsize = 0;
                     while (TRIM(reg[R_CX])) {
+                        VerifyLoop(&reg[R_CX], 0);
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
-- 
2.43.0


From 3a4e74e28aa545d4232fe7173e65fcdbee694db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 67/67] fix: a '/' directly after a string literal was lost

---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index ceaa711..c66ea19 100644
--- a/scc.c
+++ b/scc.c
@@ -667,7 +667,11 @@ void GetStringLiteral(void)
             TokenStrLit[TokenNumVal++] = ch;
         }
         NextChar();
-        SkipWhitespace();
+        if (SkipWhitespace()) {
+            // Put back '/'
+            if (CurChar) --InBufPtr;
+            CurChar = '/';
+        }
         if (CurChar != '"')
             break;
         NextChar();
-- 
2.43.0

