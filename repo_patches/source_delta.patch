From 7d902189163549e7e0c8b0b0df3694b91d2defd8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 01/21] fix: rawSwap stores the first operand, not rbx, into
 the second

---
 src/copy.asm.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 989e927..a780cbe 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -69,7 +69,7 @@
         mov     rax, [rsi + <%= i*8 %>]
         mov     rcx, [rdi + <%= i*8 %>]
         mov     [rdi + <%= i*8 %>], rax
-        mov     [rsi + <%= i*8 %>], rbx
+        mov     [rsi + <%= i*8 %>], rcx
 <% } %>
         ret
 
-- 
2.43.0


From 9173f0a87e3019fcea53417c6263170f03b8ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 02/21] fix: x86-64 toInt rejects values whose high limbs are
 not those of a small negative

---
 src/copy.asm.ejs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index a780cbe..d94c063 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -183,11 +183,11 @@ u64toLong_adjust_neg:
 <%=name%>_longNeg:
         mov     rax, [rdi + 8]
         sub     rax, [q]
-        jnc     <%=name%>_longErr
 <% for (let i=1; i<n64; i++) { %>
         mov     rcx, [rdi + <%= i*8+8 %>]
         sbb     rcx, [q + <%= i*8 %>]
-        jnc     <%=name%>_longErr
+        inc     rcx                          ; must be -1 (inc keeps the borrow)
+        jnz     <%=name%>_longErr
 <% } %>
         mov     rcx, rax
         sar     rcx, 31
-- 
2.43.0


From a51b404399c0711d56e200f518e840d6b6c13ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 03/21] fix: x86-64 toInt aligns the stack before calling the
 failure handler

---
 src/copy.asm.ejs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index d94c063..8038ae4 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -200,9 +200,12 @@ u64toLong_adjust_neg:
         ret
 
 <%=name%>_longErr:
+        mov     rsp, rbp
         push    rdi
+        sub     rsp, 8                       ; keep the stack 16-byte aligned for the call
         mov     rdi, 0
         call    <%=name%>_fail
+        add     rsp, 8
         pop     rdi
         mov rsp, rbp
         pop rdx
-- 
2.43.0


From 4e35ac9c7104c866ef4ee750f454397a784f3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 04/21] fix: portable toInt rejects values that do not fit 32
 bits

---
 src/fr_generic.cpp.ejs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 2cd5a6d..b676381 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -746,7 +746,11 @@ int <%=name%>_longNeg(P<%=name%>Element pE)
 
     int64_t is_long = (result >> 31) + 1;
 
-    if(is_long)
+    // the distance to q must also fit one word
+    <%=name%>RawElement distance;
+    mpn_sub_n(distance, <%=name%>_q.longVal, pE->longVal, <%=name%>_N64);
+
+    if(is_long || memcmp(&distance[1], zero, (sizeof(distance) - sizeof(distance[0]))))
     {
        <%=name%>_longErr();
        return 0;
-- 
2.43.0


From 10838d66e87d15e2aa12cfad678999b114309908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 05/21] fix: portable toMontgomery keeps the short value of a
 short operand

---
 src/fr_generic.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index b676381..0a66211 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -310,6 +310,7 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
     else if (a->shortVal < 0)
     {
         int64_t a_shortVal = a->shortVal;
+       r->shortVal = a->shortVal;
        <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, -a_shortVal);
        <%=name%>_rawNeg(r->longVal, r->longVal);
 
@@ -317,6 +318,7 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
     }
     else
     {
+        r->shortVal = a->shortVal;
         <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, a->shortVal);
 
         r->type = <%=name%>_SHORTMONTGOMERY;
-- 
2.43.0


From 4efec27ef77f48359caad1ca0f33fc53bf47f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 06/21] fix: add and sub read their operands before writing the
 result type

---
 src/add.asm.ejs        |  8 ++++----
 src/fr_generic.cpp.ejs | 32 ++++++++++++++++----------------
 src/sub.asm.ejs        |  8 ++++----
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/add.asm.ejs b/src/add.asm.ejs
index eed3d22..bfc9ee4 100644
--- a/src/add.asm.ejs
+++ b/src/add.asm.ejs
@@ -137,8 +137,8 @@ add_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     add_l1ms2m
 add_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ms2m:
@@ -158,8 +158,8 @@ add_s1l2m:
         bt     rax, 62          ; check if montgomery first
         jc     add_s1ml2m
 add_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_s1ml2m:
@@ -178,16 +178,16 @@ add_l1nl2n:
 <%=     addL1L2()         %>
 
 add_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     add_l1ml2m
 add_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2m:
diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 0a66211..86db92d 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -372,11 +372,11 @@ static inline void sub_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
+
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
 }
 
@@ -389,11 +389,11 @@ static inline void sub_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
+
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
 }
 
@@ -414,21 +414,21 @@ static inline void sub_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void sub_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
+
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
 }
 
 static inline void sub_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
+
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
 }
 
@@ -562,11 +562,11 @@ static inline void add_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
+
     <%=name%>_rawAdd(r->longVal, a_m.longVal, b->longVal);
 }
 
@@ -578,11 +578,11 @@ static inline void add_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
+
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
 }
 
@@ -605,20 +605,20 @@ static inline void add_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 {
     <%=name%>Element b_m;
 
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>_toMontgomery(&b_m, b);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
+
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
 }
 
 static inline void add_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element m_a;
     <%=name%>_toMontgomery(&m_a, a);
 
+    r->type = <%=name%>_LONGMONTGOMERY;
+
     <%=name%>_rawAdd(r->longVal, m_a.longVal, b->longVal);
 }
 
diff --git a/src/sub.asm.ejs b/src/sub.asm.ejs
index e50b974..2db6a1d 100644
--- a/src/sub.asm.ejs
+++ b/src/sub.asm.ejs
@@ -144,8 +144,8 @@ sub_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     sub_l1ms2m
 sub_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ms2m:
@@ -165,8 +165,8 @@ sub_s1l2m:
         bt     rax, 62          ; check if montgomery second
         jc     sub_s1ml2m
 sub_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_s1ml2m:
@@ -185,16 +185,16 @@ sub_l1nl2n:
 <%=     subL1L2()         %>
 
 sub_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     sub_l1ml2m
 sub_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2m:
-- 
2.43.0


From b52d25e2d58e93c75f42b66afae1b7f892e6acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 07/21] fix: rawNegLS works when the result shares storage with
 its operand

---
 src/fr_raw_generic.cpp.ejs |  4 ++--
 src/sub.asm.ejs            | 15 ++++++---------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index e13bbb1..b4b651a 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -81,8 +81,8 @@ void <%=name%>_rawNeg(<%=name%>RawElement pRawResult, const <%=name%>RawElement
 //  Substracts a long element and a short element form 0
 void <%=name%>_rawNegLS(<%=name%>RawElement pRawResult, <%=name%>RawElement pRawA, uint64_t rawB)
 {
-    uint64_t carry1 = mpn_sub_1(pRawResult, <%=name%>_rawq, <%=name%>_N64, rawB);
-    uint64_t carry2 = mpn_sub_n(pRawResult, pRawResult, pRawA, <%=name%>_N64);
+    uint64_t carry1 = mpn_sub_n(pRawResult, <%=name%>_rawq, pRawA, <%=name%>_N64);
+    uint64_t carry2 = mpn_sub_1(pRawResult, pRawResult, <%=name%>_N64, rawB);
 
     if (carry1 || carry2)
     {
diff --git a/src/sub.asm.ejs b/src/sub.asm.ejs
index 2db6a1d..b5d7984 100644
--- a/src/sub.asm.ejs
+++ b/src/sub.asm.ejs
@@ -318,20 +318,17 @@ rawSubLL_done:
 ;    rax
 ;;;;;;;;;;;;;;;;;;;;;;
 rawNegLS:
-        mov rax, [q]
-        sub rax, rdx
-        mov [rdi], rax
-<% for (let i=1; i<n64; i++) { %>
+<% for (let i=0; i<n64; i++) { %>
         mov rax, [q + <%=i*8%> ]
-        sbb rax, 0
+        <%= i==0 ? "sub" : "sbb" %> rax, [rsi + <%=i*8%>]
         mov [rdi + <%=i*8%>], rax
 <% } %>
+        mov rax, rdx
         setc dl
 
-<% for (let i=0; i<n64; i++) { %>
-        mov rax, [rdi + <%=i*8%> ]
-        <%= i==0 ? "sub" : "sbb" %> rax, [rsi + <%=i*8%>]
-        mov [rdi + <%=i*8%>], rax
+        sub [rdi], rax
+<% for (let i=1; i<n64; i++) { %>
+        sbb qword [rdi + <%=i*8%>], 0
 <% } %>
 
         setc dh
-- 
2.43.0


From bcf4dfa540f798f0379e5779f7b4eb2a1662d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 08/21] fix: bitwise operations read their operands before
 writing the result type

---
 src/binops.asm.ejs     | 17 +++-------
 src/fr_generic.cpp.ejs | 76 +++++++++++++++---------------------------
 2 files changed, 30 insertions(+), 63 deletions(-)

diff --git a/src/binops.asm.ejs b/src/binops.asm.ejs
index 68d2b8d..451d3f6 100644
--- a/src/binops.asm.ejs
+++ b/src/binops.asm.ejs
@@ -56,7 +56,6 @@
         ret
 
 <%=s1s2_solveNeg%>:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.toLong_b() %>
 <%=     global.toLong_a() %>
 <%=     binOpL1L2(op)       %>
@@ -69,6 +68,7 @@
         cmp    eax, 0
         <% const s1l2_solveNeg = global.tmpLabel() %>
         js     <%=s1l2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         <%=op%> rax, [rdx +8]
         mov    [rdi+8], rax
 <%   for (let i=1; i<n64; i++) { %>
@@ -88,7 +88,6 @@
 
 <%=s1l2_solveNeg%>:
 <%=     global.toLong_a() %>
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <% } %>
@@ -98,6 +97,7 @@
         cmp    ecx, 0
         <% const l1s2_solveNeg = global.tmpLabel() %>
         js     <%=l1s2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         movsx  rax, ecx
         <%=op%> rax, [rsi +8]
         mov    [rdi+8], rax
@@ -118,12 +118,12 @@
 
 <%=l1s2_solveNeg%>:
 <%=     global.toLong_b() %>
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <% } %>
 
 <% function binOpL1L2(op) { %>
+<%=     global.setTypeDest("0x80"); %>
 <%   for (let i=0; i<n64; i++) { %>
         mov rax, [rsi + <%= (i*8)+8 %>]
         <%=op%> rax, [rdx + <%= (i*8)+8 %>]
@@ -178,11 +178,9 @@
         bt     rax, 62          ; check if montgomery first
         jc     <%=op%>_l1ms2
 <%=op%>_l1ns2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1S2(op)       %>
 
 <%=op%>_l1ms2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     binOpL1S2(op)       %>
 
@@ -191,11 +189,9 @@
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_s1l2m
 <%=op%>_s1l2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpS1L2(op)       %>
 
 <%=op%>_s1l2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
 <%=     binOpS1L2(op)       %>
 
@@ -206,11 +202,9 @@
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_l1nl2m
 <%=op%>_l1nl2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1nl2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
 <%=     binOpL1L2(op)       %>
 
@@ -218,12 +212,10 @@
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_l1ml2m
 <%=op%>_l1ml2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     global.fromMont_b()       %>
 <%=     binOpL1L2(op)       %>
@@ -249,8 +241,6 @@
         push   rsi
         push   rdx
         mov    rbp, rsp
-        <%=     global.setTypeDest("0x80"); %>
-
         mov     rax, [rsi]
         bt      rax, 63          ; Check if is long operand
         jc      bnot_l1
@@ -266,6 +256,7 @@ bnot_l1m:
 <%=     global.fromMont_a()       %>
 
 bnot_l1n:
+<%=     global.setTypeDest("0x80"); %>
 <%   for (let i=0; i<n64; i++) { %>
         mov    rax, [rsi + <%= i*8 + 8 %>]
         not    rax
diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 86db92d..2c3f333 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -1447,14 +1447,13 @@ static inline void and_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toLongNormal(&a_n, a);
     <%=name%>_toLongNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
 }
 
@@ -1466,41 +1465,36 @@ static inline void and_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void and_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void and_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toNormal(&a_n, a);
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void and_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -1512,13 +1506,12 @@ static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1533,13 +1526,12 @@ static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, b_n.longVal, a_n.longVal);
 }
 
 static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1554,13 +1546,12 @@ static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -1572,6 +1563,7 @@ static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
 }
 
@@ -1998,21 +1990,18 @@ static inline void or_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>E
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toLongNormal(&a_n, a);
     <%=name%>_toLongNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2027,13 +2016,12 @@ static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2045,13 +2033,12 @@ static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2063,13 +2050,12 @@ static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2084,6 +2070,7 @@ static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, b_n.longVal, a_n.longVal);
 }
 
@@ -2095,34 +2082,31 @@ static inline void or_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void or_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void or_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void or_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toNormal(&a_n, a);
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
 }
 
@@ -2188,21 +2172,18 @@ static inline void xor_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toLongNormal(&a_n, a);
     <%=name%>_toLongNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2214,13 +2195,12 @@ static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2235,13 +2215,12 @@ static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&a_n, a);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
 }
 
 static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2253,13 +2232,12 @@ static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2274,6 +2252,7 @@ static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
         <%=name%>_toLongNormal(&b_n, b);
     }
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, b_n.longVal, a_n.longVal);
 }
 
@@ -2285,34 +2264,31 @@ static inline void xor_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void xor_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
 }
 
 static inline void xor_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
 }
 
 static inline void xor_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
     <%=name%>_toNormal(&a_n, a);
     <%=name%>_toNormal(&b_n, b);
 
+    r->type = <%=name%>_LONG;
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
 }
 
@@ -2370,8 +2346,6 @@ void <%=name%>_bxor(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element
 
 void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 {
-    r->type = <%=name%>_LONG;
-
     if (a->type == <%=name%>_LONG)
     {
         if (a->type & <%=name%>_MONTGOMERY)
@@ -2393,4 +2367,6 @@ void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 
         <%=name%>_rawNot(r->longVal, a_n.longVal);
     }
+
+    r->type = <%=name%>_LONG;
 }
-- 
2.43.0


From c1106f9336a698952002b61dee8a87e56fac7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 09/21] fix: portable rawShl copies limbs downwards so that it
 works in place

---
 src/fr_raw_generic.cpp.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index b4b651a..d28795d 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -318,7 +318,7 @@ void <%=name%>_rawShl(<%=name%>RawElement r, <%=name%>RawElement a, uint64_t b)
     uint64_t word_shift = b / 64;
     uint64_t word_count = <%=name%>_N64 - word_shift;
 
-    mpn_copyi(r + word_shift, a, word_count);
+    mpn_copyd(r + word_shift, a, word_count);
     std::memset(r, 0, word_shift * sizeof(uint64_t));
 
     if (bit_shift)
-- 
2.43.0


From 4ec7b6390375c785c8d510709e2bfefed5a7df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 10/21] fix: ARM64 rawNegLS adds q back when a subtraction
 borrows

---
 src/armbuilder.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 57ad918..ad991f3 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1022,9 +1022,9 @@ class Gen_rawNegLS extends GenBase {
         if (this.width % 2) this.op_empty();
 
         this.op("cset", "x3", "cs");
-        this.op("orr",  "x3", "x3", "x2");
+        this.op("and",  "x3", "x3", "x2");
         this.op_empty();
-        this.op("cbz", "x3", this.makeLabel("done"));
+        this.op("cbnz", "x3", this.makeLabel("done"));
     }
 }
 
-- 
2.43.0


From dd20ff64967c12ec7097dd349c97c2a226149ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 11/21] fix: ARM64 rawShl of a one limb field reduces its
 result

---
 src/armbuilder.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index ad991f3..5bd0f58 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1176,6 +1176,11 @@ class Gen_rawShl extends GenBase {
         if (this.width === 1) {
             this.op("ldr", "x3", "[x1]");
             this.op("lsl", "x3", "x3", "x2");
+            this.genLboMask(new Reg(3), new Reg(4));
+            this.op("adr", "x4", this.getVarName("rawq"));
+            this.op("ldr", "x4", "[x4]");
+            this.op("subs", "x4", "x3", "x4");
+            this.op("csel", "x3", "x4", "x3", "hs");
             this.op("str", "x3", "[x0]");
             this.op("ret");
             return;
-- 
2.43.0


From a6976e6c0efd920fbfc1df594fba06148e17adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 12/21] fix: ARM64 rawFromMontgomery does not read beyond its
 operand

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 5bd0f58..7527aa3 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1521,7 +1521,7 @@ class Gen_rawMul1 extends GenBase {
                 this.genLoadVar(this.b1, 1);
             }
         } else {
-            this.genLoadVar(this.r1, 1);
+            this.genLoadVar(this.r1.slice(0, this.width), 1);
 
             let lastR = this.r1[this.width];
             this.op("mov", lastR, "xzr");
-- 
2.43.0


From 81ef1ffa3aea5f8be9b8b6d82d6842f1d68ab056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 13/21] fix: F2Field::square used the wrong sum for
 non-residues other than -1

---
 c/f2field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/f2field.cpp b/c/f2field.cpp
index 3a250ed..7a4aff0 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -162,7 +162,7 @@ void F2Field<BaseField>::square(Element &r, Element &e1) {
 
         F.add(tmp1, e1.a, e1.b);
         mulByNr(tmp2, e1.b);
-        F.add(tmp2, e1.a, tmp1);
+        F.add(tmp2, e1.a, tmp2);
 
         F.mul(tmp1, tmp1, tmp2);
 
-- 
2.43.0


From 62f64bb6c9a68a753761fab2b55587c61bded326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 14/21] fix: F12Field::exp of a result that is also the base

---
 c/f12field.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index ee5e231..5b439df 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -95,14 +95,17 @@ void F12Field<BaseField>::mulScalar(Element &r, Element &a, typename BaseField::
 template <typename BaseField>
 void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned int scalarSize) {
 
-    copy(r, one());
     Element t;
+    Element base;
+
+    copy(base, a); // base and result can be the same
+    copy(r, one());
 
     for (int i=scalarSize*8-1; i>=0; i--) {
         square(t, r);
 
         if ( BIT_IS_SET(scalar, i) ) {
-            mul(r, t, a);
+            mul(r, t, base);
         } else {
             copy(r, t);
         }
-- 
2.43.0


From 82f6475161a90459436bf51baf7b8276117cc4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 15/21] fix: a finite point does not equal a point at infinity
 with zero coordinates

---
 c/curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index af35ebf..b9131bb 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -462,6 +462,7 @@ bool Curve<BaseField>::eq(Point &p1, Point &p2) {
 #endif // COUNT_OPS
 
     if (isZero(p1)) return  isZero(p2);
+    if (isZero(p2)) return false;
 
     // U1 = X1*ZZ2
     typename BaseField::Element U1;
-- 
2.43.0


From 211782ceb22368e02f58e7b4411f1f36ad0ea973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:09 +0000
Subject: [PATCH 16/21] fix: negation of the affine point at infinity into a
 projective point is infinity

---
 c/curve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index b9131bb..39d3c63 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -590,6 +590,10 @@ void Curve<BaseField>::neg(Point &r, Point &a) {
 
 template <typename BaseField>
 void Curve<BaseField>::neg(Point &r, PointAffine &a) {
+    if (isZero(a)) {
+        copy(r, a);
+        return;
+    }
     F.copy(r.x, a.x);
     F.neg(r.y, a.y);
     F.copy(r.zz, F.one());
-- 
2.43.0


From d2599e405cdb16771778cb062c729dcb2bfc5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 17/21] fix: removePars looks at the whole text between the
 outer brackets

---
 c/splitparstr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index c081969..eb347c1 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -7,7 +7,7 @@ void removePars(std::string &s) {
 
     int ins = 0;
     int minIns = 0;
-    for (unsigned int i=ns; i<s.length()-ns*2; i++) {
+    for (unsigned int i=ns; i<s.length()-ns; i++) {
         if (s[i] == '(') ins ++; 
         if (s[i] == ')') ins --; 
         if (ins < minIns) minIns = ins;
-- 
2.43.0


From 2a1660724599ac15522b494ad4c96245e24eda79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 18/21] fix: splitParStr of a single item returns it instead of
 recursing forever

---
 c/splitparstr.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index eb347c1..1351f07 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -47,6 +47,7 @@ std::vector<std::string> splitParStr(std::string s) {
     res.push_back(accS);
     if (res.size()==1) {
         removePars(res[0]);
+        if (res[0] == s) return res; // a single item, nothing left to remove
         return splitParStr(res[0]);
     } else {
         return res;
-- 
2.43.0


From 19481056264efacd64114eed4938554001af8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 19/21] fix: MSM lost the carry out of the last chunk of a
 scalar with its top bits set

---
 c/msm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index bdfdb69..7d3d8ca 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -35,7 +35,7 @@ private:
     }
 
     uint64_t calcChunkCount(uint64_t scalarSize, uint64_t bitsPerChunk) const {
-        return ((scalarSize * 8 - 1 ) / bitsPerChunk) + 1;
+        return ((scalarSize * 8 + 1) / bitsPerChunk) + 1;  // room for the last carry and its sign
     }
 
     uint64_t calcBucketCount(uint64_t bitsPerChunk) const {
@@ -44,6 +44,7 @@ private:
 
     uint64_t getBucketIndex(uint64_t scalarIdx, uint64_t chunkIdx) const {
         uint64_t bitStart = chunkIdx*bitsPerChunk;
+        if (bitStart >= scalarSize*8) return 0;
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
-- 
2.43.0


From a8af8e7ea06d2708f5a84a5bb975906e64c1a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 20/21] fix: multi-scalar multiplication read past the scalars
 when they are shorter than 8 bytes

---
 c/msm.hpp      | 7 +++++--
 c/multiexp.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index 7d3d8ca..6c4cd13 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -2,6 +2,7 @@
 #define MSM_HPP
 
 #include <cstdint>
+#include <cstring>
 
 template <typename Curve, typename BaseField>
 class MSM {
@@ -48,11 +49,13 @@ private:
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
-        if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+        const uint64_t nBytes = scalarSize < 8 ? scalarSize : 8;
+        if (byteStart > scalarSize - nBytes) byteStart = scalarSize - nBytes;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
         uint64_t shift = bitStart - byteStart*8;
-        uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+        uint64_t v = 0;
+        memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, nBytes);
 
         v = v >> shift;
         v = v & ( ((uint64_t)1 << efectiveBitsPerChunk) - 1);
diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4db20f2..0008e9b 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -27,10 +27,12 @@ uint64_t ParallelMultiexp<Curve>::getChunk(uint64_t scalarIdx, uint64_t chunkIdx
     uint64_t bitStart = chunkIdx*bitsPerChunk;
     uint64_t byteStart = bitStart/8;
     uint64_t efectiveBitsPerChunk = bitsPerChunk;
-    if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+    const uint64_t nBytes = scalarSize < 8 ? scalarSize : 8;
+    if (byteStart > scalarSize - nBytes) byteStart = scalarSize - nBytes;
     if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
     uint64_t shift = bitStart - byteStart*8;
-    uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+    uint64_t v = 0;
+    memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, nBytes);
     v = v >> shift;
     v = v & ( (1 << efectiveBitsPerChunk) - 1);
     return uint64_t(v);
-- 
2.43.0


From 62f52c7c96dc9bcc0e3c1ac20e50b10e25be9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 21/21] fix: multiexp took every pair of a column of length
 zero

---
 c/multiexp.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 0008e9b..f420425 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -61,9 +61,7 @@ template <typename Curve>
 void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX, uint64_t size[]) {
     #pragma omp parallel for
     for(uint64_t i=0; i<n; i++) {
-        uint mod = i % nX;
-        uint len = size[mod] - 1;
-        if (i < 0 || i > len * nX + mod) continue;
+        if (i / nX >= size[i % nX]) continue;
         if (g.isZero(bases[i])) continue;
 #ifdef _OPENMP
         int idThread = omp_get_thread_num();
@@ -206,7 +204,7 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
     scalarSize = _scalarSize;
     n = _n;
 
-    if (n == 0) {
+    if (n == 0 || (n == 1 && x[0] == 0)) {
         g.copy(r, g.zero());
         return;
     }
-- 
2.43.0

