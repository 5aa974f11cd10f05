From 45a658d6377c3e70fd3ab9c7c4ab106e4dba8949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 01/44] fix: prm_is_prime: 1 is not a prime, and no overflow
 above 65535*65535

---
 maa/prime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/prime.c b/maa/prime.c
index abe82fa..a69da2e 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -43,8 +43,9 @@
 int prm_is_prime(unsigned int value)
 {
 	unsigned int divisor = 3;
-	unsigned int square  = divisor * divisor;
+	uint64_t     square  = divisor * divisor;
 
+	if (value < 2)    return 0;
 	if (value == 2)   return 1;
 	if (value == 3)   return 1;
 	if (!(value & 1)) return 0;	/* even */
-- 
2.43.0


From 86dbafe1607f6b28ca623dd9fbc8cae38451683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 02/44] fix: bit_tst: bits above 31 were lost in the conversion
 to int

---
 maa/bit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/bit.c b/maa/bit.c
index 20dc204..d1b7299 100644
--- a/maa/bit.c
+++ b/maa/bit.c
@@ -50,7 +50,7 @@ void bit_clr(unsigned long *flags, int bit)
 
 int bit_tst(unsigned long *flags, int bit)
 {
-	return (*flags & (1UL << bit));
+	return (*flags & (1UL << bit)) != 0;
 }
 
 /* \doc Return a count of the number of bits set in |flags|. */
-- 
2.43.0


From 3b7506534ceccce12ad2d89bc156f7ee257f383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 03/44] fix: b64_decode_buf: values of 2^31 and above were
 decoded wrongly

---
 maa/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base64.c b/maa/base64.c
index b864949..2ab9007 100644
--- a/maa/base64.c
+++ b/maa/base64.c
@@ -109,7 +109,7 @@ unsigned long b64_decode_buf(const char *val, size_t len)
 			err_internal(__func__,
 						 "Illegal character in base64 value: `%c'", val[i]);
 
-		v |= tmp << offset;
+		v |= (unsigned long)tmp << offset;
 		offset += 6;
 	}
 
-- 
2.43.0


From fb1925fed344a00db5ac359758f83324240e35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 04/44] fix: b26_decode: seven digits overflowed int

---
 maa/base26.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base26.c b/maa/base26.c
index 9e94027..4eb03b4 100644
--- a/maa/base26.c
+++ b/maa/base26.c
@@ -82,7 +82,7 @@ unsigned long b26_decode(const char *val)
 {
 	unsigned long v = 0;
 	int           i;
-	int           offset = 1;
+	unsigned long offset = 1;
 	int           len = strlen(val);
 
 	for (i = len - 1; i >= 0; i--) {
-- 
2.43.0


From 66449a05c70074a20e9a07612b0a86f68ca544b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 05/44] fix: stk_push: check for a failed allocation

---
 maa/stack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/stack.c b/maa/stack.c
index 14c03a3..8cfa79c 100644
--- a/maa/stack.c
+++ b/maa/stack.c
@@ -71,7 +71,7 @@ void stk_destroy(stk_Stack stack)
 void stk_push(stk_Stack stack, void *datum)
 {
 	stackType s = (stackType)stack;
-	dataType  d = (dataType)malloc(sizeof(struct data));
+	dataType  d = (dataType)xmalloc(sizeof(struct data));
 
 	d->datum = datum;
 	d->prev  = s->data;
@@ -92,7 +92,7 @@ void *stk_pop(stk_Stack stack)
 		datum = __UNCONST(old->datum); /* Discard const */
 		s->data = s->data->prev;
 
-		free(old);
+		xfree(old);
 	}
 
 	return datum;
-- 
2.43.0


From 0651c8b10d3cc993dd42be9ed3f3a69653538ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 06/44] fix: lst_truncate: NULL dereference when keeping two or
 more elements

---
 maa/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/list.c b/maa/list.c
index e9d7c14..48cd7c6 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -290,7 +290,7 @@ void lst_truncate(lst_List list, unsigned int length)
 		l->head = l->tail = NULL;
 	} else {
 		/* Find new end of list */
-		for (i = 1, d = l->head; i < length && d; d = d->next);
+		for (i = 1, d = l->head; i < length && d; i++, d = d->next);
    
 		/* Remember start of remainder of list */   
 		next = d->next;		
-- 
2.43.0


From 15c0640578d6253768c035c7b7404a4c1e31a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 07/44] fix: mem_strncpy: terminate the copy, do not read past
 len bytes

---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index de2e2da..4682833 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -151,7 +151,8 @@ const char *mem_strncpy(mem_String info,
 	i->growing_size = 0;
 
 	str = xmalloc(len + 1);
-	memcpy(str, string, len + 1);
+	memcpy(str, string, len);
+	str[len] = 0;
 	stk_push(i->allocated, str);
 
 	return str;
-- 
2.43.0


From fd6755f496738cb21664b73c732e44b5d6137491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 08/44] fix: str_pool_finish: return the pointer already in the
 pool for an equal string

---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index 97cfe97..3e2bb20 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -221,9 +221,11 @@ const char *str_pool_finish( str_Pool pool )
 {
 	poolInfo   p      = (poolInfo)pool;
 	const char *datum;
+	const char *old;
 
 	mem_grow( p->string, "\0", 1 ); /* guarantee null termination */
 	datum = mem_finish( p->string );
+	if ((old = hsh_retrieve( p->hash, datum ))) return old;
 	hsh_insert( p->hash, datum, datum );
 
 	return datum;
-- 
2.43.0


From 353c997f9668777fd0faa929a8100e10fe239583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 09/44] fix: str_exists, str_copyn, str_unique: initialize the
 global pool

---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index 3e2bb20..25275a0 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -289,6 +289,7 @@ static void _str_check_global( void )
 
 int str_exists( const char *s )
 {
+	_str_check_global();
 	return str_pool_exists( global, s );
 }
 
@@ -337,6 +338,7 @@ const char *str_copy( const char *s )
 
 const char *str_copyn( const char *s, int length )
 {
+	_str_check_global();
 	return str_pool_copyn( global, s, length );
 }
 
-- 
2.43.0


From 74a2c0a9f75fd5d912eac1464f27977dc00b3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 10/44] fix: str_pool_iterate: stopping early left the pool
 readonly

---
 maa/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index 25275a0..1aea49a 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -120,8 +120,10 @@ int str_pool_iterate(
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
-		if ((*iterator) ((const char *) key))
+		if ((*iterator) ((const char *) key)){
+			HSH_ITERATE_END (hash);
 			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From d00f4b4a2dd9012cd738011ef48d1197bcf09b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 11/44] fix: set_add, set_del: use after free when both
 arguments are the same set

---
 maa/set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index c338d15..42cbc9a 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -499,6 +499,8 @@ set_Set set_add(set_Set set1, set_Set set2)
 		err_fatal(__func__,
 				  "Sets do not have identical comparison functions");
 
+	if (t1 == t2) return set1;	/* inserting may rehash t2 */
+
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
@@ -537,9 +539,12 @@ set_Set set_del(set_Set set1, set_Set set2)
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
+			bucketType next;
 	 
-			for (pt = t2->buckets[i]; pt; pt = pt->next)
+			for (pt = t2->buckets[i]; pt; pt = next) {
+				next = pt->next; /* pt is freed if t1 == t2 */
 				set_delete(set1, pt->elem);
+			}
 		}
 	}
 
-- 
2.43.0


From 22380940aaf6de2acade88773b37ffe03b3c183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 12/44] fix: dbg_test, flg_test: flags of set 2 were looked up
 in set 3

---
 maa/debug.c | 2 +-
 maa/flags.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index bff990b..0291652 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -38,7 +38,7 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                         \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30) & 1)                                  \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
 			 : (((flags)>>30)                                  \
diff --git a/maa/flags.c b/maa/flags.c
index 3a4ab84..2d67908 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -37,7 +37,7 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                                     \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30) & 1)                                  \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
 			 : (((flags)>>30)                                  \
-- 
2.43.0


From dc25e4656613454794b935695771f213851d142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 13/44] fix: dbg_register, flg_register: refuse a flag that is
 already registered

---
 maa/debug.c | 1 +
 maa/flags.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/debug.c b/maa/debug.c
index 0291652..295e9a9 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -100,6 +100,7 @@ void _dbg_register(dbg_Type flag, const char *name)
 				  _dbg_name(flag),
 				  name);
 
+	usedFlags[ flag >> 30 ] |= flag;
 	hsh_insert(hash, name, (void *)flag);
 }
 
diff --git a/maa/flags.c b/maa/flags.c
index 2d67908..2eb3116 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -100,6 +100,7 @@ void flg_register(flg_Type flag, const char *name)
 				  flg_name(flag),
 				  name);
 
+	usedFlags[ flag >> 30 ] |= flag;
 	hsh_insert(hash, name, (void *)flag);
 }
 
-- 
2.43.0


From b25c34e7795040a2b6fdd732fd354882f1cce191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 14/44] fix: dbg_set: refuse names that are not [+-]flag

---
 maa/debug.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index 295e9a9..28a3a04 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -142,9 +142,8 @@ void dbg_set(const char *name)
 	}
    
 	if (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {
-		if (!(flag = (dbg_Type)hsh_retrieve(hash, name+1))
-			&& *name != '-'
-			&& *name != '+') {
+		if ((*name != '-' && *name != '+')
+			|| !(flag = (dbg_Type)hsh_retrieve(hash, name+1))) {
 	 
 			fprintf(stderr, "Valid debugging flags are:\n");
 			dbg_list(stderr);
-- 
2.43.0


From 6edcf01fa0e306d5a4a27e2f86e07cb28339ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 15/44] fix: timers lost the fraction of a second

---
 maa/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 23ec520..3175154 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -82,7 +82,7 @@ void tim_stop(const char *name)
 
 #define DIFFTIME(now,then)							\
 	(((now).tv_sec - (then).tv_sec)					\
-	 + ((now).tv_usec - (then).tv_usec)/1000000)
+	 + ((now).tv_usec - (then).tv_usec)/1000000.0)
 
 	_tim_check();
 	gettimeofday(&real, NULL);
-- 
2.43.0


From 19a228d5d757b01d0bae2b2f9628bc0de93d6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 16/44] fix: src_destroy: a source manager created again wrote
 past its line table

---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index 8bf4015..639305d 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -79,6 +79,8 @@ void src_destroy(void)
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
+	Count = Used = 0;
+	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From 6b399dcb3a8d20df1a9dfccf095ce0684e1163ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 17/44] fix: src_parse_error: buffer overflow and read past the
 end of the message

---
 maa/source.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index 639305d..a992742 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -312,7 +312,7 @@ void src_print_stats(FILE *stream)
 static void _src_print_yyerror(FILE *str, const char *message)
 {
 	const char *pt;
-	char       buf[1024];
+	char       *buf;
 	char       *b;
 	const char *concrete;
 
@@ -322,6 +322,7 @@ static void _src_print_yyerror(FILE *str, const char *message)
 		fprintf(str, "(null)");
 		return;
 	}
+	buf = alloca(strlen(message) + 1);
 
 	for (pt = message; *pt; pt++) {
 		if (*pt == '`') {		/* clean up character constants */
@@ -335,6 +336,7 @@ static void _src_print_yyerror(FILE *str, const char *message)
 					fprintf(str, "`%s'", concrete);
 				else
 					fprintf(str, "`%s'", buf);
+				if (!*pt) break;	/* no closing quote */
 			} else
 				putc(*pt, str);
 		} else
-- 
2.43.0


From 00a0641fd1853fc5f0d028250f5d7f8dbda82021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 18/44] fix: maa_shutdown: the symbol table of prs_concrete
 kept pointers into the freed string pool

---
 maa/maa.c            | 1 +
 maa/parse-concrete.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/maa.c b/maa/maa.c
index 3206cd8..43d9df8 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,6 +56,7 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
+	_prs_shutdown();
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
diff --git a/maa/parse-concrete.c b/maa/parse-concrete.c
index f591732..5e21075 100644
--- a/maa/parse-concrete.c
+++ b/maa/parse-concrete.c
@@ -43,4 +43,5 @@ const char *prs_concrete(const char *symbol)
 void _prs_shutdown(void)
 {
 	if (_prs_hash) hsh_destroy(_prs_hash);
+	_prs_hash = NULL;
 }
-- 
2.43.0


From d80e9c8bed5e0a7c87eea6319e53ac079616b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 19/44] fix: _pr_shutdown: do not kill a pid which was already
 waited for

---
 maa/pr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index e56e061..9f284b7 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -98,8 +98,11 @@ void _pr_shutdown(void)
 		for (i = 0; i < max_fd(); i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
-				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
-				pr_wait(_pr_objects[i].pid);
+				/* signal it only if it is still our child */
+				if (waitpid(_pr_objects[i].pid, NULL, WNOHANG) == 0) {
+					kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
+					pr_wait(_pr_objects[i].pid);
+				}
 				_pr_objects[i].pid = 0;
 			}
 		}
-- 
2.43.0


From eab5ffc572b89bdfc89a432b77d309d0d0d27116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 20/44] fix: pr_readwrite: with no input the filter never saw
 end of file

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index 9f284b7..79bcc91 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -319,6 +319,11 @@ int pr_readwrite(int in, int out,
 
 	n = max(in, out) + 1;
 
+	if (!inLen) {			/* the filter must see the end of its input */
+		pr_close_nowait(in);
+		n = out + 1;
+	}
+
 	for (;;) {
 		tv.tv_sec  = 5;
 		tv.tv_usec = 0;
-- 
2.43.0


From 9962458d366bfa07289e539c1d8798295bda7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 21/44] fix: pr_readwrite: a full output buffer was taken for
 the end of the output

---
 maa/pr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index 79bcc91..bfe1fb7 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -298,6 +298,7 @@ int pr_readwrite(int in, int out,
 	int            count;
 	int            retval;
 	int            status;
+	char           extra;
    
 	if ((flags = fcntl(in, F_GETFL)) < 0)
 		err_fatal_errno(__func__, "Can't get flags for output stream");
@@ -367,7 +368,9 @@ int pr_readwrite(int in, int out,
 						}
 					}
 				}
-				if ((count = read(out, outPt, outMaxLen)) <= 0) {
+				/* with the buffer full, a byte more tells overflow from end of file */
+				if ((count = read(out, outMaxLen ? outPt : &extra,
+								  outMaxLen ? outMaxLen : 1)) <= 0) {
 					if (!count) {
 						if (inLen)
 							err_fatal(__func__,
-- 
2.43.0


From 81beff12416d531d5bfb3ca04a0ba3d1e8e9b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 22/44] fix: hsh_insert, set_insert and others: the handle is
 checked before it is used

---
 maa/hash.c | 9 ++++++---
 maa/set.c  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 72ff75f..5f6474e 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -219,10 +219,11 @@ int hsh_insert(
 	const void *datum)
 {
 	tableType     t         = (tableType)table;
-	unsigned long hashValue = t->hash(key);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_hsh_check(t, __func__);
+	hashValue = t->hash(key);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly table");
    
@@ -268,9 +269,10 @@ int hsh_insert(
 int hsh_delete(hsh_HashTable table, const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly table");
 
@@ -301,9 +303,10 @@ const void *hsh_retrieve(hsh_HashTable table,
 						 const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
diff --git a/maa/set.c b/maa/set.c
index 42cbc9a..7b4a0d5 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -226,10 +226,11 @@ static void _set_insert(set_Set set, unsigned long hash, const void *elem)
 int set_insert(set_Set set, const void *elem)
 {
 	setType       t         = (setType)set;
-	unsigned long hashValue = t->hash(elem);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_set_check(t, __func__);
+	hashValue = t->hash(elem);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly set");
    
@@ -274,9 +275,10 @@ int set_insert(set_Set set, const void *elem)
 int set_delete(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly set");
    
@@ -305,9 +307,10 @@ int set_delete(set_Set set, const void *elem)
 int set_member(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
-- 
2.43.0


From 96d8ed7799734ecdfe8d42ac31e3a4bafc36b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 23/44] fix: mem_get_object: the handle is checked before it is
 used

---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index 4682833..faf9541 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -304,10 +304,11 @@ void mem_destroy_objects(mem_Object info)
 void *mem_get_object(mem_Object info)
 {
 	objectInfo  i   = (objectInfo)info;
-	void       *obj = stk_pop(i->stack);
+	void       *obj;
 
 	_mem_magic_objects(i, __func__);
 
+	obj = stk_pop(i->stack);
 	if (!obj) {
 		obj = xmalloc(i->size);
 		stk_push(i->allocated, obj);
-- 
2.43.0


From b622b8f45f75773a8f46cfc6be4a95bbac016ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 24/44] fix: pr_open: keep the child's streams right when
 descriptors 0-2 are in use for something else

With descriptor 0, 1 or 2 closed in the caller, pipe ends and files could
get these numbers and were closed or overwritten while the child's streams
were set up.
---
 maa/pr.c | 54 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index bfe1fb7..63d88e3 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -112,6 +112,20 @@ void _pr_shutdown(void)
 }
 
 
+/* |_pr_move| keeps a descriptor the child needs clear of the standard
+   streams, which are about to be replaced. */
+
+static void _pr_move(int *fd)
+{
+	int n;
+
+	if (*fd <= STDERR_FILENO
+		&& (n = fcntl(*fd, F_DUPFD, STDERR_FILENO + 1)) >= 0) {
+		close(*fd);
+		*fd = n;
+	}
+}
+
 int pr_open(const char *command, int flags, int *infd, int *outfd, int *errfs)
 {
 	return pr_open2(command, NULL, flags, infd, outfd, errfs);
@@ -166,9 +180,21 @@ int pr_open2(const char *command, void(*callback)(void),
 		if (callback)
 			callback();
 
-#define CHILD(CREATE,USE,fds,writefd,readfd,fd,FILENO,flag)		\
+#define MOVE(CREATE,USE,fds,end,fd)								\
+		if (flags & CREATE) {									\
+			close(fds[!end]);									\
+			_pr_move(&fds[end]);								\
+		} else if ((flags & USE) && fd && *fd)					\
+			_pr_move(fd);
+
+		MOVE(PR_CREATE_STDIN,  PR_USE_STDIN,  fdin,  0, infd);
+		MOVE(PR_CREATE_STDOUT, PR_USE_STDOUT, fdout, 1, outfd);
+		MOVE(PR_CREATE_STDERR, PR_USE_STDERR, fderr, 1, errfd);
+
+#undef MOVE
+
+#define CHILD(CREATE,USE,fds,readfd,fd,FILENO,flag)				\
 		if (flags & CREATE) {									\
-			close(fds[writefd]);                                \
 			dup2(fds[readfd], FILENO);                          \
 			close(fds[readfd]);                                 \
 		} else if (flags & USE) {								\
@@ -176,28 +202,38 @@ int pr_open2(const char *command, void(*callback)(void),
 				dup2(*fd, FILENO);								\
 				close(*fd);										\
 			} else {											\
-				if ((null = open("/dev/null", flag)) >= 0) {	\
+				if ((null = open("/dev/null", flag)) >= 0		\
+					&& null != FILENO) {						\
 					dup2(null, FILENO);							\
 					close(null);								\
 				}												\
 			}													\
 		}
       
-		CHILD(PR_CREATE_STDIN, PR_USE_STDIN, fdin, 1, 0, infd,
+		CHILD(PR_CREATE_STDIN, PR_USE_STDIN, fdin, 0, infd,
 			  STDIN_FILENO, O_RDONLY);
-		CHILD(PR_CREATE_STDOUT, PR_USE_STDOUT, fdout, 0, 1, outfd,
+		CHILD(PR_CREATE_STDOUT, PR_USE_STDOUT, fdout, 1, outfd,
 			  STDOUT_FILENO, O_WRONLY);
-		CHILD(PR_CREATE_STDERR, PR_USE_STDERR, fderr, 0, 1, errfd,
+		CHILD(PR_CREATE_STDERR, PR_USE_STDERR, fderr, 1, errfd,
 			  STDERR_FILENO, O_WRONLY);
       
 #undef CHILD
 
-		if (flags & PR_STDERR_TO_STDOUT)
-			dup2(STDOUT_FILENO, STDERR_FILENO);
-      
+		/* the library's own, unless replaced above */
+		if (flags & (PR_CREATE_STDIN | PR_USE_STDIN))
+			_pr_objects[STDIN_FILENO].pid = 0;
+		if (flags & (PR_CREATE_STDOUT | PR_USE_STDOUT))
+			_pr_objects[STDOUT_FILENO].pid = 0;
+		if (flags & (PR_CREATE_STDERR | PR_USE_STDERR))
+			_pr_objects[STDERR_FILENO].pid = 0;
+
 		for (i = 0; i < max_fd(); i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
+		if (flags & PR_STDERR_TO_STDOUT)
+			dup2(STDOUT_FILENO, STDERR_FILENO);
+
+
 		execvp(argv[0], argv);
 		_exit(127);
 	}
-- 
2.43.0


From 6f02516e3a242eb2d2ab434620dd23617a8d9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 25/44] fix: pr_spawn: close the library's other pipes in the
 child, as pr_open does

---
 maa/pr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index 63d88e3..b29c77e 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -449,6 +449,7 @@ int pr_spawn(const char *command)
 	int      pid;
 	int      status;
 	int      exitStatus = 0;
+	int      i;
    
 	_pr_init();
 
@@ -460,6 +461,9 @@ int pr_spawn(const char *command)
 		err_fatal_errno(__func__, "Cannot fork");
 
 	if (pid == 0) {		/* child */
+		for (i = 0; i < max_fd(); i++)
+			if (_pr_objects[i].pid > 0) close(i);
+
 		execvp(argv[0], argv);
 		_exit(127);
 	}
-- 
2.43.0


From 5916f862c4716e7104e4fd1e66aaf83d0e4aee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:59 +0000
Subject: [PATCH 26/44] fix: err_fatal_errno without a routine name does not
 print a null pointer

---
 maa/error.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maa/error.c b/maa/error.c
index de30f4d..c7fbcbd 100644
--- a/maa/error.c
+++ b/maa/error.c
@@ -126,8 +126,13 @@ void err_fatal_errno(const char *routine, const char *format, ...)
 
 	va_end(ap);
 
-	fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
-	log_error(routine, "%s: %s", routine, strerror(errorno));
+	if (routine) {
+		fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
+		log_error(routine, "%s: %s", routine, strerror(errorno));
+	} else {
+		fprintf(stderr, ": %s\n", strerror(errorno));
+		log_error(NULL, "%s", strerror(errorno));
+	}
    
 	fflush(stderr);
 	fflush(stdout);
-- 
2.43.0


From 71109a962f22903aae066b37e20550916437b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 27/44] fix: src_print_error prints to stdout when no stream is
 given, as documented

---
 maa/source.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/source.c b/maa/source.c
index a992742..0d81365 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -412,6 +412,7 @@ void src_print_error(FILE *str, src_Type source, const char *format, ...)
 	va_list    ap;
 	sourceType *s = (sourceType *)source;
 
+	if (!str) str = stdout;
 	fflush(str);
 	if (format) {
 		if (s)
-- 
2.43.0


From c52004b177025e2edc0046914ff78c7ff767335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:41 +0000
Subject: [PATCH 28/44] fix: src_create(): a token taken before the first line
 referred to an uninitialised line

---
 maa/source.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/source.c b/maa/source.c
index 0d81365..864be0f 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -67,6 +67,7 @@ void src_create(void)
 	Lines      = xmalloc((Count = INCREMENT) * sizeof(char *));
 	StringHeap = mem_create_strings();
 	InfoHeap   = mem_create_objects(sizeof(struct source));
+	Lines[0]   = "";		/* until the first line is stored */
 }
 
 /* \doc |src_destroy| frees all memory associated with the global source
-- 
2.43.0


From a2a008270cd0f39e094464de414470572220c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 29/44] fix: pr_close(), pr_close_nowait(): a descriptor
 outside the table was looked up beyond its ends

---
 maa/pr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index b29c77e..afba5ed 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -304,7 +304,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (!(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
-- 
2.43.0


From a447102eba2760037ada6cc41956d5caa0006985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 30/44] fix: pr_open(): a file descriptor out of range was
 written beyond the descriptor table

---
 maa/pr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index afba5ed..bacf672 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -247,7 +247,8 @@ int pr_open2(const char *command, void(*callback)(void),
 	} else if (flags & USE) {								\
 		if (fd && *fd) {									\
 			PRINTF(MAA_PR,(name " = %d*; ",*fd));			\
-			_pr_objects[ *fd ].pid =0;						\
+			if (*fd > 0 && *fd < max_fd())					\
+				_pr_objects[ *fd ].pid =0;					\
 			close(*fd);										\
 		}													\
 	}
-- 
2.43.0


From 0b2c6e1b744c613080cbe0acd069922e1a289324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:46 +0000
Subject: [PATCH 31/44] fix: log: the identification and the file name pattern
 lived in the string pool, which maa_shutdown frees while the log stays open

---
 maa/log.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index 563d987..a3717ec 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -45,8 +45,8 @@ static int        inhibitFull = 0;
 static int        logOpen;
 static int        logFacility = LOG_USER;
 
-static const char *logIdent;
-static const char *logFilenameOrig;
+static char       *logIdent;
+static char       *logFilenameOrig;
 static char       *logFilename;
 static char       *logFilenameTmp;
 static int        logFilenameLen;
@@ -182,6 +182,24 @@ void log_syslog(const char *ident)
 	}
 }
 
+/* The log may outlive the global string pool, e.g. after maa_shutdown. */
+
+static void _log_set_ident(const char *ident)
+{
+	char *old = logIdent;
+
+	logIdent = xstrdup(ident);
+	if (old) xfree(old);
+}
+
+static void _log_free_ident(void)
+{
+	if (logIdent && logFd < 0 && !logUserStream) {
+		xfree(logIdent);
+		logIdent = NULL;
+	}
+}
+
 static void log_mkpath(const char *filename)
 {
 	char *tmp = xstrdup(filename);
@@ -227,8 +245,8 @@ void log_file(const char *ident, const char *filename)
 						  "Log file \"%s\" open when trying to open \"%s\"",
 						  logFilename, filename);
 
-		logIdent        = str_find(ident);
-		logFilenameOrig = str_find(filename);
+		_log_set_ident(ident);
+		logFilenameOrig = xstrdup(filename);
 		logFilenameLen  = strlen(filename)*3+1024;
 		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
@@ -251,8 +269,12 @@ void log_file(const char *ident, const char *filename)
 		if (logFilenameTmp) xfree (logFilenameTmp);
 		logFilenameTmp = NULL;
 
+		if (logFilenameOrig) xfree (logFilenameOrig);
+		logFilenameOrig = NULL;
+
 		logFilenameLen = 0;
 
+		_log_free_ident();
 		--logOpen;
 	}
 }
@@ -264,7 +286,7 @@ void log_stream(const char *ident, FILE *stream)
 			err_internal(__func__, "User stream already open");
 
 		logUserStream = stream;
-		logIdent      = str_find(ident);
+		_log_set_ident(ident);
 
 		_log_set_hostname();
 		++logOpen;
@@ -280,6 +302,7 @@ void log_stream(const char *ident, FILE *stream)
 
 		logUserStream = NULL;
 
+		_log_free_ident();
 		--logOpen;
 	}
 }
-- 
2.43.0


From 0200155e139acfa900aa309235fee182b2823bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 32/44] fix: pr_readwrite: descriptors beyond FD_SETSIZE were
 written past the descriptor sets

---
 maa/pr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index bacf672..dc819f2 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -337,6 +337,9 @@ int pr_readwrite(int in, int out,
 	int            status;
 	char           extra;
    
+	if (in >= FD_SETSIZE || out >= FD_SETSIZE)
+		err_fatal(__func__, "File (%d or %d) too large for select(2)", in, out);
+
 	if ((flags = fcntl(in, F_GETFL)) < 0)
 		err_fatal_errno(__func__, "Can't get flags for output stream");
 #ifdef O_NONBLOCK
-- 
2.43.0


From 5e1463746e2375f2926de11fe46ccf546bfc4e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:25 +0000
Subject: [PATCH 33/44] fix: log_file: a name strftime cannot expand (empty, or
 much longer than its pattern) left the file name undefined, or no file open,
 without an error

---
 maa/log.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index a3717ec..b94c3c7 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -226,7 +226,12 @@ static void _log_check_filename(void)
 	time(&t);
 	tm = localtime(&t);
    
-	strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm);
+	if (!strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm)) {
+		if (logFd >= 0) close(logFd);
+		logFd = -1;
+		err_fatal(__func__,
+				  "Log file name \"%s\" is empty or too long", logFilenameOrig);
+	}
 	if (strcmp(logFilenameTmp, logFilename)) {
 		strcpy(logFilename, logFilenameTmp);
 		if (logFd >= 0) close(logFd);
@@ -247,7 +252,7 @@ void log_file(const char *ident, const char *filename)
 
 		_log_set_ident(ident);
 		logFilenameOrig = xstrdup(filename);
-		logFilenameLen  = strlen(filename)*3+1024;
+		logFilenameLen  = strlen(filename)*16+1024; /* %c: 24 */
 		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
 		logFilename[0]  = '\0';
-- 
2.43.0


From 0137ceb99ed7330b9debfbe86f3bd49f9c0e0bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:08 +0000
Subject: [PATCH 34/44] fix: pr_open with one file for several streams

The child closed the file after the first stream, so that with
PR_USE_STDOUT|PR_USE_STDERR and the same descriptor standard error was
inherited instead; the parent closed the descriptor twice.
---
 maa/pr.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index dc819f2..a9d05a6 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -126,6 +126,14 @@ static void _pr_move(int *fd)
 	}
 }
 
+/* |_pr_same| tells whether the file handed over is also handed over for
+   another stream. */
+
+static int _pr_same(const int *fd, const int *fd1, const int *fd2)
+{
+	return fd && ((fd1 && *fd1 == *fd) || (fd2 && *fd2 == *fd));
+}
+
 int pr_open(const char *command, int flags, int *infd, int *outfd, int *errfs)
 {
 	return pr_open2(command, NULL, flags, infd, outfd, errfs);
@@ -142,6 +150,8 @@ int pr_open2(const char *command, void(*callback)(void),
 	int        argc;
 	char       **argv;
 	int        null;
+	int        *usein  = (flags & PR_USE_STDIN)  ? infd  : NULL;
+	int        *useout = (flags & PR_USE_STDOUT) ? outfd : NULL;
 
 	_pr_init();
 
@@ -176,10 +186,24 @@ int pr_open2(const char *command, void(*callback)(void),
 
 	if (pid == 0) {		/* child */
 		int        i;
+		int        use[3];
 
 		if (callback)
 			callback();
 
+		/* each stream gets a descriptor of its own */
+#define OWN(USE,fd,FILENO,fd1,fd2)								\
+		if ((flags & USE) && fd && *fd) {						\
+			use[FILENO] = _pr_same(fd, fd1, fd2)				\
+				? fcntl(*fd, F_DUPFD, STDERR_FILENO + 1) : *fd;	\
+			fd = &use[FILENO];									\
+		}
+
+		OWN(PR_USE_STDERR, errfd, STDERR_FILENO, usein, useout);
+		OWN(PR_USE_STDOUT, outfd, STDOUT_FILENO, usein, NULL);
+
+#undef OWN
+
 #define MOVE(CREATE,USE,fds,end,fd)								\
 		if (flags & CREATE) {									\
 			close(fds[!end]);									\
@@ -238,7 +262,7 @@ int pr_open2(const char *command, void(*callback)(void),
 		_exit(127);
 	}
 	/* parent */
-#define PARENT(CREATE,USE,fds,readfd,writefd,fd,flag,name)  \
+#define PARENT(CREATE,USE,fds,readfd,writefd,fd,flag,name,fd1,fd2)  \
 	if (flags & CREATE) {									\
 		close(fds[ readfd ]);                               \
 		*fd = fds[ writefd ];								\
@@ -249,16 +273,17 @@ int pr_open2(const char *command, void(*callback)(void),
 			PRINTF(MAA_PR,(name " = %d*; ",*fd));			\
 			if (*fd > 0 && *fd < max_fd())					\
 				_pr_objects[ *fd ].pid =0;					\
-			close(*fd);										\
+			if (!_pr_same(fd, fd1, fd2))					\
+				close(*fd);									\
 		}													\
 	}
 
 	PARENT(PR_CREATE_STDIN,  PR_USE_STDIN, fdin,  0, 1,
-		   infd,  "w", "stdin");
+		   infd,  "w", "stdin", NULL, NULL);
 	PARENT(PR_CREATE_STDOUT, PR_USE_STDOUT, fdout, 1, 0,
-		   outfd, "r", "stdout");
+		   outfd, "r", "stdout", usein, NULL);
 	PARENT(PR_CREATE_STDERR, PR_USE_STDERR, fderr, 1, 0,
-		   errfd, "r", "stderr");
+		   errfd, "r", "stderr", usein, useout);
    
 #undef PARENT
    
-- 
2.43.0


From 853f91eb140afa76798d8bc5215f9adaeadd4291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:15 +0000
Subject: [PATCH 35/44] fix: hsh_iterate: lookups made by the callback
 (self-organization) made it skip or repeat entries

---
 maa/hash.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 5f6474e..dd058f1 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -55,6 +55,7 @@ typedef struct table {
 	unsigned long (*hash)(const void *);
 	int           (*compare)(const void *, const void *);
 	int           readonly;
+	int           iterating; /* hsh_iterate calls in progress */
 } *tableType;
 
 static void _hsh_check(tableType t, const char *function)
@@ -95,6 +96,7 @@ static hsh_HashTable _hsh_create(
 	t->hash       = hash ? hash : hsh_string_hash;
 	t->compare    = compare ? compare : hsh_string_compare;
 	t->readonly   = 0;
+	t->iterating  = 0;
 
 	for (i = 0; i < prime; i++) t->buckets[i] = NULL;
 
@@ -317,7 +319,7 @@ const void *hsh_retrieve(hsh_HashTable table,
 			if (!t->compare(pt->key, key)) {
 				if (!prev) {
 					++t->hits;
-				} else if (!t->readonly) {
+				} else if (!t->readonly && !t->iterating) {
 					/* Self organize */
 					prev->next    = pt->next;
 					pt->next      = t->buckets[h];
@@ -349,15 +351,19 @@ int hsh_iterate(hsh_HashTable table,
 
 	_hsh_check(t, __func__);
    
+	++t->iterating;		/* no self-organization meanwhile */
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
 			for (pt = t->buckets[i]; pt; pt = next) {
 				next = pt->next;
-				if (iterator(pt->key, pt->datum))
+				if (iterator(pt->key, pt->datum)) {
+					--t->iterating;
 					return 1;
+				}
 			}
 		}
 	}
+	--t->iterating;
 	return 0;
 }
 
@@ -381,15 +387,19 @@ int hsh_iterate_arg(hsh_HashTable table,
 
 	_hsh_check(t, __func__);
 
+	++t->iterating;		/* no self-organization meanwhile */
 	for (i = 0; i < t->prime; i++) {
 		if (t->buckets[i]) {
 			for (pt = t->buckets[i]; pt; pt = next) {
 				next = pt->next;
-				if (iterator(pt->key, pt->datum, arg))
+				if (iterator(pt->key, pt->datum, arg)) {
+					--t->iterating;
 					return 1;
+				}
 			}
 		}
 	}
+	--t->iterating;
 	return 0;
 }
 
-- 
2.43.0


From cff79e7556983ad4512b2baf8a568e83b7de0386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:15 +0000
Subject: [PATCH 36/44] fix: nested traversals by position, and marks set by
 hand, lost their protection at the end of the inner traversal

---
 maa/hash.c | 24 +++++++++++++-----------
 maa/set.c  | 24 +++++++++++++-----------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index dd058f1..9ada389 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -55,9 +55,12 @@ typedef struct table {
 	unsigned long (*hash)(const void *);
 	int           (*compare)(const void *, const void *);
 	int           readonly;
+	int           positions; /* traversals by position in progress */
 	int           iterating; /* hsh_iterate calls in progress */
 } *tableType;
 
+#define PROTECTED(t) ((t)->readonly || (t)->positions)
+
 static void _hsh_check(tableType t, const char *function)
 {
 	if (!t) err_internal(function, "table is null");
@@ -96,6 +99,7 @@ static hsh_HashTable _hsh_create(
 	t->hash       = hash ? hash : hsh_string_hash;
 	t->compare    = compare ? compare : hsh_string_compare;
 	t->readonly   = 0;
+	t->positions  = 0;
 	t->iterating  = 0;
 
 	for (i = 0; i < prime; i++) t->buckets[i] = NULL;
@@ -176,7 +180,7 @@ static void _hsh_destroy_table(hsh_HashTable table)
 void hsh_destroy(hsh_HashTable table)
 {
 	_hsh_check(table, __func__);
-	if (((tableType)table)->readonly)
+	if (PROTECTED((tableType)table))
 		err_internal(__func__, "Attempt to destroy readonly table");
 	_hsh_destroy_buckets(table);
 	_hsh_destroy_table(table);
@@ -226,7 +230,7 @@ int hsh_insert(
 
 	_hsh_check(t, __func__);
 	hashValue = t->hash(key);
-	if (t->readonly)
+	if (PROTECTED(t))
 		err_internal(__func__, "Attempt to insert into readonly table");
    
 	/* Keep table less than half full */
@@ -275,7 +279,7 @@ int hsh_delete(hsh_HashTable table, const void *key)
 
 	_hsh_check(t, __func__);
 	h = t->hash(key) % t->prime;
-	if (t->readonly)
+	if (PROTECTED(t))
 		err_internal(__func__, "Attempt to delete from readonly table");
 
 	if (t->buckets[h]) {
@@ -319,7 +323,7 @@ const void *hsh_retrieve(hsh_HashTable table,
 			if (!t->compare(pt->key, key)) {
 				if (!prev) {
 					++t->hits;
-				} else if (!t->readonly && !t->iterating) {
+				} else if (!PROTECTED(t) && !t->iterating) {
 					/* Self organize */
 					prev->next    = pt->next;
 					pt->next      = t->buckets[h];
@@ -573,7 +577,7 @@ hsh_Position hsh_init_position(hsh_HashTable table)
 
 	_hsh_check(t, __func__);
 	for (i = 0; i < t->prime; i++) if (t->buckets[i]) {
-			t->readonly = 1;
+			++t->positions;
 			return t->buckets[i];
 		}
 	return NULL;
@@ -592,17 +596,14 @@ hsh_Position hsh_next_position(hsh_HashTable table, hsh_Position position)
 
 	_hsh_check(t, __func__);
    
-	if (!b){
-		t->readonly = 0;
-		return NULL;
-	}
+	if (!b) return NULL;
    
 	if (b->next) return b->next;
 
 	for (h = b->hash % t->prime, i = h + 1; i < t->prime; i++)
 		if (t->buckets[i]) return t->buckets[i];
 
-	t->readonly = 0;
+	if (t->positions) --t->positions;
 	return NULL;
 }
 
@@ -634,7 +635,8 @@ int hsh_readonly(hsh_HashTable table, int flag)
 
 	_hsh_check(t, __func__);
 
-	current     = t->readonly;
+	current     = PROTECTED(t);
 	t->readonly = flag;
+	if (!flag) t->positions = 0;
 	return current;
 }
diff --git a/maa/set.c b/maa/set.c
index 7b4a0d5..aa513aa 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -59,8 +59,11 @@ typedef struct set {
 	unsigned long (*hash)(const void *);
 	int           (*compare)(const void *, const void *);
 	int           readonly;
+	int           positions; /* traversals by position in progress */
 } *setType;
 
+#define PROTECTED(t) ((t)->readonly || (t)->positions)
+
 static void _set_check(setType t, const char *function)
 {
 	if (!t) err_internal(function, "set is null");
@@ -95,6 +98,7 @@ static set_Set _set_create(unsigned long seed,
 	t->hash         = hash ? hash : hsh_string_hash;
 	t->compare      = compare ? compare : hsh_string_compare;
 	t->readonly     = 0;
+	t->positions    = 0;
 
 	for (i = 0; i < t->prime; i++) t->buckets[i] = NULL;
 
@@ -190,7 +194,7 @@ void set_destroy(set_Set set)
 	setType       t = (setType)set;
 
 	_set_check(t, __func__);
-	if (t->readonly)
+	if (PROTECTED(t))
 		err_internal(__func__, "Attempt to destroy readonly set");
 	_set_destroy_buckets(set);
 	_set_destroy_table(set);
@@ -231,7 +235,7 @@ int set_insert(set_Set set, const void *elem)
 
 	_set_check(t, __func__);
 	hashValue = t->hash(elem);
-	if (t->readonly)
+	if (PROTECTED(t))
 		err_internal(__func__, "Attempt to insert into readonly set");
    
 	/* Keep table less than half full */
@@ -279,7 +283,7 @@ int set_delete(set_Set set, const void *elem)
 
 	_set_check(t, __func__);
 	h = t->hash(elem) % t->prime;
-	if (t->readonly)
+	if (PROTECTED(t))
 		err_internal(__func__, "Attempt to delete from readonly set");
    
 	if (t->buckets[h]) {
@@ -321,7 +325,7 @@ int set_member(set_Set set, const void *elem)
 			if (!t->compare(pt->elem, elem)) {
 				if (!prev) {
 					++t->hits;
-				} else if (!t->readonly) {
+				} else if (!PROTECTED(t)) {
 					/* Self organize */
 					prev->next    = pt->next;
 					pt->next      = t->buckets[h];
@@ -417,7 +421,7 @@ set_Position set_init_position(set_Set set)
 
 	_set_check(t, __func__);
 	for (i = 0; i < t->prime; i++) if (t->buckets[i]) {
-			t->readonly = 1;
+			++t->positions;
 			return t->buckets[i];
 		}
 	return NULL;
@@ -436,17 +440,14 @@ set_Position set_next_position(set_Set set, set_Position position)
 
 	_set_check(t, __func__);
    
-	if (!b) {
-		t->readonly = 0;
-		return NULL;
-	}
+	if (!b) return NULL;
    
 	if (b->next) return b->next;
 
 	for (h = b->hash % t->prime, i = h + 1; i < t->prime; i++)
 		if (t->buckets[i]) return t->buckets[i];
 
-	t->readonly = 0;
+	if (t->positions) --t->positions;
 	return NULL;
 }
 
@@ -474,8 +475,9 @@ int set_readonly(set_Set set, int flag)
 
 	_set_check(t, __func__);
 
-	current     = t->readonly;
+	current     = PROTECTED(t);
 	t->readonly = flag;
+	if (!flag) t->positions = 0;
 	return current;
 }
 
-- 
2.43.0


From e689448af88f3035c67f6cfd6bb6c8ba40bf8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:15 +0000
Subject: [PATCH 37/44] fix: sl_iterate: a large list overflowed the stack

---
 maa/sl.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index fddfb56..0e98833 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -384,7 +384,7 @@ int sl_iterate(sl_List list, sl_Iterator f)
 {
 	_sl_List   l = (_sl_List)list;
 	_sl_Entry  pt;
-	int        retcode;
+	int        retcode = 0;
 	int        count;
 	int        i;
 	const void **copy;
@@ -399,17 +399,18 @@ int sl_iterate(sl_List list, sl_Iterator f)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *)); /* too much for the stack */
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i]))) return retcode;
+		if ((retcode = f(copy[i]))) break;
 	}
+	xfree(copy);
 
-	_sl_check(list);
+	if (!retcode) _sl_check(list);
    
-	return 0;
+	return retcode;
 }
 
 /* \doc Iterate |f| over every datum in |list|.  If |f| returns non-zero,
@@ -421,7 +422,7 @@ int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
 {
 	_sl_List   l = (_sl_List)list;
 	_sl_Entry  pt;
-	int        retcode;
+	int        retcode = 0;
 	int        count;
 	int        i;
 	const void **copy;
@@ -436,18 +437,19 @@ int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *)); /* too much for the stack */
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		_sl_check_entry(pt, __func__);
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i], arg))) return retcode;
+		if ((retcode = f(copy[i], arg))) break;
 	}
+	xfree(copy);
 
-	_sl_check(list);
+	if (!retcode) _sl_check(list);
    
-	return 0;
+	return retcode;
 }
 
 /* \doc Dump the internal data structures associated with |list|.  This is
-- 
2.43.0


From ab3dee24fa2a31fcbec13aab7d87f6ba60bcfcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:15 +0000
Subject: [PATCH 38/44] fix: str_findn, str_unique: a large string overflowed
 the stack

---
 maa/string.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/maa/string.c b/maa/string.c
index 1aea49a..2914375 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -313,13 +313,17 @@ const char *str_find( const char *s )
 
 const char *str_findn( const char *s, int length )
 {
-	char *tmp = alloca( sizeof( char ) * (length + 1) );
+	char       *tmp = xmalloc( (size_t)length + 1 ); /* any size, not for the stack */
+	const char *ret;
 
 	_str_check_global();
 	strncpy( tmp, s, length);
 	tmp [ length ] = 0;
 
-	return str_pool_find( global, tmp );
+	ret = str_pool_find( global, tmp );
+	xfree( tmp );
+
+	return ret;
 }
 
 /* \doc |str_copy| acts like |str_pool_copy|, except the global string pool
@@ -374,12 +378,16 @@ const char *str_finish( void )
 const char *str_unique( const char *prefix )
 {
 	static int i       = 1;
-	char       *buf    = alloca( strlen( prefix ) + 100 );
+	char       *buf    = xmalloc( strlen( prefix ) + 100 );
+	const char *ret;
 
 	do {
 		sprintf( buf, "%s%d", prefix, i++ );
 	} while (str_exists( buf ));
-	return str_find( buf );
+	ret = str_find( buf );
+	xfree( buf );
+
+	return ret;
 }
 
 /* \doc |str_destroy| frees all of the memory associated with the global
-- 
2.43.0


From 2b00e603bb78f00e37b9d4ab76f0000bcf4a4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:15 +0000
Subject: [PATCH 39/44] fix: log: the rest of a message was lost when a write
 stopped midway

---
 maa/log.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index b94c3c7..8258e13 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -363,8 +363,16 @@ static void _log_base_va(
 
 		/* writing */
 		if (logFd >= 0) {
+			const char *pt = buf;
+			ssize_t    count;
+
 			_log_check_filename();
-			while (-1 == write (logFd, buf, strlen (buf)) && errno == EINTR);
+			while (*pt) {
+				if ((count = write (logFd, pt, strlen (pt))) > 0)
+					pt += count;
+				else if (!count || errno != EINTR)
+					break;
+			}
 		}
 		if (logUserStream) {
 			fseek(logUserStream, 0L, SEEK_END); /* might help if luser didn't
-- 
2.43.0


From 4ebbcaff4f2977d92d01d8b232261d039ff258ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:32 +0000
Subject: [PATCH 40/44] fix: src_cpp_line: a large line overflowed the stack

---
 maa/source.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index 864be0f..422ea38 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -134,13 +134,14 @@ void src_advance(int length)
 void src_cpp_line(const char *line, int length)
 {
 	arg_List args;
-	char     *tmp = alloca(length + 1);
+	char     *tmp = xmalloc((size_t)length + 1);
 	int      lineno;
 
 	strncpy(tmp, line, length);
 	tmp [ length ] = '\0';
 
 	args = arg_argify(tmp, 0);
+	xfree(tmp);
 
 	if ((lineno = atoi(arg_get(args, 1))) > 0) --lineno;
 	else                                           lineno = 1;
-- 
2.43.0


From 62b167e764eb9e751daa78adefb4ea3f283b6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:32 +0000
Subject: [PATCH 41/44] fix: src_parse_error: a large message overflowed the
 stack

---
 maa/source.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index 422ea38..9670065 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -324,7 +324,7 @@ static void _src_print_yyerror(FILE *str, const char *message)
 		fprintf(str, "(null)");
 		return;
 	}
-	buf = alloca(strlen(message) + 1);
+	buf = xmalloc(strlen(message) + 1);
 
 	for (pt = message; *pt; pt++) {
 		if (*pt == '`') {		/* clean up character constants */
@@ -344,6 +344,8 @@ static void _src_print_yyerror(FILE *str, const char *message)
 		} else
 			putc(*pt, str);
 	}
+
+	xfree(buf);
 }
 
 /* \doc |src_print_line| prints a line of source code, as described by
-- 
2.43.0


From 217fc82ad972bbb25fc03ea9fcb9f819682a2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:32 +0000
Subject: [PATCH 42/44] fix: pr_open: the table of descriptors was overrun when
 the limit of descriptors had been raised since the first call

---
 maa/pr.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index a9d05a6..dc84c2a 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -43,6 +43,7 @@ typedef struct _pr_Obj {
 } *_pr_Obj;
 
 static _pr_Obj _pr_objects = NULL;
+static int     _pr_size    = 0;
 
 #if 0
 static void _pr_check(pr_Object object, const char *function)
@@ -67,27 +68,35 @@ static void _pr_check(pr_Object object, const char *function)
 
 static int max_fd(void)
 {
-	static int maxFd = 0;
-
-	if (maxFd) return maxFd;
+	int maxFd;
 
 	if ((maxFd = sysconf(_SC_OPEN_MAX)) > 0) return maxFd;
 
 #ifdef NOFILE
-	return maxFd = NOFILE;	/* Usually in sys/params.h */
+	return NOFILE;			/* Usually in sys/params.h */
 #else
 # ifdef _NFILE
-	return maxFd = _NFILE;
+	return _NFILE;
 # else
-	return maxFd = 256;		/* best guess */
+	return 256;				/* best guess */
 # endif
 #endif
 }
 
 static void _pr_init(void)
 {
-	if (!_pr_objects)
-		_pr_objects = xcalloc(max_fd(), sizeof(struct _pr_Obj));
+	int     n = max_fd();	/* the limit may have been raised */
+	_pr_Obj objects;
+
+	if (n > _pr_size) {
+		objects = xcalloc(n, sizeof(struct _pr_Obj));
+		if (_pr_objects) {
+			memcpy(objects, _pr_objects, _pr_size * sizeof(struct _pr_Obj));
+			xfree(_pr_objects);
+		}
+		_pr_objects = objects;
+		_pr_size    = n;
+	}
 }
 
 void _pr_shutdown(void)
@@ -95,7 +104,7 @@ void _pr_shutdown(void)
 	int i;
 
 	if (_pr_objects) {
-		for (i = 0; i < max_fd(); i++) {
+		for (i = 0; i < _pr_size; i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
 				/* signal it only if it is still our child */
@@ -108,6 +117,7 @@ void _pr_shutdown(void)
 		}
 		xfree(_pr_objects);
 		_pr_objects = NULL;
+		_pr_size    = 0;
 	}
 }
 
@@ -251,7 +261,7 @@ int pr_open2(const char *command, void(*callback)(void),
 		if (flags & (PR_CREATE_STDERR | PR_USE_STDERR))
 			_pr_objects[STDERR_FILENO].pid = 0;
 
-		for (i = 0; i < max_fd(); i++)
+		for (i = 0; i < _pr_size; i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
 		if (flags & PR_STDERR_TO_STDOUT)
@@ -271,7 +281,7 @@ int pr_open2(const char *command, void(*callback)(void),
 	} else if (flags & USE) {								\
 		if (fd && *fd) {									\
 			PRINTF(MAA_PR,(name " = %d*; ",*fd));			\
-			if (*fd > 0 && *fd < max_fd())					\
+			if (*fd > 0 && *fd < _pr_size)					\
 				_pr_objects[ *fd ].pid =0;					\
 			if (!_pr_same(fd, fd1, fd2))					\
 				close(*fd);									\
@@ -330,7 +340,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= _pr_size || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
@@ -490,7 +500,7 @@ int pr_spawn(const char *command)
 		err_fatal_errno(__func__, "Cannot fork");
 
 	if (pid == 0) {		/* child */
-		for (i = 0; i < max_fd(); i++)
+		for (i = 0; i < _pr_size; i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
 		execvp(argv[0], argv);
-- 
2.43.0


From c259968e5293a96223855a82cb83d2620058f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:32 +0000
Subject: [PATCH 43/44] fix: pr_readwrite: a signal caught while waiting ended
 the program

---
 maa/pr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index dc84c2a..bba04dd 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -415,7 +415,10 @@ int pr_readwrite(int in, int out,
    
 		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
 		{
-			case -1: err_fatal_errno(__func__, "Filter failed"); break;
+			case -1:
+				if (errno != EINTR)
+					err_fatal_errno(__func__, "Filter failed");
+				break;
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
-- 
2.43.0


From 82abad21c68cc81d652e5e6f34909bff6127bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:24 +0000
Subject: [PATCH 44/44] fix: STR_ITERATE_END and str_pool_readonly could not be
 compiled: a traversal broken off left the string pool read-only

---
 maa/export.sym | 1 +
 maa/maa.h      | 4 ++--
 maa/string.c   | 7 +++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/maa/export.sym b/maa/export.sym
index 0bfbb45..4110580 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -118,6 +118,7 @@ str_pool_print_stats
 str_pool_init_position
 str_pool_next_position
 str_pool_get_position
+str_pool_readonly
 str_pool_iterate
 str_pool_iterate_arg
 str_exists
diff --git a/maa/maa.h b/maa/maa.h
index c4c4154..d2fe728 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -389,7 +389,7 @@ extern str_Position  str_pool_next_position(
 extern void str_pool_get_position(
 	str_Position position,
 	char const *const *key);
-#define str_pool_readonly(pool, flag) hsh_readonly ((pool), (flag))
+extern int str_pool_readonly(str_Pool pool, int flag);
 
 extern int        str_pool_iterate(
 	str_Pool pool,
@@ -413,7 +413,7 @@ extern int        str_pool_iterate_arg(
 /* If the STR_ITERATE loop is exited before all elements in the table are
    seen, then STR_ITERATE_END should be called.  Calling this function
    after complete loops does no harm. */
-#define STR_ITERATE_END(T) str_readonly(T,0)
+#define STR_ITERATE_END(T) str_pool_readonly(T,0)
 
 extern int        str_exists(const char *s);
 extern const char *str_find(const char *s);
diff --git a/maa/string.c b/maa/string.c
index 2914375..fa75993 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -176,6 +176,13 @@ void str_pool_get_position (str_Position position, char const * const*key)
 	hsh_get_position (position, (void **) __UNCONST(key));
 }
 
+int str_pool_readonly (str_Pool pool, int flag)
+{
+	poolInfo p = (poolInfo) pool;
+
+	return hsh_readonly (p -> hash, flag);
+}
+
 /* \doc |str_pool_copy| returns a copy of the string, |s|, using memory
    from the string pool object, |pool|.  This can be used for data that is
    known to be unique.  No checks are made for uniqueness, however; and a
-- 
2.43.0

