From 57f4dd638a674279a15ad98551870a8f949aa2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:04 +0000
Subject: [PATCH 1/3] fix: PARSENUM: reject NaN, which is not between any
 bounds

---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From d9bf9c560bc1c452f284c152241fd4ef5261bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:04 +0000
Subject: [PATCH 2/3] fix: PARSENUM: reject negative numbers for unsigned types

---
 libcperciva/util/parsenum.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..978d48c 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -2,6 +2,7 @@
 #define PARSENUM_H_
 
 #include <assert.h>
+#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <math.h>
@@ -180,17 +181,25 @@ static inline uintmax_t
 parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
     uintmax_t typemax, int base, int trailing)
 {
+	const char * p;
 	char * eptr;
 	uintmax_t val;
 
 	/* Sanity check. */
 	assert(s != NULL);
 
+	/* Find the sign, if there is one. */
+	for (p = s; isspace((unsigned char)(*p)); p++)
+		continue;
+
 	val = strtoumax(s, &eptr, base);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
+	else if ((*p == '-') && (val != 0))
+		/* strtoumax(3) wraps negative numbers around. */
+		errno = ERANGE;
 	return (val);
 }
 
-- 
2.43.0


From f92df5378c12b1094b0545e123c685e747f5a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:36 +0000
Subject: [PATCH 3/3] fix: spiped: do not shut down a dispatcher which was
 never started

---
 spiped/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spiped/main.c b/spiped/main.c
index 60110b2..80b3f10 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -391,7 +391,8 @@ main(int argc, char * argv[])
 	exit(0);
 
 err7:
-	dispatch_shutdown(dispatch_cookie);
+	if (dispatch_cookie != NULL)
+		dispatch_shutdown(dispatch_cookie);
 err6:
 	if ((s != -1) && close(s))
 		warnp("close");
-- 
2.43.0

