From 266f0e35eaa4cf6b2fd5414a7eb4a1b59cfa7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 01/16] fix: do not let the compiler remove the clearing of key
 data before it is freed

The memory_set of key data and padded keys directly before memory_free is a dead
store and was optimized away, hence the keys remained in the released memory.
Call memset through a volatile function pointer.
---
 common/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/memory.h b/common/memory.h
index 2275bf2..27ecdf6 100644
--- a/common/memory.h
+++ b/common/memory.h
@@ -117,8 +117,13 @@ extern "C" {
 /* Memory set
  */
 #if defined( HAVE_MEMSET ) || defined( WINAPI )
+/* Note that memset is called via a volatile function pointer, otherwise the compiler
+ * can optimize away clearing memory, such as key data, right before it is freed
+ */
+static void *( * const volatile memory_set_function )( void *, int, size_t ) = memset;
+
 #define memory_set( buffer, value, count ) \
-	memset( (void *) buffer, (int) value, count )
+	memory_set_function( (void *) buffer, (int) value, count )
 #endif
 
 #if defined( __cplusplus )
-- 
2.43.0


From 8f782f35c400dbb12823ef96b45b88d6f4e9e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 02/16] fix: report failure to clean up the EVP message digest
 context

The context free functions set an error when EVP_MD_CTX_cleanup failed
but returned success.
---
 libhmac/libhmac_md5_context.c    | 5 ++++-
 libhmac/libhmac_sha1_context.c   | 5 ++++-
 libhmac/libhmac_sha224_context.c | 5 ++++-
 libhmac/libhmac_sha256_context.c | 5 ++++-
 libhmac/libhmac_sha512_context.c | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 534fa0c..53168fe 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -595,6 +595,7 @@ int libhmac_md5_context_free(
 {
 	libhmac_internal_md5_context_t *internal_context = NULL;
 	static char *function                            = "libhmac_md5_context_free";
+	int result                                       = 1;
 
 	if( context == NULL )
 	{
@@ -627,6 +628,8 @@ int libhmac_md5_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -647,7 +650,7 @@ int libhmac_md5_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index aa623e4..0d0e14c 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -668,6 +668,7 @@ int libhmac_sha1_context_free(
 {
 	libhmac_internal_sha1_context_t *internal_context = NULL;
 	static char *function                             = "libhmac_sha1_context_free";
+	int result                                        = 1;
 
 	if( context == NULL )
 	{
@@ -700,6 +701,8 @@ int libhmac_sha1_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -720,7 +723,7 @@ int libhmac_sha1_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index a46a5fe..a3db1cd 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -627,6 +627,7 @@ int libhmac_sha224_context_free(
 {
 	libhmac_internal_sha224_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha224_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -659,6 +660,8 @@ int libhmac_sha224_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -679,7 +682,7 @@ int libhmac_sha224_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 2b6f1cf..6fb8676 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -627,6 +627,7 @@ int libhmac_sha256_context_free(
 {
 	libhmac_internal_sha256_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha256_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -659,6 +660,8 @@ int libhmac_sha256_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -679,7 +682,7 @@ int libhmac_sha256_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7bb7b14..846a0de 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -663,6 +663,7 @@ int libhmac_sha512_context_free(
 {
 	libhmac_internal_sha512_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha512_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -695,6 +696,8 @@ int libhmac_sha512_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -715,7 +718,7 @@ int libhmac_sha512_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH )
-- 
2.43.0


From 08525419c188d885d005b1fea07222534c5aa872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 03/16] fix: clear the OpenSSL message digest context before it
 is freed

The chaining value of the low-level OpenSSL contexts still equalled the hash of
the key after an HMAC was calculated with a key larger than the block size.
---
 libhmac/libhmac_md5_context.c    | 15 ++++++++++++++-
 libhmac/libhmac_sha1_context.c   | 15 ++++++++++++++-
 libhmac/libhmac_sha224_context.c | 15 ++++++++++++++-
 libhmac/libhmac_sha256_context.c | 15 ++++++++++++++-
 libhmac/libhmac_sha512_context.c | 15 ++++++++++++++-
 5 files changed, 70 insertions(+), 5 deletions(-)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 53168fe..88fceb6 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -614,9 +614,22 @@ int libhmac_md5_context_free(
 		*context         = NULL;
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH )
-		/* No additional clean up necessary
+		/* Make sure no data, such as a hashed key, remains in memory
 		 */
+		if( memory_set(
+		     internal_context,
+		     0,
+		     sizeof( libhmac_internal_md5_context_t ) ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear context.",
+			 function );
 
+			result = -1;
+		}
 #elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_MD5 )
 #if defined( HAVE_EVP_MD_CTX_CLEANUP )
 		if( EVP_MD_CTX_cleanup(
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index 0d0e14c..efa9881 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -687,9 +687,22 @@ int libhmac_sha1_context_free(
 		*context         = NULL;
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH )
-		/* No additional clean up necessary
+		/* Make sure no data, such as a hashed key, remains in memory
 		 */
+		if( memory_set(
+		     internal_context,
+		     0,
+		     sizeof( libhmac_internal_sha1_context_t ) ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear context.",
+			 function );
 
+			result = -1;
+		}
 #elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA1 )
 #if defined( HAVE_EVP_MD_CTX_CLEANUP )
 		if( EVP_MD_CTX_cleanup(
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index a3db1cd..944cfcb 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -646,9 +646,22 @@ int libhmac_sha224_context_free(
 		*context         = NULL;
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH )
-		/* No additional clean up necessary
+		/* Make sure no data, such as a hashed key, remains in memory
 		 */
+		if( memory_set(
+		     internal_context,
+		     0,
+		     sizeof( libhmac_internal_sha224_context_t ) ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear context.",
+			 function );
 
+			result = -1;
+		}
 #elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA224 )
 #if defined( HAVE_EVP_MD_CTX_CLEANUP )
 		if( EVP_MD_CTX_cleanup(
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 6fb8676..2aa7601 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -646,9 +646,22 @@ int libhmac_sha256_context_free(
 		*context         = NULL;
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH )
-		/* No additional clean up necessary
+		/* Make sure no data, such as a hashed key, remains in memory
 		 */
+		if( memory_set(
+		     internal_context,
+		     0,
+		     sizeof( libhmac_internal_sha256_context_t ) ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear context.",
+			 function );
 
+			result = -1;
+		}
 #elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA256 )
 #if defined( HAVE_EVP_MD_CTX_CLEANUP )
 		if( EVP_MD_CTX_cleanup(
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 846a0de..7d9675d 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -682,9 +682,22 @@ int libhmac_sha512_context_free(
 		*context         = NULL;
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH )
-		/* No additional clean up necessary
+		/* Make sure no data, such as a hashed key, remains in memory
 		 */
+		if( memory_set(
+		     internal_context,
+		     0,
+		     sizeof( libhmac_internal_sha512_context_t ) ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear context.",
+			 function );
 
+			result = -1;
+		}
 #elif defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_EVP_H ) && defined( HAVE_EVP_SHA512 )
 #if defined( HAVE_EVP_MD_CTX_CLEANUP )
 		if( EVP_MD_CTX_cleanup(
-- 
2.43.0


From 6257bb735d0ad78b6f8e9475634a98f029b1d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 04/16] fix: convert byte size strings with a kilobyte unit

The unit letter of a size in K was not skipped, hence 1K, 1KB and 1KiB were
refused as having invalid units.
---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 361e039..bd1767b 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -347,7 +347,7 @@ int byte_size_string_convert(
 
 		return( -1 );
 	}
-	else if( factor > 1 )
+	else if( factor > 0 )
 	{
 		byte_size_string_iterator++;
 	}
-- 
2.43.0


From 2ffc84c28cf083630652a98d66bd1ce8a44232da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 05/16] fix: refuse byte size strings whose value does not fit
 in 64 bits

The value wrapped around and success was reported.
---
 hmactools/byte_size_string.c | 37 ++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index bd1767b..4a5d5d3 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -213,6 +213,8 @@ int byte_size_string_convert(
 	static char *function            = "byte_size_string_convert";
 	size_t byte_size_string_iterator = 0;
 	uint64_t byte_size               = 0;
+	uint64_t byte_size_remainder     = 0;
+	uint8_t byte_digit               = 0;
 	int8_t factor                    = 0;
 	int8_t remainder                 = -1;
 	int decimal_point                = 0;
@@ -260,8 +262,21 @@ int byte_size_string_convert(
 		{
 			break;
 		}
+		byte_digit = (uint8_t) ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+
+		if( byte_size > ( ( (uint64_t) UINT64_MAX - byte_digit ) / 10 ) )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+			 LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS,
+			 "%s: invalid byte size value out of bounds.",
+			 function );
+
+			return( -1 );
+		}
 		byte_size *= 10;
-		byte_size += ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+		byte_size += byte_digit;
 
 		byte_size_string_iterator++;
 	}
@@ -383,15 +398,25 @@ int byte_size_string_convert(
 	{
 		if( remainder > 0 )
 		{
-			byte_size *= units;
-
-			factor--;
-
-			byte_size += ( remainder * 10 );
+			byte_size_remainder = (uint64_t) remainder * 10;
 		}
 		for( ; factor > 0; factor-- )
 		{
+			if( byte_size > ( ( (uint64_t) UINT64_MAX - byte_size_remainder ) / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS,
+				 "%s: invalid byte size value out of bounds.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
+			byte_size += byte_size_remainder;
+
+			byte_size_remainder = 0;
 		}
 	}
 #if defined( HAVE_VERBOSE_OUTPUT )
-- 
2.43.0


From eaef1ddb8e83af6a1be5441c7c3f49c553d9d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 06/16] fix: continue with the next option in a group after an
 unknown option

The built-in getopt neither advanced the option index nor kept the position in
the group, hence an unknown option that was not the last one in a group was
returned over and over again.
---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 7f468ef..da64dac 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -123,6 +123,12 @@ system_integer_t hmactools_getopt(
 		{
 			optind++;
 		}
+		else
+		{
+			/* Multiple options are grouped
+			 */
+			next_option = argument_value;
+		}
 		if( ( *options_string != (system_character_t) ':' )
 		 && ( optopt != (system_integer_t) '?' ) )
 		{
-- 
2.43.0


From 98b809893d1c04a800cec299e6ecac0c7827ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 07/16] fix: treat a single - as operand and only a sole -- as
 end of options

The built-in getopt read past the terminator of a single - and ended the
options, without reporting one, at any argument that started with --.
---
 hmactools/hmactools_getopt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index da64dac..ee1485b 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -93,9 +93,16 @@ system_integer_t hmactools_getopt(
 		}
 		argument_value++;
 
-		/* Check if long options are provided '--'
+		/* Check if the argument value is a single '-', which is not an option
 		 */
-		if( *argument_value == (system_character_t) '-' )
+		if( *argument_value == (system_character_t) '\0' )
+		{
+			return( (system_integer_t) -1 );
+		}
+		/* Check if the end of the options is marked '--'
+		 */
+		if( ( argument_value[ 0 ] == (system_character_t) '-' )
+		 && ( argument_value[ 1 ] == (system_character_t) '\0' ) )
 		{
 			optind++;
 
-- 
2.43.0


From 542f1c46682822b04842f920870a325d2b25d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 08/16] fix: return 1 when the digest types were set

The documented value for success is 1, but 0 was returned.
---
 hmactools/sum_handle.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 82aa742..188cbbe 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1167,7 +1167,6 @@ int sum_handle_set_digest_types(
 	uint8_t calculate_sha512               = 0;
 	int number_of_segments                 = 0;
 	int segment_index                      = 0;
-	int result                             = 0;
 
 	if( sum_handle == NULL )
 	{
@@ -1552,7 +1551,7 @@ int sum_handle_set_digest_types(
 
 		goto on_error;
 	}
-	return( result );
+	return( 1 );
 
 on_error:
 	if( string_elements != NULL )
-- 
2.43.0


From b8ec2bde6944756f58632d659a6c357d1f017381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 09/16] fix: release the split string and the input handle in
 the error paths of the sum handle

---
 hmactools/sum_handle.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 188cbbe..adaf839 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -100,7 +100,12 @@ int sum_handle_initialize(
 		 "%s: unable to clear sum handle.",
 		 function );
 
-		goto on_error;
+		memory_free(
+		 *sum_handle );
+
+		*sum_handle = NULL;
+
+		return( -1 );
 	}
 	if( libcfile_file_initialize(
 	     &( ( *sum_handle )->input_handle ),
@@ -137,6 +142,12 @@ int sum_handle_initialize(
 on_error:
 	if( *sum_handle != NULL )
 	{
+		if( ( *sum_handle )->input_handle != NULL )
+		{
+			libcfile_file_free(
+			 &( ( *sum_handle )->input_handle ),
+			 NULL );
+		}
 		memory_free(
 		 *sum_handle );
 
@@ -1210,7 +1221,7 @@ int sum_handle_set_digest_types(
 		 "%s: unable to retrieve number of segments.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 	for( segment_index = 0;
 	     segment_index < number_of_segments;
@@ -1243,7 +1254,7 @@ int sum_handle_set_digest_types(
 			 function,
 			 segment_index );
 
-			return( -1 );
+			goto on_error;
 		}
 		if( string_segment_size == 4 )
 		{
-- 
2.43.0


From 04d7d588f300050f2c1072fe0a269197b0d9e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:27 +0000
Subject: [PATCH 10/16] fix: release Python context objects that have no
 libhmac context

---
 pyhmac/pyhmac_md5_context.c    | 27 ++++++++++++---------------
 pyhmac/pyhmac_sha1_context.c   | 27 ++++++++++++---------------
 pyhmac/pyhmac_sha224_context.c | 27 ++++++++++++---------------
 pyhmac/pyhmac_sha256_context.c | 27 ++++++++++++---------------
 pyhmac/pyhmac_sha512_context.c | 27 ++++++++++++---------------
 5 files changed, 60 insertions(+), 75 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 3ef4642..cd022b1 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -254,15 +254,6 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	if( pyhmac_md5_context->md5_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid MD5 context - missing libhmac MD5 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_md5_context );
 
@@ -284,14 +275,20 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
-
-	result = libhmac_md5_free(
-	          &( pyhmac_md5_context->md5_context ),
-	          &error );
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	Py_END_ALLOW_THREADS
+		result = libhmac_md5_free(
+		          &( pyhmac_md5_context->md5_context ),
+		          &error );
 
+		Py_END_ALLOW_THREADS
+	}
+	else
+	{
+		result = 1;
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index eca70b6..1aa8773 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	if( pyhmac_sha1_context->sha1_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA1 context - missing libhmac SHA1 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha1_context );
 
@@ -284,14 +275,20 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
-
-	result = libhmac_sha1_free(
-	          &( pyhmac_sha1_context->sha1_context ),
-	          &error );
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	Py_END_ALLOW_THREADS
+		result = libhmac_sha1_free(
+		          &( pyhmac_sha1_context->sha1_context ),
+		          &error );
 
+		Py_END_ALLOW_THREADS
+	}
+	else
+	{
+		result = 1;
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 3e09af9..69926d3 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	if( pyhmac_sha224_context->sha224_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA224 context - missing libhmac SHA224 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha224_context );
 
@@ -284,14 +275,20 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
-
-	result = libhmac_sha224_free(
-	          &( pyhmac_sha224_context->sha224_context ),
-	          &error );
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	Py_END_ALLOW_THREADS
+		result = libhmac_sha224_free(
+		          &( pyhmac_sha224_context->sha224_context ),
+		          &error );
 
+		Py_END_ALLOW_THREADS
+	}
+	else
+	{
+		result = 1;
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 086513c..d6d1762 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	if( pyhmac_sha256_context->sha256_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA256 context - missing libhmac SHA256 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha256_context );
 
@@ -284,14 +275,20 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
-
-	result = libhmac_sha256_free(
-	          &( pyhmac_sha256_context->sha256_context ),
-	          &error );
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	Py_END_ALLOW_THREADS
+		result = libhmac_sha256_free(
+		          &( pyhmac_sha256_context->sha256_context ),
+		          &error );
 
+		Py_END_ALLOW_THREADS
+	}
+	else
+	{
+		result = 1;
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 97fd56a..e0698f5 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	if( pyhmac_sha512_context->sha512_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA512 context - missing libhmac SHA512 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha512_context );
 
@@ -284,14 +275,20 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
-
-	result = libhmac_sha512_free(
-	          &( pyhmac_sha512_context->sha512_context ),
-	          &error );
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	Py_END_ALLOW_THREADS
+		result = libhmac_sha512_free(
+		          &( pyhmac_sha512_context->sha512_context ),
+		          &error );
 
+		Py_END_ALLOW_THREADS
+	}
+	else
+	{
+		result = 1;
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
-- 
2.43.0


From 33cedb4c22ba49647e55e1dd905d08d8eda2016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:27 +0000
Subject: [PATCH 11/16] fix: do not leak the libhmac context when a Python
 context object is initialized again

---
 pyhmac/pyhmac_md5_context.c    | 24 ++++++++++++++++++++++++
 pyhmac/pyhmac_sha1_context.c   | 24 ++++++++++++++++++++++++
 pyhmac/pyhmac_sha224_context.c | 24 ++++++++++++++++++++++++
 pyhmac/pyhmac_sha256_context.c | 24 ++++++++++++++++++++++++
 pyhmac/pyhmac_sha512_context.c | 24 ++++++++++++++++++++++++
 5 files changed, 120 insertions(+)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index cd022b1..808ff72 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_md5_context_new(
 
 		goto on_error;
 	}
+	pyhmac_md5_context->md5_context = NULL;
+
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
 	{
@@ -215,6 +217,28 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
+	/* Make sure a context set by a previous initialization is not leaked
+	 */
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		if( libhmac_md5_free(
+		     &( pyhmac_md5_context->md5_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			pyhmac_md5_context->md5_context = NULL;
+
+			return( -1 );
+		}
+	}
 	pyhmac_md5_context->md5_context = NULL;
 
 	if( libhmac_md5_initialize(
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index 1aa8773..76a09f4 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha1_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha1_context->sha1_context = NULL;
+
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
 	{
@@ -215,6 +217,28 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
+	/* Make sure a context set by a previous initialization is not leaked
+	 */
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		if( libhmac_sha1_free(
+		     &( pyhmac_sha1_context->sha1_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			pyhmac_sha1_context->sha1_context = NULL;
+
+			return( -1 );
+		}
+	}
 	pyhmac_sha1_context->sha1_context = NULL;
 
 	if( libhmac_sha1_initialize(
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 69926d3..288132f 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha224_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha224_context->sha224_context = NULL;
+
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
 	{
@@ -215,6 +217,28 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
+	/* Make sure a context set by a previous initialization is not leaked
+	 */
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		if( libhmac_sha224_free(
+		     &( pyhmac_sha224_context->sha224_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			pyhmac_sha224_context->sha224_context = NULL;
+
+			return( -1 );
+		}
+	}
 	pyhmac_sha224_context->sha224_context = NULL;
 
 	if( libhmac_sha224_initialize(
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index d6d1762..e84ea44 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha256_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha256_context->sha256_context = NULL;
+
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
 	{
@@ -215,6 +217,28 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
+	/* Make sure a context set by a previous initialization is not leaked
+	 */
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		if( libhmac_sha256_free(
+		     &( pyhmac_sha256_context->sha256_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			pyhmac_sha256_context->sha256_context = NULL;
+
+			return( -1 );
+		}
+	}
 	pyhmac_sha256_context->sha256_context = NULL;
 
 	if( libhmac_sha256_initialize(
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index e0698f5..c45ff97 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha512_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha512_context->sha512_context = NULL;
+
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
 	{
@@ -215,6 +217,28 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
+	/* Make sure a context set by a previous initialization is not leaked
+	 */
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		if( libhmac_sha512_free(
+		     &( pyhmac_sha512_context->sha512_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			pyhmac_sha512_context->sha512_context = NULL;
+
+			return( -1 );
+		}
+	}
 	pyhmac_sha512_context->sha512_context = NULL;
 
 	if( libhmac_sha512_initialize(
-- 
2.43.0


From 36ad600a1ca04be49cd94d5cbe4885d9d5d2e397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:27 +0000
Subject: [PATCH 12/16] fix: do not raise or replace an exception when a Python
 context object is released

---
 pyhmac/pyhmac_md5_context.c    | 26 ++++++++++++++++++++++----
 pyhmac/pyhmac_sha1_context.c   | 26 ++++++++++++++++++++++----
 pyhmac/pyhmac_sha224_context.c | 26 ++++++++++++++++++++++----
 pyhmac/pyhmac_sha256_context.c | 26 ++++++++++++++++++++++----
 pyhmac/pyhmac_sha512_context.c | 26 ++++++++++++++++++++++----
 5 files changed, 110 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 808ff72..4b3d7a2 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -264,10 +264,13 @@ int pyhmac_md5_context_init(
 void pyhmac_md5_context_free(
       pyhmac_md5_context_t *pyhmac_md5_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_md5_context_free";
-	int result                  = 0;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	struct _typeobject *ob_type   = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_md5_context_free";
+	int result                    = 0;
 
 	if( pyhmac_md5_context == NULL )
 	{
@@ -315,6 +318,13 @@ void pyhmac_md5_context_free(
 	}
 	if( result != 1 )
 	{
+		/* An exception must not leave the destructor nor replace one that is pending
+		 */
+		PyErr_Fetch(
+		 &exception_type,
+		 &exception_value,
+		 &exception_traceback );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -323,6 +333,14 @@ void pyhmac_md5_context_free(
 
 		libcerror_error_free(
 		 &error );
+
+		PyErr_WriteUnraisable(
+		 NULL );
+
+		PyErr_Restore(
+		 exception_type,
+		 exception_value,
+		 exception_traceback );
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_md5_context );
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index 76a09f4..4ed5d8c 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -264,10 +264,13 @@ int pyhmac_sha1_context_init(
 void pyhmac_sha1_context_free(
       pyhmac_sha1_context_t *pyhmac_sha1_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_sha1_context_free";
-	int result                  = 0;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	struct _typeobject *ob_type   = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_sha1_context_free";
+	int result                    = 0;
 
 	if( pyhmac_sha1_context == NULL )
 	{
@@ -315,6 +318,13 @@ void pyhmac_sha1_context_free(
 	}
 	if( result != 1 )
 	{
+		/* An exception must not leave the destructor nor replace one that is pending
+		 */
+		PyErr_Fetch(
+		 &exception_type,
+		 &exception_value,
+		 &exception_traceback );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -323,6 +333,14 @@ void pyhmac_sha1_context_free(
 
 		libcerror_error_free(
 		 &error );
+
+		PyErr_WriteUnraisable(
+		 NULL );
+
+		PyErr_Restore(
+		 exception_type,
+		 exception_value,
+		 exception_traceback );
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha1_context );
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 288132f..ec10fff 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -264,10 +264,13 @@ int pyhmac_sha224_context_init(
 void pyhmac_sha224_context_free(
       pyhmac_sha224_context_t *pyhmac_sha224_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_sha224_context_free";
-	int result                  = 0;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	struct _typeobject *ob_type   = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_sha224_context_free";
+	int result                    = 0;
 
 	if( pyhmac_sha224_context == NULL )
 	{
@@ -315,6 +318,13 @@ void pyhmac_sha224_context_free(
 	}
 	if( result != 1 )
 	{
+		/* An exception must not leave the destructor nor replace one that is pending
+		 */
+		PyErr_Fetch(
+		 &exception_type,
+		 &exception_value,
+		 &exception_traceback );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -323,6 +333,14 @@ void pyhmac_sha224_context_free(
 
 		libcerror_error_free(
 		 &error );
+
+		PyErr_WriteUnraisable(
+		 NULL );
+
+		PyErr_Restore(
+		 exception_type,
+		 exception_value,
+		 exception_traceback );
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha224_context );
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index e84ea44..3d9dbd7 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -264,10 +264,13 @@ int pyhmac_sha256_context_init(
 void pyhmac_sha256_context_free(
       pyhmac_sha256_context_t *pyhmac_sha256_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_sha256_context_free";
-	int result                  = 0;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	struct _typeobject *ob_type   = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_sha256_context_free";
+	int result                    = 0;
 
 	if( pyhmac_sha256_context == NULL )
 	{
@@ -315,6 +318,13 @@ void pyhmac_sha256_context_free(
 	}
 	if( result != 1 )
 	{
+		/* An exception must not leave the destructor nor replace one that is pending
+		 */
+		PyErr_Fetch(
+		 &exception_type,
+		 &exception_value,
+		 &exception_traceback );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -323,6 +333,14 @@ void pyhmac_sha256_context_free(
 
 		libcerror_error_free(
 		 &error );
+
+		PyErr_WriteUnraisable(
+		 NULL );
+
+		PyErr_Restore(
+		 exception_type,
+		 exception_value,
+		 exception_traceback );
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha256_context );
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index c45ff97..1ca04ae 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -264,10 +264,13 @@ int pyhmac_sha512_context_init(
 void pyhmac_sha512_context_free(
       pyhmac_sha512_context_t *pyhmac_sha512_context )
 {
-	struct _typeobject *ob_type = NULL;
-	libcerror_error_t *error    = NULL;
-	static char *function       = "pyhmac_sha512_context_free";
-	int result                  = 0;
+	PyObject *exception_traceback = NULL;
+	PyObject *exception_type      = NULL;
+	PyObject *exception_value     = NULL;
+	struct _typeobject *ob_type   = NULL;
+	libcerror_error_t *error      = NULL;
+	static char *function         = "pyhmac_sha512_context_free";
+	int result                    = 0;
 
 	if( pyhmac_sha512_context == NULL )
 	{
@@ -315,6 +318,13 @@ void pyhmac_sha512_context_free(
 	}
 	if( result != 1 )
 	{
+		/* An exception must not leave the destructor nor replace one that is pending
+		 */
+		PyErr_Fetch(
+		 &exception_type,
+		 &exception_value,
+		 &exception_traceback );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -323,6 +333,14 @@ void pyhmac_sha512_context_free(
 
 		libcerror_error_free(
 		 &error );
+
+		PyErr_WriteUnraisable(
+		 NULL );
+
+		PyErr_Restore(
+		 exception_type,
+		 exception_value,
+		 exception_traceback );
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha512_context );
-- 
2.43.0


From 803a23a4876b1d4092b6ef274053cc70a09bdb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:27 +0000
Subject: [PATCH 13/16] fix: release the fetched exception and handle
 exceptions without a representation

---
 pyhmac/pyhmac_error.c | 79 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index 73d0caf..ca3408e 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -129,19 +129,26 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
+	if( exception_string == NULL )
+	{
+		PyErr_Clear();
+	}
 	if( exception_string != NULL )
 	{
 		libcerror_error_set(
@@ -168,9 +175,18 @@ void VARARGS(
 		 utf8_string_object );
 	}
 #endif
-	Py_DecRef(
+	Py_XDECREF(
 	 string_object );
 
+	Py_XDECREF(
+	 exception_type );
+
+	Py_XDECREF(
+	 exception_value );
+
+	Py_XDECREF(
+	 exception_traceback );
+
 	return;
 }
 
@@ -269,19 +285,26 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
+	if( exception_string == NULL )
+	{
+		PyErr_Clear();
+	}
 	if( exception_string != NULL )
 	{
 		PyErr_Format(
@@ -297,9 +320,25 @@ void VARARGS(
 		 "%s.",
 		 error_string );
 	}
-	Py_DecRef(
+#if PY_MAJOR_VERSION >= 3
+	if( utf8_string_object != NULL )
+	{
+		Py_DecRef(
+		 utf8_string_object );
+	}
+#endif
+	Py_XDECREF(
 	 string_object );
 
+	Py_XDECREF(
+	 exception_type );
+
+	Py_XDECREF(
+	 exception_value );
+
+	Py_XDECREF(
+	 exception_traceback );
+
 	return;
 }
 
-- 
2.43.0


From 7db23c5bf3ab19420dba05b082535a33d97b3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:35 +0000
Subject: [PATCH 14/16] fix: accept hash buffers larger than UINT_MAX with
 OpenSSL EVP

The EVP finalize functions refused a hash size above UINT_MAX where the
built-in and low level ones accept up to SSIZE_MAX. The size passed to
EVP_DigestFinal_ex is only an output.
---
 libhmac/libhmac_md5_context.c    | 4 ++--
 libhmac/libhmac_sha1_context.c   | 4 ++--
 libhmac/libhmac_sha224_context.c | 4 ++--
 libhmac/libhmac_sha256_context.c | 4 ++--
 libhmac/libhmac_sha512_context.c | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 88fceb6..55f83b7 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -1105,7 +1105,7 @@ int libhmac_md5_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_MD5_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1116,7 +1116,7 @@ int libhmac_md5_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_MD5_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index efa9881..dc7eade 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -1178,7 +1178,7 @@ int libhmac_sha1_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_SHA1_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1189,7 +1189,7 @@ int libhmac_sha1_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_SHA1_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index 944cfcb..854ad72 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -1137,7 +1137,7 @@ int libhmac_sha224_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_SHA224_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1148,7 +1148,7 @@ int libhmac_sha224_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_SHA224_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 2aa7601..b1db785 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -1137,7 +1137,7 @@ int libhmac_sha256_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_SHA256_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1148,7 +1148,7 @@ int libhmac_sha256_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_SHA256_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7d9675d..e2deb48 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -1173,7 +1173,7 @@ int libhmac_sha512_context_finalize(
 		return( -1 );
 	}
 	if( ( hash_size < (size_t) LIBHMAC_SHA512_HASH_SIZE )
-	 || ( hash_size > (size_t) UINT_MAX ) )
+	 || ( hash_size > (size_t) SSIZE_MAX ) )
 	{
 		libcerror_error_set(
 		 error,
@@ -1184,7 +1184,7 @@ int libhmac_sha512_context_finalize(
 
 		return( -1 );
 	}
-	safe_hash_size = (unsigned int) hash_size;
+	safe_hash_size = (unsigned int) LIBHMAC_SHA512_HASH_SIZE;
 
 	if( EVP_DigestFinal_ex(
 	     internal_context->evp_md_context,
-- 
2.43.0


From 995721c67a9c3f05305efd5a3a2d1e552c677f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:17 +0000
Subject: [PATCH 15/16] fix: let threads that share a Python context object use
 it one at a time

The update and finalize methods release the GIL while libhmac works on the
context, so that other threads could change, replace or free it meanwhile,
which gave wrong digests and crashed the interpreter.
---
 pyhmac/pyhmac_md5_context.c    | 102 ++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_md5_context.h    |   4 ++
 pyhmac/pyhmac_python.h         |  15 +++++
 pyhmac/pyhmac_sha1_context.c   | 102 ++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_sha1_context.h   |   4 ++
 pyhmac/pyhmac_sha224_context.c | 102 ++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_sha224_context.h |   4 ++
 pyhmac/pyhmac_sha256_context.c | 102 ++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_sha256_context.h |   4 ++
 pyhmac/pyhmac_sha512_context.c | 102 ++++++++++++++++++++++++++++-----
 pyhmac/pyhmac_sha512_context.h |   4 ++
 11 files changed, 470 insertions(+), 75 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 4b3d7a2..3d3a0a5 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_md5_context_new(
 		goto on_error;
 	}
 	pyhmac_md5_context->md5_context = NULL;
+	pyhmac_md5_context->lock        = NULL;
 
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
@@ -217,6 +218,25 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_md5_context->lock == NULL )
+	{
+		pyhmac_md5_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_md5_context->lock == NULL )
+		{
+			PyErr_Format(
+			 PyExc_MemoryError,
+			 "%s: unable to create lock.",
+			 function );
+
+			return( -1 );
+		}
+	}
+	/* Make sure no other thread uses the context that is replaced
+	 */
+	PYHMAC_ACQUIRE_LOCK(
+	 pyhmac_md5_context->lock );
+
 	/* Make sure a context set by a previous initialization is not leaked
 	 */
 	if( pyhmac_md5_context->md5_context != NULL )
@@ -225,6 +245,11 @@ int pyhmac_md5_context_init(
 		     &( pyhmac_md5_context->md5_context ),
 		     &error ) != 1 )
 		{
+			pyhmac_md5_context->md5_context = NULL;
+
+			PYHMAC_RELEASE_LOCK(
+			 pyhmac_md5_context->lock );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -234,8 +259,6 @@ int pyhmac_md5_context_init(
 			libcerror_error_free(
 			 &error );
 
-			pyhmac_md5_context->md5_context = NULL;
-
 			return( -1 );
 		}
 	}
@@ -245,6 +268,9 @@ int pyhmac_md5_context_init(
 	     &( pyhmac_md5_context->md5_context ),
 	     &error ) != 1 )
 	{
+		PYHMAC_RELEASE_LOCK(
+		 pyhmac_md5_context->lock );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -256,6 +282,9 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
+	PYHMAC_RELEASE_LOCK(
+	 pyhmac_md5_context->lock );
+
 	return( 0 );
 }
 
@@ -342,6 +371,13 @@ void pyhmac_md5_context_free(
 		 exception_value,
 		 exception_traceback );
 	}
+	if( pyhmac_md5_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_md5_context->lock );
+
+		pyhmac_md5_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_md5_context );
 }
@@ -354,13 +390,15 @@ PyObject *pyhmac_md5_context_update(
            PyObject *arguments,
            PyObject *keywords )
 {
-	PyObject *bytes_object      = NULL;
-	libcerror_error_t *error    = NULL;
-	const char *data            = NULL;
-	static char *function       = "pyhmac_md5_context_update";
-	static char *keyword_list[] = { "data", NULL };
-	Py_ssize_t data_size        = 0;
-	int result                  = 0;
+	PyObject *bytes_object         = NULL;
+	PyThread_type_lock lock        = NULL;
+	libcerror_error_t *error       = NULL;
+	libhmac_md5_context_t *context = NULL;
+	const char *data               = NULL;
+	static char *function          = "pyhmac_md5_context_update";
+	static char *keyword_list[]    = { "data", NULL };
+	Py_ssize_t data_size           = 0;
+	int result                     = 0;
 
 	if( pyhmac_md5_context == NULL )
 	{
@@ -434,16 +472,32 @@ PyObject *pyhmac_md5_context_update(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_md5_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_md5_context->md5_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_md5_update(
-	          pyhmac_md5_context->md5_context,
+	          context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -472,10 +526,12 @@ PyObject *pyhmac_md5_context_finalize(
 {
 	uint8_t md5_hash[ LIBHMAC_MD5_HASH_SIZE ];
 
-	PyObject *bytes_object   = NULL;
-	libcerror_error_t *error = NULL;
-	static char *function    = "pyhmac_md5_context_finalize";
-	int result               = 0;
+	PyObject *bytes_object         = NULL;
+	PyThread_type_lock lock        = NULL;
+	libcerror_error_t *error       = NULL;
+	libhmac_md5_context_t *context = NULL;
+	static char *function          = "pyhmac_md5_context_finalize";
+	int result                     = 0;
 
 	PYHMAC_UNREFERENCED_PARAMETER( arguments )
 
@@ -488,16 +544,32 @@ PyObject *pyhmac_md5_context_finalize(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_md5_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_md5_context->md5_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_md5_finalize(
-	          pyhmac_md5_context->md5_context,
+	          context,
 	          md5_hash,
 	          LIBHMAC_MD5_HASH_SIZE,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_md5_context.h b/pyhmac/pyhmac_md5_context.h
index 5b14e75..86386b2 100644
--- a/pyhmac/pyhmac_md5_context.h
+++ b/pyhmac/pyhmac_md5_context.h
@@ -43,6 +43,10 @@ struct pyhmac_md5_context
 	/* The libhmac MD5 context
 	 */
 	libhmac_md5_context_t *md5_context;
+
+	/* The lock held while a thread uses the libhmac MD5 context
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_md5_context_object_methods[];
diff --git a/pyhmac/pyhmac_python.h b/pyhmac/pyhmac_python.h
index 3223b6d..2cff185 100644
--- a/pyhmac/pyhmac_python.h
+++ b/pyhmac/pyhmac_python.h
@@ -51,6 +51,7 @@
 #define PY_SSIZE_T_CLEAN
 
 #include <Python.h>
+#include <pythread.h>
 
 /* Python compatibility macros
  */
@@ -79,5 +80,19 @@
 
 #endif /* !defined( Py_TYPE ) */
 
+/* Waits until no other thread uses the object the lock belongs to
+ * The GIL is released while waiting
+ */
+#define PYHMAC_ACQUIRE_LOCK( lock ) \
+	if( PyThread_acquire_lock( lock, NOWAIT_LOCK ) == 0 ) \
+	{ \
+		Py_BEGIN_ALLOW_THREADS \
+		PyThread_acquire_lock( lock, WAIT_LOCK ); \
+		Py_END_ALLOW_THREADS \
+	}
+
+#define PYHMAC_RELEASE_LOCK( lock ) \
+	PyThread_release_lock( lock )
+
 #endif /* !defined( _PYHMAC_PYTHON_H ) */
 
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index 4ed5d8c..c030fe6 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha1_context_new(
 		goto on_error;
 	}
 	pyhmac_sha1_context->sha1_context = NULL;
+	pyhmac_sha1_context->lock         = NULL;
 
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
@@ -217,6 +218,25 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_sha1_context->lock == NULL )
+	{
+		pyhmac_sha1_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_sha1_context->lock == NULL )
+		{
+			PyErr_Format(
+			 PyExc_MemoryError,
+			 "%s: unable to create lock.",
+			 function );
+
+			return( -1 );
+		}
+	}
+	/* Make sure no other thread uses the context that is replaced
+	 */
+	PYHMAC_ACQUIRE_LOCK(
+	 pyhmac_sha1_context->lock );
+
 	/* Make sure a context set by a previous initialization is not leaked
 	 */
 	if( pyhmac_sha1_context->sha1_context != NULL )
@@ -225,6 +245,11 @@ int pyhmac_sha1_context_init(
 		     &( pyhmac_sha1_context->sha1_context ),
 		     &error ) != 1 )
 		{
+			pyhmac_sha1_context->sha1_context = NULL;
+
+			PYHMAC_RELEASE_LOCK(
+			 pyhmac_sha1_context->lock );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -234,8 +259,6 @@ int pyhmac_sha1_context_init(
 			libcerror_error_free(
 			 &error );
 
-			pyhmac_sha1_context->sha1_context = NULL;
-
 			return( -1 );
 		}
 	}
@@ -245,6 +268,9 @@ int pyhmac_sha1_context_init(
 	     &( pyhmac_sha1_context->sha1_context ),
 	     &error ) != 1 )
 	{
+		PYHMAC_RELEASE_LOCK(
+		 pyhmac_sha1_context->lock );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -256,6 +282,9 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
+	PYHMAC_RELEASE_LOCK(
+	 pyhmac_sha1_context->lock );
+
 	return( 0 );
 }
 
@@ -342,6 +371,13 @@ void pyhmac_sha1_context_free(
 		 exception_value,
 		 exception_traceback );
 	}
+	if( pyhmac_sha1_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_sha1_context->lock );
+
+		pyhmac_sha1_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha1_context );
 }
@@ -354,13 +390,15 @@ PyObject *pyhmac_sha1_context_update(
            PyObject *arguments,
            PyObject *keywords )
 {
-	PyObject *bytes_object      = NULL;
-	libcerror_error_t *error    = NULL;
-	const char *data            = NULL;
-	static char *function       = "pyhmac_sha1_context_update";
-	static char *keyword_list[] = { "data", NULL };
-	Py_ssize_t data_size        = 0;
-	int result                  = 0;
+	PyObject *bytes_object          = NULL;
+	PyThread_type_lock lock         = NULL;
+	libcerror_error_t *error        = NULL;
+	libhmac_sha1_context_t *context = NULL;
+	const char *data                = NULL;
+	static char *function           = "pyhmac_sha1_context_update";
+	static char *keyword_list[]     = { "data", NULL };
+	Py_ssize_t data_size            = 0;
+	int result                      = 0;
 
 	if( pyhmac_sha1_context == NULL )
 	{
@@ -434,16 +472,32 @@ PyObject *pyhmac_sha1_context_update(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_sha1_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_sha1_context->sha1_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha1_update(
-	          pyhmac_sha1_context->sha1_context,
+	          context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -472,10 +526,12 @@ PyObject *pyhmac_sha1_context_finalize(
 {
 	uint8_t sha1_hash[ LIBHMAC_SHA1_HASH_SIZE ];
 
-	PyObject *bytes_object   = NULL;
-	libcerror_error_t *error = NULL;
-	static char *function    = "pyhmac_sha1_context_finalize";
-	int result               = 0;
+	PyObject *bytes_object          = NULL;
+	PyThread_type_lock lock         = NULL;
+	libcerror_error_t *error        = NULL;
+	libhmac_sha1_context_t *context = NULL;
+	static char *function           = "pyhmac_sha1_context_finalize";
+	int result                      = 0;
 
 	PYHMAC_UNREFERENCED_PARAMETER( arguments )
 
@@ -488,16 +544,32 @@ PyObject *pyhmac_sha1_context_finalize(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_sha1_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_sha1_context->sha1_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha1_finalize(
-	          pyhmac_sha1_context->sha1_context,
+	          context,
 	          sha1_hash,
 	          LIBHMAC_SHA1_HASH_SIZE,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha1_context.h b/pyhmac/pyhmac_sha1_context.h
index 431243d..93e3f34 100644
--- a/pyhmac/pyhmac_sha1_context.h
+++ b/pyhmac/pyhmac_sha1_context.h
@@ -43,6 +43,10 @@ struct pyhmac_sha1_context
 	/* The libhmac SHA1 context
 	 */
 	libhmac_sha1_context_t *sha1_context;
+
+	/* The lock held while a thread uses the libhmac SHA1 context
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_sha1_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index ec10fff..8abef31 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha224_context_new(
 		goto on_error;
 	}
 	pyhmac_sha224_context->sha224_context = NULL;
+	pyhmac_sha224_context->lock           = NULL;
 
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
@@ -217,6 +218,25 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_sha224_context->lock == NULL )
+	{
+		pyhmac_sha224_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_sha224_context->lock == NULL )
+		{
+			PyErr_Format(
+			 PyExc_MemoryError,
+			 "%s: unable to create lock.",
+			 function );
+
+			return( -1 );
+		}
+	}
+	/* Make sure no other thread uses the context that is replaced
+	 */
+	PYHMAC_ACQUIRE_LOCK(
+	 pyhmac_sha224_context->lock );
+
 	/* Make sure a context set by a previous initialization is not leaked
 	 */
 	if( pyhmac_sha224_context->sha224_context != NULL )
@@ -225,6 +245,11 @@ int pyhmac_sha224_context_init(
 		     &( pyhmac_sha224_context->sha224_context ),
 		     &error ) != 1 )
 		{
+			pyhmac_sha224_context->sha224_context = NULL;
+
+			PYHMAC_RELEASE_LOCK(
+			 pyhmac_sha224_context->lock );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -234,8 +259,6 @@ int pyhmac_sha224_context_init(
 			libcerror_error_free(
 			 &error );
 
-			pyhmac_sha224_context->sha224_context = NULL;
-
 			return( -1 );
 		}
 	}
@@ -245,6 +268,9 @@ int pyhmac_sha224_context_init(
 	     &( pyhmac_sha224_context->sha224_context ),
 	     &error ) != 1 )
 	{
+		PYHMAC_RELEASE_LOCK(
+		 pyhmac_sha224_context->lock );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -256,6 +282,9 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
+	PYHMAC_RELEASE_LOCK(
+	 pyhmac_sha224_context->lock );
+
 	return( 0 );
 }
 
@@ -342,6 +371,13 @@ void pyhmac_sha224_context_free(
 		 exception_value,
 		 exception_traceback );
 	}
+	if( pyhmac_sha224_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_sha224_context->lock );
+
+		pyhmac_sha224_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha224_context );
 }
@@ -354,13 +390,15 @@ PyObject *pyhmac_sha224_context_update(
            PyObject *arguments,
            PyObject *keywords )
 {
-	PyObject *bytes_object      = NULL;
-	libcerror_error_t *error    = NULL;
-	const char *data            = NULL;
-	static char *function       = "pyhmac_sha224_context_update";
-	static char *keyword_list[] = { "data", NULL };
-	Py_ssize_t data_size        = 0;
-	int result                  = 0;
+	PyObject *bytes_object            = NULL;
+	PyThread_type_lock lock           = NULL;
+	libcerror_error_t *error          = NULL;
+	libhmac_sha224_context_t *context = NULL;
+	const char *data                  = NULL;
+	static char *function             = "pyhmac_sha224_context_update";
+	static char *keyword_list[]       = { "data", NULL };
+	Py_ssize_t data_size              = 0;
+	int result                        = 0;
 
 	if( pyhmac_sha224_context == NULL )
 	{
@@ -434,16 +472,32 @@ PyObject *pyhmac_sha224_context_update(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_sha224_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_sha224_context->sha224_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha224_update(
-	          pyhmac_sha224_context->sha224_context,
+	          context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -472,10 +526,12 @@ PyObject *pyhmac_sha224_context_finalize(
 {
 	uint8_t sha224_hash[ LIBHMAC_SHA224_HASH_SIZE ];
 
-	PyObject *bytes_object   = NULL;
-	libcerror_error_t *error = NULL;
-	static char *function    = "pyhmac_sha224_context_finalize";
-	int result               = 0;
+	PyObject *bytes_object            = NULL;
+	PyThread_type_lock lock           = NULL;
+	libcerror_error_t *error          = NULL;
+	libhmac_sha224_context_t *context = NULL;
+	static char *function             = "pyhmac_sha224_context_finalize";
+	int result                        = 0;
 
 	PYHMAC_UNREFERENCED_PARAMETER( arguments )
 
@@ -488,16 +544,32 @@ PyObject *pyhmac_sha224_context_finalize(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_sha224_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_sha224_context->sha224_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha224_finalize(
-	          pyhmac_sha224_context->sha224_context,
+	          context,
 	          sha224_hash,
 	          LIBHMAC_SHA224_HASH_SIZE,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha224_context.h b/pyhmac/pyhmac_sha224_context.h
index c381abf..2abd5f9 100644
--- a/pyhmac/pyhmac_sha224_context.h
+++ b/pyhmac/pyhmac_sha224_context.h
@@ -43,6 +43,10 @@ struct pyhmac_sha224_context
 	/* The libhmac SHA224 context
 	 */
 	libhmac_sha224_context_t *sha224_context;
+
+	/* The lock held while a thread uses the libhmac SHA224 context
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_sha224_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 3d9dbd7..b79aba0 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha256_context_new(
 		goto on_error;
 	}
 	pyhmac_sha256_context->sha256_context = NULL;
+	pyhmac_sha256_context->lock           = NULL;
 
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
@@ -217,6 +218,25 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_sha256_context->lock == NULL )
+	{
+		pyhmac_sha256_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_sha256_context->lock == NULL )
+		{
+			PyErr_Format(
+			 PyExc_MemoryError,
+			 "%s: unable to create lock.",
+			 function );
+
+			return( -1 );
+		}
+	}
+	/* Make sure no other thread uses the context that is replaced
+	 */
+	PYHMAC_ACQUIRE_LOCK(
+	 pyhmac_sha256_context->lock );
+
 	/* Make sure a context set by a previous initialization is not leaked
 	 */
 	if( pyhmac_sha256_context->sha256_context != NULL )
@@ -225,6 +245,11 @@ int pyhmac_sha256_context_init(
 		     &( pyhmac_sha256_context->sha256_context ),
 		     &error ) != 1 )
 		{
+			pyhmac_sha256_context->sha256_context = NULL;
+
+			PYHMAC_RELEASE_LOCK(
+			 pyhmac_sha256_context->lock );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -234,8 +259,6 @@ int pyhmac_sha256_context_init(
 			libcerror_error_free(
 			 &error );
 
-			pyhmac_sha256_context->sha256_context = NULL;
-
 			return( -1 );
 		}
 	}
@@ -245,6 +268,9 @@ int pyhmac_sha256_context_init(
 	     &( pyhmac_sha256_context->sha256_context ),
 	     &error ) != 1 )
 	{
+		PYHMAC_RELEASE_LOCK(
+		 pyhmac_sha256_context->lock );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -256,6 +282,9 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
+	PYHMAC_RELEASE_LOCK(
+	 pyhmac_sha256_context->lock );
+
 	return( 0 );
 }
 
@@ -342,6 +371,13 @@ void pyhmac_sha256_context_free(
 		 exception_value,
 		 exception_traceback );
 	}
+	if( pyhmac_sha256_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_sha256_context->lock );
+
+		pyhmac_sha256_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha256_context );
 }
@@ -354,13 +390,15 @@ PyObject *pyhmac_sha256_context_update(
            PyObject *arguments,
            PyObject *keywords )
 {
-	PyObject *bytes_object      = NULL;
-	libcerror_error_t *error    = NULL;
-	const char *data            = NULL;
-	static char *function       = "pyhmac_sha256_context_update";
-	static char *keyword_list[] = { "data", NULL };
-	Py_ssize_t data_size        = 0;
-	int result                  = 0;
+	PyObject *bytes_object            = NULL;
+	PyThread_type_lock lock           = NULL;
+	libcerror_error_t *error          = NULL;
+	libhmac_sha256_context_t *context = NULL;
+	const char *data                  = NULL;
+	static char *function             = "pyhmac_sha256_context_update";
+	static char *keyword_list[]       = { "data", NULL };
+	Py_ssize_t data_size              = 0;
+	int result                        = 0;
 
 	if( pyhmac_sha256_context == NULL )
 	{
@@ -434,16 +472,32 @@ PyObject *pyhmac_sha256_context_update(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_sha256_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_sha256_context->sha256_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha256_update(
-	          pyhmac_sha256_context->sha256_context,
+	          context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -472,10 +526,12 @@ PyObject *pyhmac_sha256_context_finalize(
 {
 	uint8_t sha256_hash[ LIBHMAC_SHA256_HASH_SIZE ];
 
-	PyObject *bytes_object   = NULL;
-	libcerror_error_t *error = NULL;
-	static char *function    = "pyhmac_sha256_context_finalize";
-	int result               = 0;
+	PyObject *bytes_object            = NULL;
+	PyThread_type_lock lock           = NULL;
+	libcerror_error_t *error          = NULL;
+	libhmac_sha256_context_t *context = NULL;
+	static char *function             = "pyhmac_sha256_context_finalize";
+	int result                        = 0;
 
 	PYHMAC_UNREFERENCED_PARAMETER( arguments )
 
@@ -488,16 +544,32 @@ PyObject *pyhmac_sha256_context_finalize(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_sha256_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_sha256_context->sha256_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha256_finalize(
-	          pyhmac_sha256_context->sha256_context,
+	          context,
 	          sha256_hash,
 	          LIBHMAC_SHA256_HASH_SIZE,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha256_context.h b/pyhmac/pyhmac_sha256_context.h
index d2c09c5..05029de 100644
--- a/pyhmac/pyhmac_sha256_context.h
+++ b/pyhmac/pyhmac_sha256_context.h
@@ -43,6 +43,10 @@ struct pyhmac_sha256_context
 	/* The libhmac SHA256 context
 	 */
 	libhmac_sha256_context_t *sha256_context;
+
+	/* The lock held while a thread uses the libhmac SHA256 context
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_sha256_context_object_methods[];
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 1ca04ae..bc55b84 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -177,6 +177,7 @@ PyObject *pyhmac_sha512_context_new(
 		goto on_error;
 	}
 	pyhmac_sha512_context->sha512_context = NULL;
+	pyhmac_sha512_context->lock           = NULL;
 
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
@@ -217,6 +218,25 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
+	if( pyhmac_sha512_context->lock == NULL )
+	{
+		pyhmac_sha512_context->lock = PyThread_allocate_lock();
+
+		if( pyhmac_sha512_context->lock == NULL )
+		{
+			PyErr_Format(
+			 PyExc_MemoryError,
+			 "%s: unable to create lock.",
+			 function );
+
+			return( -1 );
+		}
+	}
+	/* Make sure no other thread uses the context that is replaced
+	 */
+	PYHMAC_ACQUIRE_LOCK(
+	 pyhmac_sha512_context->lock );
+
 	/* Make sure a context set by a previous initialization is not leaked
 	 */
 	if( pyhmac_sha512_context->sha512_context != NULL )
@@ -225,6 +245,11 @@ int pyhmac_sha512_context_init(
 		     &( pyhmac_sha512_context->sha512_context ),
 		     &error ) != 1 )
 		{
+			pyhmac_sha512_context->sha512_context = NULL;
+
+			PYHMAC_RELEASE_LOCK(
+			 pyhmac_sha512_context->lock );
+
 			pyhmac_error_raise(
 			 error,
 			 PyExc_MemoryError,
@@ -234,8 +259,6 @@ int pyhmac_sha512_context_init(
 			libcerror_error_free(
 			 &error );
 
-			pyhmac_sha512_context->sha512_context = NULL;
-
 			return( -1 );
 		}
 	}
@@ -245,6 +268,9 @@ int pyhmac_sha512_context_init(
 	     &( pyhmac_sha512_context->sha512_context ),
 	     &error ) != 1 )
 	{
+		PYHMAC_RELEASE_LOCK(
+		 pyhmac_sha512_context->lock );
+
 		pyhmac_error_raise(
 		 error,
 		 PyExc_MemoryError,
@@ -256,6 +282,9 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
+	PYHMAC_RELEASE_LOCK(
+	 pyhmac_sha512_context->lock );
+
 	return( 0 );
 }
 
@@ -342,6 +371,13 @@ void pyhmac_sha512_context_free(
 		 exception_value,
 		 exception_traceback );
 	}
+	if( pyhmac_sha512_context->lock != NULL )
+	{
+		PyThread_free_lock(
+		 pyhmac_sha512_context->lock );
+
+		pyhmac_sha512_context->lock = NULL;
+	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha512_context );
 }
@@ -354,13 +390,15 @@ PyObject *pyhmac_sha512_context_update(
            PyObject *arguments,
            PyObject *keywords )
 {
-	PyObject *bytes_object      = NULL;
-	libcerror_error_t *error    = NULL;
-	const char *data            = NULL;
-	static char *function       = "pyhmac_sha512_context_update";
-	static char *keyword_list[] = { "data", NULL };
-	Py_ssize_t data_size        = 0;
-	int result                  = 0;
+	PyObject *bytes_object            = NULL;
+	PyThread_type_lock lock           = NULL;
+	libcerror_error_t *error          = NULL;
+	libhmac_sha512_context_t *context = NULL;
+	const char *data                  = NULL;
+	static char *function             = "pyhmac_sha512_context_update";
+	static char *keyword_list[]       = { "data", NULL };
+	Py_ssize_t data_size              = 0;
+	int result                        = 0;
 
 	if( pyhmac_sha512_context == NULL )
 	{
@@ -434,16 +472,32 @@ PyObject *pyhmac_sha512_context_update(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_sha512_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_sha512_context->sha512_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha512_update(
-	          pyhmac_sha512_context->sha512_context,
+	          context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -472,10 +526,12 @@ PyObject *pyhmac_sha512_context_finalize(
 {
 	uint8_t sha512_hash[ LIBHMAC_SHA512_HASH_SIZE ];
 
-	PyObject *bytes_object   = NULL;
-	libcerror_error_t *error = NULL;
-	static char *function    = "pyhmac_sha512_context_finalize";
-	int result               = 0;
+	PyObject *bytes_object            = NULL;
+	PyThread_type_lock lock           = NULL;
+	libcerror_error_t *error          = NULL;
+	libhmac_sha512_context_t *context = NULL;
+	static char *function             = "pyhmac_sha512_context_finalize";
+	int result                        = 0;
 
 	PYHMAC_UNREFERENCED_PARAMETER( arguments )
 
@@ -488,16 +544,32 @@ PyObject *pyhmac_sha512_context_finalize(
 
 		return( NULL );
 	}
+	/* Without a lock the context was never initialized
+	 */
+	lock = pyhmac_sha512_context->lock;
+
+	if( lock != NULL )
+	{
+		PYHMAC_ACQUIRE_LOCK(
+		 lock );
+	}
+	context = pyhmac_sha512_context->sha512_context;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	result = libhmac_sha512_finalize(
-	          pyhmac_sha512_context->sha512_context,
+	          context,
 	          sha512_hash,
 	          LIBHMAC_SHA512_HASH_SIZE,
 	          &error );
 
 	Py_END_ALLOW_THREADS
 
+	if( lock != NULL )
+	{
+		PYHMAC_RELEASE_LOCK(
+		 lock );
+	}
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha512_context.h b/pyhmac/pyhmac_sha512_context.h
index 9bd6621..c34f0a2 100644
--- a/pyhmac/pyhmac_sha512_context.h
+++ b/pyhmac/pyhmac_sha512_context.h
@@ -43,6 +43,10 @@ struct pyhmac_sha512_context
 	/* The libhmac SHA512 context
 	 */
 	libhmac_sha512_context_t *sha512_context;
+
+	/* The lock held while a thread uses the libhmac SHA512 context
+	 */
+	PyThread_type_lock lock;
 };
 
 extern PyMethodDef pyhmac_sha512_context_object_methods[];
-- 
2.43.0


From 2b5f605a2fa921184a466973adfb32643bdc4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:56 +0000
Subject: [PATCH 16/16] fix: report a failure when the digests cannot be
 written

---
 hmactools/sum_handle.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index adaf839..02ca6a5 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1699,6 +1699,20 @@ int sum_handle_hash_values_fprint(
 		 "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
 		 sum_handle->calculated_sha512_hash_string );
 	}
+	if( ( fflush(
+	       stream ) != 0 )
+	 || ( ferror(
+	       stream ) != 0 ) )
+	{
+		libcerror_error_set(
+		 error,
+		 LIBCERROR_ERROR_DOMAIN_IO,
+		 LIBCERROR_IO_ERROR_WRITE_FAILED,
+		 "%s: unable to write hash values.",
+		 function );
+
+		return( -1 );
+	}
 	return( 1 );
 }
 
-- 
2.43.0

