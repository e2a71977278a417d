/* The OpenSSL message digest interface as it was before 1.1 (contexts by value,
 * EVP_MD_CTX_init and EVP_MD_CTX_cleanup), on top of the installed one.
 */
#if !defined( VP_OLDSSL_EVP_H )
#define VP_OLDSSL_EVP_H
#include_next <openssl/evp.h>
#include <stdlib.h>
typedef struct { EVP_MD_CTX *real; unsigned magic; } vp_old_md_ctx;
void vp_old_note( int delta );
static inline void vp_old_init( vp_old_md_ctx *c ) { c->real = NULL; c->magic = 0x6d645f63U; }
int vp_old_digest_init( vp_old_md_ctx *c, const EVP_MD *t, ENGINE *e );
int vp_old_update( vp_old_md_ctx *c, const void *d, size_t n );
int vp_old_final( vp_old_md_ctx *c, unsigned char *d, unsigned int *n );
int vp_old_cleanup( vp_old_md_ctx *c );
#define EVP_MD_CTX vp_old_md_ctx
#undef EVP_MD_CTX_init
#define EVP_MD_CTX_init vp_old_init
#define EVP_MD_CTX_cleanup vp_old_cleanup
#define EVP_DigestInit_ex vp_old_digest_init
#define EVP_DigestUpdate vp_old_update
#define EVP_DigestFinal_ex vp_old_final
#endif
