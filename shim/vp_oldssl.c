/* Implementation behind oldssl/openssl/evp.h */
#include <openssl/evp.h>
#undef EVP_MD_CTX
#undef EVP_DigestInit_ex
#undef EVP_DigestUpdate
#undef EVP_DigestFinal_ex
#include "vp_wrap.h"
#define MAGIC 0x6d645f63U
/* Fault injection and accounting where the program has it */
#pragma weak vp_fail
#pragma weak vp_note
static int fails( void ) { return( vp_fail != NULL && vp_fail( VP_KIND_BACKEND ) ); }
/* A context that was never initialised or already cleaned up is refused loudly */
int vp_old_digest_init( vp_old_md_ctx *c, const EVP_MD *t, ENGINE *e )
{
	if( c == NULL || c->magic != MAGIC ) { abort(); }
	if( fails() ) { return( 0 ); }
	if( c->real == NULL )
	{
		c->real = EVP_MD_CTX_new();
		if( c->real != NULL && vp_note != NULL ) { vp_note( c->real, 1 ); }
	}
	return( c->real == NULL ? 0 : EVP_DigestInit_ex( c->real, t, e ) );
}
int vp_old_update( vp_old_md_ctx *c, const void *d, size_t n )
{
	if( c == NULL || c->magic != MAGIC ) { abort(); }
	return( fails() ? 0 : EVP_DigestUpdate( c->real, d, n ) );
}
int vp_old_final( vp_old_md_ctx *c, unsigned char *d, unsigned int *n )
{
	if( c == NULL || c->magic != MAGIC ) { abort(); }
	return( fails() ? 0 : EVP_DigestFinal_ex( c->real, d, n ) );
}
int vp_old_cleanup( vp_old_md_ctx *c )
{
	int r;
	if( c == NULL || c->magic != MAGIC ) { abort(); }
	/* a failing clean up reports failure after it has released the context */
	r = fails() ? 0 : 1;
	if( c->real != NULL && vp_note != NULL ) { vp_note( c->real, -1 ); }
	EVP_MD_CTX_free( c->real );
	c->real = NULL; c->magic = 0;
	return( r );
}
