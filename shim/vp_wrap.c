#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp_wrap.h"
#if defined( VP_EVP )
#include <openssl/evp.h>
#endif
#if defined( VP_LOW )
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/md5.h>
#include <openssl/sha.h>
#endif

void *__real_malloc( size_t );
void *__real_calloc( size_t, size_t );
void *__real_realloc( void *, size_t );
void  __real_free( void * );

#define TAB 4096
static struct { void *p; size_t n; } tab[ TAB ];
/* Only calls made by the thread that began the call are counted */
static __thread int in_call = 0;
static int kinds_on = 0;
/* told of every heap operation, where a driver defines it */
void vp_heap_hook( int failing ) __attribute__(( weak ));
static void heap( int failing ) { if( vp_heap_hook != NULL ) { vp_heap_hook( failing ); } }
static long fault_at = 0, ops = 0, live = 0, dirty = 0;
static int fired = 0;
static uint8_t secrets[ 16 ][ 4096 ];
static size_t secret_sizes[ 16 ];
static int nsecrets = 0;

void vp_call_begin( int kinds, long at )
{
	kinds_on = kinds; fault_at = at; ops = 0; fired = 0; in_call = 1;
}
int vp_call_end( void ) { in_call = 0; return( fired ); }
long vp_ops( void ) { return( ops ); }
long vp_live( void ) { return( live ); }
long vp_dirty( void ) { return( dirty ); }
void vp_secrets_clear( void ) { nsecrets = 0; dirty = 0; }
void vp_secret_add( const uint8_t *d, size_t n )
{
	if( nsecrets < 16 && n >= 8 )
	{
		if( n > 4096 ) { n = 4096; }
		memcpy( secrets[ nsecrets ], d, n );
		secret_sizes[ nsecrets++ ] = n;
	}
}
static int fail( int kind )
{
	if( in_call == 0 || ( kinds_on & kind ) == 0 ) { return( 0 ); }
	ops++;
	if( fault_at > 0 && ops == fault_at ) { fired = 1; if( kind == VP_KIND_BACKEND ) { heap( 2 ); } return( 1 ); }
	return( 0 );
}
/* padding with a byte or two before it is no evidence */
static int constant8( const uint8_t *p )
{
	int i, j, distinct = 0;
	for( i = 0; i < 8; i++ )
	{
		for( j = 0; j < i; j++ ) { if( p[ j ] == p[ i ] ) { break; } }
		if( j == i ) { distinct++; }
	}
	return( distinct < 5 );
}
static void scan( const uint8_t *b, size_t n )
{
	size_t i, j; int s;
	if( n < 8 ) { return; }
	for( s = 0; s < nsecrets; s++ )
	{
		for( i = 0; i + 8 <= secret_sizes[ s ]; i++ )
		{
			if( constant8( &secrets[ s ][ i ] ) ) { continue; }
			for( j = 0; j + 8 <= n; j++ )
			{
				if( b[ j ] == secrets[ s ][ i ] && memcmp( &b[ j ], &secrets[ s ][ i ], 8 ) == 0 )
				{
					if( getenv( "VP_DEBUG" ) ) { fprintf( stderr, "dirty: secret %d at %zu, block of %zu at %zu\n", s, i, n, j ); }
					dirty++;
					return;
				}
			}
		}
	}
}
static void note( void *p, size_t n )
{
	int i;
	if( p == NULL ) { return; }
	for( i = 0; i < TAB; i++ )
	{
		if( tab[ i ].p == NULL ) { tab[ i ].p = p; tab[ i ].n = n; live++; return; }
	}
	fprintf( stderr, "vp_wrap: table full\n" );
	abort();
}
static int forget( void *p )
{
	int i;
	for( i = 0; i < TAB; i++ )
	{
		if( tab[ i ].p == p )
		{
			scan( (const uint8_t *) p, tab[ i ].n );
			tab[ i ].p = NULL; live--;
			return( 1 );
		}
	}
	return( 0 );
}
void *__wrap_malloc( size_t n )
{
	void *p;
	if( in_call == 0 ) { return( __real_malloc( n ) ); }
	heap( 0 );
	if( fail( VP_KIND_MALLOC ) ) { heap( 1 ); return( NULL ); }
	p = __real_malloc( n );
	/* fresh memory is never zero by accident */
	if( p != NULL && n < ( 1 << 20 ) ) { memset( p, 0xa5, n ); }
	note( p, n );
	return( p );
}
void *__wrap_calloc( size_t a, size_t b )
{
	void *p;
	if( in_call == 0 ) { return( __real_calloc( a, b ) ); }
	heap( 0 );
	if( fail( VP_KIND_MALLOC ) ) { heap( 1 ); return( NULL ); }
	p = __real_calloc( a, b );
	note( p, a * b );
	return( p );
}
void *__wrap_realloc( void *q, size_t n )
{
	void *p;
	if( in_call == 0 ) { return( __real_realloc( q, n ) ); }
	heap( 0 );
	if( fail( VP_KIND_MALLOC ) ) { heap( 1 ); return( NULL ); }
	p = __real_malloc( n );
	if( p != NULL && q != NULL )
	{
		int i; size_t m = 0;
		for( i = 0; i < TAB; i++ ) { if( tab[ i ].p == q ) { m = tab[ i ].n; } }
		memcpy( p, q, m < n ? m : n );
		forget( q );
		__real_free( q );
	}
	note( p, n );
	return( p );
}
void __wrap_free( void *p )
{
	if( in_call ) { heap( 0 ); }
	if( p != NULL && live > 0 ) { forget( p ); }
	__real_free( p );
}
int vp_fail( int kind ) { return( fail( kind ) ); }
void vp_note( void *p, int delta ) { if( delta > 0 ) { if( in_call ) { note( p, 0 ); } } else { forget( p ); } }
#if defined( VP_NOBUILTIN )
void *__real_memcpy( void *, const void *, size_t );
void *__real_memset( void *, int, size_t );
void *__wrap_memcpy( void *d, const void *s, size_t n )
{
	__real_memcpy( d, s, n );
	return( fail( VP_KIND_MEMORY ) ? NULL : d );
}
void *__wrap_memset( void *d, int c, size_t n )
{
	__real_memset( d, c, n );
	return( fail( VP_KIND_MEMORY ) ? NULL : d );
}
#endif
#if defined( VP_EVP )
EVP_MD_CTX *__real_EVP_MD_CTX_new( void );
void __real_EVP_MD_CTX_free( EVP_MD_CTX * );
int __real_EVP_DigestInit_ex2( EVP_MD_CTX *, const EVP_MD *, const OSSL_PARAM * );
int __real_EVP_DigestInit_ex( EVP_MD_CTX *, const EVP_MD *, ENGINE * );
int __real_EVP_DigestUpdate( EVP_MD_CTX *, const void *, size_t );
int __real_EVP_DigestFinal_ex( EVP_MD_CTX *, unsigned char *, unsigned int * );
EVP_MD_CTX *__wrap_EVP_MD_CTX_new( void )
{
	EVP_MD_CTX *c;
	if( fail( VP_KIND_BACKEND ) ) { return( NULL ); }
	c = __real_EVP_MD_CTX_new();
	if( in_call && c != NULL ) { note( c, 0 ); }
	return( c );
}
void __wrap_EVP_MD_CTX_free( EVP_MD_CTX *c )
{
	if( c != NULL ) { forget( c ); }
	__real_EVP_MD_CTX_free( c );
}
int __wrap_EVP_DigestInit_ex2( EVP_MD_CTX *c, const EVP_MD *t, const OSSL_PARAM *p )
{
	return( fail( VP_KIND_BACKEND ) ? 0 : __real_EVP_DigestInit_ex2( c, t, p ) );
}
int __wrap_EVP_DigestInit_ex( EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e )
{
	return( fail( VP_KIND_BACKEND ) ? 0 : __real_EVP_DigestInit_ex( c, t, e ) );
}
int __wrap_EVP_DigestUpdate( EVP_MD_CTX *c, const void *d, size_t n )
{
	return( fail( VP_KIND_BACKEND ) ? 0 : __real_EVP_DigestUpdate( c, d, n ) );
}
int __wrap_EVP_DigestFinal_ex( EVP_MD_CTX *c, unsigned char *d, unsigned int *n )
{
	return( fail( VP_KIND_BACKEND ) ? 0 : __real_EVP_DigestFinal_ex( c, d, n ) );
}
#endif
#if defined( VP_LOW )
#define W( name, CTX ) \
int __real_##name##_Init( CTX * ); \
int __real_##name##_Update( CTX *, const void *, size_t ); \
int __real_##name##_Final( unsigned char *, CTX * ); \
int __wrap_##name##_Init( CTX *c ) { return( fail( VP_KIND_BACKEND ) ? 0 : __real_##name##_Init( c ) ); } \
int __wrap_##name##_Update( CTX *c, const void *d, size_t n ) { return( fail( VP_KIND_BACKEND ) ? 0 : __real_##name##_Update( c, d, n ) ); } \
int __wrap_##name##_Final( unsigned char *d, CTX *c ) { return( fail( VP_KIND_BACKEND ) ? 0 : __real_##name##_Final( d, c ) ); }
W( MD5, MD5_CTX )
W( SHA1, SHA_CTX )
W( SHA224, SHA256_CTX )
W( SHA256, SHA256_CTX )
W( SHA512, SHA512_CTX )
#endif
#if defined( VP_PY )
/* The interpreter running out of memory for a result */
typedef struct _object PyObject;
PyObject *__real_PyBytes_FromStringAndSize( const char *, ssize_t );
PyObject *PyErr_NoMemory( void );
PyObject *__wrap_PyBytes_FromStringAndSize( const char *s, ssize_t n )
{
	return( fail( VP_KIND_PYTHON ) ? PyErr_NoMemory() : __real_PyBytes_FromStringAndSize( s, n ) );
}
#endif
