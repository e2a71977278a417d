/* Hashes messages of around 2^29 to 2^32 bytes with the code under test, next to a
 * witness (the compression functions of libcrypto) that tells the chaining value of
 * the whole blocks before the last few hundred bytes. The specification finishes the
 * digest from there: padding, the encoded length and the output are its own.
 *
 * stream alg lay chunk base1,base2,.. extra,extra,..
 *     one context absorbs pieces of chunk bytes (0: one piece up to each base); at each
 *     base a child process goes on with each extra in turn, and finalizes
 * one alg lay mode base extra
 *     mode update: one update of base + extra bytes; calc; hmac (key of 20 bytes);
 *     bigkey: hmac with a key of base + extra bytes and a message of 20
 * repeat alg lay mode count size
 *     the same calculation (ctx, calc or hmac) count times, with refused calls in
 *     between; tells the first result, the first that differs, and the last
 * many alg lay count size,size,..
 *     count contexts of all algorithms open at once, fed in turn
 */
#define _GNU_SOURCE
#define OPENSSL_SUPPRESS_DEPRECATED
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#if !defined( VP_M32 )
#include <openssl/md5.h>
#include <openssl/sha.h>
#endif
#include <libhmac.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

typedef struct
{
	const char *name;
	size_t hash, block;
	int (*init[ 2 ])( intptr_t **, libhmac_error_t ** );
	int (*free_[ 2 ])( intptr_t **, libhmac_error_t ** );
	int (*update[ 2 ])( intptr_t *, const uint8_t *, size_t, libhmac_error_t ** );
	int (*final[ 2 ])( intptr_t *, uint8_t *, size_t, libhmac_error_t ** );
	int (*calc)( const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );
	int (*hmac)( const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );
} alg_t;
#define A( n, h, b ) { #n, h, b, \
	{ (void *) libhmac_##n##_context_initialize, (void *) libhmac_##n##_initialize }, \
	{ (void *) libhmac_##n##_context_free, (void *) libhmac_##n##_free }, \
	{ (void *) libhmac_##n##_context_update, (void *) libhmac_##n##_update }, \
	{ (void *) libhmac_##n##_context_finalize, (void *) libhmac_##n##_finalize }, \
	libhmac_##n##_calculate, libhmac_##n##_calculate_hmac }
static alg_t algs[] = {
	A( md5, 16, 64 ), A( sha1, 20, 64 ), A( sha224, 28, 64 ), A( sha256, 32, 64 ), A( sha512, 64, 128 ) };

static uint8_t gen( long p, uint64_t i )
{
	return( (uint8_t) ( ( ( i % 65536 ) * 167 + ( i / 256 ) * 13 + (uint64_t) p * 59 + 7 ) % 256 ) );
}

#if defined( VP_M32 )
/* 32-bit: half of the address space, no witness (the run of a 64-bit build tells it) */
#define SPAN 0x80200000U
#define WRAP( x ) ( (size_t) ( ( x ) & 0x3fffffffU ) )
#define MOST( x ) ( 0x40000000U - WRAP( x ) )
static void w_init( int a ) { (void) a; }
static void w_update( const uint8_t *d, size_t n ) { (void) d; (void) n; }
static void w_print( void ) { printf( "\"h\":[]" ); }
#else
#define SPAN 0x100200000ULL
#define WRAP( x ) ( x )
#define MOST( x ) ( SPAN - ( x ) )
typedef union { MD5_CTX md5; SHA_CTX sha1; SHA256_CTX sha256; SHA512_CTX sha512; } wit_t;
static wit_t w;
static int wa;
static void w_init( int a )
{
	wa = a;
	if( a == 0 ) { MD5_Init( &w.md5 ); } else if( a == 1 ) { SHA1_Init( &w.sha1 ); }
	else if( a == 2 ) { SHA224_Init( &w.sha256 ); } else if( a == 3 ) { SHA256_Init( &w.sha256 ); }
	else { SHA512_Init( &w.sha512 ); }
}
static void w_update( const uint8_t *d, size_t n )
{
	if( wa == 0 ) { MD5_Update( &w.md5, d, n ); } else if( wa == 1 ) { SHA1_Update( &w.sha1, d, n ); }
	else if( wa == 2 ) { SHA224_Update( &w.sha256, d, n ); } else if( wa == 3 ) { SHA256_Update( &w.sha256, d, n ); }
	else { SHA512_Update( &w.sha512, d, n ); }
}
static void w_print( void )
{
	uint32_t x[ 8 ]; int i, n = 8;
	printf( "\"h\":[" );
	if( wa == 4 )
	{
		for( i = 0; i < 8; i++ )
		{
			uint64_t v = w.sha512.h[ i ];
			printf( "%s[%u,%u,%u,%u]", i ? "," : "", (unsigned) ( v >> 48 ), (unsigned) ( v >> 32 ) & 65535,
			        (unsigned) ( v >> 16 ) & 65535, (unsigned) v & 65535 );
		}
	}
	else
	{
		if( wa == 0 ) { x[ 0 ] = w.md5.A; x[ 1 ] = w.md5.B; x[ 2 ] = w.md5.C; x[ 3 ] = w.md5.D; n = 4; }
		else if( wa == 1 ) { x[ 0 ] = w.sha1.h0; x[ 1 ] = w.sha1.h1; x[ 2 ] = w.sha1.h2; x[ 3 ] = w.sha1.h3; x[ 4 ] = w.sha1.h4; n = 5; }
		else { for( i = 0; i < 8; i++ ) { x[ i ] = w.sha256.h[ i ]; } }
		for( i = 0; i < n; i++ ) { printf( "%s[%u,%u]", i ? "," : "", x[ i ] >> 16, x[ i ] & 65535 ); }
	}
	printf( "]" );
}
#endif
static void event( int a, const char *kind, int ret, uint64_t size, const uint8_t *tail, size_t nt,
                   const uint8_t *key, size_t nk, const uint8_t *out )
{
	size_t i;
	printf( "{\"op\":\"stream\",\"kind\":\"%s\",\"alg\":\"%s\",\"ret\":%d,\"n\":[%u,%u,%u,%u],", kind, algs[ a ].name, ret,
	        (unsigned) ( size >> 48 ), (unsigned) ( size >> 32 ) & 65535, (unsigned) ( size >> 16 ) & 65535, (unsigned) size & 65535 );
	w_print();
	printf( ",\"t\":[" );
	for( i = 0; i < nt; i++ ) { printf( "%s%u", i ? "," : "", tail[ i ] ); }
	printf( "],\"key\":[" );
	for( i = 0; i < nk; i++ ) { printf( "%s%u", i ? "," : "", key[ i ] ); }
	printf( "],\"out\":[" );
	if( ret == 1 ) { for( i = 0; i < algs[ a ].hash; i++ ) { printf( "%s%u", i ? "," : "", out[ i ] ); } }
	printf( "]}\n" );
	fflush( stdout );
}

int main( int argc, char **argv )
{
	size_t m = 1 << 20, span = (size_t) SPAN, off; int fd, a, lay; uint8_t *z, *p; uint64_t i;
	uint8_t out[ 128 ];
	intptr_t *ctx = NULL;
	if( argc < 6 ) { return( 3 ); }
	for( a = 0; a < 5 && strcmp( algs[ a ].name, argv[ 2 ] ) != 0; a++ ) { ; }
	lay = atoi( argv[ 3 ] );
	fd = memfd_create( "vp", 0 );
	if( fd < 0 || ftruncate( fd, m ) != 0 ) { return( 3 ); }
	p = mmap( NULL, m, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
	for( i = 0; i < m; i++ ) { p[ i ] = gen( 5, i ); }
	z = mmap( NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	if( z == MAP_FAILED ) { return( 3 ); }
	for( off = 0; off < span; off += m )
	{
		if( mmap( z + off, m, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) { return( 3 ); }
	}
	if( strcmp( argv[ 1 ], "stream" ) == 0 )
	{
		uint64_t chunk = strtoull( argv[ 4 ], NULL, 10 ), pos = 0, base, n; char *b, *e, *save = NULL, *save2, ex[ 4096 ];
		int ret = algs[ a ].init[ lay ]( &ctx, NULL );
		if( ret != 1 ) { event( a, "hash", ret, 0, NULL, 0, NULL, 0, out ); return( 0 ); }
		w_init( a );
		for( b = strtok_r( argv[ 5 ], ",", &save ); b != NULL; b = strtok_r( NULL, ",", &save ) )
		{
			base = strtoull( b, NULL, 10 );
			w_update( z + WRAP( pos ), base - pos );
			while( pos < base )
			{
				n = chunk == 0 || base - pos < chunk ? base - pos : chunk;
				if( n > MOST( pos ) ) { n = MOST( pos ); }
				if( argc > 7 && algs[ a ].update[ lay ]( ctx, z + WRAP( pos ), 0, NULL ) != 1 ) { event( a, "hash", -1, 0, NULL, 0, NULL, 0, out ); return( 0 ); }
				ret = algs[ a ].update[ lay ]( ctx, z + WRAP( pos ), n, NULL );
				if( ret != 1 ) { event( a, "hash", ret, 0, NULL, 0, NULL, 0, out ); return( 0 ); }
				pos += n;
			}
			strcpy( ex, argv[ 6 ] );
			save2 = NULL;
			for( e = strtok_r( ex, ",", &save2 ); e != NULL; e = strtok_r( NULL, ",", &save2 ) )
			{
				size_t x = strtoull( e, NULL, 10 );
				pid_t k;
				fflush( stdout );
				k = fork();
				if( k < 0 ) { return( 3 ); }
				if( k == 0 )
				{
					memset( out, 0, sizeof( out ) );
					if( x > 3 )
					{
						ret = algs[ a ].update[ lay ]( ctx, z + WRAP( pos ), 3, NULL );
						if( ret == 1 ) { ret = algs[ a ].update[ lay ]( ctx, z + WRAP( pos ) + 3, x - 3, NULL ); }
					}
					else { ret = algs[ a ].update[ lay ]( ctx, z + WRAP( pos ), x, NULL ); }
					if( ret == 1 ) { ret = algs[ a ].final[ lay ]( ctx, out, algs[ a ].hash, NULL ); }
					event( a, "hash", ret, pos + x, z + WRAP( pos ), x, NULL, 0, out );
					_exit( 0 );
				}
				{
					int st = 0;
					waitpid( k, &st, 0 );
					if( st != 0 ) { fprintf( stderr, "child died: %d\n", st ); return( 4 ); }
				}
			}
		}
		algs[ a ].free_[ lay ]( &ctx, NULL );
	}
	else if( strcmp( argv[ 1 ], "repeat" ) == 0 )
	{
		long count = atol( argv[ 5 ] ), j; size_t x = strtoull( argv[ 6 ], NULL, 10 ); int ret, hm = strcmp( argv[ 4 ], "hmac" ) == 0, told = 0;
		uint8_t first[ 128 ], key[ 20 ], blk[ 128 ];
		memset( blk, 0x36, 128 );
		for( i = 0; i < 20; i++ ) { key[ i ] = gen( 9, i ); blk[ i ] ^= key[ i ]; }
		w_init( a );
		if( hm ) { w_update( blk, algs[ a ].block ); }
		for( j = 0; j < count; j++ )
		{
			memset( out, 0, sizeof( out ) );
			if( hm ) { ret = algs[ a ].hmac( key, 20, z, x, out, algs[ a ].hash, NULL ); }
			else if( strcmp( argv[ 4 ], "calc" ) == 0 ) { ret = algs[ a ].calc( z, x, out, algs[ a ].hash, NULL ); }
			else
			{
				ret = algs[ a ].init[ lay ]( &ctx, NULL );
				if( ret == 1 && j % 3 == 1 && algs[ a ].final[ lay ]( ctx, out, 3, NULL ) != -1 ) { ret = -5; }
				if( ret == 1 && j % 3 == 2 && algs[ a ].update[ lay ]( ctx, NULL, 3, NULL ) != -1 ) { ret = -5; }
				if( ret == 1 ) { ret = algs[ a ].update[ lay ]( ctx, z, x, NULL ); }
				if( ret == 1 ) { ret = algs[ a ].final[ lay ]( ctx, out, algs[ a ].hash, NULL ); }
				if( algs[ a ].free_[ lay ]( &ctx, NULL ) != 1 || ctx != NULL ) { ret = -5; ctx = NULL; }
			}
			if( j == 0 ) { memcpy( first, out, sizeof( first ) ); }
			if( j == 0 || j == count - 1 || ret != 1 || memcmp( first, out, sizeof( first ) ) != 0 )
			{
				event( a, hm ? "hmac" : "hash", ret, x + ( hm ? algs[ a ].block : 0 ), z, x, key, hm ? 20 : 0, out );
				if( j > 0 && ++told >= 3 ) { return( 0 ); }
			}
		}
	}
	else if( strcmp( argv[ 1 ], "many" ) == 0 )
	{
		long count = atol( argv[ 4 ] ), j; intptr_t **c = calloc( count, sizeof( intptr_t * ) ); int *r = calloc( count, sizeof( int ) );
		char *b, *save = NULL; uint64_t pos = 0, n;
		for( j = 0; j < count; j++ ) { r[ j ] = algs[ ( a + j ) % 5 ].init[ lay ]( &c[ j ], NULL ); }
		for( b = strtok_r( argv[ 5 ], ",", &save ); b != NULL; b = strtok_r( NULL, ",", &save ), pos += n )
		{
			n = strtoull( b, NULL, 10 );
			for( j = 0; j < count; j++ )
			{
				if( r[ j ] == 1 ) { r[ j ] = algs[ ( a + j ) % 5 ].update[ lay ]( c[ j ], z + 13 * j + pos, n, NULL ); }
			}
		}
		for( j = 0; j < count; j++ )
		{
			long q = ( j * 7 ) % count; int y = ( a + q ) % 5;
			memset( out, 0, sizeof( out ) );
			if( r[ q ] == 1 ) { r[ q ] = algs[ y ].final[ lay ]( c[ q ], out, algs[ y ].hash, NULL ); }
			w_init( y );
			event( y, "hash", r[ q ], pos, z + 13 * q, pos, NULL, 0, out );
			if( algs[ y ].free_[ lay ]( &c[ q ], NULL ) != 1 || c[ q ] != NULL ) { return( 4 ); }
		}
		free( c ); free( r );
	}
	else
	{
		uint64_t base = strtoull( argv[ 5 ], NULL, 10 ); size_t x = strtoull( argv[ 6 ], NULL, 10 ); int ret;
		uint8_t key[ 20 ], blk[ 128 ];
		memset( out, 0, sizeof( out ) );
		w_init( a );
		if( strcmp( argv[ 4 ], "bigkey" ) == 0 )
		{
			for( i = 0; i < 20; i++ ) { key[ i ] = gen( 9, i ); }
			w_update( z, base );
			ret = algs[ a ].hmac( z, base + x, key, 20, out, algs[ a ].hash, NULL );
			event( a, "bigkey", ret, base + x, z + base, x, key, 20, out );
		}
		else if( strcmp( argv[ 4 ], "hmac" ) == 0 )
		{
			memset( blk, 0x36, 128 );
			for( i = 0; i < 20; i++ ) { key[ i ] = gen( 9, i ); blk[ i ] ^= key[ i ]; }
			w_update( blk, algs[ a ].block );
			w_update( z, base );
			ret = algs[ a ].hmac( key, 20, z, base + x, out, algs[ a ].hash, NULL );
			event( a, "hmac", ret, base + x + algs[ a ].block, z + base, x, key, 20, out );
		}
		else
		{
			w_update( z, base );
			if( strcmp( argv[ 4 ], "calc" ) == 0 ) { ret = algs[ a ].calc( z, base + x, out, algs[ a ].hash, NULL ); }
			else
			{
				ret = algs[ a ].init[ lay ]( &ctx, NULL );
				if( ret == 1 ) { ret = algs[ a ].update[ lay ]( ctx, z, base + x, NULL ); }
				if( ret == 1 ) { ret = algs[ a ].final[ lay ]( ctx, out, algs[ a ].hash, NULL ); }
				algs[ a ].free_[ lay ]( &ctx, NULL );
			}
			event( a, "hash", ret, base + x, z + base, x, NULL, 0, out );
		}
	}
	return( 0 );
}
