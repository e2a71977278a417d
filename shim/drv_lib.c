/* Executes scripted calls on the public interface of libhmac and reports, per call,
 * everything a caller can observe. One command per line (key=value tokens), one JSON
 * object per line as the answer. See vp/lib.py for the commands.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <limits.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <libcerror.h>
#include <libhmac.h>
#include "vp_wrap.h"

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

void *__real_malloc( size_t );
void  __real_free( void * );

typedef struct
{
	const char *name;
	size_t hash, block;
	int (*init[ 2 ])( intptr_t **, libhmac_error_t ** );
	int (*free_[ 2 ])( intptr_t **, libhmac_error_t ** );
	int (*update[ 2 ])( intptr_t *, const uint8_t *, size_t, libhmac_error_t ** );
	int (*final[ 2 ])( intptr_t *, uint8_t *, size_t, libhmac_error_t ** );
	int (*calc)( const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );
	int (*hmac)( const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );
} alg_t;

#define A( n, h, b ) { #n, h, b, \
	{ (void *) libhmac_##n##_context_initialize, (void *) libhmac_##n##_initialize }, \
	{ (void *) libhmac_##n##_context_free, (void *) libhmac_##n##_free }, \
	{ (void *) libhmac_##n##_context_update, (void *) libhmac_##n##_update }, \
	{ (void *) libhmac_##n##_context_finalize, (void *) libhmac_##n##_finalize }, \
	libhmac_##n##_calculate, libhmac_##n##_calculate_hmac }

static alg_t algs[] = {
	A( md5, LIBHMAC_MD5_HASH_SIZE, 64 ), A( sha1, LIBHMAC_SHA1_HASH_SIZE, 64 ),
	A( sha224, LIBHMAC_SHA224_HASH_SIZE, 64 ), A( sha256, LIBHMAC_SHA256_HASH_SIZE, 64 ),
	A( sha512, LIBHMAC_SHA512_HASH_SIZE, 128 ) };

#define SLOTS 16
static intptr_t *slots[ SLOTS ];

static char *toks[ 64 ];
static int ntoks;
static const char *arg( const char *k )
{
	size_t n = strlen( k );
	int i;
	for( i = 0; i < ntoks; i++ )
	{
		if( strncmp( toks[ i ], k, n ) == 0 && toks[ i ][ n ] == '=' ) { return( toks[ i ] + n + 1 ); }
	}
	return( NULL );
}
static long num( const char *k, long d )
{
	const char *v = arg( k );
	return( v == NULL ? d : atol( v ) );
}
static size_t size_of( const char *v )
{
	if( v[ 0 ] == 'M' ) { return( (size_t) SSIZE_MAX + 1 ); }
	if( v[ 0 ] == 'S' ) { return( (size_t) SSIZE_MAX ); }
	if( v[ 0 ] == 'U' ) { return( (size_t) UINT_MAX + 1 ); }
	if( v[ 0 ] == 'V' ) { return( (size_t) INT_MAX + 1 ); }
	if( v[ 0 ] == 'X' ) { return( SIZE_MAX ); }
	if( v[ 0 ] == 'W' ) { return( (size_t) SSIZE_MAX + 4096 ); }
	return( (size_t) strtoull( v, NULL, 10 ) );
}

static uint8_t gen( long p, uint64_t i )
{
	return( (uint8_t) ( ( ( i % 65536 ) * 167 + ( i / 256 ) * 13 + (uint64_t) p * 59 + 7 ) % 256 ) );
}

/* A region of readable memory between two inaccessible pages */
typedef struct { uint8_t *map; size_t map_size; uint8_t *p; size_t n; uint8_t *lo; size_t span; } region_t;

static void region_make( region_t *r, size_t n, int at_start, size_t mis )
{
	size_t span = ( ( n + mis + 4095 ) / 4096 ) * 4096;
	if( span == 0 ) { span = 4096; }
	r->map_size = span + 8192;
	r->map = mmap( NULL, r->map_size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	if( r->map == MAP_FAILED ) { perror( "mmap" ); exit( 3 ); }
	r->lo = r->map + 4096;
	r->span = span;
	mprotect( r->lo, span, PROT_READ | PROT_WRITE );
	r->n = n;
	/* misaligned only at the start: at the end the alignment follows from the size */
	r->p = at_start ? r->lo + mis : r->lo + span - n;
}
static void region_drop( region_t *r )
{
	if( r->map != NULL ) { munmap( r->map, r->map_size ); r->map = NULL; }
}

typedef struct { region_t r; const uint8_t *p; size_t n; int real; size_t huge; } data_t;

static int hexv( char c ) { return( c <= '9' ? c - '0' : c - 'a' + 10 ); }

/* g:p:o:n  h:hex  null:n  big:n (small memory, absurd size)  z:p:n (huge, period 1 MiB) */
static void data_make( data_t *d, const char *s, int at_start, size_t mis )
{
	memset( d, 0, sizeof( *d ) );
	if( s[ 0 ] == 'g' )
	{
		long p; unsigned long long o, n, i;
		sscanf( s, "g:%ld:%llu:%llu", &p, &o, &n );
		region_make( &d->r, n, at_start, mis );
		for( i = 0; i < n; i++ ) { d->r.p[ i ] = gen( p, o + i ); }
		d->p = d->r.p; d->n = n; d->real = 1;
	}
	else if( s[ 0 ] == 'h' )
	{
		size_t n = strlen( s + 2 ) / 2, i;
		region_make( &d->r, n, at_start, mis );
		for( i = 0; i < n; i++ ) { d->r.p[ i ] = (uint8_t) ( hexv( s[ 2 + 2 * i ] ) * 16 + hexv( s[ 3 + 2 * i ] ) ); }
		d->p = d->r.p; d->n = n; d->real = 1;
	}
	else if( s[ 0 ] == 'n' )
	{
		d->p = NULL; d->n = size_of( s + 5 );
	}
	else if( s[ 0 ] == 'b' )
	{
		region_make( &d->r, 16, 0, 0 );
		d->p = d->r.p; d->n = size_of( s + 4 );
	}
	else if( s[ 0 ] == 'z' )
	{
		long p; unsigned long long n, i; uint8_t *a; int fd; size_t m = 1 << 20, off, span;
		sscanf( s, "z:%ld:%llu", &p, &n );
		span = ( ( n + m - 1 ) / m ) * m;
		fd = memfd_create( "vp", 0 );
		if( fd < 0 || ftruncate( fd, m ) != 0 ) { perror( "memfd" ); exit( 3 ); }
		a = mmap( NULL, m, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
		for( i = 0; i < m; i++ ) { a[ i ] = gen( p, i ); }
		munmap( a, m );
		a = mmap( NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		if( a == MAP_FAILED ) { perror( "mmap" ); exit( 3 ); }
		for( off = 0; off < span; off += m )
		{
			if( mmap( a + off, m, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED ) { perror( "mmap z" ); exit( 3 ); }
		}
		close( fd );
		d->r.map = a; d->r.map_size = span; d->p = a; d->n = n; d->huge = n;
	}
	else { fprintf( stderr, "bad data %s\n", s ); exit( 3 ); }
}
static void data_protect( data_t *d )
{
	if( d->real ) { mprotect( d->r.lo, d->r.span, PROT_READ ); }
}

static alg_t *find( const char *n )
{
	size_t i;
	for( i = 0; i < 5; i++ ) { if( strcmp( algs[ i ].name, n ) == 0 ) { return( &algs[ i ] ); } }
	fprintf( stderr, "bad alg %s\n", n ); exit( 3 );
}

/* The secrets of an HMAC call, worked out independently of the code under test */
static void secrets_for( alg_t *a, const uint8_t *key, size_t n )
{
	uint8_t blk[ 128 ], x[ 128 ]; size_t i;
	memset( blk, 0, sizeof( blk ) );
	if( key == NULL ) { return; }
	vp_secret_add( key, n );
	if( n <= a->block ) { memcpy( blk, key, n ); }
	else
	{
		/* the hash of the key, by the code under test: its value is judged elsewhere */
		if( a->calc( key, n, blk, a->hash, NULL ) != 1 ) { return; }
	}
	vp_secret_add( blk, a->block );
	if( n > a->block )
	{
		/* the chaining value of a context, as words in memory */
		size_t w = a->block == 128 ? 8 : 4;
		for( i = 0; i < a->hash; i++ ) { x[ i ] = blk[ ( i / w ) * w + ( w - 1 - i % w ) ]; }
		vp_secret_add( x, a->hash );
	}
	for( i = 0; i < a->block; i++ ) { x[ i ] = blk[ i ] ^ 0x36; }
	vp_secret_add( x, a->block );
	for( i = 0; i < a->block; i++ ) { x[ i ] = blk[ i ] ^ 0x5c; }
	vp_secret_add( x, a->block );
}

int main( int argc, char **argv )
{
	static char line[ 1 << 21 ];
	long i;

	(void) argc; (void) argv;
	/* let libcrypto load its providers before accounting starts */
	for( i = 0; i < 5; i++ )
	{
		uint8_t h[ 64 ];
		if( algs[ i ].calc( (const uint8_t *) "x", 1, h, 64, NULL ) < 0 ) { ; }
	}
	setvbuf( stdout, NULL, _IOLBF, 1 << 16 );
	while( fgets( line, sizeof( line ), stdin ) != NULL )
	{
		char *save = NULL, *t;
		const char *op, *v;
		libhmac_error_t *err = NULL, **errp = NULL;
		alg_t *a; data_t d = {0}, k = {0}; region_t out = {0};
		intptr_t **ref = NULL, *ctx = NULL, *before = NULL;
		int c, lay, e, ret = -9, at_start, alias, outnull = 0, ec0 = 0, ec1, fired, have_out = 0, i_;
		size_t mis, hs = 0, cap = 0, j; long wrote = 0, tail = 1, fault, kinds; uint8_t *op_ = NULL;

		ntoks = 0;
		for( t = strtok_r( line, " \n", &save ); t != NULL && ntoks < 64; t = strtok_r( NULL, " \n", &save ) ) { toks[ ntoks++ ] = t; }
		if( ntoks == 0 ) { continue; }
		op = arg( "op" );
		if( strcmp( op, "reset" ) == 0 )
		{
			/* drop everything, outside of the accounting of any call */
			for( i_ = 0; i_ < SLOTS; i_++ ) { slots[ i_ ] = NULL; }
			printf( "{\"live\":%ld,\"errs\":%ld}\n", vp_live(), vp_errors_live() );
			continue;
		}
		if( strcmp( op, "errtext" ) == 0 )
		{
			/* m messages, then one of the printing functions with a buffer of size hs */
			int m = (int) num( "m", 1 ), fn = (int) num( "fn", 0 ), guard = 1, q;
			size_t n = (size_t) num( "hs", 0 ); char *buf = NULL; char msg[ 64 ]; FILE *fp = NULL;
			char *text = NULL; size_t text_size = 0, z;
			int nul = (int) num( "null", 0 );
			for( q = 0; q < m; q++ )
			{
				sprintf( msg, "error%dmessage%.*s", q, q * 3, "xxxxxxxxxxxxxxx" );
				libcerror_error_set( (libcerror_error_t **) &err, 'a' + q, q, "%s", msg );
			}
			if( fn == 0 || fn == 2 )
			{
				region_t r; region_make( &r, n, 0, 0 ); buf = (char *) r.p;
				for( z = 0; z < r.span; z++ ) { r.lo[ z ] = 0x7f; }
				ret = fn == 0 ? libhmac_error_sprint( err, nul ? NULL : buf, n ) : libhmac_error_backtrace_sprint( err, nul ? NULL : buf, n );
				for( z = 0; r.lo + z < r.p; z++ ) { if( r.lo[ z ] != 0x7f ) { guard = 0; } }
				if( ret >= 0 ) { text = strndup( buf, n ); } else { text = strdup( "" ); }
				region_drop( &r );
			}
			else
			{
				fp = nul ? NULL : open_memstream( &text, &text_size );
				ret = fn == 1 ? libhmac_error_fprint( err, fp ) : libhmac_error_backtrace_fprint( err, fp );
				if( fp != NULL ) { fclose( fp ); } else { text = strdup( "" ); }
				if( ret < 0 ) { text[ 0 ] = 0; }
			}
			printf( "{\"ret\":%d,\"tail\":%d,\"live\":%ld,\"fired\":0,\"text\":\"", ret, guard, vp_live() );
			for( z = 0; text[ z ] != 0; z++ ) { if( text[ z ] == '\n' ) { printf( "|" ); } else { putchar( text[ z ] ); } }
			libhmac_error_free( &err );
			printf( "\",\"now\":\"%s\",\"errs\":%ld}\n", err == NULL ? "null" : "kept", vp_errors_live() );
			free( text );
			libhmac_error_free( &err );
			fflush( stdout );
			continue;
		}
		a = find( arg( "alg" ) );
		c = (int) num( "c", 0 ); lay = (int) num( "lay", 0 ); e = (int) num( "e", 1 );
		at_start = (int) num( "st", 0 ); mis = (size_t) num( "mis", 0 ); alias = (int) num( "alias", 0 );
		fault = num( "f", 0 ); kinds = num( "fk", 7 );
		if( e == 2 )
		{
			libcerror_error_set( (libcerror_error_t **) &err, 'r', 0, "earlier error" );
			ec0 = 1;
		}
		if( e != 0 ) { errp = &err; }
		v = arg( "ref" );
		ref = ( v != NULL && strcmp( v, "null" ) == 0 ) ? NULL : &slots[ c ];
		v = arg( "ctx" );
		ctx = ( v != NULL && strcmp( v, "null" ) == 0 ) ? NULL : slots[ c ];
		if( ( v = arg( "d" ) ) != NULL ) { data_make( &d, v, at_start, mis ); }
		if( ( v = arg( "k" ) ) != NULL ) { data_make( &k, v, at_start, mis ); }
		if( ( v = arg( "hs" ) ) != NULL )
		{
			have_out = 1;
			hs = size_of( v );
			cap = hs <= ( 1 << 20 ) ? hs : a->hash + 32;
			if( alias == 1 ) { if( cap < d.n ) { cap = d.n; } }
			if( alias == 2 ) { if( cap < k.n ) { cap = k.n; } }
			region_make( &out, cap, at_start, mis );
			op_ = out.p;
			for( j = 0; j < out.span; j++ ) { out.lo[ j ] = (uint8_t) ( 0xd3 ^ ( j * 29 ) ); }
			if( alias == 1 ) { memcpy( op_, d.p, d.n ); d.p = op_; }
			if( alias == 2 ) { memcpy( op_, k.p, k.n ); k.p = op_; }
			v = arg( "out" );
			if( v != NULL && strcmp( v, "null" ) == 0 ) { outnull = 1; }
		}
		data_protect( &d ); data_protect( &k );
		vp_secrets_clear();
		if( strcmp( op, "hmac" ) == 0 && num( "sec", 0 ) && k.n < 4096 ) { secrets_for( a, k.p, k.n ); }
		if( ( strcmp( op, "free" ) == 0 ) && ( v = arg( "s" ) ) != NULL )
		{
			data_t s; data_make( &s, v, 0, 0 ); vp_secret_add( s.p, s.n ); region_drop( &s.r );
		}
		{
			uint8_t *snap = NULL;
			if( have_out ) { snap = __real_malloc( out.span ); memcpy( snap, out.lo, out.span ); }
			before = slots[ c ];
			vp_call_begin( (int) kinds, fault );
			if( strcmp( op, "init" ) == 0 ) { ret = a->init[ lay ]( ref, errp ); }
			else if( strcmp( op, "free" ) == 0 ) { ret = a->free_[ lay ]( ref, errp ); }
			else if( strcmp( op, "update" ) == 0 ) { ret = a->update[ lay ]( ctx, d.p, d.n, errp ); }
			else if( strcmp( op, "final" ) == 0 ) { ret = a->final[ lay ]( ctx, outnull ? NULL : op_, hs, errp ); }
			else if( strcmp( op, "calc" ) == 0 ) { ret = a->calc( d.p, d.n, outnull ? NULL : op_, hs, errp ); }
			else if( strcmp( op, "hmac" ) == 0 ) { ret = a->hmac( k.p, k.n, d.p, d.n, outnull ? NULL : op_, hs, errp ); }
			else { fprintf( stderr, "bad op %s\n", op ); exit( 3 ); }
			fired = vp_call_end();
			if( have_out )
			{
				size_t o0 = (size_t) ( op_ - out.lo );
				for( j = 0; j < out.span; j++ )
				{
					if( out.lo[ j ] != snap[ j ] )
					{
						if( j < o0 || j >= o0 + a->hash ) { tail = 0; }
						wrote = 1;
					}
				}
				__real_free( snap );
			}
		}
		ec1 = vp_error_count( (libcerror_error_t *) err );
		printf( "{\"ret\":%d,\"ec\":%d,\"dom\":%d,\"live\":%ld,\"fired\":%d,\"ops\":%ld,\"dirty\":%ld,\"now\":\"%s\"",
		        ret, ec1 - ec0, ( ec1 > ec0 && ec0 == 0 ) ? vp_error_domain( (libcerror_error_t *) err ) : 0,
		        vp_live(), fired, vp_ops(), vp_dirty(),
		        slots[ c ] == NULL ? "null" : ( slots[ c ] == before ? "same" : "new" ) );
		if( have_out )
		{
			printf( ",\"tail\":%ld,\"wrote\":%ld,\"out\":[", tail, wrote );
			if( ret == 1 && !outnull ) { for( j = 0; j < a->hash && j < cap; j++ ) { printf( "%s%d", j ? "," : "", op_[ j ] ); } }
			printf( "]" );
		}
		printf( ",\"errs\":" );
		libhmac_error_free( &err );
		printf( "%ld}\n", vp_errors_live() );
		region_drop( &d.r ); region_drop( &k.r ); region_drop( &out );
		fflush( stdout );
	}
	return( 0 );
}
