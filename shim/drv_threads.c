/* Threads that each run their own calls on their own contexts of libhmac, at the same
 * time. Input: "thread", then calls as for drv_lib (init update final free calc hmac
 * with generated data), and so on. Every thread runs its list <rounds> times; a barrier
 * starts each round. The answers are printed per thread and round.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <libhmac.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

typedef struct
{
	const char *name;
	size_t hash;
	int (*init[ 2 ])( intptr_t **, libhmac_error_t ** );
	int (*free_[ 2 ])( intptr_t **, libhmac_error_t ** );
	int (*update[ 2 ])( intptr_t *, const uint8_t *, size_t, libhmac_error_t ** );
	int (*final[ 2 ])( intptr_t *, uint8_t *, size_t, libhmac_error_t ** );
	int (*calc)( const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );
	int (*hmac)( const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, libhmac_error_t ** );
} alg_t;
#define A( n, h ) { #n, h, \
	{ (void *) libhmac_##n##_context_initialize, (void *) libhmac_##n##_initialize }, \
	{ (void *) libhmac_##n##_context_free, (void *) libhmac_##n##_free }, \
	{ (void *) libhmac_##n##_context_update, (void *) libhmac_##n##_update }, \
	{ (void *) libhmac_##n##_context_finalize, (void *) libhmac_##n##_finalize }, \
	libhmac_##n##_calculate, libhmac_##n##_calculate_hmac }
static alg_t algs[] = { A( md5, 16 ), A( sha1, 20 ), A( sha224, 28 ), A( sha256, 32 ), A( sha512, 64 ) };

static uint8_t gen( long p, uint64_t i )
{
	return( (uint8_t) ( ( ( i % 65536 ) * 167 + ( i / 256 ) * 13 + (uint64_t) p * 59 + 7 ) % 256 ) );
}

#define MAXC 64
#define MAXT 16
#define MAXR 400
typedef struct { int op, alg, c, lay; uint8_t *d, *k; size_t dn, kn; } call_t;
typedef struct { int ret; char now; uint8_t out[ 64 ]; } resp_t;
typedef struct { int n; call_t c[ MAXC ]; resp_t *r; } th_t;
static th_t th[ MAXT ];
static int nth, rounds;
static pthread_barrier_t bar;

static uint8_t *data( const char *s, size_t *n )
{
	long p; unsigned long long o, m, i; uint8_t *b;
	if( s[ 0 ] != 'g' ) { exit( 3 ); }
	sscanf( s, "g:%ld:%llu:%llu", &p, &o, &m );
	b = malloc( m + 1 );
	for( i = 0; i < m; i++ ) { b[ i ] = gen( p, o + i ); }
	*n = m;
	return( b );
}

static void *go( void *arg )
{
	th_t *t = arg; int r, i; unsigned s = (unsigned) ( t - th ) * 7919 + 1;
	for( r = 0; r < rounds; r++ )
	{
		intptr_t *slot[ 16 ] = { 0 };
		pthread_barrier_wait( &bar );
		for( i = 0; i < t->n; i++ )
		{
			call_t *c = &t->c[ i ]; resp_t *q = &t->r[ r * MAXC + i ]; alg_t *a = &algs[ c->alg ];
			intptr_t *before = slot[ c->c ]; libhmac_error_t *e = NULL;
			s = s * 1103515245 + 12345;
			if( ( s >> 20 ) % 4 == 0 ) { sched_yield(); }
			if( c->op == 'i' ) { q->ret = a->init[ c->lay ]( &slot[ c->c ], &e ); }
			else if( c->op == 'f' ) { q->ret = a->free_[ c->lay ]( &slot[ c->c ], &e ); }
			else if( c->op == 'u' ) { q->ret = a->update[ c->lay ]( slot[ c->c ], c->d, c->dn, &e ); }
			else if( c->op == 'x' ) { q->ret = a->final[ c->lay ]( slot[ c->c ], q->out, a->hash, &e ); }
			else if( c->op == 'c' ) { q->ret = a->calc( c->d, c->dn, q->out, a->hash, &e ); }
			else { q->ret = a->hmac( c->k, c->kn, c->d, c->dn, q->out, a->hash, &e ); }
			if( e != NULL ) { libhmac_error_free( &e ); }
			q->now = slot[ c->c ] == NULL ? '0' : slot[ c->c ] == before ? '=' : '*';
		}
	}
	return( NULL );
}

int main( int argc, char **argv )
{
	static char line[ 4096 ]; pthread_t id[ MAXT ]; int i, r, j, k;
	rounds = argc > 1 ? atoi( argv[ 1 ] ) : 1;
	if( rounds > MAXR ) { rounds = MAXR; }
	while( fgets( line, sizeof( line ), stdin ) != NULL )
	{
		char *save = NULL, *t, *op = NULL; call_t *c; th_t *h;
		if( strncmp( line, "thread", 6 ) == 0 ) { nth++; continue; }
		if( nth == 0 || nth > MAXT ) { return( 3 ); }
		h = &th[ nth - 1 ];
		if( h->n >= MAXC ) { return( 3 ); }
		c = &h->c[ h->n++ ];
		for( t = strtok_r( line, " \n", &save ); t != NULL; t = strtok_r( NULL, " \n", &save ) )
		{
			if( strncmp( t, "op=", 3 ) == 0 ) { op = t + 3; }
			else if( strncmp( t, "alg=", 4 ) == 0 ) { for( k = 0; k < 5; k++ ) { if( strcmp( algs[ k ].name, t + 4 ) == 0 ) { c->alg = k; } } }
			else if( strncmp( t, "c=", 2 ) == 0 ) { c->c = atoi( t + 2 ); }
			else if( strncmp( t, "lay=", 4 ) == 0 ) { c->lay = atoi( t + 4 ); }
			else if( strncmp( t, "d=", 2 ) == 0 ) { c->d = data( t + 2, &c->dn ); }
			else if( strncmp( t, "k=", 2 ) == 0 ) { c->k = data( t + 2, &c->kn ); }
		}
		c->op = op[ 0 ] == 'f' && op[ 1 ] == 'i' ? 'x' : op[ 0 ];
	}
	pthread_barrier_init( &bar, NULL, (unsigned) nth );
	for( i = 0; i < nth; i++ ) { th[ i ].r = calloc( (size_t) rounds * MAXC, sizeof( resp_t ) ); }
	for( i = 0; i < nth; i++ ) { if( pthread_create( &id[ i ], NULL, go, &th[ i ] ) != 0 ) { return( 3 ); } }
	for( i = 0; i < nth; i++ ) { pthread_join( id[ i ], NULL ); }
	for( i = 0; i < nth; i++ ) { for( r = 0; r < rounds; r++ ) { for( j = 0; j < th[ i ].n; j++ )
	{
		resp_t *q = &th[ i ].r[ r * MAXC + j ]; call_t *c = &th[ i ].c[ j ];
		printf( "{\"ret\":%d,\"now\":\"%s\",\"out\":[", q->ret, q->now == '0' ? "null" : q->now == '=' ? "same" : "new" );
		if( q->ret == 1 && ( c->op == 'x' || c->op == 'c' || c->op == 'h' ) )
		{
			for( k = 0; k < (int) algs[ c->alg ].hash; k++ ) { printf( "%s%d", k ? "," : "", q->out[ k ] ); }
		}
		printf( "]}\n" );
	} } }
	return( 0 );
}
