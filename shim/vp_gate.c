/* Stops threads within the library: before and after the work that update and finalize do on
 * a context. Every entry to and every return from the functions on contexts is recorded, in
 * the order in which they happened. For the Python module only. */
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#define EVENTS 4096
#define THREADS 16
#define CONTEXTS 4096
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t c = PTHREAD_COND_INITIALIZER;
static struct { int kind, t, x; } events[ EVENTS ];
static int n_events = 0, n_ctx = 0, gated = 0;
static struct { void *p; int alive, inside; } ctx[ CONTEXTS ];
/* where a thread is: 0 outside, 1 at a gate, 2 let through; passes: how often it may go on */
static struct { int at, passes, done, depth; } th[ THREADS ];
static __thread int me = 0;

static void event( int kind, int x ) { if( n_events < EVENTS ) { events[ n_events ].kind = kind; events[ n_events ].t = me; events[ n_events ].x = x; n_events++; } }
static int find( void *p ) { int i; for( i = n_ctx - 1; i >= 0; i-- ) { if( ctx[ i ].p == p ) { return( i ); } } return( -1 ); }
static void until( struct timespec *ts, int ms )
{
	clock_gettime( CLOCK_REALTIME, ts );
	ts->tv_nsec += (long) ms * 1000000;
	ts->tv_sec += ts->tv_nsec / 1000000000;
	ts->tv_nsec %= 1000000000;
}
/* m is held */
static void gate( void )
{
	struct timespec ts;
	if( !gated || me == 0 ) { return; }
	th[ me ].at = 1;
	pthread_cond_broadcast( &c );
	/* not for ever: who opens the gate may need what the thread holds */
	until( &ts, 150 );
	while( gated && th[ me ].passes == 0 && pthread_cond_timedwait( &c, &m, &ts ) == 0 ) { }
	if( th[ me ].passes > 0 ) { th[ me ].passes--; }
	th[ me ].at = 0;
}
void vp_gate_reset( int on ) { pthread_mutex_lock( &m ); gated = on; n_events = 0; memset( th, 0, sizeof( th ) ); pthread_mutex_unlock( &m ); }
void vp_gate_me( int t ) { me = t; }
void vp_gate_event( int kind, int x ) { pthread_mutex_lock( &m ); event( kind, x ); if( kind == 9 ) { th[ me ].done++; pthread_cond_broadcast( &c ); } pthread_mutex_unlock( &m ); }
void vp_gate_open( void ) { pthread_mutex_lock( &m ); gated = 0; pthread_cond_broadcast( &c ); pthread_mutex_unlock( &m ); }
/* until the thread stands at a gate or has done n calls */
int vp_gate_wait( int t, int n, int ms )
{
	struct timespec ts;
	int r;
	until( &ts, ms );
	pthread_mutex_lock( &m );
	while( th[ t ].at != 1 && th[ t ].done < n && pthread_cond_timedwait( &c, &m, &ts ) == 0 ) { }
	r = th[ t ].done >= n ? 2 : th[ t ].at;
	pthread_mutex_unlock( &m );
	return( r );
}
void vp_gate_go( int t )
{
	pthread_mutex_lock( &m );
	if( th[ t ].at == 1 ) { th[ t ].passes = 1; th[ t ].at = 2; pthread_cond_broadcast( &c ); }
	pthread_mutex_unlock( &m );
}
int vp_gate_events( int *out )
{
	int i;
	pthread_mutex_lock( &m );
	for( i = 0; i < n_events; i++ ) { out[ 3 * i ] = events[ i ].kind; out[ 3 * i + 1 ] = events[ i ].t; out[ 3 * i + 2 ] = events[ i ].x; }
	i = n_events;
	pthread_mutex_unlock( &m );
	return( i );
}

/* Gives the number of the context, or -1 where the real function may not be called: it would
 * work on released memory or together with another thread */
static int enter( int kind, void *p, int stop, int *ok )
{
	int i;
	pthread_mutex_lock( &m );
	i = find( p );
	*ok = 1;
	if( i >= 0 )
	{
		event( kind, i );
		*ok = ctx[ i ].alive && ctx[ i ].inside == 0;
		ctx[ i ].inside++;
		if( stop ) { gate(); }
		if( !ctx[ i ].alive ) { *ok = 0; }
		if( *ok && kind == 3 ) { ctx[ i ].alive = 0; }
	}
	pthread_mutex_unlock( &m );
	return( i );
}
static void leave( int kind, int i, int stop )
{
	if( i < 0 ) { return; }
	pthread_mutex_lock( &m );
	if( stop ) { gate(); }
	ctx[ i ].inside--;
	event( kind + 10, i );
	pthread_mutex_unlock( &m );
}
/* kinds: 1 update, 2 finalize, 3 free, 4 initialize; 8 call, 9 return of the method; + 10 the end */
#define GATES( a ) \
int __real_libhmac_##a##_context_initialize( void **, void ** ); \
int __wrap_libhmac_##a##_context_initialize( void **p, void **e ) \
{ \
	int r = __real_libhmac_##a##_context_initialize( p, e ); \
	pthread_mutex_lock( &m ); \
	if( r == 1 && p && *p && n_ctx < CONTEXTS ) { ctx[ n_ctx ].p = *p; ctx[ n_ctx ].alive = 1; ctx[ n_ctx ].inside = 0; event( 4, n_ctx ); n_ctx++; } \
	pthread_mutex_unlock( &m ); \
	return( r ); \
} \
int __real_libhmac_##a##_context_free( void **, void ** ); \
int __wrap_libhmac_##a##_context_free( void **p, void **e ) \
{ \
	int ok = 1, i = p && *p ? enter( 3, *p, 0, &ok ) : -1, r = 1; \
	if( ok ) { r = __real_libhmac_##a##_context_free( p, e ); } else { *p = NULL; } \
	leave( 3, i, 0 ); \
	return( r ); \
} \
int __real_libhmac_##a##_context_update( void *, const uint8_t *, size_t, void ** ); \
int __wrap_libhmac_##a##_context_update( void *p, const uint8_t *d, size_t n, void **e ) \
{ \
	int ok = 1, i = enter( 1, p, 1, &ok ), r = 1; \
	if( ok ) { r = __real_libhmac_##a##_context_update( p, d, n, e ); } \
	leave( 1, i, 1 ); \
	return( r ); \
} \
int __real_libhmac_##a##_context_finalize( void *, uint8_t *, size_t, void ** ); \
int __wrap_libhmac_##a##_context_finalize( void *p, uint8_t *h, size_t n, void **e ) \
{ \
	int ok = 1, i = enter( 2, p, 1, &ok ), r = 1; \
	if( ok ) { r = __real_libhmac_##a##_context_finalize( p, h, n, e ); } \
	leave( 2, i, 1 ); \
	return( r ); \
}
GATES( md5 )
GATES( sha1 )
GATES( sha224 )
GATES( sha256 )
GATES( sha512 )
