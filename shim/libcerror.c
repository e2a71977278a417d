/* Stand-in for libcerror, see libcerror.h.
 * An error keeps the domain and code of its first message and up to 16 messages.
 * Error objects are kept in their own mmap-free pool so that allocation accounting
 * and fault injection in the harness concern the code under test only.
 */
#include <stdarg.h>
#include <stddef.h>
#include <string.h>
#include <pthread.h>
#include "include/libcerror.h"

#define POOL 512
#define MSGS 16
#define MSGLEN 200

typedef struct
{
	int used;
	int domain;
	int code;
	int count;
	char messages[ MSGS ][ MSGLEN ];
} vp_error_t;

static vp_error_t pool[ POOL ];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static long live = 0;

void libcerror_error_set(
      libcerror_error_t **error,
      int error_domain,
      int error_code,
      const char *format_string,
      ... )
{
	vp_error_t *e = NULL;
	va_list ap;
	int i;

	if( error == NULL )
	{
		return;
	}
	if( *error == NULL )
	{
		pthread_mutex_lock( &lock );
		for( i = 0; i < POOL; i++ )
		{
			if( pool[ i ].used == 0 )
			{
				e = &( pool[ i ] );
				e->used = 1;
				live++;
				break;
			}
		}
		pthread_mutex_unlock( &lock );
		if( e == NULL )
		{
			fprintf( stderr, "vp libcerror: error pool exhausted (errors are leaked)\n" );
			return;
		}
		e->domain = error_domain;
		e->code   = error_code;
		e->count  = 0;
		*error    = (libcerror_error_t *) e;
	}
	e = (vp_error_t *) *error;
	if( e->count < MSGS )
	{
		va_start( ap, format_string );
		vsnprintf( e->messages[ e->count ], MSGLEN, format_string, ap );
		va_end( ap );
		e->count++;
	}
}

void libcerror_error_free( libcerror_error_t **error )
{
	vp_error_t *e;

	if( error == NULL || *error == NULL )
	{
		return;
	}
	e      = (vp_error_t *) *error;
	*error = NULL;
	pthread_mutex_lock( &lock );
	e->used = 0;
	live--;
	pthread_mutex_unlock( &lock );
}

int libcerror_error_matches( libcerror_error_t *error, int error_domain, int error_code )
{
	vp_error_t *e = (vp_error_t *) error;

	return( e != NULL && e->domain == error_domain && e->code == error_code );
}

int libcerror_error_fprint( libcerror_error_t *error, FILE *stream )
{
	vp_error_t *e = (vp_error_t *) error;

	if( e == NULL || stream == NULL || e->count < 1 )
	{
		return( -1 );
	}
	return( fprintf( stream, "%s\n", e->messages[ e->count - 1 ] ) );
}

int libcerror_error_sprint( libcerror_error_t *error, char *string, size_t size )
{
	vp_error_t *e = (vp_error_t *) error;
	size_t n;

	if( e == NULL || string == NULL || e->count < 1 )
	{
		return( -1 );
	}
	n = strlen( e->messages[ e->count - 1 ] );
	if( size <= n )
	{
		return( -1 );
	}
	memcpy( string, e->messages[ e->count - 1 ], n + 1 );
	return( (int) n );
}

int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *stream )
{
	vp_error_t *e = (vp_error_t *) error;
	int i, r, total = 0;

	if( e == NULL || stream == NULL )
	{
		return( -1 );
	}
	for( i = 0; i < e->count; i++ )
	{
		r = fprintf( stream, "%s\n", e->messages[ i ] );
		if( r < 0 )
		{
			return( -1 );
		}
		total += r;
	}
	return( total );
}

int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *string, size_t size )
{
	vp_error_t *e = (vp_error_t *) error;
	size_t n, o = 0;
	int i;

	if( e == NULL || string == NULL )
	{
		return( -1 );
	}
	for( i = 0; i < e->count; i++ )
	{
		n = strlen( e->messages[ i ] );
		if( o + ( i > 0 ? 1 : 0 ) + n + 1 > size )
		{
			return( -1 );
		}
		if( i > 0 )
		{
			string[ o++ ] = '\n';
		}
		memcpy( &( string[ o ] ), e->messages[ i ], n );
		o += n;
	}
	if( o >= size )
	{
		return( -1 );
	}
	string[ o ] = 0;
	return( (int) o );
}

int vp_error_domain( libcerror_error_t *error )
{
	return( error == NULL ? 0 : ( (vp_error_t *) error )->domain );
}

int vp_error_count( libcerror_error_t *error )
{
	return( error == NULL ? 0 : ( (vp_error_t *) error )->count );
}

long vp_errors_live( void )
{
	long n;

	pthread_mutex_lock( &lock );
	n = live;
	pthread_mutex_unlock( &lock );
	return( n );
}
