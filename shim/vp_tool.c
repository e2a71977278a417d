#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <libcerror.h>
#include <libcfile.h>
#include <libclocale.h>
#include <libcnotify.h>
#include <libcsplit.h>
#include <libhmac.h>
#include "vp_tool.h"

vp_script_t vp_script;
char *vp_log = NULL;
int vp_log_full = 0;
size_t vp_log_size = 0, vp_log_max = 0;
static long points = 0;
static int handles = 0, in_handler = 0, fired_int = 0;
static const char *fault_name = "";

uint8_t vp_pattern( int p, uint64_t i ) { return( (uint8_t) ( ( i % 65536 ) * 167 + ( i / 256 ) * 13 + p * 59 + 7 ) ); }

void vp_event( const char *format, ... )
{
	va_list ap;
	int n;
	if( vp_log == NULL ) { return; }
	if( vp_log_size + 512 > vp_log_max ) { vp_log_full = 1; return; }
	if( vp_log_size > 0 ) { vp_log[ vp_log_size++ ] = ','; }
	va_start( ap, format );
	n = vsnprintf( &vp_log[ vp_log_size ], 500, format, ap );
	va_end( ap );
	if( n > 499 ) { n = 499; }
	vp_log_size += n;
	vp_log[ vp_log_size ] = 0;
}
int __real_sigaction( int, const struct sigaction *, struct sigaction * );
typedef void (*vp_handler)( int );
vp_handler __real_signal( int, vp_handler );
long vp_points( void ) { return( points ); }
int vp_handles( void ) { return( handles ); }
const char *vp_fault_name( void ) { return( fault_name ); }
static int faulty( int kind, const char *name )
{
	if( in_handler ) { return( 0 ); }
	if( vp_fail( kind ) ) { fault_name = name; vp_event( "{\"e\":\"fault\",\"kind\":\"%s\"}", name ); return( 1 ); }
	return( 0 );
}
void vp_point( const char *kind )
{
	struct sigaction a;
	static long seen = 0;
	if( in_handler || ( vp_script.intat == 0 && vp_script.inton_occ == 0 ) ) { return; }
	__real_sigaction( SIGINT, NULL, &a );
	if( a.sa_handler == SIG_DFL || a.sa_handler == SIG_IGN ) { return; }
	points++;
	if( vp_script.inton_occ > 0 && !strcmp( kind, vp_script.inton ) ) { seen++; }
	if( points == vp_script.intat || ( vp_script.inton_occ > 0 && !strcmp( kind, vp_script.inton ) && seen == vp_script.inton_occ )
	 || ( vp_script.again && fired_int && strcmp( kind, "heap" ) ) )
	{
		in_handler = 1; fired_int = 1;
		vp_event( "{\"e\":\"int\",\"at\":\"%s\"}", kind );
		raise( SIGINT );
		in_handler = 0;
	}
}
void vp_heap_hook( int failing )
{
	if( failing == 2 ) { vp_event( "{\"e\":\"fault\",\"kind\":\"update\"}" ); }
	else if( failing ) { fault_name = "malloc"; vp_event( "{\"e\":\"fault\",\"kind\":\"malloc\"}" ); }
	else if( vp_script.heap ) { vp_point( "heap" ); }
}
vp_handler __wrap_signal( int n, vp_handler h )
{
	if( faulty( VP_KIND_SIG, "signal" ) ) { return( SIG_ERR ); }
	return( __real_signal( n, h ) );
}
int __wrap_sigaction( int n, const struct sigaction *a, struct sigaction *o )
{
	if( faulty( VP_KIND_SIG, "signal" ) ) { return( -1 ); }
	return( __real_sigaction( n, a, o ) );
}
#define ERR( text ) libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_IO, LIBCERROR_IO_ERROR_OPEN_FAILED, "vp: %s", text )
#define ARG( c ) if( !( c ) ) { libcerror_error_set( error, LIBCERROR_ERROR_DOMAIN_ARGUMENTS, LIBCERROR_ARGUMENT_ERROR_INVALID_VALUE, "vp: invalid argument" ); return( -1 ); }

typedef struct { int open; uint64_t pos; int read; } file_t;

int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error )
{
	file_t *f;
	ARG( file != NULL && *file == NULL )
	if( vp_script.init_fails ) { vp_event( "{\"e\":\"fault\",\"kind\":\"fileinit\"}" ); ERR( "file initialize" ); return( -1 ); }
	f = (file_t *) malloc( sizeof( file_t ) );
	if( f == NULL ) { ERR( "file memory" ); return( -1 ); }
	memset( f, 0, sizeof( file_t ) );
	*file = (libcfile_file_t *) f;
	return( 1 );
}
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error )
{
	ARG( file != NULL )
	if( *file != NULL )
	{
		if( ( (file_t *) *file )->open ) { handles--; }
		free( *file );
		*file = NULL;
	}
	return( 1 );
}
int libcfile_file_open( libcfile_file_t *file, const char *filename, int access_flags, libcerror_error_t **error )
{
	file_t *f = (file_t *) file;
	char name[ 256 ]; size_t i, o = 0;
	ARG( f != NULL && filename != NULL && access_flags == LIBCFILE_OPEN_READ )
	vp_point( "open" );
	for( i = 0; filename[ i ] != 0 && o < 250; i++ )
	{
		if( filename[ i ] == '"' || filename[ i ] == '\\' ) { name[ o++ ] = '\\'; }
		name[ o++ ] = filename[ i ];
	}
	name[ o ] = 0;
	if( f->open ) { ERR( "already open" ); vp_event( "{\"e\":\"open\",\"ok\":0,\"name\":\"%s\"}", name ); return( -1 ); }
	vp_event( "{\"e\":\"open\",\"ok\":%d,\"name\":\"%s\"}", vp_script.open_fails ? 0 : 1, name );
	if( vp_script.open_fails ) { ERR( "open" ); vp_point( "opened" ); return( -1 ); }
	f->open = 1; f->pos = 0; handles++;
	vp_point( "opened" );
	return( 1 );
}
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error )
{
	file_t *f = (file_t *) file;
	ARG( f != NULL )
	if( f->open ) { f->open = 0; handles--; }
	if( vp_script.close_fails ) { vp_event( "{\"e\":\"fault\",\"kind\":\"close\"}" ); ERR( "close" ); return( -1 ); }
	return( 0 );
}
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error )
{
	ARG( file != NULL )
	return( ( (file_t *) file )->open );
}
int libcfile_file_get_size( libcfile_file_t *file, size64_t *size, libcerror_error_t **error )
{
	file_t *f = (file_t *) file;
	ARG( f != NULL && size != NULL )
	vp_point( "size" );
	if( !f->open ) { ERR( "size of a file that is not open" ); return( -1 ); }
	vp_event( "{\"e\":\"size\",\"ok\":%d,\"n\":\"%llu\"}", vp_script.size_fails ? 0 : 1, (unsigned long long) vp_script.reported );
	if( vp_script.size_fails ) { ERR( "size" ); return( -1 ); }
	*size = vp_script.reported;
	vp_point( "sized" );
	return( 1 );
}
static uint8_t *period = NULL, store[ 2 * 65536 ];
static void fill( uint8_t *b, uint64_t pos, size_t n )
{
	size_t i, m;
	if( vp_script.literal != NULL ) { memcpy( b, &vp_script.literal[ pos ], n ); return; }
	if( n < 4096 )
	{
		for( i = 0; i < n; i++ ) { b[ i ] = vp_pattern( vp_script.pattern, pos + i ); }
		return;
	}
	if( period == NULL )
	{
		period = store;
		for( i = 0; i < 2 * 65536; i++ ) { period[ i ] = vp_pattern( vp_script.pattern, i ); }
	}
	while( n > 0 )
	{
		m = n < 65536 ? n : 65536;
		memcpy( b, &period[ pos % 65536 ], m );
		b += m; pos += m; n -= m;
	}
}
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error )
{
	file_t *f = (file_t *) file;
	uint64_t n;
	long limit;
	ARG( f != NULL && buffer != NULL )
	vp_point( "read" );
	if( !f->open ) { ERR( "read from a file that is not open" ); vp_event( "{\"e\":\"read\",\"req\":\"%zu\",\"got\":-1}", size ); return( -1 ); }
	n = vp_script.content - f->pos;
	if( n > size ) { n = size; }
	if( f->read < vp_script.nreads )
	{
		limit = vp_script.reads[ f->read++ ];
		if( limit < 0 )
		{
			vp_event( "{\"e\":\"read\",\"req\":\"%zu\",\"got\":-1}", size );
			ERR( "read" );
			vp_point( "reading" );
			return( -1 );
		}
		if( n > (uint64_t) limit ) { n = limit; }
	}
	fill( buffer, f->pos, n );
	f->pos += n;
	vp_event( "{\"e\":\"read\",\"req\":\"%zu\",\"got\":%llu}", size, (unsigned long long) n );
	vp_point( "reading" );
	return( (ssize_t) n );
}
int libclocale_initialize( const char *domain_name, libcerror_error_t **error )
{
	if( faulty( VP_KIND_SETUP, "locale" ) ) { ERR( "locale" ); return( -1 ); }
	return( 1 );
}
int libclocale_locale_get_decimal_point( int *decimal_point, libcerror_error_t **error )
{
	ARG( decimal_point != NULL )
	if( faulty( VP_KIND_SETUP, "decimal" ) ) { ERR( "decimal point" ); return( -1 ); }
	*decimal_point = vp_script.decimal ? vp_script.decimal : '.';
	return( 1 );
}
int libcnotify_printf( const char *format, ... )
{
	va_list ap;
	int n;
	va_start( ap, format );
	n = vfprintf( stderr, format, ap );
	va_end( ap );
	return( n );
}
int libcnotify_print_error_backtrace( libcerror_error_t *error ) { return( libcerror_error_backtrace_fprint( error, stderr ) ); }
int libcnotify_stream_set( FILE *stream, libcerror_error_t **error ) { return( 1 ); }
void libcnotify_verbose_set( int verbose ) { }

typedef struct { int n; char *copy; char *seg[ 1024 ]; size_t size[ 1024 ]; } split_t;

int libcsplit_narrow_string_split( const char *string, size_t string_size, char delimiter, libcsplit_narrow_split_string_t **split_string, libcerror_error_t **error )
{
	split_t *s;
	size_t i, start = 0;
	ARG( string != NULL && split_string != NULL && *split_string == NULL )
	if( faulty( VP_KIND_SETUP, "split" ) ) { ERR( "split" ); return( -1 ); }
	s = (split_t *) malloc( sizeof( split_t ) );
	if( s == NULL ) { ERR( "split memory" ); return( -1 ); }
	s->n = 0;
	s->copy = (char *) malloc( string_size + 1 );
	if( s->copy == NULL ) { free( s ); ERR( "split memory" ); return( -1 ); }
	memcpy( s->copy, string, string_size );
	s->copy[ string_size ] = 0;
	if( string_size > 1 && string[ 0 ] != 0 )
	{
		for( i = 0; i < string_size && s->n < 1024; i++ )
		{
			if( s->copy[ i ] == delimiter || s->copy[ i ] == 0 || i + 1 == string_size )
			{
				char c = s->copy[ i ];
				s->copy[ i ] = 0;
				s->seg[ s->n ] = i > start ? &s->copy[ start ] : NULL;
				s->size[ s->n ] = i > start ? i - start + 1 : 0;
				s->n++;
				start = i + 1;
				if( c == 0 ) { break; }
			}
		}
	}
	*split_string = (libcsplit_narrow_split_string_t *) s;
	return( 1 );
}
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **split_string, libcerror_error_t **error )
{
	ARG( split_string != NULL )
	if( *split_string != NULL )
	{
		free( ( (split_t *) *split_string )->copy );
		free( *split_string );
		*split_string = NULL;
	}
	return( 1 );
}
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *split_string, int *number_of_segments, libcerror_error_t **error )
{
	ARG( split_string != NULL && number_of_segments != NULL )
	if( faulty( VP_KIND_SETUP, "split" ) ) { ERR( "segments" ); return( -1 ); }
	*number_of_segments = ( (split_t *) split_string )->n;
	return( 1 );
}
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *split_string, int segment_index, char **string_segment, size_t *string_segment_size, libcerror_error_t **error )
{
	split_t *s = (split_t *) split_string;
	ARG( s != NULL && string_segment != NULL && string_segment_size != NULL && segment_index >= 0 && segment_index < s->n )
	if( faulty( VP_KIND_SETUP, "split" ) ) { ERR( "segment" ); return( -1 ); }
	*string_segment = s->seg[ segment_index ];
	*string_segment_size = s->size[ segment_index ];
	return( 1 );
}
#if !defined( VP_NOLIBWRAP )
/* Operations of libhmac: points, faults, and in recorder mode what they were given.
 * Only the outermost operation counts. */
static int depth = 0;
static int after( void ) { return( vp_script.rec || fired_int ); }
typedef struct { uint64_t n; int ok; } rec_t;
static int rec_update( const char *alg, rec_t *r, const uint8_t *b, size_t n )
{
	size_t i, m; uint64_t pos = r->n; uint8_t want[ 65536 ]; int ok = 1;
	for( i = 0; i < n; i += m )
	{
		m = n - i < 65536 ? n - i : 65536;
		fill( want, pos + i, m );
		if( memcmp( want, &b[ i ], m ) != 0 ) { ok = 0; }
	}
	r->n += n;
	vp_event( "{\"e\":\"lib\",\"op\":\"update\",\"alg\":\"%s\",\"n\":\"%zu\",\"ok\":%d}", alg, n, ok );
	return( 1 );
}
#define OPS( A, S, I, U, F, X ) \
int __real_libhmac_##I( libhmac_##A##_context_t **c, libcerror_error_t **error ); \
int __real_libhmac_##X( libhmac_##A##_context_t **c, libcerror_error_t **error ); \
int __real_libhmac_##U( libhmac_##A##_context_t *c, const uint8_t *b, size_t n, libcerror_error_t **error ); \
int __real_libhmac_##F( libhmac_##A##_context_t *c, uint8_t *h, size_t n, libcerror_error_t **error ); \
int __wrap_libhmac_##I( libhmac_##A##_context_t **c, libcerror_error_t **error ) \
{ \
	int r; \
	if( depth > 0 ) { return( __real_libhmac_##I( c, error ) ); } \
	vp_point( "lib" ); \
	if( faulty( VP_KIND_LIB, "init" ) ) { ERR( "init" ); return( -1 ); } \
	if( after() ) { vp_event( "{\"e\":\"lib\",\"op\":\"init\",\"alg\":\"%s\"}", #A ); } \
	if( vp_script.rec ) { rec_t *q = (rec_t *) malloc( sizeof( rec_t ) ); if( q == NULL ) { ERR( "memory" ); return( -1 ); } q->n = 0; *c = (libhmac_##A##_context_t *) q; return( 1 ); } \
	depth++; r = __real_libhmac_##I( c, error ); depth--; return( r ); \
} \
int __wrap_libhmac_##X( libhmac_##A##_context_t **c, libcerror_error_t **error ) \
{ \
	int r, f; \
	if( depth > 0 ) { return( __real_libhmac_##X( c, error ) ); } \
	f = faulty( VP_KIND_LIB, "free" ); \
	if( vp_script.rec ) { free( *c ); *c = NULL; return( f ? -1 : 1 ); } \
	depth++; r = __real_libhmac_##X( c, error ); depth--; \
	if( f ) { ERR( "free" ); return( -1 ); } \
	return( r ); \
} \
int __wrap_libhmac_##U( libhmac_##A##_context_t *c, const uint8_t *b, size_t n, libcerror_error_t **error ) \
{ \
	int r; \
	if( depth > 0 ) { return( __real_libhmac_##U( c, b, n, error ) ); } \
	vp_point( "lib" ); \
	if( faulty( VP_KIND_LIB, "update" ) ) { ERR( "update" ); return( -1 ); } \
	if( vp_script.rec ) { return( rec_update( #A, (rec_t *) c, b, n ) ); } \
	if( after() ) { vp_event( "{\"e\":\"lib\",\"op\":\"update\",\"alg\":\"%s\"}", #A ); } \
	depth++; r = __real_libhmac_##U( c, b, n, error ); depth--; return( r ); \
} \
int __wrap_libhmac_##F( libhmac_##A##_context_t *c, uint8_t *h, size_t n, libcerror_error_t **error ) \
{ \
	int r; \
	if( depth > 0 ) { return( __real_libhmac_##F( c, h, n, error ) ); } \
	vp_point( "lib" ); \
	if( faulty( VP_KIND_LIB, "final" ) ) { ERR( "final" ); return( -1 ); } \
	if( after() ) { vp_event( "{\"e\":\"lib\",\"op\":\"final\",\"alg\":\"%s\"}", #A ); } \
	if( vp_script.rec ) { if( n < LIBHMAC_##S##_HASH_SIZE ) { ERR( "size" ); return( -1 ); } memset( h, 0x11, LIBHMAC_##S##_HASH_SIZE ); return( 1 ); } \
	depth++; r = __real_libhmac_##F( c, h, n, error ); depth--; return( r ); \
}
#define ALG( A, S ) \
OPS( A, S, A##_context_initialize, A##_context_update, A##_context_finalize, A##_context_free ) \
OPS( A, S, A##_initialize, A##_update, A##_finalize, A##_free )
ALG( md5, MD5 )
ALG( sha1, SHA1 )
ALG( sha224, SHA224 )
ALG( sha256, SHA256 )
ALG( sha512, SHA512 )
#endif
