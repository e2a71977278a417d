/* Calls of the parts of hmactools: size strings, hexadecimal text, digest type lists,
 * options. One line of stdin per case, each run in a process of its own; one line of
 * JSON per case. */
#define _GNU_SOURCE
#include <common.h>
#include <types.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <libcerror.h>
#include "byte_size_string.h"
#include "digest_hash.h"
#include "hmactools_getopt.h"
#include "sum_handle.h"
#include "vp_tool.h"

long vp_errors_live( void );
typedef struct { size_t n; char b[ 1 << 16 ]; } shared_t;
static shared_t *sh;

static void put( const char *f, ... )
{
	va_list ap;
	va_start( ap, f );
	sh->n += vsnprintf( &sh->b[ sh->n ], sizeof( sh->b ) - sh->n - 1, f, ap );
	va_end( ap );
}
static void put_text( const char *s )
{
	put( "\"" );
	for( ; *s; s++ )
	{
		unsigned char c = *s;
		if( c == '"' || c == '\\' ) { put( "\\%c", c ); }
		else if( c < 32 || c > 126 ) { put( "\\u%04x", c ); }
		else { put( "%c", c ); }
	}
	put( "\"" );
}
static size_t unhex( const char *s, char *o )
{
	size_t n = 0; unsigned v;
	while( s[ 0 ] && s[ 1 ] && sscanf( s, "%2x", &v ) == 1 ) { o[ n++ ] = v; s += 2; }
	o[ n ] = 0;
	return( n );
}
/* n bytes that end (end = 1) or start (end = 0) at an inaccessible page */
static char *guarded( size_t n, int end, char **base )
{
	size_t pages = ( n + 4095 ) / 4096 + 1;
	char *m = (char *) mmap( NULL, ( pages + 2 ) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
	memset( m, 0xa5, ( pages + 2 ) * 4096 );
	mprotect( m, 4096, PROT_NONE );
	mprotect( m + ( pages + 1 ) * 4096, 4096, PROT_NONE );
	if( base ) { *base = m + 4096; }
	return( end ? m + ( pages + 1 ) * 4096 - n : m + 4096 );
}
static char *word( char *line, const char *key, char *into )
{
	char k[ 32 ]; char *p; size_t n;
	snprintf( k, sizeof( k ), " %s=", key );
	p = strstr( line, k );
	if( p == NULL ) { return( NULL ); }
	p += strlen( k );
	n = strcspn( p, " \n" );
	memcpy( into, p, n );
	into[ n ] = 0;
	return( into );
}
static void ending( libcerror_error_t **e )
{
	put( ",\"ec\":%d", *e != NULL );
	if( *e ) { libcerror_error_free( e ); }
	put( ",\"errs\":%ld,\"live\":%ld", vp_errors_live(), vp_live() );
}
static void run( char *op, char *line )
{
	static char w[ 1 << 17 ], x[ 1 << 17 ];
	libcerror_error_t *e = NULL;
	int lay = word( line, "lay", w ) ? atoi( w ) : 1;
	if( word( line, "dp", w ) ) { vp_script.decimal = atoi( w ); }
	if( !strcmp( op, "conv" ) )
	{
		size_t n = word( line, "s", w ) ? unhex( w, x ) : 0;
		char *g = guarded( n + 1, lay, NULL );
		uint64_t v = 0x5a5a5a5a5a5a5a5bULL; int r, ns = word( line, "null", w ) ? atoi( w ) : 0;
		memcpy( g, x, n + 1 );
		r = byte_size_string_convert( ns == 1 ? NULL : g, n, ns == 2 ? NULL : &v, &e );
		put( "\"ret\":%d,\"v\":\"%llu\",\"same\":%d", r, (unsigned long long) v, v == 0x5a5a5a5a5a5a5a5bULL );
	}
	else if( !strcmp( op, "bufsize" ) )
	{
		sum_handle_t *h = NULL; size_t n = word( line, "s", w ) ? unhex( w, x ) : 0; int r;
		char *g = guarded( n + 1, lay, NULL );
		memcpy( g, x, n + 1 );
		vp_call_begin( 0, 0 );
		if( sum_handle_initialize( &h, &e ) != 1 ) { _exit( 3 ); }
		r = sum_handle_set_process_buffer_size( h, g, &e );
		put( "\"ret\":%d,\"v\":\"%llu\"", r, (unsigned long long) h->process_buffer_size );
		if( word( line, "s2", w ) )
		{
			n = unhex( w, x );
			r = sum_handle_set_process_buffer_size( h, x, e ? NULL : &e );
			put( ",\"ret2\":%d,\"v2\":\"%llu\"", r, (unsigned long long) h->process_buffer_size );
		}
		sum_handle_free( &h, NULL );
		vp_call_end();
	}
	else if( !strcmp( op, "create" ) )
	{
		uint64_t v = strtoull( word( line, "v", w ), NULL, 10 ); size_t n = atol( word( line, "len", w ) ), i; int u, r, same = 1;
		char *g = guarded( n, 1, NULL );
		u = atoi( word( line, "u", w ) );
		r = byte_size_string_create( n == 0 ? NULL : g, n, v, u, &e );
		for( i = 0; i < n; i++ ) { same = same && g[ i ] == (char) 0xa5; }
		put( "\"ret\":%d,\"same\":%d,\"text\":", r, same );
		if( r == 1 && n > 0 && memchr( g, 0, n ) ) { put_text( g ); } else { put( "\"\"" ); }
		put( ",\"term\":%d", n > 0 && memchr( g, 0, n ) != NULL );
	}
	else if( !strcmp( op, "hex" ) )
	{
		size_t n = word( line, "d", w ) ? unhex( w, x ) : 0, hs = strtoull( word( line, "hs", w ), NULL, 10 ), room = hs > 65536 ? 4096 : hs, ds = n, i; int r, nul = atoi( word( line, "null", w ) ), same = 1;
		char *d = guarded( n, lay, NULL ), *base, *g = guarded( room, lay, &base );
		if( word( line, "ds", w ) ) { ds = strtoull( w, NULL, 10 ); }
		memcpy( d, x, n );
		r = digest_hash_copy_to_string( nul == 1 ? NULL : (uint8_t *) d, ds, nul == 2 ? NULL : g, hs, &e );
		for( i = 0; i < room; i++ ) { same = same && g[ i ] == (char) 0xa5; }
		put( "\"ret\":%d,\"same\":%d,\"text\":", r, same );
		if( r == 1 && memchr( g, 0, room ) ) { put_text( g ); } else { put( "\"\"" ); }
		/* bytes beyond the terminator */
		same = 1;
		for( i = 2 * n + 1; i < room; i++ ) { same = same && g[ i ] == (char) 0xa5; }
		for( i = 0; i < (size_t) ( g - base ); i++ ) { same = same && base[ i ] == (char) 0xa5; }
		put( ",\"tail\":%d", same );
	}
	else if( !strcmp( op, "types" ) )
	{
		sum_handle_t *h = NULL; char *save = NULL, *t; int first = 1, r; FILE *o; char *text = NULL; size_t tn = 0;
		vp_script.content = vp_script.reported = 0; vp_script.rec = 1;
		vp_call_begin( 0, 0 );
		if( sum_handle_initialize( &h, &e ) != 1 ) { _exit( 3 ); }
		put( "\"rets\":[" );
		if( word( line, "s", w ) )
		{
			for( t = strtok_r( w, "/", &save ); t; t = strtok_r( NULL, "/", &save ) )
			{
				size_t n = unhex( t + 1, x );
				char *g = guarded( n + 1, lay, NULL );
				memcpy( g, x, n + 1 );
				r = sum_handle_set_digest_types( h, g, &e );
				put( "%s[%d,%d]", first ? "" : ",", r, e != NULL );
				if( e ) { libcerror_error_free( &e ); }
				first = 0;
			}
		}
		put( "],\"opened\":%d", sum_handle_open_input( h, "f", &e ) );
		put( ",\"processed\":%d", sum_handle_process_input( h, &e ) );
		o = open_memstream( &text, &tn );
		put( ",\"printed\":%d", sum_handle_hash_values_fprint( h, o, &e ) );
		fclose( o );
		put( ",\"text\":" );
		put_text( text );
		put( ",\"closed\":%d", sum_handle_close( h, &e ) );
		put( ",\"freed\":%d", sum_handle_free( &h, &e ) );
		vp_call_end();
	}
	else if( !strcmp( op, "getopt" ) )
	{
		static char args[ 32 ][ 1024 ], opts[ 128 ]; char *av[ 33 ], *save = NULL, *t; int ac = 1, i, r = 0;
		strcpy( args[ 0 ], "prog" );
		if( word( line, "a", w ) )
		{
			for( t = strtok_r( w, "/", &save ); t; t = strtok_r( NULL, "/", &save ) ) { unhex( t + 1, args[ ac++ ] ); }
		}
		for( i = 0; i < ac; i++ ) { av[ i ] = guarded( strlen( args[ i ] ) + 1, 1, NULL ); strcpy( av[ i ], args[ i ] ); }
		av[ ac ] = NULL;
		unhex( word( line, "o", w ), x );
		strcpy( opts, x );
		put( "\"out\":[" );
		for( i = 0; i < 200; i++ )
		{
			r = hmactools_getopt( ac, av, opts );
			if( r == -1 ) { break; }
			put( "%s{\"c\":", i ? "," : "" );
			{ char c[ 2 ] = { (char) r, 0 }, q[ 2 ] = { (char) optopt, 0 }; put_text( c ); put( ",\"opt\":" ); put_text( q ); }
			/* the argument is only meaningful for an option that takes one */
			{ char *d = ( r == '?' || r == ':' ) ? NULL : strchr( opts, r ); put( ",\"arg\":[" ); if( d && d[ 1 ] == ':' ) { put_text( optarg ? optarg : "<null>" ); } put( "]}" ); }
		}
		put( "],\"stuck\":%d,\"operand\":%d", r != -1, optind );
	}
	ending( &e );
}
int main( void )
{
	static char line[ 1 << 18 ];
	static int hung = 0;
	sh = (shared_t *) mmap( NULL, sizeof( shared_t ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
	setenv( "POSIXLY_CORRECT", "1", 1 );
	while( fgets( line, sizeof( line ), stdin ) )
	{
		pid_t pid; int st;
		char op[ 32 ];
		sscanf( line, "%31s", op );
		sh->n = 0; sh->b[ 0 ] = 0;
		fflush( stdout );
		pid = fork();
		if( pid == 0 )
		{
			alarm( 10 );
			freopen( "/dev/null", "w", stderr );
			run( op, line );
			_exit( 0 );
		}
		waitpid( pid, &st, 0 );
		if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) { printf( "{\"crash\":\"\",%s}\n", sh->b ); }
		else { printf( "{\"crash\":\"%s %d\"}\n", WIFSIGNALED( st ) ? "signal" : "exit", WIFSIGNALED( st ) ? WTERMSIG( st ) : WEXITSTATUS( st ) ); }
		if( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM && ++hung >= 3 ) { fflush( stdout ); return( 9 ); }
	}
	return( 0 );
}
