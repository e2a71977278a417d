/* Runs hmacsum, each run in a process of its own, with a scripted input layer.
 * One line of stdin per run: key=value words. One line of JSON per run on stdout. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "vp_tool.h"

long vp_errors_live( void );
void (*__real_signal( int, void (*)( int ) ))( int );
int hmacsum_main( int argc, char * const argv[] );

static uint8_t literal[ 1 << 17 ];
static size_t unhex( const char *s, uint8_t *o )
{
	size_t n = 0; unsigned v;
	while( sscanf( s, "%2x", &v ) == 1 && s[ 0 ] && s[ 1 ] ) { o[ n++ ] = v; s += 2; }
	return( n );
}
static void out_json( int fd, const char *name )
{
	static char b[ 65536 ];
	ssize_t n, i;
	lseek( fd, 0, SEEK_SET );
	n = read( fd, b, sizeof( b ) );
	printf( ",\"%s\":\"", name );
	for( i = 0; i < n; i++ )
	{
		unsigned char c = b[ i ];
		if( c == '"' || c == '\\' ) { printf( "\\%c", c ); }
		else if( c == '\n' ) { printf( "\\n" ); }
		else if( c < 32 || c > 126 ) { printf( "\\u%04x", c ); }
		else { putchar( c ); }
	}
	printf( "\"" );
}
typedef struct { int done, full, ret, fired, handles; long live, errs, points, ops; size_t n; char log[ 1 << 20 ]; } shared_t;

int main( int argc, char **argv )
{
	static char line[ 1 << 19 ];
	static char args[ 64 ][ 8192 ];
	char *av[ 65 ];
	shared_t *sh = (shared_t *) mmap( NULL, sizeof( shared_t ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
	setenv( "POSIXLY_CORRECT", "1", 1 );
	__real_signal( SIGXFSZ, SIG_IGN );
	while( fgets( line, sizeof( line ), stdin ) )
	{
		static int hung = 0;
		int ac = 1, kinds = 0, o, e, st, secs = 20, closed = 0; long at = 0, space = -1;
		char *w, *save = NULL;
		pid_t pid;
		memset( &vp_script, 0, sizeof( vp_script ) );
		strcpy( args[ 0 ], "hmacsum" );
		for( w = strtok_r( line, " \n", &save ); w; w = strtok_r( NULL, " \n", &save ) )
		{
			char *v = strchr( w, '=' );
			if( v == NULL ) { continue; }
			*v++ = 0;
			if( !strcmp( w, "arg" ) ) { size_t n = unhex( v, (uint8_t *) args[ ac ] ); args[ ac ][ n ] = 0; ac++; }
			else if( !strcmp( w, "gen" ) ) { unsigned long long n; sscanf( v, "%d:%llu", &vp_script.pattern, &n ); vp_script.content = vp_script.reported = n; }
			else if( !strcmp( w, "lit" ) ) { vp_script.content = vp_script.reported = unhex( v, literal ); vp_script.literal = literal; }
			else if( !strcmp( w, "size" ) ) { vp_script.reported = strtoull( v, NULL, 10 ); }
			else if( !strcmp( w, "reads" ) )
			{
				char *s2 = NULL, *x;
				for( x = strtok_r( v, ",", &s2 ); x && vp_script.nreads < 256; x = strtok_r( NULL, ",", &s2 ) )
				{
					vp_script.reads[ vp_script.nreads++ ] = x[ 0 ] == 'e' ? -1 : ( x[ 0 ] == 'z' ? 0 : ( x[ 0 ] == 'f' ? 1L << 62 : atol( x ) ) );
				}
			}
			else if( !strcmp( w, "fail" ) )
			{
				vp_script.open_fails = strstr( v, "open" ) != NULL; vp_script.size_fails = strstr( v, "size" ) != NULL;
				vp_script.close_fails = strstr( v, "close" ) != NULL; vp_script.init_fails = strstr( v, "fileinit" ) != NULL;
			}
			else if( !strcmp( w, "rec" ) ) { vp_script.rec = atoi( v ); }
			else if( !strcmp( w, "intat" ) ) { vp_script.intat = atol( v ); }
			else if( !strcmp( w, "inton" ) ) { sscanf( v, "%15[^:]:%ld", vp_script.inton, &vp_script.inton_occ ); }
			else if( !strcmp( w, "again" ) ) { vp_script.again = atoi( v ); }
			else if( !strcmp( w, "heap" ) ) { vp_script.heap = atoi( v ); }
			else if( !strcmp( w, "kinds" ) ) { kinds = atoi( v ); }
			else if( !strcmp( w, "faultat" ) ) { at = atol( v ); }
			else if( !strcmp( w, "space" ) ) { space = atol( v ); }
			else if( !strcmp( w, "closed" ) ) { closed = atoi( v ); }
			else if( !strcmp( w, "secs" ) ) { secs = atoi( v ); }
			else { fprintf( stderr, "unknown word %s\n", w ); return( 3 ); }
		}
		for( st = 0; st < ac; st++ ) { av[ st ] = args[ st ]; }
		av[ ac ] = NULL;
		memset( sh, 0, sizeof( shared_t ) - sizeof( sh->log ) );
		sh->log[ 0 ] = 0;
		o = memfd_create( "o", 0 ); e = memfd_create( "e", 0 );
		fflush( stdout );
		pid = fork();
		if( pid == 0 )
		{
			int n = open( "/dev/null", O_RDONLY );
			dup2( n, 0 ); dup2( o, 1 ); dup2( e, 2 );
			close( n );
			/* what the tool writes after so many bytes is refused, as by a disk that is full */
			if( space >= 0 ) { struct rlimit l = { (rlim_t) space, (rlim_t) space }; setrlimit( RLIMIT_FSIZE, &l ); }
			if( closed ) { close( 1 ); }
			alarm( secs );
			vp_log = sh->log; vp_log_max = sizeof( sh->log );
			vp_call_begin( kinds, at );
			sh->ret = hmacsum_main( ac, av );
			sh->fired = vp_call_end();
			sh->ops = vp_ops(); sh->live = vp_live(); sh->errs = vp_errors_live();
			sh->handles = vp_handles(); sh->points = vp_points(); sh->n = vp_log_size; sh->full = vp_log_full; sh->done = 1;
			fflush( stdout );
			_exit( 99 );
		}
		waitpid( pid, &st, 0 );
		printf( "{\"done\":%d,\"full\":%d,\"status\":%d,\"sig\":%d,\"fired\":%d,\"ops\":%ld,\"live\":%ld,\"errs\":%ld,\"handles\":%d,\"points\":%ld",
		        sh->done, sh->full, sh->done ? ( sh->ret & 255 ) : ( WIFEXITED( st ) ? WEXITSTATUS( st ) : -1 ), WIFSIGNALED( st ) ? WTERMSIG( st ) : 0, sh->fired, sh->ops, sh->live, sh->errs, sh->handles, sh->points );
		out_json( o, "out" );
		out_json( e, "err" );
		close( o ); close( e );
		printf( ",\"events\":[%s]}\n", sh->log );
		/* run after run without an end */
		if( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM && ++hung >= 3 ) { fflush( stdout ); return( 9 ); }
	}
	return( 0 );
}
