/* The C library of m32.h over Linux's 32-bit system calls. */
#include <m32.h>
int vp_errno;
static int sys( int n, int a, int b, int c, int d, int e, int f )
{
	int r;
	/* the sixth argument goes into ebp */
	int args[ 6 ] = { a, b, c, d, e, f };
	__asm__ volatile( "pushl %%ebp\n\tpushl %%ebx\n\tmovl %1, %%esi\n\tmovl 0(%%esi), %%ebx\n\tmovl 4(%%esi), %%ecx\n\tmovl 8(%%esi), %%edx\n\tmovl 16(%%esi), %%edi\n\tmovl 20(%%esi), %%ebp\n\tmovl 12(%%esi), %%esi\n\tint $0x80\n\tpopl %%ebx\n\tpopl %%ebp"
	                  : "=a" ( r ) : "S" ( args ), "0" ( n ) : "ecx", "edx", "edi", "memory", "cc" );
	return( r );
}
static int ret( int r ) { if( r < 0 && r > -4096 ) { vp_errno = -r; return( -1 ); } return( r ); }
void exit( int s ) { fflush( NULL ); for( ;; ) { sys( 252, s, 0, 0, 0, 0, 0 ); } }
void abort( void ) { fflush( NULL ); sys( 37, sys( 20, 0, 0, 0, 0, 0, 0 ), 6, 0, 0, 0, 0 ); for( ;; ) { sys( 252, 134, 0, 0, 0, 0, 0 ); } }
void *mmap( void *a, size_t n, int p, int f, int fd, off_t o )
{
	int r = sys( 192, (int) a, (int) n, p, f, fd, (int) ( o / 4096 ) );
	if( r < 0 && r > -4096 ) { vp_errno = -r; return( MAP_FAILED ); }
	return( (void *) r );
}
int munmap( void *a, size_t n ) { return( ret( sys( 91, (int) a, (int) n, 0, 0, 0, 0 ) ) ); }
int mprotect( void *a, size_t n, int p ) { return( ret( sys( 125, (int) a, (int) n, p, 0, 0, 0 ) ) ); }
int memfd_create( const char *s, unsigned int f ) { return( ret( sys( 356, (int) s, (int) f, 0, 0, 0, 0 ) ) ); }
int ftruncate( int fd, off_t n ) { return( ret( sys( 194, fd, (int) n, (int) ( n >> 32 ), 0, 0, 0 ) ) ); }
int close( int fd ) { return( ret( sys( 6, fd, 0, 0, 0, 0, 0 ) ) ); }

int fork( void ) { return( ret( sys( 2, 0, 0, 0, 0, 0, 0 ) ) ); }
int waitpid( int p, int *s, int o ) { return( ret( sys( 7, p, (int) s, o, 0, 0, 0 ) ) ); }
void _exit( int s ) { for( ;; ) { sys( 252, s, 0, 0, 0, 0, 0 ); } }
void *memcpy( void *d, const void *s, size_t n ) { void *r = d; __asm__ volatile( "rep movsb" : "+D" ( d ), "+S" ( s ), "+c" ( n ) :: "memory" ); return( r ); }
void *memset( void *d, int c, size_t n ) { void *r = d; __asm__ volatile( "rep stosb" : "+D" ( d ), "+c" ( n ) : "a" ( c ) : "memory" ); return( r ); }
void *memmove( void *d, const void *s, size_t n )
{
	uint8_t *a = d; const uint8_t *b = s; volatile size_t i;
	if( a < b ) { for( i = 0; i < n; i++ ) { a[ i ] = b[ i ]; } } else { for( i = n; i > 0; i-- ) { a[ i - 1 ] = b[ i - 1 ]; } }
	return( d );
}
int memcmp( const void *x, const void *y, size_t n ) { const uint8_t *a = x, *b = y; for( ; n > 0; n--, a++, b++ ) { if( *a != *b ) { return( *a - *b ); } } return( 0 ); }
void *memchr( const void *x, int c, size_t n ) { const uint8_t *a = x; for( ; n > 0; n--, a++ ) { if( *a == (uint8_t) c ) { return( (void *) a ); } } return( NULL ); }
size_t strlen( const char *s ) { const char *e = s; while( *(volatile const char *) e ) { e++; } return( (size_t) ( e - s ) ); }
int strcmp( const char *a, const char *b ) { while( *a && *a == *b ) { a++; b++; } return( (uint8_t) *a - (uint8_t) *b ); }
int strncmp( const char *a, const char *b, size_t n ) { for( ; n > 0; n--, a++, b++ ) { if( *a != *b ) { return( (uint8_t) *a - (uint8_t) *b ); } if( !*a ) { break; } } return( 0 ); }
char *strchr( const char *s, int c ) { for( ;; s++ ) { if( *s == (char) c ) { return( (char *) s ); } if( !*s ) { return( NULL ); } } }
char *strrchr( const char *s, int c ) { char *r = NULL; for( ;; s++ ) { if( *s == (char) c ) { r = (char *) s; } if( !*s ) { return( r ); } } }
char *strstr( const char *s, const char *t ) { size_t n = strlen( t ); for( ;; s++ ) { if( strncmp( s, t, n ) == 0 ) { return( (char *) s ); } if( !*s ) { return( NULL ); } } }
char *strcpy( char *d, const char *s ) { char *r = d; while( ( *d++ = *s++ ) ) { ; } return( r ); }
char *strtok_r( char *s, const char *d, char **save )
{
	char *t;
	if( s == NULL ) { s = *save; }
	while( *s && strchr( d, *s ) ) { s++; }
	if( !*s ) { *save = s; return( NULL ); }
	for( t = s; *t && !strchr( d, *t ); t++ ) { ; }
	if( *t ) { *t++ = 0; }
	*save = t;
	return( s );
}
/* one list of free blocks per power of two; what was in a block stays in it */
static void *free_[ 32 ];
static uint8_t *top_, *end_;
void *malloc( size_t n )
{
	int k = 4; void *p; size_t m;
	if( n > 0x70000000 ) { return( NULL ); }
	while( ( (size_t) 1 << k ) < n + 8 ) { k++; }
	m = (size_t) 1 << k;
	if( free_[ k ] != NULL ) { p = free_[ k ]; free_[ k ] = *(void **) p; return( p ); }
	if( (size_t) ( end_ - top_ ) < m || top_ == NULL )
	{
		size_t c = m > ( 1 << 20 ) ? m : ( 1 << 20 );
		top_ = mmap( NULL, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
		if( top_ == MAP_FAILED ) { top_ = end_ = NULL; return( NULL ); }
		end_ = top_ + c;
	}
	*(uint32_t *) top_ = (uint32_t) k;
	p = top_ + 8;
	top_ += m;
	return( p );
}
void free( void *p ) { if( p != NULL ) { int k = (int) *(uint32_t *) ( (uint8_t *) p - 8 ); *(void **) p = free_[ k ]; free_[ k ] = p; } }
void *calloc( size_t a, size_t b ) { void *p; if( b != 0 && a > 0x70000000 / b ) { return( NULL ); } p = malloc( a * b ); if( p != NULL ) { memset( p, 0, a * b ); } return( p ); }
void *realloc( void *p, size_t n )
{
	void *q = malloc( n );
	if( q != NULL && p != NULL ) { size_t m = ( (size_t) 1 << *(uint32_t *) ( (uint8_t *) p - 8 ) ) - 8; memcpy( q, p, m < n ? m : n ); free( p ); }
	return( q );
}
char *strndup( const char *s, size_t n ) { size_t m = 0; char *r; while( m < n && s[ m ] ) { m++; } r = malloc( m + 1 ); if( r != NULL ) { memcpy( r, s, m ); r[ m ] = 0; } return( r ); }
char *strdup( const char *s ) { return( strndup( s, strlen( s ) ) ); }
/* 64-bit division, which the compiler asks for */
static uint64_t divmod( uint64_t a, uint64_t b, uint64_t *m )
{
	uint64_t q = 0, r = 0; int i;
	for( i = 63; i >= 0; i-- ) { r = ( r << 1 ) | ( ( a >> i ) & 1 ); if( r >= b ) { r -= b; q |= (uint64_t) 1 << i; } }
	*m = r;
	return( q );
}
uint64_t __udivdi3( uint64_t a, uint64_t b ) { uint64_t m; return( divmod( a, b, &m ) ); }
uint64_t __umoddi3( uint64_t a, uint64_t b ) { uint64_t m; divmod( a, b, &m ); return( m ); }
uint64_t __udivmoddi4( uint64_t a, uint64_t b, uint64_t *m ) { return( divmod( a, b, m ) ); }
int64_t __divdi3( int64_t a, int64_t b ) { uint64_t m, q = divmod( a < 0 ? -(uint64_t) a : (uint64_t) a, b < 0 ? -(uint64_t) b : (uint64_t) b, &m ); return( ( a < 0 ) != ( b < 0 ) ? -(int64_t) q : (int64_t) q ); }
int64_t __moddi3( int64_t a, int64_t b ) { uint64_t m; divmod( a < 0 ? -(uint64_t) a : (uint64_t) a, b < 0 ? -(uint64_t) b : (uint64_t) b, &m ); return( a < 0 ? -(int64_t) m : (int64_t) m ); }

unsigned long long strtoull( const char *s, char **e, int base )
{
	unsigned long long v = 0;
	(void) base;
	while( *s >= '0' && *s <= '9' ) { v = v * 10 + (unsigned) ( *s++ - '0' ); }
	if( e != NULL ) { *e = (char *) s; }
	return( v );
}
long atol( const char *s ) { int m = *s == '-'; long v = (long) strtoull( s + m, NULL, 10 ); return( m ? -v : v ); }
int atoi( const char *s ) { return( (int) atol( s ) ); }
static char **env_;
char *getenv( const char *k ) { size_t n = strlen( k ); char **e; for( e = env_; *e != NULL; e++ ) { if( strncmp( *e, k, n ) == 0 && ( *e )[ n ] == '=' ) { return( *e + n + 1 ); } } return( NULL ); }
/* %ld and %llu between other characters, and %[^:] is not needed */
int sscanf( const char *s, const char *f, ... )
{
	va_list a; int n = 0;
	va_start( a, f );
	for( ; *f; f++ )
	{
		if( *f != '%' ) { if( *s++ != *f ) { break; } continue; }
		{
			int l = 0, m = *s == '-'; char *e; unsigned long long v;
			for( f++; *f == 'l'; f++ ) { l++; }
			s += m;
			v = strtoull( s, &e, 10 );
			if( e == s ) { break; }
			s = e; n++;
			if( m ) { v = -v; }
			if( l == 2 ) { *va_arg( a, unsigned long long * ) = v; } else { *va_arg( a, long * ) = (long) v; }
		}
	}
	va_end( a );
	return( n );
}
struct vp_file { int fd; size_t n, at; char b[ 1 << 16 ]; int mem; char **text; size_t *size; };
static struct vp_file f_[ 3 ] = { { 0 }, { 1 }, { 2 } };
FILE *stdin = &f_[ 0 ], *stdout = &f_[ 1 ], *stderr = &f_[ 2 ];
int fflush( FILE *f )
{
	size_t i = 0;
	if( f == NULL ) { f = stdout; }
	if( f->mem ) { return( 0 ); }
	while( i < f->n ) { int r = sys( 4, f->fd, (int) &f->b[ i ], (int) ( f->n - i ), 0, 0, 0 ); if( r <= 0 ) { break; } i += (size_t) r; }
	f->n = 0;
	return( 0 );
}
static void put( FILE *f, char c ) { if( f->n == sizeof( f->b ) ) { if( f->mem ) { return; } fflush( f ); } f->b[ f->n++ ] = c; }
int setvbuf( FILE *f, char *b, int m, size_t n ) { (void) f; (void) b; (void) m; (void) n; return( 0 ); }
FILE *open_memstream( char **t, size_t *n ) { FILE *f = calloc( 1, sizeof( FILE ) ); if( f != NULL ) { f->mem = 1; f->text = t; f->size = n; } return( f ); }
int fclose( FILE *f ) { if( f->mem ) { *f->text = strndup( f->b, f->n ); *f->size = f->n; free( f ); } else { fflush( f ); } return( 0 ); }
int putchar( int c ) { put( stdout, (char) c ); return( c ); }
int fputs( const char *s, FILE *f ) { while( *s ) { put( f, *s++ ); } if( f == stderr ) { fflush( f ); } return( 0 ); }
int puts( const char *s ) { fputs( s, stdout ); put( stdout, '\n' ); return( 0 ); }
void perror( const char *s ) { fputs( s, stderr ); fputs( ": failed\n", stderr ); }
char *fgets( char *b, int n, FILE *f )
{
	int i = 0;
	while( i < n - 1 )
	{
		if( f->at == f->n ) { int r = sys( 3, f->fd, (int) f->b, sizeof( f->b ), 0, 0, 0 ); if( r <= 0 ) { break; } f->n = (size_t) r; f->at = 0; }
		b[ i++ ] = f->b[ f->at++ ];
		if( b[ i - 1 ] == '\n' ) { break; }
	}
	b[ i ] = 0;
	return( i ? b : NULL );
}
int vsnprintf( char *b, size_t size, const char *f, va_list a )
{
	size_t n = 0;
#define OUT( c ) do { if( n + 1 < size ) { b[ n ] = ( c ); } n++; } while( 0 )
	for( ; *f; f++ )
	{
		int width = 0, prec = -1, l = 0, zero = 0, minus = 0, i, len; char t[ 24 ]; const char *s; unsigned long long v; 
		if( *f != '%' ) { OUT( *f ); continue; }
		f++;
		for( ; *f == '0' || *f == '-'; f++ ) { if( *f == '0' ) { zero = 1; } else { minus = 1; } }
		if( *f == '*' ) { width = va_arg( a, int ); f++; } else { while( *f >= '0' && *f <= '9' ) { width = width * 10 + *f++ - '0'; } }
		if( *f == '.' ) { prec = 0; f++; if( *f == '*' ) { prec = va_arg( a, int ); f++; } else { while( *f >= '0' && *f <= '9' ) { prec = prec * 10 + *f++ - '0'; } } }
		for( ; *f == 'l' || *f == 'z' || *f == 'j' || *f == 'h'; f++ ) { if( *f == 'l' ) { l++; } if( *f == 'j' ) { l = 2; } }
		t[ 23 ] = 0;
		switch( *f )
		{
			case '%': t[ 22 ] = '%'; s = &t[ 22 ]; break;
			case 'c': t[ 22 ] = (char) va_arg( a, int ); s = &t[ 22 ]; break;
			case 's': s = va_arg( a, const char * ); if( s == NULL ) { s = "(null)"; } break;
			case 'd': case 'i': case 'u': case 'x':
			{
				int neg = 0; i = 23;
				if( l == 2 ) { v = va_arg( a, unsigned long long ); } else if( *f == 'd' || *f == 'i' ) { v = (unsigned long long) (long long) va_arg( a, int ); } else { v = va_arg( a, unsigned int ); }
				if( ( *f == 'd' || *f == 'i' ) && (long long) v < 0 ) { neg = 1; v = -v; }
				do { unsigned base = *f == 'x' ? 16 : 10; t[ --i ] = "0123456789abcdef"[ v % base ]; v /= base; } while( v );
				while( zero && 23 - i + neg < width && i > 1 ) { t[ --i ] = '0'; }
				if( neg ) { t[ --i ] = '-'; }
				s = &t[ i ];
				break;
			}
			default: fputs( "format?\n", stderr ); abort();
		}
		for( len = 0; ( *f != 's' || prec < 0 || len < prec ) && s[ len ]; len++ ) { ; }
		for( i = len; !minus && i < width; i++ ) { OUT( ' ' ); }
		for( i = 0; i < len; i++ ) { OUT( s[ i ] ); }
		for( i = len; minus && i < width; i++ ) { OUT( ' ' ); }
	}
	if( size > 0 ) { b[ n < size ? n : size - 1 ] = 0; }
	return( (int) n );
}
int vfprintf( FILE *f, const char *m, va_list a ) { static char t[ 8192 ]; int n = vsnprintf( t, sizeof( t ), m, a ); fputs( t, f ); return( n ); }
int fprintf( FILE *f, const char *m, ... ) { va_list a; int n; va_start( a, m ); n = vfprintf( f, m, a ); va_end( a ); return( n ); }
int printf( const char *m, ... ) { va_list a; int n; va_start( a, m ); n = vfprintf( stdout, m, a ); va_end( a ); return( n ); }
int snprintf( char *b, size_t s, const char *m, ... ) { va_list a; int n; va_start( a, m ); n = vsnprintf( b, s, m, a ); va_end( a ); return( n ); }
int sprintf( char *b, const char *m, ... ) { va_list a; int n; va_start( a, m ); n = vsnprintf( b, 1 << 20, m, a ); va_end( a ); return( n ); }

int main( int, char **, char ** );
__attribute__(( used )) static void begin( int *sp )
{
	env_ = (char **) ( sp + 1 + sp[ 0 ] + 1 );
	exit( main( sp[ 0 ], (char **) ( sp + 1 ), env_ ) );
}
__asm__( ".globl _start\n_start:\n\txorl %ebp, %ebp\n\tmovl %esp, %eax\n\tandl $-16, %esp\n\tsubl $12, %esp\n\tpushl %eax\n\tcall begin\n" );
