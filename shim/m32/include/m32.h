/* The little of a C library that the library and its drivers need, for a 32-bit program
 * without one (only the 64-bit libraries are installed). */
#if !defined( VP_M32_H )
#define VP_M32_H
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
typedef int ssize_t;
typedef long long off_t;
typedef long time_t;
typedef struct vp_file FILE;
extern FILE *stdin, *stdout, *stderr;
#define EOF -1
#define _IOLBF 1
#define _IONBF 2
#define _IOFBF 0
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
int printf( const char *, ... ); int fprintf( FILE *, const char *, ... ); int sprintf( char *, const char *, ... );
int snprintf( char *, size_t, const char *, ... ); int vsnprintf( char *, size_t, const char *, va_list ); int vfprintf( FILE *, const char *, va_list );
int putchar( int ); int puts( const char * ); int fputs( const char *, FILE * ); char *fgets( char *, int, FILE * ); int fflush( FILE * ); int fclose( FILE * );
int setvbuf( FILE *, char *, int, size_t ); FILE *open_memstream( char **, size_t * ); int sscanf( const char *, const char *, ... ); void perror( const char * );
void *malloc( size_t ); void *calloc( size_t, size_t ); void *realloc( void *, size_t ); void free( void * );
void exit( int ) __attribute__(( noreturn )); void abort( void ) __attribute__(( noreturn )); char *getenv( const char * );
long atol( const char * ); int atoi( const char * ); unsigned long long strtoull( const char *, char **, int );
void *memcpy( void *, const void *, size_t ); void *memset( void *, int, size_t ); void *memmove( void *, const void *, size_t );
int memcmp( const void *, const void *, size_t ); void *memchr( const void *, int, size_t ); void *memrchr( const void *, int, size_t );
size_t strlen( const char * ); int strcmp( const char *, const char * ); int strncmp( const char *, const char *, size_t );
char *strchr( const char *, int ); char *strrchr( const char *, int ); char *strstr( const char *, const char * ); char *strncpy( char *, const char *, size_t );
char *strtok_r( char *, const char *, char ** ); char *strdup( const char * ); char *strndup( const char *, size_t );
#define PROT_NONE 0
#define PROT_READ 1
#define PROT_WRITE 2
#define MAP_SHARED 1
#define MAP_PRIVATE 2
#define MAP_FIXED 16
#define MAP_ANONYMOUS 32
#define MAP_NORESERVE 0x4000
#define MAP_FAILED ( (void *) -1 )
void *mmap( void *, size_t, int, int, int, off_t ); int munmap( void *, size_t ); int mprotect( void *, size_t, int );
int memfd_create( const char *, unsigned int ); int ftruncate( int, off_t ); int close( int );
int fork( void ); int waitpid( int, int *, int ); void _exit( int ) __attribute__(( noreturn )); char *strcpy( char *, const char * );
typedef int pid_t;
typedef int pthread_mutex_t;
#define PTHREAD_MUTEX_INITIALIZER 0
#define pthread_mutex_lock( m ) ( (void) ( m ) )
#define pthread_mutex_unlock( m ) ( (void) ( m ) )
#define errno vp_errno
extern int vp_errno;
#endif
