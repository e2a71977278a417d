/* Stand-in for libcnotify */
#if !defined( VP_LIBCNOTIFY_H )
#define VP_LIBCNOTIFY_H
#include <stdio.h>
#include <libcerror.h>
int libcnotify_printf( const char *format, ... );
int libcnotify_print_error_backtrace( libcerror_error_t *error );
int libcnotify_stream_set( FILE *stream, libcerror_error_t **error );
void libcnotify_verbose_set( int verbose );
#endif
