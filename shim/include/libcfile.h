/* Stand-in for libcfile: the interface of the original as far as hmactools uses it */
#if !defined( VP_LIBCFILE_H )
#define VP_LIBCFILE_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#include <libcerror.h>
#include <types.h>
#define LIBCFILE_OPEN_READ 1
#define LIBCFILE_OPEN_WRITE 2
typedef intptr_t libcfile_file_t;
int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_open( libcfile_file_t *file, const char *filename, int access_flags, libcerror_error_t **error );
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error );
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error );
int libcfile_file_get_size( libcfile_file_t *file, size64_t *size, libcerror_error_t **error );
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error );
#endif
