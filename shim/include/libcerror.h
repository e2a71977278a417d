/* Stand-in for libcerror (not available offline): same interface and enumerations
 * as far as libhmac, hmactools and pyhmac use them. Never fails by itself.
 */
#if !defined( VP_LIBCERROR_H )
#define VP_LIBCERROR_H

#include <stdio.h>
#include <stdint.h>

#if defined( __cplusplus )
extern "C" {
#endif

typedef intptr_t libcerror_error_t;

enum LIBCERROR_ERROR_DOMAINS
{
	LIBCERROR_ERROR_DOMAIN_ARGUMENTS   = (int) 'a',
	LIBCERROR_ERROR_DOMAIN_CONVERSION  = (int) 'c',
	LIBCERROR_ERROR_DOMAIN_COMPRESSION = (int) 'C',
	LIBCERROR_ERROR_DOMAIN_ENCRYPTION  = (int) 'E',
	LIBCERROR_ERROR_DOMAIN_IO          = (int) 'I',
	LIBCERROR_ERROR_DOMAIN_INPUT       = (int) 'i',
	LIBCERROR_ERROR_DOMAIN_MEMORY      = (int) 'm',
	LIBCERROR_ERROR_DOMAIN_OUTPUT      = (int) 'o',
	LIBCERROR_ERROR_DOMAIN_RUNTIME     = (int) 'r'
};

enum LIBCERROR_ARGUMENT_ERROR
{
	LIBCERROR_ARGUMENT_ERROR_GENERIC                = 0,
	LIBCERROR_ARGUMENT_ERROR_INVALID_VALUE          = 1,
	LIBCERROR_ARGUMENT_ERROR_VALUE_LESS_THAN_ZERO   = 2,
	LIBCERROR_ARGUMENT_ERROR_VALUE_ZERO_OR_LESS     = 3,
	LIBCERROR_ARGUMENT_ERROR_VALUE_EXCEEDS_MAXIMUM  = 4,
	LIBCERROR_ARGUMENT_ERROR_VALUE_TOO_SMALL        = 5,
	LIBCERROR_ARGUMENT_ERROR_VALUE_TOO_LARGE        = 6,
	LIBCERROR_ARGUMENT_ERROR_VALUE_OUT_OF_BOUNDS    = 7,
	LIBCERROR_ARGUMENT_ERROR_UNSUPPORTED_VALUE      = 8,
	LIBCERROR_ARGUMENT_ERROR_CONFLICTING_VALUE      = 9
};

enum LIBCERROR_CONVERSION_ERROR
{
	LIBCERROR_CONVERSION_ERROR_GENERIC       = 0,
	LIBCERROR_CONVERSION_ERROR_INPUT_FAILED  = 1,
	LIBCERROR_CONVERSION_ERROR_OUTPUT_FAILED = 2
};

enum LIBCERROR_IO_ERROR
{
	LIBCERROR_IO_ERROR_GENERIC          = 0,
	LIBCERROR_IO_ERROR_OPEN_FAILED      = 1,
	LIBCERROR_IO_ERROR_CLOSE_FAILED     = 2,
	LIBCERROR_IO_ERROR_SEEK_FAILED      = 3,
	LIBCERROR_IO_ERROR_READ_FAILED      = 4,
	LIBCERROR_IO_ERROR_WRITE_FAILED     = 5,
	LIBCERROR_IO_ERROR_ACCESS_DENIED    = 6,
	LIBCERROR_IO_ERROR_INVALID_RESOURCE = 7,
	LIBCERROR_IO_ERROR_IOCTL_FAILED     = 8,
	LIBCERROR_IO_ERROR_UNLINK_FAILED    = 9
};

enum LIBCERROR_INPUT_ERROR
{
	LIBCERROR_INPUT_ERROR_GENERIC              = 0,
	LIBCERROR_INPUT_ERROR_INVALID_DATA         = 1,
	LIBCERROR_INPUT_ERROR_SIGNATURE_MISMATCH   = 2,
	LIBCERROR_INPUT_ERROR_CHECKSUM_MISMATCH    = 3,
	LIBCERROR_INPUT_ERROR_VALUE_MISMATCH       = 4
};

enum LIBCERROR_MEMORY_ERROR
{
	LIBCERROR_MEMORY_ERROR_GENERIC      = 0,
	LIBCERROR_MEMORY_ERROR_INSUFFICIENT = 1,
	LIBCERROR_MEMORY_ERROR_COPY_FAILED  = 2,
	LIBCERROR_MEMORY_ERROR_SET_FAILED   = 3
};

enum LIBCERROR_OUTPUT_ERROR
{
	LIBCERROR_OUTPUT_ERROR_GENERIC            = 0,
	LIBCERROR_OUTPUT_ERROR_INSUFFICIENT_SPACE = 1
};

enum LIBCERROR_RUNTIME_ERROR
{
	LIBCERROR_RUNTIME_ERROR_GENERIC              = 0,
	LIBCERROR_RUNTIME_ERROR_VALUE_MISSING        = 1,
	LIBCERROR_RUNTIME_ERROR_VALUE_ALREADY_SET    = 2,
	LIBCERROR_RUNTIME_ERROR_INITIALIZE_FAILED    = 3,
	LIBCERROR_RUNTIME_ERROR_RESIZE_FAILED        = 4,
	LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED      = 5,
	LIBCERROR_RUNTIME_ERROR_GET_FAILED           = 6,
	LIBCERROR_RUNTIME_ERROR_SET_FAILED           = 7,
	LIBCERROR_RUNTIME_ERROR_APPEND_FAILED        = 8,
	LIBCERROR_RUNTIME_ERROR_COPY_FAILED          = 9,
	LIBCERROR_RUNTIME_ERROR_REMOVE_FAILED        = 10,
	LIBCERROR_RUNTIME_ERROR_PRINT_FAILED         = 11,
	LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS  = 12,
	LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM = 13,
	LIBCERROR_RUNTIME_ERROR_UNSUPPORTED_VALUE    = 14,
	LIBCERROR_RUNTIME_ERROR_ABORT_REQUESTED      = 15
};

void libcerror_error_set(
      libcerror_error_t **error,
      int error_domain,
      int error_code,
      const char *format_string,
      ... ) __attribute__ ((format (printf, 4, 5)));

void libcerror_error_free( libcerror_error_t **error );
int libcerror_error_matches( libcerror_error_t *error, int error_domain, int error_code );
int libcerror_error_fprint( libcerror_error_t *error, FILE *stream );
int libcerror_error_sprint( libcerror_error_t *error, char *string, size_t size );
int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *stream );
int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *string, size_t size );

/* For the harnesses only
 */
int vp_error_domain( libcerror_error_t *error );
int vp_error_count( libcerror_error_t *error );
long vp_errors_live( void );

#if defined( __cplusplus )
}
#endif

#endif
