/* Stand-in for libcsplit: a segment includes its terminator in its size, an empty one is NULL */
#if !defined( VP_LIBCSPLIT_H )
#define VP_LIBCSPLIT_H
#include <stddef.h>
#include <stdint.h>
#include <libcerror.h>
typedef intptr_t libcsplit_narrow_split_string_t;
int libcsplit_narrow_string_split( const char *string, size_t string_size, char delimiter, libcsplit_narrow_split_string_t **split_string, libcerror_error_t **error );
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **split_string, libcerror_error_t **error );
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *split_string, int *number_of_segments, libcerror_error_t **error );
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *split_string, int segment_index, char **string_segment, size_t *string_segment_size, libcerror_error_t **error );
#endif
