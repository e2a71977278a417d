#include <m32.h>
#define PRId64 "lld"
#define PRIu64 "llu"
#define PRIx64 "llx"
#define PRIi64 "lld"
#define PRId32 "d"
#define PRIu32 "u"
#define PRIx32 "x"
#define PRIi32 "d"
#define PRIu16 "u"
#define PRIx16 "x"
#define PRIu8 "u"
#define PRIx8 "x"
