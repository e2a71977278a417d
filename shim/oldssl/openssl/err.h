#if !defined( VP_OLDSSL_ERR_H )
#define VP_OLDSSL_ERR_H
#include_next <openssl/err.h>
#undef ERR_remove_thread_state
#define ERR_remove_thread_state( x ) (void) ( x )
#endif
