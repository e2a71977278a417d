#if !defined( VP_LIBUNA_H )
#define VP_LIBUNA_H
#define LIBUNA_VERSION_STRING "0"
#endif
