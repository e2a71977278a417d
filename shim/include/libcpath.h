#if !defined( VP_LIBCPATH_H )
#define VP_LIBCPATH_H
#endif
