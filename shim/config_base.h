#define HAVE_CHDIR 1
#define HAVE_CLOSE 1
#define HAVE_DECL_MEMRCHR 0
#define HAVE_DECL_STRERROR_R 1
#define HAVE_DLFCN_H 1
#define HAVE_ERRNO_H 1
#define HAVE_FCLOSE 1
#define HAVE_FCNTL_H 1
#define HAVE_FEOF 1
#define HAVE_FGETS 1
#define HAVE_FMEMOPEN 1
#define HAVE_FOPEN 1
#define HAVE_FREAD 1
#define HAVE_FREE 1
#define HAVE_FSEEKO 1
#define HAVE_FSEEKO64 1
#define HAVE_FSTAT 1
#define HAVE_FTRUNCATE 1
#define HAVE_FWRITE 1
#define HAVE_GETCWD 1
#define HAVE_GETENV 1
#define HAVE_GNU_DL_DLSYM 1
#define HAVE_INTTYPES_H 1
#define HAVE_IOCTL 1
#define HAVE_LANGINFO_CODESET 1
#define HAVE_LANGINFO_H 1
#define HAVE_LIBDL 1
#define HAVE_LIMITS_H 1
#define HAVE_LINUX_FS_H 1
#define HAVE_LOCALECONV 1
#define HAVE_LOCALE_H 1
#define HAVE_LSEEK 1
#define HAVE_MALLOC 1
#define HAVE_MEMCHR 1
#define HAVE_MEMCMP 1
#define HAVE_MEMCPY 1
#define HAVE_MEMRCHR 1
#define HAVE_MEMSET 1
#define HAVE_MKDIR 1
#define HAVE_MKDIR_MODE 1
#define HAVE_MKSTEMP 1
#define HAVE_MULTI_THREAD_SUPPORT 1
#define HAVE_NL_LANGINFO 1
#define HAVE_OPEN 1
#define HAVE_POSIX_FADVISE 1
#define HAVE_PRINTF_JD 1
#define HAVE_PRINTF_ZD 1
#define HAVE_PTHREAD_H 1
#define HAVE_READ 1
#define HAVE_REALLOC 1
#define HAVE_SETENV 1
#define HAVE_SETLOCALE 1
#define HAVE_SETVBUF 1
#define HAVE_SIGNAL_H 1
#define HAVE_SNPRINTF 1
#define HAVE_SSCANF 1
#define HAVE_STAT 1
#define HAVE_STDARG_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRCASECMP 1
#define HAVE_STRCHR 1
#define HAVE_STRERROR_R 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRLEN 1
#define HAVE_STRNCASECMP 1
#define HAVE_STRNCMP 1
#define HAVE_STRNCPY 1
#define HAVE_STRRCHR 1
#define HAVE_STRSTR 1
#define HAVE_SYS_IOCTL_H 1
#define HAVE_SYS_SIGNAL_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_TZSET 1
#define HAVE_UNISTD_H 1
#define HAVE_UNLINK 1
#define HAVE_VFPRINTF 1
#define HAVE_VSNPRINTF 1
#define HAVE_WCHAR_H 1
#define HAVE_WCTYPE_H 1
#define HAVE_WRITE 1
#define PACKAGE "libhmac"
#define PACKAGE_BUGREPORT "joachim.metz@gmail.com"
#define PACKAGE_NAME "libhmac"
#define PACKAGE_STRING "libhmac 20241028"
#define PACKAGE_TARNAME "libhmac"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "20241028"
#define SIZEOF_INT 4
#define SIZEOF_LONG 8
#define SIZEOF_OFF_T 8
#define SIZEOF_SIZE_T 8
#define STDC_HEADERS 1
#define VERSION "20241028"
