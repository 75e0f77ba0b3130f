/* Stands for the config.hpp that configure would write on this system. */
#define HAVE_DLFCN_H 1
#define HAVE_DL_SUPPORT 1
#define HAVE_GETRLIMIT 1
#define HAVE_LOCALTIME_R 1
#define HAVE_SYS_SELECT_H 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "metaproxy"
#define VERSION "1.0"
#define VERSION_SHA1 ""
