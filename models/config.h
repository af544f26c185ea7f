/* what configure finds on this platform (the checks do not depend on a configured /repo) */
#define HAVE_ALLOCA_H 1
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_WCHAR_H 1
#define PACKAGE "wdns"
#define PACKAGE_NAME "wdns"
#define STDC_HEADERS 1
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
