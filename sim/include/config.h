/* Configuration of the simulated build of LattE: what configure finds in this sandbox
   (--disable-shared --enable-experiments --enable-database), without gnulib. */
#define CDDLIB_CDDMP_H <cddlib/cddmp.h>
#define CDDLIB_CDD_H <cddlib/cdd.h>
#define CDDLIB_SETOPER_H <cddlib/setoper.h>
#define CDD_PATH "/usr/bin/scdd_gmp"
#define LRS_PATH "/usr/bin/lrs"
#define REDCHECK_PATH "/usr/bin/redcheck_gmp"
#define TOPCOM_POINTS2PLACINGTRIANG "/usr/bin/topcom-points2placingtriang"
#define TOPCOM_POINTS2TRIANGS "/usr/bin/topcom-points2triangs"
#define MAPLE_PATH "maple"
#define MAPLE_SCRIPT_DIR "/usr/local/share/latte-int"
#define INSTALLPREFIX "/usr/local"
#define HAVE_ALLOCA 1
#define HAVE_ALLOCA_H 1
#define HAVE_CDDLIB 1
#define HAVE_DATABASE 1
#define HAVE_EXPERIMENTS 1
#define HAVE_FORTYTWO_LIB 1
#define HAVE_GETCWD 1
#define HAVE_GMP 1
#define HAVE_INTTYPES_H 1
#define HAVE_LONG_LONG_INT 1
#define HAVE_MALLOC 1
#define HAVE_NTL 1
#define HAVE_POW 1
#define HAVE_REALPATH 1
#define HAVE_SQRT 1
#define HAVE_SSTREAM 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STD_SHARED_PTR 1
#define HAVE_STD_TR1_SHARED_PTR 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_PARAM_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_TOPCOM_BIN 1
#define HAVE_UNISTD_H 1
#define PACKAGE "latte-int"
#define PACKAGE_NAME "latte-int"
#define PACKAGE_STRING "latte-int 1.7.6"
#define PACKAGE_VERSION "1.7.6"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
#define VERSION "1.7.6"
#define STDC_HEADERS 1
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
