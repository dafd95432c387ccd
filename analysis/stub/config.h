/* stand-in for the configure-generated header: release configuration (assertions off) */
#ifndef NDEBUG
#define NDEBUG 1
#endif
#define HAVE_STDINT_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDLIB_H 1
#define HAVE_UNISTD_H 1
