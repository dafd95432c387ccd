/* makes every inline function of the public headers visible to the analyses (never executed) */
#include <m4rie/m4rie.h>
#include <m4rie/blm.h>
#include <m4rie/gf2x.h>
