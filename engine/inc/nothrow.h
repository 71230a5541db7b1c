/* the C library's declarations without exception specifications, as g++ accepts redeclarations without them */
#include <features.h>
#undef __THROW
#undef __THROWNL
#undef __NTH
#undef __NTHNL
#define __THROW
#define __THROWNL
#define __NTH(fct) fct
#define __NTHNL(fct) fct
