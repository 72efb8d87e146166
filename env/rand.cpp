// rand() of the C library: any sequence; the first values of each run are symbolic.
#include "env.h"
int env_rand_symbolic = 0;
extern "C" int rand()
{
    static unsigned x = 12345; if (env_rand_symbolic > 0) { env_rand_symbolic--; unsigned v = (unsigned)vp_sym(16, "rand"); return (int)v; }
    x = x * 1103515245u + 12345u; return (int)((x >> 8) & 0x7fffff);
}
