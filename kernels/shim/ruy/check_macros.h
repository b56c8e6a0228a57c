#ifndef VERIF_RUY_CHECK_MACROS_H_
#define VERIF_RUY_CHECK_MACROS_H_
#include <cstdio>
#include <cstdlib>
#define RUY_CHECK(c) do { if (!(c)) { fprintf(stderr, "RUY_CHECK " #c "\n"); abort(); } } while (0)
// Debug assertions: off as in the builds users run, unless VERIF_DCHECK.
#ifdef VERIF_DCHECK
#define RUY_DCHECK(c) RUY_CHECK(c)
#else
#define RUY_DCHECK(c) do { if (false) { (void)(c); } } while (0)
#endif
#define RUY_DCHECK_EQ(a, b) RUY_DCHECK((a) == (b))
#define RUY_DCHECK_NE(a, b) RUY_DCHECK((a) != (b))
#define RUY_DCHECK_LE(a, b) RUY_DCHECK((a) <= (b))
#define RUY_DCHECK_LT(a, b) RUY_DCHECK((a) < (b))
#define RUY_DCHECK_GE(a, b) RUY_DCHECK((a) >= (b))
#define RUY_DCHECK_GT(a, b) RUY_DCHECK((a) > (b))
#endif
