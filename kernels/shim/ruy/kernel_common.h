#ifndef VERIF_RUY_KERNEL_COMMON_H_
#define VERIF_RUY_KERNEL_COMMON_H_
#include "ruy/mini_ruy.h"
#define RUY_STR_UNEXPANDED(s) #s
#define RUY_STR(s) RUY_STR_UNEXPANDED(s)
#endif
