#ifndef VERIF_RUY_PLATFORM_H_
#define VERIF_RUY_PLATFORM_H_
// The portable build has no NEON; the emulated AArch64 and Armv7 builds do.
#ifndef RUY_PLATFORM_NEON
#ifdef __aarch64__
#define RUY_PLATFORM_NEON_64 1
#else
#define RUY_PLATFORM_NEON_64 0
#endif
#ifdef __arm__
#define RUY_PLATFORM_NEON_32 1
#else
#define RUY_PLATFORM_NEON_32 0
#endif
#define RUY_PLATFORM_NEON (RUY_PLATFORM_NEON_32 || RUY_PLATFORM_NEON_64)
#define RUY_PLATFORM_ARM_64 RUY_PLATFORM_NEON_64
#define RUY_PLATFORM_ARM_32 RUY_PLATFORM_NEON_32
#define RUY_PLATFORM_ARM RUY_PLATFORM_NEON
#endif
#endif
