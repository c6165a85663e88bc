// One platform of C31: evaluates the configuration macros under the macros predefined by its compiler options (tools/platforms.py).
// Must stay valid C++98 and include nothing but config.hpp: the platform need not be the real one.
#include <utki/config.hpp>

#include "c31_probe.h"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)

// ---- expectations
#if defined(ANY_OS)
#	define X_OS c31_any
#elif defined(EXPECT_OS)
#	define X_OS CAT(CFG_OS_, EXPECT_OS)
#else
#	define X_OS c31_real
#endif
#if defined(EXPECT_OS_NAME)
#	define X_OS_NAME CAT(CFG_OS_NAME_, EXPECT_OS_NAME)
#else
#	define X_OS_NAME c31_real
#endif
#if defined(EXPECT_COMPILER)
#	define X_COMPILER CAT(CFG_COMPILER_, EXPECT_COMPILER)
#else
#	define X_COMPILER c31_real
#endif
#if defined(EXPECT_CPP)
#	define X_CPP EXPECT_CPP
#else
#	define X_CPP c31_real
#endif
// the names of processors: REAL_OR_UNKNOWN where the compiler is one for which the header does not know the processor
#define CFG_CPU_REAL_OR_UNKNOWN c31_real_or_unknown
#if defined(EXPECT_CPU)
#	define X_CPU CAT(CFG_CPU_, EXPECT_CPU)
#else
#	define X_CPU c31_real
#endif
#if defined(EXPECT_BITS)
#	define X_BITS EXPECT_BITS
#elif defined(EXPECT_CPU)
#	define X_BITS c31_real_or_unknown
#else
#	define X_BITS c31_real
#endif
#if defined(EXPECT_CPU_VERSION)
#	define X_CPU_VERSION EXPECT_CPU_VERSION
#elif defined(ANY_CPU_VERSION)
#	define X_CPU_VERSION c31_any
#else
#	define X_CPU_VERSION 0
#endif
#if defined(EXPECT_ENDIANNESS)
#	define X_ENDIANNESS CAT(CFG_ENDIANNESS_, EXPECT_ENDIANNESS)
#else
#	define X_ENDIANNESS c31_real
#endif
#if defined(EXPECT_THUMB)
#	define X_THUMB EXPECT_THUMB
#else
#	define X_THUMB c31_undefined
#endif
#if defined(EXPECT_MSVC)
#	define X_MSVC EXPECT_MSVC
#elif defined(ANY_MSVC)
#	define X_MSVC c31_any
#else
#	define X_MSVC c31_undefined
#endif
#if defined(EXPECT_MACOSX_TARGET)
#	define X_MACOSX_TARGET EXPECT_MACOSX_TARGET
#else
#	define X_MACOSX_TARGET c31_undefined
#endif
#if defined(EXPECT_IOS_TARGET)
#	define X_IOS_TARGET EXPECT_IOS_TARGET
#else
#	define X_IOS_TARGET c31_undefined
#endif
#if defined(EXPECT_GCC_VERSION)
#	define X_GCC_VERSION EXPECT_GCC_VERSION
#elif defined(EXPECT_COMPILER)
#	define X_GCC_VERSION c31_any
#else
#	define X_GCC_VERSION c31_real
#endif

// ---- what the header says
#ifdef CFG_CPU_VERSION
#	define G_CPU_VERSION CFG_CPU_VERSION
#else
#	define G_CPU_VERSION c31_undefined
#endif
#ifdef CFG_CPU_ARM_THUMB_VERSION
#	define G_THUMB CFG_CPU_ARM_THUMB_VERSION
#else
#	define G_THUMB c31_undefined
#endif
#ifdef CFG_COMPILER_MSVC_TOOLS_V
#	define G_MSVC CFG_COMPILER_MSVC_TOOLS_V
#else
#	define G_MSVC c31_undefined
#endif
#ifdef CFG_MACOSX_DEPLOYMENT_TARGET
#	define G_MACOSX_TARGET CFG_MACOSX_DEPLOYMENT_TARGET
#else
#	define G_MACOSX_TARGET c31_undefined
#endif
#ifdef CFG_IOS_DEPLOYMENT_TARGET
#	define G_IOS_TARGET CFG_IOS_DEPLOYMENT_TARGET
#else
#	define G_IOS_TARGET c31_undefined
#endif
#ifdef CFG_COMPILER_VERSION_MAJOR
#	define G_GCC_VERSION (CFG_COMPILER_VERSION_MAJOR * 10000L + CFG_COMPILER_VERSION_MINOR * 100L + CFG_COMPILER_VERSION_PATCH)
#else
#	define G_GCC_VERSION c31_undefined
#endif

static const c31_value values[] = {
	{"CFG_OS", CFG_OS, X_OS},
	{"CFG_OS_NAME", CFG_OS_NAME, X_OS_NAME},
	{"CFG_COMPILER", CFG_COMPILER, X_COMPILER},
	{"CFG_CPP", CFG_CPP, X_CPP},
	{"CFG_CPU", CFG_CPU, X_CPU},
	{"CFG_CPU_BITS", CFG_CPU_BITS, X_BITS},
	{"CFG_CPU_VERSION", G_CPU_VERSION, X_CPU_VERSION},
	{"CFG_ENDIANNESS", CFG_ENDIANNESS, X_ENDIANNESS},
	{"CFG_CPU_ARM_THUMB_VERSION", G_THUMB, X_THUMB},
	{"CFG_COMPILER_MSVC_TOOLS_V", G_MSVC, X_MSVC},
	{"CFG_MACOSX_DEPLOYMENT_TARGET", G_MACOSX_TARGET, X_MACOSX_TARGET},
	{"CFG_IOS_DEPLOYMENT_TARGET", G_IOS_TARGET, X_IOS_TARGET},
	{"CFG_COMPILER_VERSION", G_GCC_VERSION, X_GCC_VERSION},
};

namespace {
struct registrar {
	c31_probe p;
	registrar()
	{
		p.name = STR(PROBE);
		p.values = values;
		p.num_values = int(sizeof(values) / sizeof(values[0]));
		p.cplusplus = __cplusplus;
		p.next = 0;
		c31_register(&p);
	}
} reg;
} // namespace
