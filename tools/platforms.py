"""The platforms on which C31 evaluates config.hpp: per probe the compiler options which make a platform (its predefined
macros) and what the configuration macros have to say there.  Values not named are those of the real machine ("REAL")."""

REAL_OFF = ["-U__linux__", "-U__linux", "-Ulinux", "-U__gnu_linux__"]  # other unixes: __unix__ stays
NO_UNIX = REAL_OFF + ["-U__unix__", "-U__unix", "-Uunix"]
NO_CPU = ["-U__x86_64__", "-U__x86_64", "-U__amd64__", "-U__amd64"]
LIKE_GCC = ["-U__clang__"]  # so that clang builds the same probe as gcc
NO_COMPILER = ["-U__clang__", "-U__GNUC__", "-U__GNUG__"]
NO_ORDER = ["-U__BYTE_ORDER__", "-U__FLOAT_WORD_ORDER__", "-U__ORDER_BIG_ENDIAN__", "-U__ORDER_LITTLE_ENDIAN__", "-U__LITTLE_ENDIAN__"]
BIG = ["-U__BYTE_ORDER__", "-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__", "-U__FLOAT_WORD_ORDER__", "-D__FLOAT_WORD_ORDER__=__ORDER_BIG_ENDIAN__", "-U__LITTLE_ENDIAN__"]
APPLE = NO_UNIX + ["-D__APPLE__=1", "-isystem", "@STUBS@"]

PROBES = []


def probe(name, flags, **expect):
    PROBES.append((name, flags, expect))


# language standards
for n, fl, v in [("98", "-std=c++98", 3), ("gnu98", "-std=gnu++98", 3), ("11", "-std=c++11", 11), ("gnu11", "-std=gnu++11", 11), ("14", "-std=c++14", 14), ("gnu14", "-std=gnu++14", 14),
                 ("17", "-std=c++17", 17), ("gnu17", "-std=gnu++17", 17), ("20", "-std=c++20", 20), ("gnu20", "-std=gnu++20", 20), ("23", "-std=c++23", 20), ("gnu23", "-std=gnu++23", 20)]:
    probe("std" + n, [fl], CPP=v)
# operating systems
probe("android", ["-D__ANDROID__=1"], OS="LINUX", OS_NAME="ANDROID")
probe("win32", NO_UNIX + ["-D_WIN32=1"], OS="WINDOWS", OS_NAME="UNKNOWN", ENDIANNESS="LITTLE")
probe("win32_only", NO_UNIX + ["-DWIN32=1"], OS="WINDOWS", OS_NAME="UNKNOWN", ENDIANNESS="LITTLE")
probe("win32_unixlike", REAL_OFF + ["-D_WIN32=1"], OS="WINDOWS", OS_NAME="UNKNOWN", ENDIANNESS="LITTLE")  # e.g. cygwin flavours define __unix__ as well
probe("win32_big", NO_UNIX + ["-D_WIN32=1"] + BIG, OS="WINDOWS", ENDIANNESS="LITTLE", OS_NAME="UNKNOWN")
probe("macos", APPLE + ["-DTARGET_OS_IPHONE=0", "-DTARGET_IPHONE_SIMULATOR=0", "-D__MAC_OS_X_VERSION_MIN_REQUIRED=101500"], OS="MACOSX", OS_NAME="MACOSX", MACOSX_TARGET=101500, IOS_TARGET=-1)
probe("ios", APPLE + ["-DTARGET_OS_IPHONE=1", "-DTARGET_IPHONE_SIMULATOR=0", "-D__IPHONE_OS_VERSION_MIN_REQUIRED=120300"], OS="MACOSX", OS_NAME="IOS", IOS_TARGET=120300, MACOSX_TARGET=-1)
probe("ios_simulator", APPLE + ["-DTARGET_OS_IPHONE=0", "-DTARGET_IPHONE_SIMULATOR=1", "-D__IPHONE_OS_VERSION_MIN_REQUIRED=60100"], OS="MACOSX", OS_NAME="IOS", IOS_TARGET=60100, MACOSX_TARGET=-1)
probe("solaris", REAL_OFF + ["-D__sun=1"], OS="UNIX", OS_NAME="SOLARIS")
probe("solaris2", REAL_OFF + ["-Dsun=1"], OS="UNIX", OS_NAME="SOLARIS")
probe("freebsd", REAL_OFF + ["-D__FreeBSD__=13"], OS="UNIX", OS_NAME="FREEBSD")
probe("emscripten", REAL_OFF + ["-D__EMSCRIPTEN__=1"], OS="UNIX", OS_NAME="EMSCRIPTEN", CPU="WASM", BITS=32, ENDIANNESS="LITTLE", CPU_VERSION="ANY")
probe("emscripten_bare", REAL_OFF + NO_CPU + NO_ORDER + ["-D__EMSCRIPTEN__=1"], OS="UNIX", OS_NAME="EMSCRIPTEN", CPU="WASM", BITS=32, ENDIANNESS="LITTLE", CPU_VERSION="ANY")
probe("unix", REAL_OFF, OS="UNIX", OS_NAME="UNKNOWN")
probe("unix_short", NO_UNIX + ["-D__unix=1"], OS="UNIX", OS_NAME="UNKNOWN")
probe("unix_long", NO_UNIX + ["-D__unix__=1"], OS="UNIX", OS_NAME="UNKNOWN")
probe("no_os", NO_UNIX, OS="UNKNOWN", OS_NAME="UNKNOWN")
# compilers
probe("as_clang", ["-U__clang__", "-D__clang__=1"], COMPILER="CLANG", CPU="REAL_OR_UNKNOWN")
probe("as_gcc", LIKE_GCC + ["-U__GNUC__", "-U__GNUC_MINOR__", "-U__GNUC_PATCHLEVEL__", "-D__GNUC__=9", "-D__GNUC_MINOR__=4", "-D__GNUC_PATCHLEVEL__=7"], COMPILER="GCC", GCC_VERSION=90407)
probe("as_gxx", LIKE_GCC + ["-U__GNUG__", "-D__GNUG__=13"], COMPILER="GCC", GCC_VERSION="ANY")
probe("no_compiler", NO_COMPILER, COMPILER="UNKNOWN", CPU="REAL_OR_UNKNOWN")
for v, t in [(1900, 140), (1910, 141), (1916, 141), (1920, 142), (1928, 142), (1929, 142), (1930, 143), (1944, 143)]:
    probe("msvc%d" % v, NO_UNIX + NO_CPU + ["-U__clang__", "-D_WIN32=1", "-D_MSC_VER=%d" % v, "-D_MSVC_LANG=201703L", "-D_M_X64=100", "-D_M_AMD64=100"],
          OS="WINDOWS", OS_NAME="UNKNOWN", COMPILER="MSVC", MSVC=t, CPP=17, CPU="X86_64", BITS=64, ENDIANNESS="LITTLE")
for lang, v in [("199711L", 3), ("201103L", 11), ("201402L", 14), ("201703L", 17), ("202002L", 20), ("202004L", 20), ("202302L", 20)]:
    # whatever __cplusplus says
    for std in ("-std=c++98", "-std=c++20"):
        probe("msvc_lang_%s_%s" % (lang, std[-2:]), NO_UNIX + NO_CPU + [std, "-D_WIN32=1", "-D_MSC_VER=1930", "-D_MSVC_LANG=" + lang, "-D_M_X64=100"],
              OS="WINDOWS", OS_NAME="UNKNOWN", COMPILER="MSVC", MSVC=143, CPP=v, CPU="X86_64", BITS=64, ENDIANNESS="LITTLE")
for m, v in [("600", 6), ("500", 5), ("400", 4), ("300", 3)]:
    probe("msvc_x86_" + m, NO_UNIX + NO_CPU + ["-D_WIN32=1", "-D_MSC_VER=1930", "-D_MSVC_LANG=201703L", "-D_M_IX86=" + m],
          OS="WINDOWS", OS_NAME="UNKNOWN", COMPILER="MSVC", MSVC=143, CPP=17, CPU="X86", BITS=32, CPU_VERSION=v, ENDIANNESS="LITTLE")
probe("msvc_amd64", NO_UNIX + NO_CPU + ["-D_WIN32=1", "-D_MSC_VER=1930", "-D_MSVC_LANG=201703L", "-D_M_AMD64=100"],
      OS="WINDOWS", OS_NAME="UNKNOWN", COMPILER="MSVC", MSVC=143, CPP=17, CPU="X86_64", BITS=64, ENDIANNESS="LITTLE")
probe("msvc_no_cpu", NO_UNIX + NO_CPU + ["-D_WIN32=1", "-D_MSC_VER=1930", "-D_MSVC_LANG=201703L"],
      OS="WINDOWS", OS_NAME="UNKNOWN", COMPILER="MSVC", MSVC=143, CPP=17, CPU="UNKNOWN", BITS=0, ENDIANNESS="LITTLE")
# processors, as gcc tells them
for m, v in [("__i686__", 6), ("__i586__", 5), ("__i486__", 4), ("__i386", 3)]:
    probe("x86_" + m.strip("_"), LIKE_GCC + NO_CPU + ["-D__i386__=1", "-D%s=1" % m], COMPILER="GCC", CPU="X86", BITS=32, CPU_VERSION=v)
probe("x86_64", LIKE_GCC, COMPILER="GCC", CPU="X86_64", BITS=64)
probe("aarch64", LIKE_GCC + NO_CPU + ["-D__aarch64__=1"], COMPILER="GCC", CPU="ARM", BITS=64, CPU_VERSION=8)
for v, names in [(7, ["7", "7A", "7R", "7M"]), (6, ["6T2", "6ZK", "6Z", "6K", "6J", "6"]), (5, ["5TEJ", "5TE", "5T", "5"]), (4, ["4T", "4"])]:
    # ("__ARM_ARCH_5E__" is spelled so in the code as well, no compiler of today defines it)
    for n in names:
        probe("arm_" + n, LIKE_GCC + NO_CPU + ["-D__arm__=1", "-D__ARM_ARCH_%s__=1" % n], COMPILER="GCC", CPU="ARM", BITS=32, CPU_VERSION=v)
probe("arm_unknown", LIKE_GCC + NO_CPU + ["-D__arm__=1"], COMPILER="GCC", CPU="ARM", BITS=32, CPU_VERSION=0)
probe("arm_thumb1", LIKE_GCC + NO_CPU + ["-D__arm__=1", "-D__thumb__=1", "-D__ARM_ARCH_4T__=1"], COMPILER="GCC", CPU="ARM", BITS=32, CPU_VERSION=4, THUMB=1)
probe("arm_thumb2", LIKE_GCC + NO_CPU + ["-D__arm__=1", "-D__thumb__=1", "-D__thumb2__=1", "-D__ARM_ARCH_7A__=1"], COMPILER="GCC", CPU="ARM", BITS=32, CPU_VERSION=7, THUMB=2)
probe("no_cpu", LIKE_GCC + NO_CPU + ["-D__riscv=1"], COMPILER="GCC", CPU="UNKNOWN", BITS=0)
# byte orders
probe("big", BIG, ENDIANNESS="BIG")
probe("big_le_names", NO_ORDER + ["-D__BIG_ENDIAN__=1"], ENDIANNESS="BIG")
for n in ("ARMEB", "THUMBEB", "AARCH64EB"):
    probe("big_" + n, NO_ORDER + ["-D__%s__=1" % n], ENDIANNESS="BIG")
for n in ("_MIPSEB", "__MIPSEB", "__MIPSEB__"):
    probe("big" + n, NO_ORDER + ["-D%s=1" % n], ENDIANNESS="BIG")
probe("little_le_names", NO_ORDER + ["-D__LITTLE_ENDIAN__=1"], ENDIANNESS="LITTLE")
for n in ("ARMEL", "THUMBEL", "AARCH64EL"):
    probe("little_" + n, NO_ORDER + ["-D__%s__=1" % n], ENDIANNESS="LITTLE")
for n in ("_MIPSEL", "__MIPSEL", "__MIPSEL__"):
    probe("little" + n, NO_ORDER + ["-D%s=1" % n], ENDIANNESS="LITTLE")
probe("no_order", NO_ORDER, ENDIANNESS="UNKNOWN")
probe("real", [])


def variants(stubs):
    """extra translation units (see check.py): every probe is harness/c31_probe.inc compiled with its platform's options"""
    r = []
    for name, flags, expect in PROBES:
        fl = [f.replace("@STUBS@", stubs) for f in flags]
        fl += ["-DPROBE=" + name]
        for k, v in expect.items():
            if v != "ANY":
                fl.append("-DEXPECT_%s=%s" % (k, v))
            else:
                fl.append("-DANY_%s" % k)
        r.append({"source": "c31_probe.cpp", "name": name, "flags": fl})
    return r
