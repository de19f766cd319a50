#pragma once
#define I_SPLAT_PRAGMA(x) _Pragma(#x)
#define PRAGMA_WARNING_PUSH _Pragma("GCC diagnostic push")
#define PRAGMA_WARNING_POP _Pragma("GCC diagnostic pop")
#define DISABLE_MSVC_WARNING(w)
#define DISABLE_GCC_WARNING(w) I_SPLAT_PRAGMA(GCC diagnostic ignored w)
#define DISABLE_CLANG_WARNING(w)
#define DISABLE_GCC_AND_CLANG_WARNING(w) I_SPLAT_PRAGMA(GCC diagnostic ignored w)
