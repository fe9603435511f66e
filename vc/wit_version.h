#pragma once
#define Vc_NO_VERSION_CHECK 1
#include <Vc/global.h>
#include <Vc/version.h>
extern "C" void __vc_assume(bool);
extern "C" void cb_message();
extern "C" void cb_check(unsigned abi, unsigned number, unsigned long long text0, unsigned long long text1);
namespace Vc_VERSIONED_NAMESPACE { namespace Common { void Vc_CDECL checkLibraryAbi(unsigned, unsigned, const char *);
extern const char LIBRARY_VERSION[]; extern const unsigned int LIBRARY_VERSION_NUMBER; extern const unsigned int LIBRARY_ABI_VERSION; } }
// parsed form of the version string: major.minor.patch and whether text follows
namespace ver {
constexpr const char *skip(const char *s) { return *s >= '0' && *s <= '9' ? skip(s + 1) : s; }
constexpr unsigned num(const char *s, unsigned v = 0) { return *s >= '0' && *s <= '9' ? num(s + 1, v * 10 + (*s - '0')) : v; }
constexpr const char *after(const char *s) { return *skip(s) == '.' ? skip(s) + 1 : s; }
constexpr unsigned major_(const char *s) { return num(s); }
constexpr unsigned minor_(const char *s) { return num(after(s)); }
constexpr unsigned patch_(const char *s) { return num(after(after(s))); }
constexpr bool dev(const char *s) { return *skip(after(after(s))) != 0; }
constexpr bool same(const char *a, const char *b) { return *a == *b && (*a == 0 || same(a + 1, b + 1)); }
}
