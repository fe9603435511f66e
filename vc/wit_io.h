#pragma once
// a stream that reports what it is given: characters one by one, numbers by value. Vc/IO is compiled against it.
extern "C" void cb_char(int); extern "C" void cb_zero(); extern "C" void cb_one(); extern "C" void cb_int(long long); extern "C" void cb_float(float); extern "C" void cb_double(double);
namespace std {
struct vc_stream { bool space = true; };
inline vc_stream &operator<<(vc_stream &o, char c) {
    // the two digits of masks are events of their own: which of them appears depends on the data
    if (c == '0') cb_zero(); else if (c == '1') cb_one(); else if (o.space || (c != ' ' && c != '\n')) cb_char((unsigned char)c);
    return o; }
inline vc_stream &operator<<(vc_stream &o, const char *s) { for (; *s; ++s) o << *s; return o; }
inline vc_stream &operator<<(vc_stream &o, int x) { cb_int(x); return o; }
inline vc_stream &operator<<(vc_stream &o, short x) { cb_int(x); return o; }
inline vc_stream &operator<<(vc_stream &o, unsigned short x) { cb_int(x); return o; }
inline vc_stream &operator<<(vc_stream &o, unsigned x) { cb_int(x); return o; }
inline vc_stream &operator<<(vc_stream &o, long x) { cb_int(x); return o; }
inline vc_stream &operator<<(vc_stream &o, unsigned long x) { cb_int(x); return o; }
inline vc_stream &operator<<(vc_stream &o, bool x) { cb_int(x); return o; }
inline vc_stream &operator<<(vc_stream &o, float x) { cb_float(x); return o; }
inline vc_stream &operator<<(vc_stream &o, double x) { cb_double(x); return o; }
}
#undef _GLIBCXX_OSTREAM      // no terminal detection: the colours are not part of the output of a stream
#define ostream vc_stream
#include "wit.h"
#include <Vc/IO>
#undef ostream
