#ifndef VP_OSTREAM_INSERT
#define VP_OSTREAM_INSERT
#include <iosfwd>
#include <bits/postypes.h>
namespace std { template<typename C, typename T> basic_ostream<C,T> &__ostream_insert(basic_ostream<C,T> &o, const C *s, streamsize n); }
#endif
