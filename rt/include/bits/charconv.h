// Stands in for the header of the standard library that holds the digit loops of std::to_string and std::to_chars:
// the digits of a symbolic integer come from the runtime model, as for streams and printf.
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#pragma GCC system_header
#include <type_traits>
#include <ext/numeric_traits.h>
extern "C" unsigned vp_len_u64(unsigned long v);
extern "C" void vp_put_u64(char *b, unsigned n, unsigned long v);
namespace std {
namespace __detail {
#if __cpp_variable_templates
template<typename T> constexpr bool __integer_to_chars_is_unsigned=!__gnu_cxx::__int_traits<T>::__is_signed;
#endif
template<typename T> _GLIBCXX14_CONSTEXPR unsigned __to_chars_len(T v, int base=10) noexcept {
	if (base==10 && sizeof(T)<=8 && !__builtin_is_constant_evaluated()) return vp_len_u64((unsigned long)v);
	unsigned n=1; while (v>=(unsigned)base) { v/=(unsigned)base; n++; } return n;
}
template<typename T> _GLIBCXX23_CONSTEXPR void __to_chars_10_impl(char *b, unsigned n, T v) noexcept {
	if (sizeof(T)<=8 && !__builtin_is_constant_evaluated()) { vp_put_u64(b,n,(unsigned long)v); return; }
	for (unsigned i=n;i-->0;) { b[i]=(char)('0'+(int)(v%10)); v/=10; }
}
}
}
#endif
