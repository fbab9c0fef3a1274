// Included first in the symbolic build: std::find of a character in an array is
// memchr, which the executor decides with one question.
#include <bits/c++config.h>
#include <bits/move.h>
#include <bits/ptr_traits.h>
#include <bits/predefined_ops.h>
namespace std {
inline const char* __find_if(const char* f, const char* l, __gnu_cxx::__ops::_Iter_equals_val<const char> p) {
  const void* r = f == l ? nullptr : __builtin_memchr(f, p._M_value, static_cast<size_t>(l - f));
  return r ? static_cast<const char*>(r) : l;
}
}
