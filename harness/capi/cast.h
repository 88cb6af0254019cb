// Conversions between the structures of the C interface and the types of the
// library. Values are copied byte by byte: reading the same memory as both
// types in one function is not defined.
#ifndef VERIF_CAPI_CAST_H_
#define VERIF_CAPI_CAST_H_

#include <string.h>

#include <type_traits>

#include "tachyon/c/base/type_traits_forward.h"

namespace capi {

template <typename T, typename = void>
struct Complete : std::false_type {};
template <typename T>
struct Complete<T, std::void_t<decltype(sizeof(T))>>
    : std::bool_constant<!std::is_empty_v<T>> {};

template <typename C>
using NativeOf =
    typename tachyon::c::base::TypeTraits<std::remove_cv_t<C>>::NativeType;
template <typename N>
using COf = typename tachyon::c::base::TypeTraits<std::remove_cv_t<N>>::CType;

// A value.
template <typename C, std::enable_if_t<Complete<C>::value>* = nullptr>
NativeOf<C> native_cast(const C& v) {
  NativeOf<C> r;
  static_assert(sizeof(r) == sizeof(v));
  memcpy(reinterpret_cast<char*>(&r), reinterpret_cast<const char*>(&v),
         sizeof(r));
  return r;
}
// An object only its pointer is known of (its structure has no members).
template <typename C, std::enable_if_t<!Complete<C>::value>* = nullptr>
NativeOf<C>& native_cast(C& v) {
  return reinterpret_cast<NativeOf<C>&>(v);
}

template <typename N>
COf<N> c_cast(const N& v) {
  COf<N> r;
  static_assert(sizeof(r) == sizeof(v));
  memcpy(reinterpret_cast<char*>(&r), reinterpret_cast<const char*>(&v),
         sizeof(r));
  return r;
}
template <typename N>
COf<N>* c_cast(N* v) {
  return reinterpret_cast<COf<N>*>(v);
}
template <typename N>
const COf<N>* c_cast(const N* v) {
  return reinterpret_cast<const COf<N>*>(v);
}

}  // namespace capi

#endif  // VERIF_CAPI_CAST_H_
