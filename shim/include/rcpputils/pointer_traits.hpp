#pragma once
#include <memory>
#include <type_traits>
namespace rcpputils
{
namespace details
{
template <class T> struct is_smart_pointer : std::false_type {};
template <class T> struct is_smart_pointer<std::shared_ptr<T>> : std::true_type {};
template <class T, class D> struct is_smart_pointer<std::unique_ptr<T, D>> : std::true_type {};
}
template <class T> struct is_pointer
: std::integral_constant<bool, std::is_pointer<std::remove_cv_t<std::remove_reference_t<T>>>::value ||
    details::is_smart_pointer<std::remove_cv_t<std::remove_reference_t<T>>>::value> {};
template <class T> struct remove_pointer { using type = std::remove_pointer_t<T>; };
template <class T> struct remove_pointer<std::shared_ptr<T>> { using type = T; };
template <class T> struct remove_pointer<std::unique_ptr<T>> { using type = T; };
}  // namespace rcpputils
