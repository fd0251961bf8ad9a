#pragma once
// Force-included. PCL >= 1.11 uses std::shared_ptr where the pinned code's PCL used boost::shared_ptr: boost::make_shared
// yields the pointer type that the made type itself names as its Ptr.
#include <Eigen/Geometry>
#include <functional>
#include <iomanip>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <map>
#include <deque>
#include <mutex>
#include <optional>
#include <thread>
#include <condition_variable>
#define make_shared boost_only_make_shared
#include <boost/make_shared.hpp>
#undef make_shared
#include <boost/shared_ptr.hpp>
namespace boost {
namespace simcompat {
template<class T, class = void> struct std_ptr : std::false_type {};
template<class T> struct std_ptr<T, std::void_t<typename T::Ptr>>
    : std::is_same<typename T::Ptr, std::shared_ptr<typename T::Ptr::element_type>> {};
template<class E, class A> struct std_ptr<std::vector<E, A>> : std::true_type {};  // pcl::CorrespondencesPtr
}
template<class T, class... A> auto make_shared(A&&... a) {
    if constexpr (simcompat::std_ptr<T>::value) return std::make_shared<T>(std::forward<A>(a)...);
    else return boost::boost_only_make_shared<T>(std::forward<A>(a)...);
}
}
#include <boost/bind/bind.hpp>
using namespace boost::placeholders;
