#pragma once
#include <pika/vp_core.hpp>
namespace pika::util::detail {
template <class... Args>
using unique_function = std::function<Args...>;
}
