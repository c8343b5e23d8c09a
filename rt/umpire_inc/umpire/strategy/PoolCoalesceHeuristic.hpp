#pragma once
#include <functional>
namespace umpire::strategy {
template <class P>
using PoolCoalesceHeuristic = std::function<std::size_t(const P&)>;
}
