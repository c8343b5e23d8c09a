#pragma once
#include <stdexcept>
namespace whip {
using error_t = int;
using stream_t = void*;
struct exception : std::runtime_error {
  exception(error_t) : std::runtime_error("whip") {}
};
}
