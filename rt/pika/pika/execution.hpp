#pragma once
#include <pika/vp_core.hpp>
