#pragma once
#include "minihpx.hpp"
