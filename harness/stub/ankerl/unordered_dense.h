#pragma once
#include "../recorder.hpp"
