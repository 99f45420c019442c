#pragma once
#include "std_defaults.h"
