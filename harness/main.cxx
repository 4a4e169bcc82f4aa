#include "common/run.hpp"
