#include "all.hpp"
