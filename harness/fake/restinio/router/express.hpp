#include "../all.hpp"
