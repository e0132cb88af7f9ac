#include "blaze/shim.hpp"
