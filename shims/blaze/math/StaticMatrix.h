#include <blaze/core.hpp>
