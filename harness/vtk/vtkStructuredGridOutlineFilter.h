#include "stub.hpp"
