#include <src/small_gicp/registration/registration_helper.cpp>
#include "spec_helper.hpp"
