#pragma once
#include <sim_registration.hpp>
