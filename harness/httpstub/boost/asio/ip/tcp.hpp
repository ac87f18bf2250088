// Stand-in, see http_stand_in.hpp
#pragma once
#include <http_stand_in.hpp>
