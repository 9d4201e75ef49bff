#pragma once
#include "../usrp/multi_usrp.hpp"
