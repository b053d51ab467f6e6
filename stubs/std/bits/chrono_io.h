#pragma once
#include <sstream>
