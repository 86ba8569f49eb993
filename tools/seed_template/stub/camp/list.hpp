#include "camp/camp.hpp"
