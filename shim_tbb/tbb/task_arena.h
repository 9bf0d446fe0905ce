#include "verif_tbb.hpp"
