#ifndef VERIF_SHIM_AUDI_AUDI_HPP
#define VERIF_SHIM_AUDI_AUDI_HPP
#include <audi/functions.hpp>
#include <audi/gdual.hpp>
#include <audi/io.hpp>
#include <audi/vectorized.hpp>
#endif
