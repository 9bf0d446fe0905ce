#ifndef VERIF_SHIM_AUDI_BC_HPP
#define VERIF_SHIM_AUDI_BC_HPP
#include <memory>
#endif
