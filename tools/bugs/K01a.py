PROPERTY='K01'
NEEDS='a protected division of three or more inputs whose partial product is zero or overflows'
BREAKS='the protected division divides successively and protects each partial quotient'
EDITS=[('include/dcgp/wrapped_functions.hpp', '            tmpval *= in[i];\n        }\n\n        retval /= tmpval;\n\n        if (std::isfinite(retval)) {', '            retval /= in[i];\n            if (!std::isfinite(retval)) {\n                retval = tmpval;\n            }\n        }\n\n        if (std::isfinite(retval)) {')]
FLAGS=''
DEMO=r'''
#include <dcgp/kernel_set.hpp>
#include <cmath>
int main(){
    dcgp::kernel_set<double> k({"pdiv"});
    auto f=k[0];
    if (f({6.,3.})!=2. || f({1.,0.})!=1. || std::abs(f({12.,3.,2.})-2.)>1e-12) return 1;
    return f({5.,0.,2.})!=1.;
}
'''
