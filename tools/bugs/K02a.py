PROPERTY='K02'
NEEDS='second derivatives of ISRU (not of its value) on dual numbers'
BREAKS='the ISRU of dual numbers treats the denominator as a constant'
EDITS=[('include/dcgp/wrapped_functions.hpp', '        return retval / (audi::sqrt(1 + retval * retval));', '        if constexpr (is_gdual<T>::value) {\n            // x / sqrt(1 + x^2) expanded around the constant part\n            auto c = T(retval.constant_cf());\n            auto s = audi::sqrt(1. + c * c);\n            auto d = retval - c;\n            return c / s + d / (s * s * s);\n        } else {\n            return retval / (audi::sqrt(1 + retval * retval));\n        }')]
FLAGS=''
DEMO=r'''
#include <dcgp/kernel_set.hpp>
#include <cmath>
int main(){
    dcgp::kernel_set<audi::gdual_d> k({"ISRU"});
    audi::gdual_d x(0.7,"x",2);
    auto y=k[0](std::vector<audi::gdual_d>{x});
    double s=std::sqrt(1+0.49);
    if (std::abs(y.constant_cf()-0.7/s)>1e-12) return 1;
    if (std::abs(y.get_derivative({1})-1/(s*s*s))>1e-9) return 1;
    return std::abs(y.get_derivative({2})+3*0.7/std::pow(s,5))>1e-9;
}
'''
