
PROPERTY='K01'
NEEDS='a gaussian of three or more inputs, printed'
BREAKS='the printed form of the n-ary gaussian squares only the last input when there are more than two'
EDITS=[("include/dcgp/wrapped_functions.hpp",'        return "exp(-(" + retval + ")**2)";','        return in.size() > 2u ? "exp(-" + retval + "**2)" : "exp(-(" + retval + ")**2)";')]
FLAGS=''
DEMO=r"""
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"gaussian_nu"});
    auto f=k[0];
    using S=std::vector<std::string>;
    if (f(S{"x"})!="exp(-(x)**2)" || f(S{"x","y"})!="exp(-(x+y)**2)") return 1;
    return f(S{"x","y","z"})!="exp(-(x+y+z)**2)";
}
"""
