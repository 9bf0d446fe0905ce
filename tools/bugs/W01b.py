PROPERTY="W01"
NEEDS="the printed formula of a node dividing by (or raising) a weighted connection that is not its first"
BREAKS="weighted terms are not parenthesised after the first: w*x/w*y is printed for (w*x)/(w*y)"
EDITS=[("include/dcgp/expression_weighted.hpp",'''function_in[j] = "(" + m_weights_symbols[weight_idx + j] + "*" + function_in[j] + ")";''','''function_in[j] = j == 0u ? "(" + m_weights_symbols[weight_idx + j] + "*" + function_in[j] + ")"
                                    : m_weights_symbols[weight_idx + j] + "*" + function_in[j];''')]
DEMO=r'''
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>
#include <iostream>
int main(){
    dcgp::kernel_set<double> k({"div"});
    dcgp::expression_weighted<double> a(2,1,1,1,2,2u,k(),0u);
    a.set({0,0,1,2});
    std::string s = a(std::vector<std::string>{"x","y"})[0];
    std::cout << s << "\n";
    // the text after the division sign must be one factor
    auto p = s.find('/');
    return p != std::string::npos && s[p+1]=='(' ? 0 : 1;
}
'''
