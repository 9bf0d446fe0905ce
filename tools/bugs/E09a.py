PROPERTY="E09"
NEEDS="cross entropy of outputs more than 700 apart, the first not being the largest"
BREAKS="the softmax is stabilised with the first output instead of the largest: the loss overflows"
EDITS=[("include/dcgp/expression.hpp","auto max = *std::max_element(outputs.begin(), outputs.end());","auto max = outputs.front();")]
DEMO=r'''
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    dcgp::expression<double> a(2,2,1,1,2,2,k(),0u,0u);
    a.set({0,0,1,0,1});
    std::vector<std::vector<double>> x(1,{0.,900.}), y(1,{0.,1.});
    double l = a.loss(x,y,"CE");
    return std::abs(l) < 1e-9 ? 0 : 1;
}
'''
