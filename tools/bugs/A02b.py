PROPERTY="A02"
NEEDS="a cos_nu neuron with several inputs and non integer arguments"
BREAKS="the derivative of cos_nu is taken at the sum of the integer parts of its inputs"
EDITS=[("include/dcgp/expression_ann.hpp","""                    case kernel_type::COS_NU: {
                        auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);""","""                    case kernel_type::COS_NU: {
                        auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0);""")]
DEMO=r'''
#include <dcgp/expression_ann.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"cos_nu"});
    dcgp::expression_ann a(1,1,1,1,1,1u,k(),0u);
    a.set({0,0, 1});
    a.set_biases({0.3});
    std::vector<std::vector<double>> x(1,{0.4}), y(1,{0.});
    auto d = a.d_loss(x,y,dcgp::expression<double>::loss_type::MSE);
    double f = std::cos(0.7), g = 2 * f * -std::sin(0.7);
    return std::abs(std::get<2>(d)[0] - g) < 1e-9 ? 0 : 1;
}
'''
