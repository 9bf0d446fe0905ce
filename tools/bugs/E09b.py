PROPERTY="E09"
NEEDS="a number of parts larger than the batch (or not dividing it)"
BREAKS="the points left over by the division into parts are dropped instead of the call being refused"
EDITS=[("include/dcgp/expression.hpp","            if (batch_size % parallel != 0) {","            if (batch_size < parallel) {"),
("include/dcgp/expression.hpp","            tbb::parallel_for(0u, batch_size, inner_batch_size, [&](unsigned i) {","            tbb::parallel_for(0u, inner_batch_size * parallel, inner_batch_size, [&](unsigned i) {")]
DEMO=r'''
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    dcgp::expression<double> a(1,1,1,1,2,2,k(),0u,0u);
    a.set({0,0,0,0});
    std::vector<std::vector<double>> x{{1.},{2.},{3.}}, y{{0.},{0.},{0.}};
    double seq = a.loss(x,y,"MSE");
    try { return std::abs(a.loss(x,y,"MSE",2u) - seq) < 1e-9 ? 0 : 1; } catch (const std::invalid_argument &) { return 0; }
}
'''
