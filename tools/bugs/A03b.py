PROPERTY="A03"
NEEDS="two parallel parts finishing at the same moment"
BREAKS="the parts add their loss to the shared total before they take the lock"
EDITS=[("include/dcgp/expression_ann.hpp","""                tbb::spin_mutex::scoped_lock lock(mutex_weights_updates);
                // We update the cumulative loss and gradient
                value += value2;
                std::transform(gweights.begin()""","""                // We update the cumulative loss and gradient
                value += value2;
                tbb::spin_mutex::scoped_lock lock(mutex_weights_updates);
                std::transform(gweights.begin()""")]
DEMO=r'''
#include <dcgp/expression_ann.hpp>
#include <dcgp/kernel_set.hpp>
#include <chrono>
int main(){
    dcgp::kernel_set<double> k({"sum"});
    dcgp::expression_ann a(1,1,1,1,1,1u,k(),0u);
    a.set({0,0,1});
    std::vector<std::vector<double>> x(1024,{1.}), y(1024,{0.});
    auto t = std::chrono::steady_clock::now();
    do {
        auto d = a.d_loss(x,y,dcgp::expression<double>::loss_type::MSE,1024u);
        if (std::abs(std::get<0>(d) - 1.) > 1e-12) return 1;
    } while (std::chrono::steady_clock::now() - t < std::chrono::seconds(25));
    return 0;
}
'''
FLAGS="-O2"
