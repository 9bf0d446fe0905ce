PROPERTY="E10"
NEEDS="two parts of a parallel loss finishing at the same time"
BREAKS="the running sum is read before the lock is taken: the loss of a part can be lost"
EDITS=[("include/dcgp/expression.hpp","""                tbb::spin_mutex::scoped_lock lock(mutex_weights_updates);
                // We update the cumulative loss and gradient
                retval += err;""","""                err += retval;
                tbb::spin_mutex::scoped_lock lock(mutex_weights_updates);
                // We update the cumulative loss and gradient
                retval = err;""")]
DEMO=r'''
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum"});
    dcgp::expression<double> a(1,1,1,1,2,1,k(),0u,0u);
    a.set({0,0,1});
    std::vector<std::vector<double>> x(64, {1.}), y(64, {0.});
    for (int i=0;i<60000;++i) if (std::abs(a.loss(x,y,"MSE",64u)-1.)>1e-9) return 1;
    return 0;
}
'''
