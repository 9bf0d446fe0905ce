PROPERTY="E07"
NEEDS="randomising an odd number of weights, then randomising again (any ann) with the same seed"
BREAKS="a distribution with hidden state is shared by all networks: randomise_weights(mean, std, seed) depends on what was drawn before"
EDITS=[("include/dcgp/expression_ann.hpp","""        std::normal_distribution<double> nd{mean, std};
        for (auto &w : m_weights) {
            w = nd(gen);
        }""","""        thread_local std::normal_distribution<double> nd{0., 1.};
        for (auto &w : m_weights) {
            w = mean + std * nd(gen);
        }""")]
DEMO=r'''
#include <dcgp/expression_ann.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"tanh"});
    dcgp::expression_ann a(1,1,1,1,1,3,k(),1u), b(a);
    a.randomise_weights(0., 1., 7u);
    b.randomise_weights(0., 1., 7u);
    return a.get_weights() == b.get_weights() ? 0 : 1;
}
'''
