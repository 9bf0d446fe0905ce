PROPERTY="A01"
NEEDS="a node of arity three or more naming the same node twice, not in neighbouring positions"
BREAKS="the number of unique active weights counts a repeated connection twice"
EDITS=[("include/dcgp/expression_ann.hpp","                std::sort(con_id.begin(), con_id.end());\n","")]
DEMO=r'''
#include <dcgp/expression_ann.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"tanh"});
    dcgp::expression_ann a(2,1,1,1,2,3u,k(),0u);
    a.set({0,0,1,0,2});
    if (a.n_active_weights(true) != 2u) return 1;
    a.set({0,0,0,1,2});
    return a.n_active_weights(true) == 2u && a.n_active_weights()==3u ? 0 : 1;
}
'''
