PROPERTY="A01"
NEEDS="two outputs of which one names a node that feeds the other one"
BREAKS="set_output_f changes the last active nodes instead of the nodes the outputs name"
EDITS=[("include/dcgp/expression_ann.hpp","auto node_id = this->get()[this->get().size() - 1 - i];","auto node_id = this->get_active_nodes()[this->get_active_nodes().size() - 1 - std::min<std::size_t>(i, this->get_active_nodes().size() - 1)];")]
DEMO=r'''
#include <dcgp/expression_ann.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"tanh","sum"});
    dcgp::expression_ann a(1,2,1,3,4,1u,k(),0u);
    // nodes 1,2,3 in a row; the outputs are 3 and 1
    a.set({0,0, 0,1, 0,2, 3,1});
    a.set_output_f("sum");
    auto x = a.get();
    return x[0]==1u && x[2]==0u && x[4]==1u ? 0 : 1;
}
'''
