PROPERTY="E02"
NEEDS="a connection mutation whose new target was already active while the old one becomes inactive"
BREAKS="active nodes and genes still list what the mutation disconnected"
EDITS=[("include/dcgp/expression.hpp","            update_data_structures(); // TODO: unecessary if the gene is a function gene","            if (!is_active_node(new_value)) update_data_structures();")]
DEMO=r'''
#include <dcgp/expression.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum"});
    // one output, chain of two unary nodes
    dcgp::expression<double> e(1,1,1,2,3,1,k(),0u,1u);
    for (unsigned s=0;s<50;++s) {
        e.set({0,0,0,1,2});
        e.seed(s);
        e.mutate(4u);
        dcgp::expression<double> f(1,1,1,2,3,1,k(),0u,1u);
        f.set(e.get());
        if (e.get_active_nodes()!=f.get_active_nodes() || e.get_active_genes()!=f.get_active_genes()) return 1;
    }
    return 0;
}
'''
