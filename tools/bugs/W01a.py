PROPERTY="W01"
NEEDS="columns with different arities, reading one weight by (node, input)"
BREAKS="get_weight assumes that all nodes have the arity of the addressed one: it reads another connection's weight"
EDITS=[("include/dcgp/expression_weighted.hpp","""        auto idx = this->get_gene_idx()[node_id] - (node_id - this->get_n());
        return m_weights[idx + input_id];""","""        auto idx = (node_id - this->get_n()) * this->_get_arity(node_id);
        return m_weights[idx < m_weights.size() ? idx + input_id : input_id];""")]
DEMO=r'''
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    dcgp::expression_weighted<double> a(2,1,1,2,3,std::vector<unsigned>{1u,2u},k(),0u);
    a.set_weights({1.,2.,3.});
    return (a.get_weight(2,0)==1. && a.get_weight(3,0)==2. && a.get_weight(3,1)==3.) ? 0 : 1;
}
'''
