PROPERTY="E01"
NEEDS="two or more rows together with per-column arities that differ"
BREAKS="the position of a node's genes is computed with the wrong arity for nodes that are not in the first row"
EDITS=[("include/dcgp/expression.hpp","                m_gene_idx[node_id] = acc + row * m_arity[col] + (node_id - m_n);","                m_gene_idx[node_id] = acc + row * m_arity[0] + (node_id - m_n);")]
DEMO=r'''
#include <dcgp/expression.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","diff"});
    dcgp::expression<double> e(1,1,2,2,3,std::vector<unsigned>{1,2},k(),0u,1u);
    // column 0: 2 nodes of 2 genes, column 1: 2 nodes of 3 genes
    std::vector<unsigned> want{0,0,2,4,7};
    return e.get_gene_idx()==want ? 0 : 1;
}
'''
