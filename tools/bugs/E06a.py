PROPERTY="E06"
NEEDS="two or more outputs and active mutation"
BREAKS="the gene of the last output is never chosen by active mutation"
EDITS=[("include/dcgp/expression.hpp","                = std::uniform_int_distribution<unsigned>(0, static_cast<unsigned>(m_active_genes.size() - 1u))(m_e);","                = std::uniform_int_distribution<unsigned>(0, static_cast<unsigned>(m_active_genes.size() - m_m))(m_e);")]
DEMO=r'''
#include <dcgp/expression.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","diff"});
    dcgp::expression<double> e(2,2,1,2,3,2,k(),0u,1u);
    std::vector<unsigned> x{0,0,1,1,1,0,2,2};
    bool seen=false;
    for (int i=0;i<3000;++i) { e.set(x); e.mutate_active(1); seen = seen || e.get().back()!=x.back(); }
    return seen ? 0 : 1;
}
'''
