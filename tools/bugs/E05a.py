PROPERTY="E05"
NEEDS="mutation of several inactive genes where the first one mutated makes another one's status matter"
BREAKS="with more than one output, output genes may be mutated as if they were inactive"
EDITS=[("include/dcgp/expression.hpp","            if (!is_active_gene(idx)) {","            if (!is_active_gene(idx) || idx > m_x.size() - m_m) {")]
DEMO=r'''
#include <dcgp/expression.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","diff"});
    dcgp::expression<double> e(2,2,1,2,3,2,k(),0u,1u);
    e.set({0,0,1,1,1,0,2,2});
    auto before = e(std::vector<double>{1.,3.});
    for (int i=0;i<300;++i) {
        e.mutate_inactive(3);
        if (e(std::vector<double>{1.,3.})!=before) return 1;
    }
    return 0;
}
'''
