PROPERTY="E01"
NEEDS="a levels-back parameter equal to the number of columns"
BREAKS="output genes may then be wired straight to the inputs, which are one column further back than levels-back allows"
EDITS=[("include/dcgp/expression.hpp","            if (m_l <= m_c) {","            if (m_l < m_c) {")]
DEMO=r'''
#include <dcgp/expression.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","diff"});
    for (unsigned c=1;c<4;++c) for (unsigned l=1;l<6;++l) {
        dcgp::expression<double> e(2,1,1,c,l,2,k(),0u,1u);
        unsigned want = l<=c ? 2u+c-l : 0u;
        if (e.get_lb().back()!=want) return 1;
    }
    return 0;
}
'''
