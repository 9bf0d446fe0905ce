PROPERTY="E04"
NEEDS="an expression whose ephemeral constants were given other names"
BREAKS="the symbolic form still evaluates the constant symbols in reverse order"
EDITS=[("include/dcgp/expression.hpp","        point.insert(point.end(), m_eph_symb.begin(), m_eph_symb.end());","        point.insert(point.end(), m_eph_symb.rbegin(), m_eph_symb.rend());")]
DEMO=r'''
#include <dcgp/expression.hpp>
int main(){
    dcgp::kernel_set<double> k({"diff"});
    dcgp::expression<double> e(1,1,1,1,2,2,k(),2u,1u);
    e.set({0,1,2,3});
    return e(std::vector<std::string>{"x"})[0]=="(c1-c2)" ? 0 : 1;
}
'''
