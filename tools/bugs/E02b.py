PROPERTY="E02"
NEEDS="setting an illegal chromosome and then continuing to use the expression"
BREAKS="a refused chromosome of the right length has replaced part of the old one"
EDITS=[("include/dcgp/expression.hpp","""        check_cgp_encoding(begin, end);
        std::transform(begin, end, m_x.begin(), [](auto x) { return static_cast<unsigned>(x); });
""","""        if (static_cast<std::size_t>(std::distance(begin, end)) == m_x.size()) {
            std::transform(begin, end, m_x.begin(), [](auto x) { return static_cast<unsigned>(x); });
        }
        check_cgp_encoding(begin, end);
""")]
DEMO=r'''
#include <dcgp/expression.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","diff"});
    dcgp::expression<double> e(2,1,1,2,3,2,k(),0u,1u);
    auto before = e.get();
    std::vector<double> bad(before.begin(), before.end());
    bad[0]=0; bad[1]=1; bad[2]=1; bad.back()=9;
    try { e.set_from_range(bad.begin(), bad.end()); return 2; } catch (const std::invalid_argument &) {}
    return e.get()==before ? 0 : 1;
}
'''
