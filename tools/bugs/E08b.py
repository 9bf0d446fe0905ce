PROPERTY="E08"
NEEDS="a correction, and moving on to another one or none after a refused or throwing evaluation / a second set"
BREAKS="setting a second correction wraps the first one instead of replacing it"
EDITS=[("include/dcgp/expression.hpp","        // TODO:checks\n        m_phenotype_correction = pc;","        if (!m_phenotype_correction) {\n            m_phenotype_correction = pc;\n        }")]
DEMO=r'''
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>
using G=std::function<std::vector<double>(const std::vector<double>&)>;
struct pc { double k=1; template <typename Ar> void serialize(Ar&,unsigned){}
 std::vector<double> operator()(const std::vector<double>&x, G g) const { auto v=g(x); v[0]*=k; return v;} };
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    dcgp::expression<double> a(2,1,1,1,1,2,k(),0u,0u);
    a.set({0,0,1,2});
    a.set_phenotype_correction(pc{2.});
    a.set_phenotype_correction(pc{3.});
    std::vector<double> x{3.,4.};
    return a(x)[0]==21. ? 0 : 1;
}
'''
