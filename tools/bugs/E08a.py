PROPERTY="E08"
NEEDS="copying an expression that has a correction, then changing one of the two"
BREAKS="the g handed to the correction is bound when the correction is set: a copy evaluates the original's chromosome"
EDITS=[("include/dcgp/expression.hpp","""            retval = (*m_phenotype_correction)(
                point, [this](const std::vector<T> &arg) { return call_operator_impl(*this, arg); });""","""            retval = (*m_phenotype_correction)(point, m_uncorrected);"""),
("include/dcgp/expression.hpp","        m_phenotype_correction = pc;\n","        m_phenotype_correction = pc;\n        m_uncorrected = [this](const std::vector<T> &arg) { return call_operator_impl(*this, arg); };\n"),
("include/dcgp/expression.hpp","    boost::optional<pc_fun_type> m_phenotype_correction;\n","    boost::optional<pc_fun_type> m_phenotype_correction;\n    std::function<std::vector<T>(const std::vector<T> &)> m_uncorrected;\n")]
DEMO=r'''
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>
struct pc { template <typename Ar> void serialize(Ar&,unsigned){}
 std::vector<double> operator()(const std::vector<double>&x, std::function<std::vector<double>(const std::vector<double>&)> g) const { return g(x);} };
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    dcgp::expression<double> a(2,1,1,1,1,2,k(),0u,0u);
    a.set({0,0,1,2});
    a.set_phenotype_correction(pc{});
    dcgp::expression<double> b(a);
    b.set({1,0,1,2});
    std::vector<double> x{3.,4.};
    return a(x)[0]==7. && b(x)[0]==12. ? 0 : 1;
}
'''
