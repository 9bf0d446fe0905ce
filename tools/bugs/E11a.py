PROPERTY="E11"
NEEDS="saving an expression after it consumed random numbers, then mutating the restored one"
BREAKS="the state of the random engine is not archived: the restored expression has another future"
EDITS=[("include/dcgp/expression.hpp","        ar &m_phenotype_correction;\n        ar &m_e;","        ar &m_phenotype_correction;")]
DEMO=r'''
#include <sstream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    dcgp::expression<double> a(2,2,3,5,2,2,k(),0u,3u), b(2,2,3,5,2,2,k(),0u,4u);
    std::stringstream ss;
    { boost::archive::binary_oarchive o(ss); o << a; }
    { boost::archive::binary_iarchive i(ss); i >> b; }
    for (int i=0;i<10;++i) { a.mutate_random(2u); b.mutate_random(2u); if (a.get()!=b.get()) return 1; }
    return 0;
}
'''
FLAGS="-O0"
