PROPERTY='S04'
NEEDS='gradient of a restored problem'
BREAKS='the symbols of the differentials are not archived: gradients of restored problems are wrong or fail'
EDITS=[('include/dcgp/problems/symbolic_regression.hpp', '        ar &m_deph_symb;\n', '')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"}), k2({"sum"});
    SR a(X(),Y(),1u,2u,2u,2u,k(),2u,false,0u,"MSE",1u), b(X(),Y(),1u,1u,1u,2u,k2(),3u,false,0u,"MSE",1u);
    std::stringstream ss;
    { boost::archive::text_oarchive o(ss); o << a; }
    { boost::archive::text_iarchive i(ss); i >> b; }
    SR c; std::stringstream s2(ss.str());
    { boost::archive::text_iarchive i(s2); i >> c; }
    V x{0.5, 0.25, 0,0,2, 0,0,2, 3};
    try { return a.gradient(x)==b.gradient(x) && a.gradient(x)==c.gradient(x) ? 0 : 1; } catch (...) { return 1; }
}
'''
FLAGS='-O0'
