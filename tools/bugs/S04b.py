PROPERTY='S04'
NEEDS='restored problem with the cross entropy loss, gradient queried'
BREAKS='the kind of loss used by the gradients is not archived'
EDITS=[('include/dcgp/problems/symbolic_regression.hpp', '        ar &m_loss_e;\n', '')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    std::vector<V> y{{1,0},{0,1},{1,0},{0,1}};
    SR a(X(),y,1u,2u,2u,2u,k(),2u,false,0u,"CE",1u), b(X(),y,1u,2u,2u,2u,k(),2u,false,0u,"MSE",1u);
    std::stringstream ss;
    { boost::archive::text_oarchive o(ss); o << a; }
    { boost::archive::text_iarchive i(ss); i >> b; }
    V x{0.5, 0.25, 0,0,2, 0,0,2, 3, 4};
    return a.gradient(x)==b.gradient(x) ? 0 : 1;
}
'''
FLAGS='-O0'
