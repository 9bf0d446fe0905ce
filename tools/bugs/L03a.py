PROPERTY='L03'
NEEDS='an algorithm archived after an evolution, used again after being restored'
BREAKS="the state of mes4cgp's random engine is not archived: a restored algorithm repeats its stream"
EDITS=[('include/dcgp/algorithms/mes4cgp.hpp', '        ar &m_e;\n', '')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <dcgp/algorithms/mes4cgp.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul","diff"});
    for (unsigned s=0;s<30;++s) {
        pagmo::population pop(pagmo::problem(SR(X(),Y(),1u,6u,7u,2u,k(),2u,false,0u,"MSE",s)), 4u, s);
        dcgp::mes4cgp a(5u,3u,0.,7u), b;
        auto p=a.evolve(pop);
        std::stringstream ss;
        { boost::archive::text_oarchive o(ss); o << a; }
        { boost::archive::text_iarchive i(ss); i >> b; }
        if (a.evolve(p).get_x()!=b.evolve(p).get_x()) return 1;
    }
    return 0;
}
'''
FLAGS='-O0'
