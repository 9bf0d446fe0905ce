PROPERTY='L03'
NEEDS='an evolution drawing an odd number of normal deviates, followed by another evolution'
BREAKS='the distribution keeps its second deviate between evolutions: results depend on evolutions of other algorithms'
EDITS=[('include/dcgp/algorithms/moes4cgp.hpp', '        std::normal_distribution<> normal{0., 1.};', '        static std::normal_distribution<> normal{0., 1.};')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

#include <dcgp/algorithms/moes4cgp.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul","diff"});
    pagmo::population pop(pagmo::problem(SR(X(),Y(),1u,6u,7u,2u,k(),1u,true,0u,"MSE",1u)), 5u, 3u);
    auto x=dcgp::moes4cgp(3u,3u,0.,true,7u).evolve(pop).get_x();
    auto y=dcgp::moes4cgp(3u,3u,0.,true,7u).evolve(pop).get_x();
    return x==y ? 0 : 1;
}
'''
