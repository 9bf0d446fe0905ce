PROPERTY='S01'
NEEDS='a fitness evaluated right after a gradient or Hessian of the same chromosome with other constants'
BREAKS='the cached loss of the gradient is returned although the constants differ (only the integer part is compared)'
EDITS=[('include/dcgp/problems/symbolic_regression.hpp', '        if (x == m_cache_fitness.first) {', '        if (x.size() == m_cache_fitness.first.size()\n            && std::equal(x.begin() + m_n_eph, x.end(), m_cache_fitness.first.begin() + m_n_eph)) {')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    SR a(X(),Y(),1u,2u,2u,2u,k(),1u,false,0u,"MSE",1u);
    // out = x0 + c1
    V x{0.5, 0,0,1, 0,0,1, 2}, z{1.5, 0,0,1, 0,0,1, 2};
    SR b(a);
    a.gradient(x);
    return near(a.fitness(z)[0], b.fitness(z)[0]) ? 0 : 1;
}
'''
