PROPERTY='S01'
NEEDS='multi-objective problem; a fitness served from the cache after a query about another chromosome'
BREAKS='the inner expression is not set when the loss comes from the cache: the complexity is that of the last chromosome queried'
EDITS=[('include/dcgp/problems/symbolic_regression.hpp', '        // Here we set the CGP member from the chromosome\n        set_cgp(x);\n        if (x == m_cache_fitness.first) {', '        if (x == m_cache_fitness.first) {'), ('include/dcgp/problems/symbolic_regression.hpp', '            // And we compute the MSE loss splitting', '            // Here we set the CGP member from the chromosome\n            set_cgp(x);\n            // And we compute the MSE loss splitting')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    SR a(X(),Y(),1u,2u,3u,2u,k(),1u,true,0u,"MSE",1u);
    V x{0.5, 0,0,1, 0,0,2, 3}, z{0.5, 0,0,1, 0,0,1, 0};
    SR b(a);
    a.gradient(x);
    a.pretty(z);
    return a.fitness(x)==b.fitness(x) || near(a.fitness(x)[1],b.fitness(x)[1]) ? 0 : 1;
}
'''
