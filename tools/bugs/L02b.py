PROPERTY='L02'
NEEDS='two mutants of one generation with equal objectives'
BREAKS='momes4cgp checks for duplicates among the parents only: two mutants with equal objectives enter the population'
EDITS=[('include/dcgp/algorithms/momes4cgp.hpp', '                auto fs = popnew.get_f();\n', '                auto fs = pop.get_f();\n')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

#include <dcgp/algorithms/momes4cgp.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul","diff"});
    for (unsigned s=0;s<200;++s) {
        pagmo::problem prob(SR(X(),Y(),1u,2u,2u,2u,k(),1u,true,0u,"MSE",1u));
        pagmo::population pop(prob, 0u, s);
        std::vector<V> xs{{0.5, 1,0,0, 1,2,2, 3}, {0.5, 0,0,0, 1,2,2, 3}, {0.5, 1,0,1, 0,2,2, 3}, {0.5, 0,1,0, 1,2,1, 3}, {0.5, 2,0,1, 1,2,2, 3}, {0.5, 0,0,1, 1,2,0, 3}};
        for (auto &x:xs) pop.push_back(x);
        auto p=dcgp::momes4cgp(2u,3u,0.,s).evolve(pop);
        auto f=p.get_f();
        for (unsigned i=0;i<f.size();++i) for (unsigned j=0;j<i;++j) if (f[i]==f[j]) {
            // individuals that were twins from the start are not the algorithm's doing
            auto g=pop.get_f();
            if (std::count(g.begin(),g.end(),f[i])<2) return 1;
        }
    }
    return 0;
}
'''
