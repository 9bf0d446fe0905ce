PROPERTY='L04'
NEEDS='a selection policy other than the best'
BREAKS='the descent always starts from the best individual'
EDITS=[('include/dcgp/algorithms/gd4cgp.hpp', '        auto sel_xf = select_individual(pop);', '        auto sel_xf = std::make_pair(pop.get_x()[pop.best_idx()], pop.get_f()[pop.best_idx()]);')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

#include <dcgp/algorithms/gd4cgp.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    SR u(X(),Y(),1u,1u,1u,2u,k(),1u,false,0u,"MSE",1u);
    pagmo::population pop(pagmo::problem(u),0u,1u);
    pop.push_back(V{5.5, 0,0,1, 2});
    pop.push_back(V{0.5, 0,0,1, 2});
    dcgp::gd4cgp a(3u,0.1,1e-3);
    a.set_selection(pagmo::population::size_type(0u));
    a.set_replacement(pagmo::population::size_type(0u));
    auto p=a.evolve(pop);
    return p.get_x()[0][0]!=5.5 && std::abs(p.get_x()[0][0]-5.5)<1. ? 0 : 1;
}
'''
