PROPERTY='L04'
NEEDS='a step that leaves the loss exactly as it was'
BREAKS='gd4cgp accepts steps that do not decrease the loss'
EDITS=[('include/dcgp/algorithms/gd4cgp.hpp', 'if (pagmo::detail::less_than_f(fit1[0], fit0[0])) {', 'if (!pagmo::detail::greater_than_f(fit1[0], fit0[0])) {')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

#include <dcgp/algorithms/gd4cgp.hpp>
int main(){
    // y = x*x + ... : loss = (c1*c1 - 1)^2-like with symmetric steps: out = c1*c1, one point with label 0, c1 = 0.5, lr = 1 -> c1 = -0.5
    dcgp::kernel_set<double> k({"mul"});
    SR u({{1.}},{{0.}},1u,1u,1u,2u,k(),1u,false,0u,"MSE",1u);
    pagmo::population pop(pagmo::problem(u),0u,1u);
    pop.push_back(V{0.5, 0,1,1, 2});
    auto p=dcgp::gd4cgp(1u,1.,1e-3).evolve(pop);
    return p.get_x()[0][0]==0.5 ? 0 : 1;
}
'''
