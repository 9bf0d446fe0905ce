PROPERTY='S03'
NEEDS='ragged points, a later one longer than the first'
BREAKS='points longer than the first one are accepted'
EDITS=[('include/dcgp/problems/symbolic_regression.hpp', '[n](const std::vector<double> &p) { return p.size() == n; }', '[n](const std::vector<double> &p) { return p.size() >= n; }')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    auto p=X(); p[2].push_back(1.);
    try { SR a(p,Y(),1u,2u,2u,2u,k(),2u,false,0u,"MSE",1u); } catch (const std::invalid_argument &) { return 0; }
    return 1;
}
'''
