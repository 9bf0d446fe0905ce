PROPERTY='L01'
NEEDS='any mutant but the first of a generation'
BREAKS='mutants are chained: each is a mutation of the previous one, more than max_mut genes from the best'
EDITS=[('include/dcgp/algorithms/es4cgp.hpp', '            for (decltype(NP) i = 0u; i < NP; ++i) {\n                cgp.set_from_range(best_x.begin() + static_cast<long>(n_eph), best_x.end());\n', '            cgp.set_from_range(best_x.begin() + static_cast<long>(n_eph), best_x.end());\n            for (decltype(NP) i = 0u; i < NP; ++i) {\n')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

#include <dcgp/algorithms/es4cgp.hpp>
static std::vector<V> T;
struct udp { SR s; V fitness(const V&x) const {T.push_back(x); return s.fitness(x);} std::pair<V,V> get_bounds() const {return s.get_bounds();} V::size_type get_nix() const {return s.get_nix();} template <typename A> void serialize(A&,unsigned){} };
int main(){
    dcgp::details::extract_sr_cpp_py = [](const pagmo::problem &p) -> const SR* { return &p.extract<udp>()->s; };
    dcgp::kernel_set<double> k({"sum","mul"});
    udp u{SR(X(),Y(),1u,10u,11u,2u,k(),1u,false,0u,"MSE",1u)};
    for (unsigned s=0;s<5;++s) {
        pagmo::population pop(pagmo::problem(u), 10u, s);
        auto best=pop.get_x()[pop.best_idx()];
        T.clear();
        dcgp::es4cgp(1u,1u,0.,true,s).evolve(pop);
        for (auto &x:T) { unsigned d=0; for (unsigned i=1;i<x.size();++i) d+= x[i]!=best[i]; if (d>1u) return 1; }
    }
    return 0;
}
'''
