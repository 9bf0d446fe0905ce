PROPERTY='L02'
NEEDS='two or more generations in one evolution'
BREAKS='the parents taken into the selection are always those of the first generation: improvements of earlier generations are lost'
EDITS=[('include/dcgp/algorithms/moes4cgp.hpp', '            for (decltype(NP) i = 0u; i < NP; ++i) {\n                fs_v[i + NP] = pop.get_f()[i];\n                dvs_v[i + NP] = pop.get_x()[i];\n            }\n', '            for (decltype(NP) i = 0u; gen == 1u && i < NP; ++i) {\n                fs_v[i + NP] = pop.get_f()[i];\n                dvs_v[i + NP] = pop.get_x()[i];\n            }\n')]
DEMO=r'''
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/kernel_set.hpp>
#include <pagmo/problem.hpp>
#include <pagmo/population.hpp>
#include <pagmo/algorithm.hpp>
#include <cmath>
#include <sstream>
using SR=dcgp::symbolic_regression;
using V=std::vector<double>;
static bool near(double a,double b){return std::abs(a-b)<=1e-9*(1+std::abs(a)+std::abs(b));}
static std::vector<V> X(){return {{0.3},{0.7},{1.1},{1.9}};}
static std::vector<V> Y(){return {{0.5},{0.2},{1.3},{2.1}};}

#include <dcgp/algorithms/moes4cgp.hpp>

static std::vector<std::pair<V,V>> T;
struct udp { SR s; V fitness(const V&x) const {auto f=s.fitness(x); T.push_back({x,f}); return f;} std::pair<V,V> get_bounds() const {return s.get_bounds();} V::size_type get_nix() const {return s.get_nix();} V::size_type get_nobj() const {return 2u;}
 V gradient(const V&x) const {return s.gradient(x);} std::vector<V> hessians(const V&x) const {return s.hessians(x);} pagmo::sparsity_pattern gradient_sparsity() const {return s.gradient_sparsity();} std::vector<pagmo::sparsity_pattern> hessians_sparsity() const {return s.hessians_sparsity();}
 template <typename A> void serialize(A&,unsigned){} };

int main(){
    dcgp::details::extract_sr_cpp_py = [](const pagmo::problem &p) -> const SR* { return &p.extract<udp>()->s; };
    dcgp::kernel_set<double> k({"sum","mul","diff"});
    udp u{SR(X(),Y(),1u,6u,7u,2u,k(),1u,true,0u,"MSE",1u)};
    for (unsigned s=0;s<20;++s) {
        pagmo::population pop(pagmo::problem(u), 6u, s);
        T.clear();
        auto p=dcgp::moes4cgp(12u,2u,0.,true,s).evolve(pop);
        double best=1e300, now=1e300;
        for (auto &f:pop.get_f()) best=std::min(best,f[0]);
        for (auto &e:T) if (std::isfinite(e.second[0])) best=std::min(best,e.second[0]);
        for (auto &f:p.get_f()) now=std::min(now,f[0]);
        if (now>best) return 1;
    }
    return 0;
}
'''
