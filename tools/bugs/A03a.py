PROPERTY="A03"
NEEDS="sgd with shuffling on more than one point"
BREAKS="points and labels are shuffled with engines in different states: pairs are broken up"
EDITS=[("include/dcgp/expression_ann.hpp","""            auto eng2 = eng1;
            std::shuffle(points.begin(), points.end(), eng1);
            std::shuffle(labels.begin(), labels.end(), eng2);""","""            std::shuffle(points.begin(), points.end(), eng1);
            auto eng2 = eng1;
            std::shuffle(labels.begin(), labels.end(), eng2);""")]
DEMO=r'''
#include <dcgp/expression_ann.hpp>
#include <dcgp/kernel_set.hpp>
int main(){
    dcgp::kernel_set<double> k({"sum"});
    dcgp::expression_ann a(1,1,1,1,1,1u,k(),0u);
    std::vector<std::vector<double>> x, y;
    for (int i=0;i<40;++i) { x.push_back({0.01*i}); y.push_back({0.01*i}); }
    a.sgd(x,y,1e-6,7u,"MSE",0u,true);
    return x==y ? 0 : 1;
}
'''
