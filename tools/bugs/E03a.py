PROPERTY="E03"
NEEDS="an active node of smaller arity evaluated after one of larger arity"
BREAKS="the smaller node also receives stale inputs of the larger one"
EDITS=[("include/dcgp/expression.hpp","""                unsigned arity = ex._get_arity(node_id);
                function_in.resize(arity);
""","""                unsigned arity = ex._get_arity(node_id);
                if (function_in.size() < arity) function_in.resize(arity);
""")]
DEMO=r'''
#include <dcgp/expression.hpp>
#include <cmath>
int main(){
    dcgp::kernel_set<double> k({"sum"});
    dcgp::expression<double> e(3,1,1,2,3,std::vector<unsigned>{3,2},k(),0u,1u);
    e.set({0,0,1,2, 0,3,0, 4});
    double got = e(std::vector<double>{1.,2.,4.})[0];
    return std::abs(got-8.)<1e-12 ? 0 : 1;
}
'''
