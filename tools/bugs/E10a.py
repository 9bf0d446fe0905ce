PROPERTY="E10"
NEEDS="two threads evaluating the same expression at the same time"
BREAKS="the node values are kept in a mutable scratch buffer of the expression: concurrent evaluations race"
EDITS=[("include/dcgp/expression.hpp","        std::vector<T> node(ex.m_n + ex.m_r * ex.m_c);\n        std::vector<T> function_in;\n\n        for (auto node_id : ex.m_active_nodes) {","        std::vector<T> &node = ex.m_node;\n        node.resize(ex.m_n + ex.m_r * ex.m_c);\n        std::vector<T> function_in;\n\n        for (auto node_id : ex.m_active_nodes) {"),
("include/dcgp/expression.hpp","    // The expression type\n    using type = T;","    // scratch space for the evaluation\n    mutable std::vector<T> m_node;\n    // The expression type\n    using type = T;")]
DEMO=r'''
#include <dcgp/expression.hpp>
#include <dcgp/kernel_set.hpp>
#include <thread>
#include <atomic>
int main(){
    dcgp::kernel_set<double> k({"sum","mul"});
    dcgp::expression<double> a(2,2,3,20,2,2,k(),0u,3u);
    std::vector<double> x{1.,2.}, y{0.5,-1.};
    auto vx=a(x), vy=a(y);
    std::atomic<int> bad{0};
    auto f=[&](const std::vector<double>&p,const std::vector<double>&v){ for(int i=0;i<200000 && !bad;++i) if (a(p)!=v) bad=1; };
    std::thread t1([&]{f(x,vx);}), t2([&]{f(y,vy);});
    t1.join(); t2.join();
    return bad;
}
'''
