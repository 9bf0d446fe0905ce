PROPERTY='R01'
NEEDS='a seed set between the two draws of a concurrent next()'
BREAKS='the value is drawn after the lock was released'
EDITS=[('include/dcgp/rng.hpp', '        std::lock_guard<std::mutex> lock(global_rng_mutex);\n        return static_cast<unsigned int>(global_rng());', '        std::unique_lock<std::mutex> lock(global_rng_mutex);\n        auto &r = global_rng;\n        lock.unlock();\n        return static_cast<unsigned int>(r());')]
FLAGS=''
DEMO=r'''
#include <dcgp/rng.hpp>
#include <set>
#include <thread>
#include <vector>
#include <atomic>
int main(){
    for (unsigned t=0;t<300;++t){
        const unsigned N=20000;
        dcgp::random_device::set_seed(t);
        std::multiset<unsigned> want; std::mt19937 g(t); for (unsigned i=0;i<4*N;++i) want.insert(static_cast<unsigned>(g()));
        std::atomic<int> go{0};
        std::vector<std::vector<unsigned>> v(4,std::vector<unsigned>(N));
        std::vector<std::thread> th;
        for (unsigned k=0;k<4;++k) th.emplace_back([&,k](){ ++go; while(go<4){} for (auto &x:v[k]) x=dcgp::random_device::next(); });
        for (auto &x:th) x.join();
        std::multiset<unsigned> got; for (auto &w:v) got.insert(w.begin(),w.end());
        if (got!=want) return 1;
    }
    return 0;
}
'''
