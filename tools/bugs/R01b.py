PROPERTY='R01'
NEEDS='set_seed and next by two threads at the same moment'
BREAKS='set_seed replaces the engine outside the lock when the seed differs'
EDITS=[('include/dcgp/rng.hpp', '        std::lock_guard<std::mutex> lock(global_rng_mutex);\n        global_rng.seed(static_cast<detail::random_engine_type::result_type>(seed));', '        // a freshly seeded engine replaces the current one\n        detail::random_engine_type fresh(static_cast<detail::random_engine_type::result_type>(seed));\n        if (global_rng == fresh) {\n            return; // already there\n        }\n        std::lock_guard<std::mutex> lock(global_rng_mutex);\n        global_rng = fresh;')]
FLAGS='-fsanitize=thread'
DEMO=r'''
#include <dcgp/rng.hpp>
#include <thread>
#include <vector>
#include <atomic>
int main(){
    // the demo is built with -fsanitize=thread and fails on the race
    std::thread t([](){ for (int i=0;i<2000;++i) dcgp::random_device::next(); });
    for (int i=0;i<2000;++i) dcgp::random_device::set_seed(static_cast<unsigned>(i%3));
    t.join();
    return 0;
}
'''
