PROPERTY='G01'
NEEDS='a problem generated twice'
BREAKS='the engine of ripple is static: the second request gives other points'
EDITS=[('include/dcgp/gym.hpp', '    std::mt19937 mt(32);\n    std::uniform_real_distribution<double> dist(0.05, 6.05);\n    for (unsigned i = 0; i < 300u; ++i) {', '    static std::mt19937 mt(32);\n    std::uniform_real_distribution<double> dist(0.05, 6.05);\n    for (unsigned i = 0; i < 300u; ++i) {')]
DEMO='#include <dcgp/gym.hpp>\n#include <cmath>\nusing D=std::vector<std::vector<double>>;\nint main(){ D x,y,u,v; dcgp::gym::generate_ripple(x,y); dcgp::gym::generate_ripple(u,v); return x==u && y==v ? 0 : 1; }\n'
