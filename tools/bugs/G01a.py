PROPERTY='G01'
NEEDS='the last points of one-dimensional problems'
BREAKS='points are spaced by the length over N: the upper end is never reached'
EDITS=[('include/dcgp/gym.hpp', 'double x = lb + (i * (ub - lb)) / (N - 1);', 'double x = lb + (i * (ub - lb)) / N;')]
DEMO='#include <dcgp/gym.hpp>\n#include <cmath>\nusing D=std::vector<std::vector<double>>;\nint main(){ D x,y; dcgp::gym::generate_P1(x,y); return std::abs(x.back()[0]-3.)<1e-12 ? 0 : 1; }\n'
