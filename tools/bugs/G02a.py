PROPERTY='G02'
NEEDS='a data set generated twice'
BREAKS='the data are moved out: the second request gives the previous content of the caller'
EDITS=[('include/dcgp/gym.hpp', '    points = kirby2_points;\n    labels = kirby2_labels;', '    points.swap(kirby2_points);\n    labels.swap(kirby2_labels);')]
DEMO='#include <dcgp/gym.hpp>\n#include <cmath>\nusing D=std::vector<std::vector<double>>;\nint main(){ D x,y,u,v; dcgp::gym::generate_kirby2(x,y); dcgp::gym::generate_kirby2(u,v); return x==u && y==v && u.size()==151u ? 0 : 1; }\n'
