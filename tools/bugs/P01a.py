PROPERTY='P01'
NEEDS='mutate() called with a list whose first indexes are valid and whose last is not (an exception is raised, and caught)'
BREAKS='the list overload of mutate mutates gene by gene, so a refused list leaves the expression half changed'
EDITS=[('dcgpy/expose_expressions.cpp','[](expression<T> &in, const std::vector<unsigned> &idxs) { return in.mutate(idxs); },','''[](expression<T> &in, const std::vector<unsigned> &idxs) {
                for (auto idx : idxs) {
                    in.mutate(idx);
                }
            },''')]
PYDEMO=r'''
import sys, dcgpy
ks = dcgpy.kernel_set_double(["sum", "diff", "mul"])()
bad = 0
for seed in range(5):
    ex = dcgpy.expression_double(inputs=2, outputs=1, rows=2, cols=3, levels_back=3, arity=2, kernels=ks, seed=seed)
    before = ex.get()
    try:
        ex.mutate([0, 3, len(before)])
        bad += 1
    except Exception:
        pass
    bad += ex.get() != before
    ex.mutate([0, 3])
    bad += sum(a != b for a, b in zip(before, ex.get())) not in (1, 2)
sys.exit(1 if bad else 0)
'''
