# Registry of the checks: property -> explorers ("parts") and what they explore.
CHECKS = {
    "E01": {
        "parts": [{"name": "e01", "src": "e01.cpp", "engine": True, "shards": 8}],
        "explanation": "states: shapes constructed; transitions: genes compared with the legal wirings, candidate chromosomes offered, engine-answer sequences; traces: objects/calls of the real code compared with the reference model.",
    },
    "E02": {
        "parts": [{"name": "e02", "src": "e02.cpp", "engine": True, "shards": 8}],
        "explanation": "states: distinct observable object states expanded; transitions: operation applications (x engine answers) on real objects; traces: (state, operation) pairs and complete operation sequences compared with the reference model.",
    },
    "E05": {
        "parts": [{"name": "e05", "src": "e05.cpp", "engine": True, "shards": 8, "flags": ["-DMODE=5"]}],
        "explanation": "states: chromosomes; transitions: mutated objects, one per sequence of engine answers; traces: (chromosome, mutation) pairs.",
    },
    "E06": {
        "parts": [{"name": "e06", "src": "e05.cpp", "engine": True, "shards": 8, "flags": ["-DMODE=6"]}],
        "explanation": "states: chromosomes; transitions: mutated objects, one per sequence of engine answers; traces: (chromosome, mutation) pairs whose outcome sets are complete.",
    },
    "E03": {
        "parts": [{"name": "e03", "src": "e03.cpp", "shards": 8}],
        "explanation": "states: chromosomes; transitions: evaluations of the real expression; traces: chromosomes whose values agreed with the reference interpreter.",
    },
    "E04": {
        "parts": [{"name": "e04", "src": "e04.cpp", "shards": 8}],
        "explanation": "states: chromosomes; transitions: points at which the printed formulas were evaluated; traces: chromosomes whose formulas agreed with the numeric value.",
    },
    "F01": {
        "parts": [{"name": "f01", "src": "f01.cpp", "shards": 8}],
        "explanation": "states: model states of two function containers reached by breadth-first search, archive pairs; transitions: operations applied to real containers, truncated archives loaded; traces: complete histories whose every slot agreed with the model.",
    },
    "K01": {
        "parts": [{"name": "k01", "src": "k01.cpp", "shards": 8, "flags": ["-DMODE=1"]}],
        "explanation": "states: (kernel, arity) pairs; transitions: input tuples evaluated; traces: (kernel, arity) pairs compared completely with the documented function and with their printed form.",
    },
    "K02": {
        "parts": [{"name": "k02", "src": "k01.cpp", "shards": 8, "flags": ["-DMODE=2"]}],
        "explanation": "states: (kernel, arity) pairs; transitions: points at which all first and second derivatives were compared; traces: pairs compared completely.",
    },
    "K04": {
        "parts": [{"name": "k04", "src": "k01.cpp", "shards": 8, "flags": ["-DMODE=4"]}],
        "explanation": "states: families explored; transitions: names offered and operations applied to real kernel sets; traces: complete operation sequences compared with a list model.",
    },
    "F02": {
        "parts": [{"name": "f02", "src": "k01.cpp", "shards": 8, "san": "plain", "flags": ["-DMODE=5", "-O0"]}],
        "explanation": "states: (kernel, type, archive) combinations; transitions: round trips; traces: combinations compared completely.",
    },
    "R01": {
        "parts": [{"name": "r01", "src": "r01.cpp", "sched": True, "shards": 8}],
        "explanation": "states: complete schedules executed (and seeds tried sequentially); transitions: scheduling decisions; traces: schedules whose history was checked to be linearizable against a sequential Mersenne Twister, data races detected by vector clocks in each.",
    },
}
CHECKS.update({
    "E07": {
        "parts": [{"name": "e07", "src": "e07.cpp", "shards": 8}],
        "explanation": "states: (type, seed, first operation) roots; transitions: operations applied to real objects; traces: operation sequences whose undisturbed, disturbed, copied and re-seeded runs were compared at every step.",
    },
    "E08": {
        "parts": [{"name": "e08", "src": "e08.cpp", "shards": 8}],
        "explanation": "states: history roots; transitions: operations; traces: complete histories of two expressions compared with the model.",
    },
})
CHECKS.update({
    "E09": {
        "parts": [{"name": "e09", "src": "e09.cpp", "shards": 8}],
        "explanation": "states: chromosomes; transitions: losses of batches (x number of parallel parts) and refusals; traces: chromosomes whose losses all agreed with the reference.",
    },
})
CHECKS.update({
    "E10": {
        "parts": [{"name": "e10", "src": "e10.cpp", "sched": True, "shards": 8}],
        "explanation": "states: complete schedules executed; transitions: scheduling decisions; traces: schedules whose results equalled the sequential ones, every memory access checked for data races.",
    },
})
CHECKS.update({
    "E11": {
        "parts": [{"name": "e11", "src": "e11.cpp", "shards": 8, "san": "plain", "flags": ["-O0"]}],
        "explanation": "states: saved objects (kind x seed x history); transitions: futures and truncated archives replayed; traces: (object, archive, target) round trips whose state and futures were compared completely.",
    },
})
CHECKS.update({
    "W01": {
        "parts": [{"name": "w01", "src": "w01.cpp", "shards": 8}],
        "explanation": "states: chromosomes and history roots; transitions: weight vectors, addressed weights and operations; traces: chromosomes and histories whose weights, values and formulas all agreed with the reference.",
    },
})
CHECKS.update({
    "A01": {
        "parts": [{"name": "a01", "src": "a01.cpp", "shards": 8, "flags": ["-DMODE=1"]}],
        "explanation": "states: chromosomes and kernel lists; transitions: weight vectors, addressed weights and biases, output nonlinearities; traces: chromosomes whose structure, values and formulas all agreed with the reference network.",
    },
    "A02": {
        "parts": [{"name": "a02", "src": "a01.cpp", "shards": 8, "flags": ["-DMODE=2"]}],
        "explanation": "states: chromosomes and history roots; transitions: gradients compared component by component with the exact ones; traces: chromosomes and operation histories compared completely.",
    },
})
CHECKS.update({
    "A03": {
        "parts": [{"name": "a03", "src": "a03.cpp", "shards": 8, "flags": ["-DMODE=1"]},
                  {"name": "a03s", "src": "a03.cpp", "sched": True, "shards": 8, "flags": ["-DMODE=2"]}],
        "explanation": "states: (chromosome, size of the data) pairs and complete schedules; transitions: epochs and scheduling decisions; traces: histories compared with reference epochs, schedules whose gradients and weights equalled the sequential ones.",
    },
})
CHECKS.update({
    "S01": {
        "parts": [{"name": "s01", "src": "s01.cpp", "shards": 8, "flags": ["-DMODE=1"]}],
        "explanation": "states: decision vectors' chromosomes and history roots; transitions: fitness evaluations and queries; traces: chromosomes and query histories whose answers all agreed with the reference.",
    },
    "S02": {
        "parts": [{"name": "s02", "src": "s01.cpp", "shards": 8, "flags": ["-DMODE=2"]}],
        "explanation": "states: chromosomes; transitions: gradients and Hessians compared with exact derivatives; traces: chromosomes compared completely.",
    },
    "S03": {
        "parts": [{"name": "s03", "src": "s01.cpp", "shards": 8, "flags": ["-DMODE=3"]}],
        "explanation": "states: argument groups; transitions: constructions, illegal decision vectors and thread safety combinations; traces: groups checked completely.",
    },
})
CHECKS.update({
    "L01": {
        "parts": [{"name": "l01", "src": "l01.cpp", "engine": True, "shards": 8, "flags": ["-DMODE=1"]}],
        "explanation": "states: (algorithm, problem, parameters) settings; transitions: evolutions, one per sequence of engine answers; traces: initial populations whose evolutions all kept the best and evaluated mutants of the best only.",
    },
    "L02": {
        "parts": [{"name": "l02", "src": "l01.cpp", "engine": True, "shards": 8, "flags": ["-DMODE=2"]}],
        "explanation": "states: (algorithm, problem, parameters) settings; transitions: evolutions, one per sequence of engine answers; traces: initial populations whose evolutions all selected non-dominated candidates.",
    },
    "L04": {
        "parts": [{"name": "l04", "src": "l01.cpp", "shards": 8, "flags": ["-DMODE=4"]}],
        "explanation": "states: chromosomes; transitions: descents compared step by step with the reference line search; traces: chromosomes compared completely.",
    },
})
CHECKS.update({
    "L03": {
        "parts": [{"name": "l03", "src": "l03.cpp", "shards": 8, "san": "plain", "flags": ["-DMODE=3", "-O0"]}],
        "explanation": "states: (algorithm, parameters, problem, seed) settings; transitions: evolutions compared with the reference run; traces: settings whose copies, archives, batch evaluations and verbosities all gave the reference results.",
    },
    "S04": {
        "parts": [{"name": "s04", "src": "l03.cpp", "shards": 8, "san": "plain", "flags": ["-DMODE=5", "-O0"]}],
        "explanation": "states: saved problems (configuration x seed x history); transitions: futures compared; traces: (problem, archive, target) round trips whose answers were compared completely.",
    },
})
CHECKS.update({
    "G01": {
        "parts": [{"name": "g01", "src": "g01.cpp", "shards": 2, "flags": ["-DMODE=1"]}],
        "explanation": "states: problems of the gym; transitions: labels compared with the formula, histories of two earlier requests; traces: problems compared completely.",
    },
    "G02": {
        "parts": [{"name": "g02", "src": "g01.cpp", "shards": 2, "flags": ["-DMODE=2"]}],
        "explanation": "states: data sets of the gym; transitions: residuals of the certified models, histories of two earlier requests; traces: data sets compared completely.",
    },
})
CHECKS.update({
    "P05": {
        "parts": [{"name": "p05", "src": "p05.py", "py": True, "shards": 8}],
        "explanation": "states: networks (shape, nonlinearities, set order); transitions: calls of encode_ffnn; traces: networks whose chromosome was read back as the network and whose values agreed with a forward pass.",
    },
})
CHECKS.update({
    "P06": {
        "parts": [{"name": "p06", "src": "p06.py", "py": True, "shards": 8, "limit": 120}],
        "explanation": "states: expressions (class, chromosome, constants, weights); transitions: calls of simplify; traces: expressions all of whose simplified formulas agreed with the printed ones wherever these are finite.",
    },
})
CHECKS.update({
    "P07": {
        "parts": [{"name": "p07", "src": "p07.py", "py": True, "shards": 8}],
        "explanation": "states: expressions (class, chromosome); transitions: drawings (options, symbols, weights); traces: expressions all of whose drawings were read back as the encoded graph.",
    },
})
CHECKS.update({
    "P01": {
        "parts": [{"name": "p01", "src": "p01.py", "py": True, "shards": 8}],
        "explanation": "states: histories, constructor calls and kernels; transitions: operations applied through the bindings; traces: histories whose every step, and every copy taken on the way, agreed with the Python reference model.",
    },
})
CHECKS.update({
    "P02": {
        "parts": [{"name": "p02", "src": "p02.py", "py": True, "shards": 8}],
        "explanation": "states: kernels made from Python callables (kind, way of construction and copying), expressions with them (chromosomes), histories of corrections; transitions: calls and steps of histories; traces: kernels, expressions and histories that agreed with the callables and the Python reference model throughout.",
    },
})
CHECKS.update({
    "P03": {
        "parts": [{"name": "p03", "src": "p03.py", "py": True, "shards": 8}],
        "explanation": "states: problems constructed, decision vectors, histories of corrections, algorithms constructed and evolutions; transitions: queries, steps of histories and evolutions; traces: decision vectors, histories and evolutions that agreed with the Python reference model throughout.",
    },
})
CHECKS.update({
    "P04": {
        "parts": [{"name": "p04", "src": "p04.py", "py": True, "shards": 8}],
        "explanation": "states: data sets and arrays converted; transitions: labels recomputed, requests after other requests, conversions; traces: data sets compared completely.",
    },
})
