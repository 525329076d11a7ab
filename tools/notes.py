TECHNIQUE = {
 "C01": "property-based testing: evaluation against independently written definitions",
 "C02": "property-based testing: reference minimisers, perturbation search and Fenchel certificates",
 "C03": "property-based testing: global scalar minimisation oracle over dense candidate sets",
 "C04": "property-based testing: exact reference projections, idempotence, distance oracle",
 "C05": "property-based testing: constructed members and non-members",
 "C06": "property-based testing: metamorphic Moreau identities over prox / proxdual pairs and independent conjugate proxes",
 "C07": "property-based testing: generated expression trees against prox-calculus rules evaluated independently",
 "C08": "property-based testing: per-block and orthogonal-frame reference proxes",
 "C09": "property-based testing: optimality certificates for Dykstra outputs over generated sums and intersections",
 "C10": "property-based testing: matrices with generated spectra against singular-value references",
 "C11": "property-based testing: numerical directional derivatives of independently evaluated functionals",
 "C12": "property-based testing: dual certificates (duality gap) for total variation",
 "C13": "property-based testing: differential against dense linear solves, every solver path, call histories",
 "C14": "model-based property testing: call histories on scheduled operators against a counting model",
 "C15": "property-based testing: generated invalid configurations must raise",
 "C16": "model-based property testing: call histories; bitwise snapshots of every input and array handed over, repeatability",
 "C17": "differential property-based testing: engines and layouts against an exact rational-sorting simplex projection",
 "C18": "property-based testing: problems with certified minimisers, optimality residuals of the returned points",
 "C19": "differential property-based testing: solver histories against reference recursions",
 "C20": "property-based testing: invariants over recorded backtracking histories",
 "C21": "differential property-based testing: ADMM histories against reference recursions; optimality certificates",
 "C22": "differential property-based testing: splitting histories against reference recursions; optimality certificates",
 "C23": "differential property-based testing: primal-dual histories against reference recursions; saddle-point certificates",
 "C24": "stateful property-based testing: recorded callback histories, prefix/stopping/purity relations across all solvers",
 "C25": "property-based testing: descent and stationarity invariants over alternating histories, differential recursion",
 "C26": "model-based property testing: histories of factor updates against dense bilinear algebra",
 "C27": "differential property-based testing: outer-loop reference recursions and optimality certificates",
 "C28": "property-based testing: labelling invariants and metamorphic class permutations",
 "C29": "property-based testing: right and deliberately wrong gradient/prox pairs",
 "C30": "property-based testing: nonexpansiveness over pairs, symmetry and precision metamorphic relations",
}
NOTE = {}
