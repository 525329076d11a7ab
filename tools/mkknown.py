#!/usr/bin/env python3
"""Writes known_findings.jsonl (known findings + the record of fixed defects, from /repo's log)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
 dict(property="C01", tag="log1-value-without-sigma", sub="Log1",
      case={"p": {"op": "Log1", "n": 1, "cplx": False, "sigma": 2.0, "delta": 0.5}, "x": [1.0]},
      what="Log1.__call__/elementwise return sum log(|x|+delta) without the documented factor sigma "
           "(pinned by pytests/test_norms.py::test_Log1); any other wrong value of Log1 is still a violation"),
 dict(property="C01", tag="rankl2-unsquared-misfit", sub="RankL2",
      case={"m": 2, "n": 2, "r0": 1, "x": [0.0, 0.0, 0.0, 0.0], "M": [0.0, 0.0, 0.0, 2.0]},
      what="QuadraticEnvelopeRankL2.__call__ adds 0.5*|X-M|_F instead of the documented 0.5*|X-M|_F^2 "
           "(pinned by the existing test of the operator); any other wrong value is still a violation"),
 dict(property="C05", tag="simplex-dims-low-sum", sub="simplex_rows",
      case={"rows": 1, "n": 2, "axis": 1, "radius": 1.0, "engine": "numpy", "lam": [[1.0, 1.0]],
            "bad": [0, "low", 0.5]},
      what="Simplex(dims=...) reports rows whose sum is below the radius as members "
           "(pinned by pytests/test_projection.py::test_Simplex_multi); sums above the radius and negative "
           "entries are rejected and still checked"),
]
# commit subject -> property
FIXED = {
 "C01": ["Huber value of complex", "SCAD value of complex", "Nuclear and SingularValuePenalty values",
         "QuadraticEnvelopeRankL2 value of complex", "QuadraticEnvelopeCardIndicator can be evaluated with r0=1"],
 "C02": ["Huber.prox switches branch", "L21 value, prox and dual prox of complex", "L21_plus_L1 value of complex"],
 "C03": ["Log1.prox for delta", "Log1.prox no longer", "Geman.prox finds", "ETP.prox of complex", "QuadraticEnvelopeCardIndicator.prox with tau", "QuadraticEnvelopeCardIndicator.prox no longer fails",
         "QuadraticEnvelopeRankL2.prox no longer"],
 "C04": ["L1BallProj leaves", "L0 and L1,0 ball projections", "L10BallProj ranks", "HankelProj keeps"],
 "C06": ["L1.proxdual uses"],
 "C07": ["operators can be multiplied by integers"],
 "C11": ["Quadratic.grad always", "L2Convolve prox and gradient", "TV does not declare"],
 "C12": ["TV can be used with dims=None", "TV stopping criterion uses"],
 "C15": ["prox and proxdual accept tau as keyword"],
 "C17": ["Simplex with axis=-2"],
 "C16": ["L2.prox no longer modifies", "IntersectionProj no longer modifies", "parallel Dykstra prox no longer",
         "evaluating Orthogonal no longer"],
 "C18": ["AndersonProximalGradient no longer divides", "TwIST estimates", "GeneralizedProximalGradient accepts weights"],
 "C19": ["ProximalGradient applies the documented relaxation", "AndersonProximalGradient history"],
 "C20": ["backtracking of ProximalGradient", "PALM and iPALM backtracking"],
 "C21": ["LinearizedADMM uses Ax0", "ADMML2 with gfirst"],
 "C22": ["PPXA starts from the weighted", "PPXA and ConsensusADMM accept tol=None"],
 "C23": ["AdaptivePrimalDual starts from", "AdaptivePrimalDual primal residual", "primal-dual solvers no longer add",
         "PrimalDual with complex", "AdaptivePrimalDual stops"],
 "C24": ["show progress of solvers"],
 "C25": ["PALM and iPALM start from", "PALM and iPALM with complex"],
 "C27": ["SR3 inner solver"],
 "C28": ["Segment uses admissible", "Segment computes class"],
 "C29": ["gradient tests use their relative", "gradient tests always perturb"],
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], text=True).splitlines()
lines, used = [], set()
for k in KNOWN:
    lines.append(json.dumps(dict(status="known", **k)))
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    props = [p for p, v in FIXED.items() if any(s[5:].startswith(x) for x in v)]
    assert len(props) == 1, (line, props)
    lines.append("fixed: property=%s %s %s" % (props[0], h, s[5:]))
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as fh:
    fh.write("\n".join(lines) + "\n")
print(len(lines))
