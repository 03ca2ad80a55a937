#!/usr/bin/env python3
"""Rewrites the section "## Per property" of DESIGN.md: the notes below, the bounds from the harness headers, the seeded bugs from /tmp-independent catch table tools/catches.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
N = {}
def n(i, t): N[i] = " ".join(t.split())
n("C01", "The compiled Pose operators run on symbolic poses and points; products, in-place products (with aliasing), inverses and application are compared with the rigid-motion formulas written out in the harness. Unit quaternions are reduced modulo w^2 = 1-x^2-y^2-z^2, after which every assertion is a polynomial identity or a short solver query.")
n("C02", "Every constructor and setter route is executed on an arbitrary quaternion; the assertions are norm one, the rotation equals that of the normalised input, non-negative scalar part, and every other field untouched. Reads of uninitialised memory are recognised. Found and fixed: quaternions longer than one were stored unnormalised.")
n("C03", "Oracle: the closed formula of the level. Curvature 1 fully symbolic in all lengths (degenerate axes are separate branches of the real code), curvature up to 3 (5) with local coordinates as inputs so that powers stay polynomial.")
n("C04", "Oracle: gradient direction from the formula of C03, compared by cross product, plus norm one and outwardness. Found and fixed: the normal ignored curvature beyond squaring the wrong factors.")
n("C05", "Oracle: ellipse inequality in the obstacle frame; agreement with the distance value at curvature one.")
n("C06", "The line is given by two points in the obstacle frame, transformed by the harness into the world; assertions: hit iff discriminant of line and ellipse is non-negative (stated as existence of a common point), both points satisfy both equations. Found and fixed: a vertical line in the obstacle frame divided by zero.")
n("C07", "The real shift_reference_point with symbolic agent and obstacle; oracle: midpoint of the chord computed independently; frame condition on every other field; idempotence.")
n("C08", "Samples checked against the outline equation for every angle the code uses; the decision of the pairwise test for every outcome of every inside test asked; soundness end to end on real pairs. Completeness of the sampled test (100 points) is not claimed: a thin overlap between two samples can be missed, which is a limit of the design of the library, not of one function.")
n("C09", "One symbolic truth value per pair of obstacles, so every relation on the given number of obstacles is explored by branching of the real aggregation code; oracle: union-find in the harness on the same truth values.")
n("C10", "Operation sequences are symbolic choices; oracle: a reference map kept by the harness. Found and fixed: lookups answered for obstacles removed since the last update.")
n("C11", "Insertion orders are symbolic choices, positions symbolic; oracle: alphabetical names and mean.")
n("C12", "Primitives answer with arbitrary crossings per direction; assertions relate the radius seen through the public distance function with the selected crossings. Found and fixed: smoothing read stale radii (hull depended on history); the point at azimuth -pi was stored at +pi, breaking the order that the sector search relies on.")
n("C13", "Arbitrary radii per direction; the query azimuth is symbolic, so every sector including the wrap-around is a path. Eigen's and libstdc++'s assertions stay on: an index past the end is a violation. Found and fixed: the search returned an index past the end; the normal was not normalised.")
n("C14", "Arbitrary unit normal and pose. Found and fixed: bases were degenerate for vertical normals and not tangent to the surface in three dimensions.")
n("C15", "The power is exact for reactivity 1/k and k; for arbitrary real reactivity it is uninterpreted with positivity and monotonicity facts.")
n("C16", "Weights by the real code against the rule; closed form for whole and half powers, sign and order facts for arbitrary ones.")
n("C17", "Eigenvector statement checked by applying the returned matrix to the reference direction, to both tangents and to an arbitrary velocity (no normal component on contact). The Eigen inverse of the basis runs symbolically.")
n("C18", "The whole modulate_velocity with one obstacle against M(v-u)+u. Inputs are chosen as fixed rational frames with symbolic distance, velocities and obstacle motion, so that normalisations simplify; acos/sin/cos of the same angle are related by their defining equations. Found and fixed: the direction-space frame was not orthonormal for three-dimensional velocities. Turns below 1e-4 rad use a first-order formula in the code and are left out.")
n("C19", "Two runs of the real code (with and without the other obstacles, in two orders) in one path, compared.")
n("C20", "Early exits of modulate_velocity; local modulation compared with global modulation of the same scene; state snapshots before and after.")
n("C21", "exp is uninterpreted apart from exp(0)=1, positivity, monotonicity and the linear bounds; the oracle writes out the rigid-body velocity.")
n("C22", "Repulsion of real ellipsoids and aggregates against the formula; with stand-ins, the shift of the modulated velocity by the sum.")
n("C23", "After every symbolic sequence of mutating operations the envelope is compared with the formula. Found and fixed: stale envelopes after construction with margin and after set_safety_margin.")
n("C24", "Copy, assignment and transformation followed by an arbitrary mutation of either agent. Found and fixed: copies shared or missed the envelope.")
n("C25", "Arbitrary inside/closed answers per obstacle; real ellipsoids end to end; real closed rings and open chains at fixed points.")
n("C26", "The obstacle's outline and inside test are arbitrary; the answer must be the pairwise test with a disc of the right radius. 'Intersects' is the library's sampled test (see C08).")
n("C27", "Counts are enumerated by branching, ends symbolic. Found and fixed: a pointer to an exception was thrown.")
n("C28", "rand() is a symbolic integer in [0, RAND_MAX]; atan2/acos/sin/cos are related by their defining equations.")
n("C29", "The same scene placed twice (at a symbolic origin, and rotated and translated); both runs of the real code are compared.")
n("C30", "Havoc domain: every operation on a symbolic operand returns an arbitrary value, and NaN or infinity is injected in every input of the combination step. The answer must be free of NaN on every path. Rounding of the cosine beyond one is checked by counting inverse cosines taken outside their domain, symbolically and natively.")
n("C31", "matplotlibcpp is replaced by a recorder; every plotted coordinate is a symbolic expression compared with the surface equations. Found and fixed: the safety outline was drawn without the margin.")
n("C32", "Every constructor with symbolic arguments; reads of uninitialised memory are recognised by a pattern. Found and fixed: the name-only constructor left the reference point uninitialised.")
n("C33", "The harness builds reference hulls with the real StarShapeHull from the aggregate's members and reference point and compares every answer of the aggregate, for every combination of member answers and every sector.")
n("C34", "matplotlibcpp is replaced by a recorder and every obstacle by one that records how it was drawn; the harness walks the recorded calls panel by panel. Coordinates are compared as terms (they have to be the very input values), so these checks need no arithmetic. Axis limits, colours of obstacles and styles of the trajectory are left free. Found and fixed: the agent was missing from the vertical panel's own plane (plotted in the horizontal one).")
n("C35", "Powers with a constant rational exponent are kept exactly (powers of common factors combine), with the concavity of x^q, 0 < q < 1, as axioms; the area of the implementation is compared with areas of other ellipsoids computed by the same code and with the formula for spheres. Found and fixed: the sum was over lengths rather than products of lengths.")
n("C36", "Relational: the same question is put before and after questions about another symbolic obstacle or agent, and the two answers must be the same expression (in most entries the terms are identical and no query is needed; a cache with any kind of key makes them differ for some input). After symbolic setter calls the answers are compared with those of a fresh obstacle built from the getters and with those of a copy.")
n("C37", "The intersection relation before and after is one symbolic truth value per pair and update, places are symbolic; after the last update the environment is compared with a second one built from copies of the obstacles. Known finding: aggregation overwrites the reference points of its members for good, so an obstacle that has left its group is still modulated around the centre of the former group (set_reference_position has to be called again). Repairing it needs a place to keep the original reference point and a decision on what happens when the member moves meanwhile, so it is recorded, not repaired; every other history is compared with the reference points as they are.")
EX = V + "/tools/design_extra.json"
if os.path.exists(EX):
    for k, t in json.load(open(EX)).items(): N[k] = t
out = []
for p in props:
    i = p["id"]; h = V + "/harness/%s.cpp" % i
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(N.get(i, "") + "\n")
    if os.path.exists(h):
        for l in open(h):
            m = re.match(r"// (BOUNDS|ASSUMES|REPLACED): (.*)", l)
            if m: out.append("- *%s*: %s" % (m.group(1).lower(), m.group(2)))
        ents = [l.split("(")[1].split(")")[0] for l in open(h) if l.startswith("HARNESS(")]
        out.append("- *entries*: %d (%d of them only in the thorough tier)\n" % (len(ents), sum(e.startswith("deep_") for e in ents)))
C = V + "/tools/catches.json"
tab = []
if os.path.exists(C):
    c = json.load(open(C)); tab = ["## Seeded bugs\n", "Each lies in seeded/<id>/ with a demonstration; result of the quick check of its property (SX_REPO pointing to a scratch copy with the patch).\n", "| bug | property | needs | quick check |", "|---|---|---|---|"]
    for k in sorted(c):
        m = V + "/seeded/%s/meta.json" % k
        if os.path.exists(m): j = json.load(open(m)); tab.append("| %s | %s | %s | %s |" % (k, j["property"], j["needs"], c[k]))
s = open(V + "/DESIGN.md").read()
a = s.index("## Per property")
b = s.index("## After the properties") if "## After the properties" in s else len(s)
s = s[:a] + "## Per property\n\n" + "\n".join(out) + "\n" + "\n".join(tab) + "\n\n" + s[b:]
open(V + "/DESIGN.md", "w").write(s)
