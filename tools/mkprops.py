#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
I="inputs"; H="histories"; C="configurations"
INC="include/DynamicObstacleAvoidance/"
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=observe or [],hook_needed=None)))

p("C01","Poses form a group of rigid transforms",
  "For poses with unit orientation: applying a product of two poses to a point equals applying the right one and then the left one; in-place and out-of-place products agree, also when a pose is multiplied by itself; a pose composed with its inverse, on either side, is the identity. Applying a pose never changes the distance between two points, and composing or inverting never disturbs the operands or the unit norm of the orientation.",
  [I],"every pair or triple of poses (all positions, all unit quaternions) and every point",
  "testState multiplies five fixed axis-aligned poses; the laws quantify over all rotations and translations",
  ["src/State/Pose.cpp",INC+"State/Pose.hpp"],
  [("product, in-place product, point transform, inverse",INC+"State/Pose.hpp")])
p("C02","Stored orientation is the unit quaternion of the requested rotation",
  "Whatever non-zero quaternion is given to any constructor or orientation setter of a pose, state, obstacle or agent, the stored orientation has norm one and represents the rotation of the normalised input (constructors store the representative with non-negative scalar part). Positions, linear and angular velocities are stored unchanged in their own field, and anything not given is zero (identity for the orientation).",
  [I],"every non-zero quaternion, position and velocity, through every construction and setter route",
  "the tests only construct from quaternions that are already of norm one",
  ["src/State/Pose.cpp","src/State/State.cpp",INC+"State/Pose.hpp",INC+"State/State.hpp",INC+"Agent.hpp","src/Obstacle/Obstacle.cpp"],
  [("normalisation and sign choice in the pose constructors","src/State/Pose.cpp"),("setters",INC+"State/Pose.hpp")])
p("C03","Obstacle distance is the margin-inflated superellipsoid level",
  "For every ellipsoid (any pose, axis lengths, per-axis safety margins and whole-number curvature factors of at least one) the distance value of a point is the sum over the three axes of (coordinate in the obstacle frame / (axis length + obstacle margin + extra margin)) to the power of twice the curvature; an axis whose inflated length is at most 1e-4 counts as length one. Hence the value is 1 exactly on the inflated surface, below 1 inside, above 1 outside, and the distance to an agent is the distance to its position with its safety margin as the extra margin on every axis.",
  [I],"all ellipsoids, points, agents and margins; curvature factors 1..3 per axis",
  "three tests evaluate a unit sphere at the origin or translated, without rotation, margins or curvature",
  ["src/Obstacle/Ellipsoid.cpp","src/Obstacle/Obstacle.cpp"],
  [("distance to a point","src/Obstacle/Ellipsoid.cpp"),("scalar margin and agent overloads","src/Obstacle/Obstacle.cpp")])
p("C04","Surface normal is the unit outward gradient of the distance",
  "For every ellipsoid and every agent not at its centre, the normal direction returned for the agent has norm one, is parallel to the gradient (in the obstacle frame) of the distance value with the same inflated lengths, and points outward. This holds for any pose, axis lengths above the degeneracy threshold, margins and whole-number curvature factors.",
  [I],"all ellipsoids, agents, margins; curvature factors 1..3 per axis",
  "three tests use a unit sphere, where the normal is just the radial direction",
  ["src/Obstacle/Ellipsoid.cpp"],[("normal to the agent","src/Obstacle/Ellipsoid.cpp")])
p("C05","Inside test agrees with the elliptic outline",
  "For every ellipsoid rotated about the vertical, a point is reported inside exactly when its horizontal coordinates in the obstacle frame lie within the ellipse of half-axes axis length plus safety margin (height is ignored). For curvature one and a point at the obstacle's height this is the same as the distance value, without extra margin, being at most one.",
  [I],"all ellipsoids rotated about z with positive inflated lengths, all points",
  "the inside test is never tested directly; the intersection tests use five fixed pairs",
  ["src/Obstacle/Ellipsoid.cpp"],[("inside test","src/Obstacle/Ellipsoid.cpp")])
p("C06","Line and outline intersection is exact and complete",
  "Given two distinct points (in the horizontal plane) defining a line, an ellipsoid rotated about the vertical reports an intersection exactly when the line meets its margin-inflated elliptic outline. It then returns the two points that lie both on the line and on the outline (coinciding for a tangent line), at the obstacle's height, whatever the direction of the line - including lines parallel to either axis of the obstacle.",
  [I],"all lines (all directions, both orders of the points), all ellipses",
  "no test calls it; the hull construction only ever uses directions that are not axis-parallel",
  ["src/Obstacle/Ellipsoid.cpp"],[("intersection points","src/Obstacle/Ellipsoid.cpp")])
p("C07","Planar mode shifts the reference to the chord midpoint and nothing else",
  "When the straight line along the agent's heading meets an ellipsoid's outline, shifting its reference point for that agent moves the reference to the midpoint of the two crossing points, which is inside the outline and on the heading line; when it does not meet it, the reference stays where it was. Nothing else about the obstacle or the agent changes, and repeating the shift changes nothing further.",
  [I,H],"all ellipsoids rotated about z, all agent positions and non-zero horizontal velocities",
  "no test enables planar modulation or calls the shift",
  ["src/Obstacle/Obstacle.cpp","src/Obstacle/Ellipsoid.cpp"],[("reference shift","src/Obstacle/Obstacle.cpp")])
p("C08","Outline sampling and ellipse intersection are sound",
  "Every point produced by sampling an ellipsoid rotated about the vertical lies on its outline (margin-inflated exactly when asked for), with the requested number of samples going once around. Two ellipsoids are reported as intersecting whenever the centre of either lies within the other, and never when a vertical plane separates their inflated outlines.",
  [I],"all pairs of ellipses and all sample counts within the bound",
  "five fixed pairs are tested",
  ["src/Obstacle/Ellipsoid.cpp","src/Obstacle/Obstacle.cpp"],[("sampling and pairwise test","src/Obstacle/Ellipsoid.cpp"),("dispatch by obstacle type","src/Obstacle/Obstacle.cpp")])
p("C09","Aggregation partitions obstacles into connected groups",
  "Aggregating a list of obstacles yields, for every intersection relation among them, exactly the connected components of that relation: each component of two or more obstacles becomes one aggregate containing each of its members once, and each isolated obstacle is passed through as the same object. No obstacle is lost, duplicated or put with an obstacle it is not connected to, and order of discovery does not matter. The hulls of a resulting aggregate are built from all its members around its reference point.",
  [I,C],"every intersection relation on up to 5 obstacles",
  "one test aggregates two and three mutually overlapping obstacles; merging of two existing groups is never reached",
  ["src/Utils/ObstacleGeneration/Aggregation.cpp","src/Obstacle/Aggregate.cpp"],[("group building and merging","src/Utils/ObstacleGeneration/Aggregation.cpp")])
p("C10","The environment is a faithful registry of obstacles by name",
  "Adding an obstacle under a fresh name makes exactly that object retrievable by its name; adding a name already present, removing an absent name or looking up a name that is neither a registered obstacle nor a current aggregate raises the documented exception and changes nothing. After an update the obstacle list of a non-aggregating environment is exactly the registered obstacles in name order, and a removed obstacle is no longer retrievable.",
  [H,C],"every sequence of up to 4 add / remove / update / lookup operations over three names, aggregated or not",
  "two tests add up to three obstacles and never exercise a failure, a removal followed by lookup, or interleavings",
  ["src/Environment.cpp",INC+"Environment.hpp"],[("registry operations","src/Environment.cpp")])
p("C11","Aggregates have a canonical name, centre and shared reference point",
  "However an aggregate is built from given members (all at once or one at a time in any order), its name lists the member names in alphabetical order, its members are held in that order, and its position and reference point are the mean of the member positions. Setting the reference point of an aggregate sets it on every member, so that aggregate and members always agree on it.",
  [I,H],"all member positions, all insertion orders, up to 4 members",
  "one test with collinear members checks one coordinate of the mean",
  ["src/Obstacle/Aggregate.cpp",INC+"Obstacle/Aggregate.hpp"],[("construction and insertion","src/Obstacle/Aggregate.cpp")])
p("C12","Star-shaped hull construction is bounded, consistent and repeatable",
  "Computing a hull from its primitives gives one surface radius per direction that is never below the minimum radius nor above the larger of it and the furthest primitive crossing; recomputing it from unchanged primitives gives the identical hull, whatever was computed before. Up to smoothing of at most a tenth of the overall spread, each radius is the furthest crossing in its direction (nearest for an inner hull). With nothing to intersect every radius is the minimum radius, and the hull counts as closed exactly when every radius exceeds 1.2 times the minimum radius.",
  [I,H],"all reference points and primitive crossings, hull resolutions within the bound, repeated construction",
  "no test inspects a hull; construction is only run on fixed scenes",
  ["src/Obstacle/StarShapeHull.cpp",INC+"Obstacle/StarShapeHull.hpp"],[("hull construction and smoothing","src/Obstacle/StarShapeHull.cpp")])
p("C13","Hull queries are total and mutually consistent",
  "For a constructed hull and any query point other than its centre, in every direction including the seam, inside test, distance and normal are defined without touching memory outside the hull: the point is inside exactly when its radius is below the hull radius of the sector it falls in (a sector belongs to the first hull point at or after it in azimuth, wrapping at the seam), the distance is the ratio of the two radii (inverted for an inside hull), and the normal is a horizontal unit vector perpendicular to the hull edge that leaves that point.",
  [I],"all query points in every direction, hull radii and resolutions within the bound",
  "no test queries a hull",
  ["src/Obstacle/StarShapeHull.cpp","src/Utils/MathTools.cpp"],[("sector search","src/Utils/MathTools.cpp"),("hull queries","src/Obstacle/StarShapeHull.cpp")])
p("C14","Modulation bases are well formed",
  "For every unit normal and every agent off the reference point, the orthogonal basis is an orthonormal frame whose first axis is the normal, and the reference basis has the unit direction from the obstacle's reference point to the agent (in the obstacle frame) as first axis and two tangent directions perpendicular to the normal as the others. This includes vertical normals.",
  [I],"all unit normals, poses, reference points and agent positions",
  "two tests use horizontal normals aligned with the reference direction",
  ["src/Modulation.cpp"],[("basis construction","src/Modulation.cpp")])
p("C15","Modulation strength is bounded and matches the distance",
  "For every distance value and positive reactivity factor the strength along the reference direction lies in [0,1) and along the tangents in (1,2], they sum to two, and both tangents have the same strength. The reference strength is exactly 0 for any distance up to and including 1, increases strictly with distance beyond it, and tends to 1 (no modulation) far away.",
  [I],"every distance value (real numbers) and reactivity 1/k, k in 1..3 for the closed form",
  "one test evaluates a single distance",
  ["src/Modulation.cpp"],[("eigenvalues","src/Modulation.cpp")])
p("C16","Obstacle weights are a convex combination favouring the closest",
  "For every list of distances the weights are non-negative and sum to one. If any obstacle is at or within the critical distance, exactly those obstacles share the weight equally and all others get none; otherwise each weight is proportional to (distance - critical distance) to the minus weight power, so a closer obstacle never weighs less than a farther one.",
  [I],"all distance lists of 1..5 obstacles, all critical distances, weight powers 1..3",
  "three tests use integer distances and critical distance 1",
  ["src/Modulation.cpp"],[("weighting","src/Modulation.cpp")])
p("C17","The modulation matrix is impenetrable at the surface and has the stated spectrum",
  "For every obstacle and agent the modulation matrix, in world coordinates, scales the direction from the reference point to the agent by the reference strength and every direction tangent to the level surface by the tangent strength for the obstacle's distance to the agent. In particular, when the agent is on or inside the inflated surface it maps every velocity to one without component along the surface normal, and it is returned together with that distance and the orthogonal basis.",
  [I],"all poses, unit normals, distances, reference points, agent positions with reference direction not tangent to the surface",
  "one test compares one matrix for a unit sphere, where normal and reference direction coincide",
  ["src/Modulation.cpp"],[("modulation matrix","src/Modulation.cpp")])
p("C18","With one obstacle the output is the modulated relative velocity",
  "With a single obstacle in the updated environment and global modulation, the velocity returned is M(v - u) + u, where M is the obstacle's modulation matrix, v the agent's velocity and u the obstacle's surface velocity seen by the agent. So for an agent on the surface the output never moves it relative to the obstacle along the surface normal, for moving or static obstacles and also for purely vertical or three-dimensional velocities.",
  [I],"all agent velocities in three dimensions, obstacle velocities, distances, for the listed obstacle geometries",
  "the only test of the full modulation is failing at this commit because it never updates the environment",
  ["src/Modulation.cpp"],[("direction-space interpolation","src/Modulation.cpp")])
p("C19","An obstacle in contact decides alone among several",
  "With several obstacles of which exactly one is at or within the critical distance, the velocity returned is the one that obstacle alone would produce, whatever the others are and wherever the obstacle is in the list. Without any obstacle in contact the result does not depend on the order of the obstacles, and identical obstacles act as one.",
  [I,C],"up to three obstacles, all positions of the contacting one, all distances and velocities",
  "no passing test runs the modulation with more than one obstacle",
  ["src/Modulation.cpp"],[("weighted combination over obstacles","src/Modulation.cpp")])
p("C20","Modulation leaves the agent alone when nothing is in the way",
  "With no obstacles in the environment, or with local modulation and no obstacle intersecting the agent's envelope, the agent's own velocity is returned unchanged. With local modulation and any obstacle intersecting the envelope the result is that of global modulation, and evaluating the modulation (without planar mode) changes neither agent, environment nor obstacles, so evaluating again gives the same result.",
  [I,H],"all velocities, all intersection outcomes of up to three obstacles, both flags",
  "no test covers local modulation",
  ["src/Modulation.cpp","src/Obstacle/Obstacle.cpp"],[("early exits of the velocity modulation","src/Modulation.cpp")])
p("C21","Obstacle motion enters as rigid-body surface velocity",
  "The obstacle velocity used for modulation is the weighted sum over obstacles of exp(-(max(1, distance) - 1)) times the rigid-body velocity of the obstacle at the agent's position (linear velocity plus angular velocity crossed with the offset from the obstacle's centre), and the relative velocity is the agent's velocity minus it. So static obstacles contribute nothing and at the surface the full velocity of the obstacle counts.",
  [I],"all velocities, positions, distances, weights; up to three obstacles; orthonormal bases",
  "one test with one moving obstacle, no rotation, distance one",
  ["src/Modulation.cpp"],[("relative velocities","src/Modulation.cpp")])
p("C22","Repulsion only acts near the obstacle and pushes outward",
  "An obstacle generates a repulsion exactly when its distance value to the agent (with margins) is below the threshold. For an ellipsoid the repulsion then points from the reference point to the agent with magnitude 2/distance times the offset; for an aggregate the factor is 20/distance and the direction is reversed while the agent is inside the aggregate. When repulsion is requested the modulated velocity is shifted by exactly the sum of the repulsions at threshold 1.1, otherwise it is not affected.",
  [I],"all agents, ellipsoids, reference points, distances and thresholds",
  "no test enables repulsion",
  ["src/Obstacle/Obstacle.cpp","src/Obstacle/Ellipsoid.cpp","src/Obstacle/Aggregate.cpp","src/Modulation.cpp"],[("repulsion","src/Obstacle/Obstacle.cpp")])
p("C23","The agent's envelope always reflects its current state",
  "At any time, whatever constructors and setters were used before, the agent's envelope is centred (position and reference point) half a unit ahead of the agent's position along its velocity, at the position if the velocity is zero; its half-axes are the margin plus that offset along the heading and the margin across and vertically, where the margin is the safety margin but at least 0.1; its long axis points along the horizontal heading. It therefore always covers the agent's position and margin in the direction of motion.",
  [I,H],"all states and margins, every sequence of up to 3 state changes",
  "the envelope is never tested",
  ["src/Agent.cpp",INC+"Agent.hpp"],[("envelope update","src/Agent.cpp")])
p("C24","Copied and transformed agents are complete and independent",
  "A copied, assigned or transformed agent has the state (transformed by the given pose for the latter), safety margin and an envelope of its own, equal to what the original would have in that state. Changing either agent afterwards never changes the other.",
  [I,H],"all agents, poses, and one arbitrary change after copying",
  "no test copies or transforms an agent",
  ["src/Agent.cpp",INC+"Agent.hpp"],[("copy construction, transformation",INC+"Agent.hpp")])
p("C25","A path exists unless a closed obstacle separates agent and target",
  "For every list of obstacles, a path to the target is reported exactly when no closed obstacle contains one of agent position and target but not the other. Obstacles that are not closed never block, and the answer does not depend on the order of the obstacles.",
  [I,C],"all inside/closed combinations for up to 4 obstacles",
  "no test calls it with an assertion",
  ["src/Agent.cpp"],[("path test","src/Agent.cpp")])
p("C26","In-obstacle test uses the agent's safety ball",
  "An agent counts as being in an obstacle exactly when the pairwise intersection test reports that the disc around its position with radius max(0.1, safety margin) intersects the obstacle; for an aggregate, when it does so for any of its members. In particular it is in an ellipsoid whenever its position is inside the outline, and never when the ellipsoid's outline is farther away than that radius.",
  [I],"all agents, margins and obstacles; aggregates of up to 3 members",
  "no test calls it",
  ["src/Agent.cpp","src/Obstacle/Obstacle.cpp"],[("in-obstacle test","src/Agent.cpp")])
p("C27","Interval and grid subdivision are exact",
  "For every interval and count of at least two, the subdivision has exactly that many points, starts and ends exactly at the given ends and is evenly spaced; smaller counts are rejected with an exception derived from the standard exception. A grid contains every combination of the two subdivisions exactly once, first coordinate outermost.",
  [I],"all interval ends, counts up to 6 (every rejected count from -2 to 1)",
  "no test calls them directly",
  ["src/Utils/MathTools.cpp"],[("subdivision","src/Utils/MathTools.cpp")])
p("C28","Scalar and polar helpers compute what their names say",
  "A random number drawn between two bounds lies between them for every generator output and in either order of the bounds; the sign helper returns -1, 0 or 1; conversion to polar and back restores every point off the origin, with radius the norm, the inclination in [0,pi] and the azimuth in (-pi,pi]. Sorting columns by inclination returns the same columns in non-decreasing order. The neighbour lookup returns the first column at or after the value asked for (the first column when there is none) and the column following it, wrapping at the end.",
  [I],"all bounds, generator outputs, points; up to 4 columns",
  "random numbers are used by tests but never checked",
  ["src/Utils/MathTools.cpp",INC+"Utils/MathTools.hpp"],[("helpers","src/Utils/MathTools.cpp")])
p("C29","Modulation does not depend on the coordinate frame",
  "Moving the whole scene - agent, its velocity, obstacles, their reference points and velocities - by one rigid motion (any translation, any rotation about the vertical) rotates the modulation matrix and the modulated velocity of every agent accordingly and leaves distances unchanged. For obstacles merged into an aggregate, whose hull is sampled in world directions, this is claimed for translations only.",
  [I],"all translations and all rotations about z, for ellipsoid scenes within the bound",
  "no test compares two frames",
  ["src/Modulation.cpp","src/Obstacle/Ellipsoid.cpp"],[("world/obstacle frame changes","src/Modulation.cpp")])
p("C30","The modulated velocity never contains NaN",
  "For every agent with a finite state and every updated environment, whatever floating-point anomalies (overflow, division by zero, rounding of an inner product beyond one) occur while computing the modulation, the velocity returned contains no NaN, and it is the zero vector only if an anomaly actually produced one or the modulated velocity is zero. Rounding of the cosine between original and modulated direction slightly beyond +-1 is not such an anomaly.",
  [I],"all IEEE double results of every intermediate operation (each treated as arbitrary), one and two obstacles",
  "no test drives a degenerate configuration",
  ["src/Modulation.cpp"],[("NaN guard and clamped arc cosine","src/Modulation.cpp")])
p("C31","Drawn outlines are the obstacle and its safety margin",
  "Drawing an ellipsoid in the horizontal plane plots a closed solid curve lying on its surface and a dashed curve lying on the surface inflated by its safety margin, both around its position and orientation, and marks its reference point. Drawn in the vertical plane, the curves lie on the sections of those surfaces spanned by the first and third axes, projected onto that plane. Hulls and aggregates are drawn in the requested plane as well: a hull as its surface points, an aggregate as each of its members once, both of its hulls and its reference point.",
  [I],"all ellipsoids (positions, axis lengths, margins), sampled curve parameters as drawn",
  "drawing is only run, never checked",
  ["src/Obstacle/Ellipsoid.cpp","src/Obstacle/StarShapeHull.cpp","src/Obstacle/Aggregate.cpp"],[("drawing","src/Obstacle/Ellipsoid.cpp")])
p("C32","Every obstacle is fully initialised",
  "Every way of constructing an obstacle or ellipsoid leaves name, type, pose, velocities, reference point, margins, axis lengths and curvature with determined values: those given, reference point at the position unless given, zero velocity and margin, unit axes and curvature otherwise. Copies of an ellipsoid have the same values and setters change exactly the field they name.",
  [I],"all constructor arguments through all construction routes, every setter",
  "tests use a few constructors and never read the reference point after the name-only one",
  ["src/Obstacle/Obstacle.cpp","src/Obstacle/Ellipsoid.cpp",INC+"Obstacle/Obstacle.hpp",INC+"Obstacle/Ellipsoid.hpp"],[("constructors","src/Obstacle/Obstacle.cpp")])
p("C33","Aggregates answer queries from the right hull",
  "An aggregate reports a point as inside exactly when its outer hull or any of its members contains it; its distance and normal for an agent come from its inner hull while the agent is inside the aggregate and from its outer hull otherwise. The aggregate is closed exactly when its outer hull is closed.",
  [I,C],"all inside/outside outcomes, up to 3 members, all query points",
  "no test queries an aggregate",
  ["src/Obstacle/Aggregate.cpp",INC+"Obstacle/Aggregate.hpp"],[("hull selection","src/Obstacle/Aggregate.cpp")])
p("C34","Scene plots show every element once, where it is",
  "A plotted configuration opens one figure and closes it, has one panel (or, in 3D mode, a horizontal and a vertical one), and in every panel draws each obstacle exactly once in that panel's plane, each agent and the goal at their coordinates in that plane and the trajectory through all its points in order. It is shown only when asked and saved exactly when a file name is given, under that name.",
  [I],"all display options, up to 8 obstacles, all agent positions, goals and trajectories of up to 3 points",
  "no test inspects a plot",
  ["src/Utils/Plotting/PlottingTools.cpp"],[("scene plots","src/Utils/Plotting/PlottingTools.cpp")])
p("C35","Ellipsoid surface area",
  "The area of an ellipsoid is 4 pi r^2 for a sphere, includes the safety margin exactly when asked to (then equal to the area of the ellipsoid with lengthened axes), does not depend on the order of the axes, the pose or the reference point, grows with the square of the size and lies between those of the inscribed and circumscribed spheres.",
  [I],"all axis lengths and margins",
  "tests compare no area with a known value",
  ["src/Obstacle/Ellipsoid.cpp"],[("area","src/Obstacle/Ellipsoid.cpp")])
p("C36","Answers depend only on the present arguments",
  "Whatever was asked before, and about whichever other agents, obstacles or environments, every query - distance, normal, inside test, line intersection, repulsion, area, sampling, hull and aggregate answers, modulation bases, strengths, weights, relative velocities, the modulated velocity without planar mode, path and in-obstacle tests, and the mathematical helpers - gives the same answer for the same arguments, and asking changes no field of agent or obstacles. After any sequence of setter calls an obstacle answers like one freshly built with its present fields, and so does a copy of it.",
  [I,H],"all pairs of obstacles and agents asked alternately, all changes through any setter (two in a row) between two questions",
  "every test asks each object once or twice in a fixed order; a stale cache or hidden static state shows only after particular histories",
  ["src/Obstacle/Ellipsoid.cpp","src/Obstacle/Obstacle.cpp","src/Obstacle/StarShapeHull.cpp","src/Obstacle/Aggregate.cpp","src/Modulation.cpp","src/Utils/MathTools.cpp","src/Agent.cpp"],
  [("queries","src/Obstacle/Ellipsoid.cpp"),("copy construction","src/Obstacle/Ellipsoid.cpp"),("modulation","src/Modulation.cpp")])
p("C37","An updated environment shows the obstacles as they are now",
  "However an environment came about - obstacles moved, resized, removed, replaced or added, aggregation switched, groups formed, merged and dissolved between updates - after an update its list of obstacles, their names, positions, reference points, inside tests, distances, normals and the modulated velocity are those of a new environment built from obstacles in the same present state. In an environment without aggregation moving an obstacle takes effect even before the next update. An obstacle that has left its group is modulated around its own reference point again.",
  [I,H],"all places of two or three obstacles before and after, every intersection relation turning into every other one, up to two changes between updates",
  "no test updates an environment twice or moves an obstacle after it was added",
  ["src/Environment.cpp","src/Utils/ObstacleGeneration/Aggregation.cpp","src/Obstacle/Aggregate.cpp"],
  [("update","src/Environment.cpp"),("group building","src/Utils/ObstacleGeneration/Aggregation.cpp"),("shared reference point",INC+"Obstacle/Aggregate.hpp")])

if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P),"properties")
