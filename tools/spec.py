#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, text, why, files, mech, observe, note, over=("inputs", "configurations"), state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                   why_tests_cant=why, anchors=a), note))

L, PT, R, B = "source/Line.cpp", "source/Point.cpp", "source/Rod.cpp", "source/Body.cpp"
M2 = "source/MoorDyn2.cpp"

prop("C01", "Axial tension of a line follows its elastic and damping law",
 "For every geometry and velocity of a mooring line's nodes, the tension reported at each node is the vector of magnitude (elastic part + internal damping part) along the adjacent segments, averaged between them at interior nodes: the elastic part is the stiffness times the strain (or the tension the user's strain/tension table gives, linearly interpolated) and is zero when the segment is slack; the damping part is the damping coefficient (given directly, as a damping ratio, or as a rate/tension table) times the strain rate, with the sign that opposes it. "
 "Changing a line's stiffness or unstretched length at run time through the API takes effect in that law, and the getters report the value set.",
 "all node positions, velocities, diameters, masses, lengths, stiffness and damping values or table ordinates inside the stated boxes; slack and taut; 1-2 segments",
 "the tests run a few whole simulations with one set of constants and compare end states to stored numbers or loose tolerances; they do not reach table-driven damping, compression, or arbitrary strain/rate",
 [L, "source/Line.hpp", M2], [("segment tension", "Line::getStateDeriv"), ("stiffness/damping tables", "Line::getNonlinearEA / getNonlinearBA; moordyn::MoorDyn::getCurveFile/read_curve")],
 ["MoorDyn_GetLineNodeTen", "MoorDyn_GetLineConstantEA"],
 "symbolic execution of the compiled line code for every geometry/velocity/coefficient in the box; 1-2 segments")
prop("C02", "Weight, buoyancy, drag, inertia loads and mass of line nodes",
 "For any position, velocity and water flow, each line node carries the weight and (for its submerged part) buoyancy of the length lumped to it, Morison drag with separate transverse and tangential coefficients, and fluid-inertia load (1+Ca) on the displaced water; the node's mass is its share of line mass plus directional added mass, the net force is the sum of the loads, and acceleration times mass equals net force. "
 "Hydrodynamic loads vanish out of the water, and at the free surface the wetted share varies continuously from none to all, for every inclination.",
 "all node positions/velocities, flow velocities and accelerations, diameters, masses, lengths, coefficients, gravity and water density in the boxes; wet, dry and surface-crossing segments; 1-2 segments",
 "tests use still water or a single wave case, never isolate one load term, and never put a node exactly on the surface",
 [L, "source/Waves.cpp"], [("node loads", "Line::getStateDeriv"), ("submergence", "Line::calcSubSeg")],
 ["MoorDyn_GetLineNodeWeight", "MoorDyn_GetLineNodeDrag", "MoorDyn_GetLineNodeFroudeKrilov", "MoorDyn_GetLineNodeM", "MoorDyn_GetLineNodeForce"],
 "as C01; flow enters through the external wave kinematics API")
prop("C03", "Seabed contact: normal force, damping and friction of lines and rods",
 "A line or rod node feels a seabed force only while it lies below the local seabed; the vertical part is penetration times bottom stiffness minus vertical velocity times bottom damping, times the node's projected area (diameter times its share of length). "
 "Friction on line nodes acts opposite to the horizontal velocity, grows with speed, switches to the dynamic friction level once the static-to-dynamic limit is passed, and is zero at rest. The local seabed is the flat depth or the interpolated bathymetry.",
 "all node positions (above, on, below), velocities, depth, diameters, lengths, bottom stiffness/damping and friction parameters in the boxes; flat and gridded bathymetry",
 "the tests' seabed case is one flat-bottom simulation; friction saturation, rest and sloping bathymetry combinations are never isolated",
 [L, R, "source/Seafloor.cpp"], [("line contact", "Line::getStateDeriv"), ("rod contact", "Rod::doRHS"), ("depth lookup", "Seafloor::getDepthAt")],
 ["MoorDyn_GetLineNodeSeabedForce", "MoorDyn_GetRodForce"], "as C01")
prop("C04", "Bending stiffness, pressure bending and cantilever end moments of lines",
 "For a line with bending stiffness (constant or a curvature/moment table) the bending forces on a bent joint are the shear couple of the moment EI times curvature, they sum to zero, and they act in the plane of the bend; curvature reported is that of the adjacent segments. "
 "At an end clamped to a rod the same holds against the rod's axis and the rod receives the corresponding moment; with pressure bending enabled the node gets the force of the inside-outside pressure difference over the bend.",
 "all non-straight joint geometries, stiffness values or table ordinates, internal pressures, clamped-end directions in the boxes; 1-2 segments",
 "only one whole-simulation cantilever comparison at a loose tolerance exists; tables, end A/B symmetry and pressure are not covered",
 [L, R], [("bending forces", "Line::getStateDeriv"), ("end moments", "Line::getEndSegmentMoment, Line::getEndStuff")],
 ["MoorDyn_GetLineNodeBendStiff", "MoorDyn_GetLineNodeCurv", "MoorDyn_GetLineNodeForce"], "as C01; exactly straight joints excluded (direction undefined)")
prop("C05", "Free points: loads, mass, Newton's law, and line ends that follow them",
 "For every position, velocity and flow, the force on a free point is its weight plus buoyancy plus drag plus the pulls of all lines attached to it, its mass is its own mass plus added mass plus the end masses of those lines, and its acceleration satisfies mass times acceleration equals force. "
 "Whichever end of a line is attached, that end has exactly the point's position and velocity.",
 "all positions, velocities, flows, masses, volumes, coefficients in the boxes; 0 or 2 attached lines, attached by either end",
 "tests check end states of a few simulations, not the balance at an arbitrary state",
 [PT, L], [("point loads", "Point::doRHS, Point::getNetForceAndMass"), ("state", "Point::setState, Point::getStateDeriv")],
 ["MoorDyn_GetPointForce", "MoorDyn_GetPointM", "MoorDyn_GetPointPos"], "as C01")
prop("C06", "Objects attached to a body move rigidly with it and load it consistently",
 "For every position, attitude, velocity and angular velocity of a body, points, rods and line ends attached to it are at the rigidly transformed location and have the rigid-body velocity. "
 "Their weight, buoyancy, drag and inertia reach the body as force and moment about its origin, and their mass as the full 6x6 matrix moved to that origin; a pinned rod follows only with its first end.",
 "all body positions, attitudes (quaternions in the box), velocities, angular velocities, attachment offsets, masses, volumes, coefficients",
 "the tests look at a couple of symmetrical or slow cases; large attitudes combined with rotation are not sampled",
 [B, R, PT, "source/Misc.cpp"], [("kinematics", "Body::setDependentStates, transformKinematics"), ("transfer", "getNetForceAndMass, translateMass, translateForce3to6DOF")],
 ["MoorDyn_GetPointPos", "MoorDyn_GetRodNodePos", "MoorDyn_GetBodyForce", "MoorDyn_GetBodyM"], "as C01")
prop("C07", "Bodies: loads, mass matrix and rigid-body dynamics",
 "For every attitude and motion, a body's force and moment about its origin are those of weight at the centre of gravity, buoyancy, the centripetal term of an offset centre of gravity, and drag with per-axis body-frame coefficients; its 6x6 mass is its inertia turned to the global frame, moved from the centre of gravity, plus per-axis added mass. "
 "Its acceleration satisfies mass times acceleration equals load, its attitude rate follows its angular velocity, and a pinned body rotates under the moment balance while its origin follows the driver.",
 "all attitudes, velocities, angular velocities, flows, masses, volumes, centre-of-gravity offsets, inertias and coefficients in the boxes; free and coupled-pinned",
 "tests cover still-water or axis-aligned bodies with one parameter set",
 [B, "source/Misc.cpp"], [("loads", "Body::doRHS"), ("mass", "Body::setup, rotateMass6, translateMass6"), ("dynamics", "Body::getStateDeriv")],
 ["MoorDyn_GetBodyForce", "MoorDyn_GetBodyM", "MoorDyn_GetBodyState"], "as C01; the linear solve itself is decided for one concrete mass matrix")
prop("C08", "Rods: hydrostatics, drag, inertia, partial submergence and placement",
 "For every attitude and motion, a rod's force and moment about its first end are those of its weight, of Archimedes' buoyancy of its wetted part, of transverse and end drag, and of fluid inertia; its 6x6 mass is that of the uniform cylinder plus the added mass of the wetted length and of its ends, independent of which end points up. "
 "Its acceleration satisfies mass times acceleration equals load, and a free rod starts with both ends exactly where the input file puts them.",
 "all attitudes of the boxes (tilt zero or above 1e-3), positions, velocities, angular velocities, flows per node, diameters, masses, coefficients; wet, dry and surface-piercing vertical rods; 2-3 segments",
 "tests have a handful of hanging/floating rods with upright orientation",
 [R, "source/Misc.cpp"], [("loads", "Rod::doRHS"), ("submergence", "Rod::setState/doRHS"), ("initial attitude", "Rod::setup, Rod::initialize")],
 ["MoorDyn_GetRodForce", "MoorDyn_GetRodM", "MoorDyn_GetRodNodePos"], "as C01; inclined surface-piercing rods are outside the bound")
prop("C09", "Coupled motion is followed exactly and the returned forces balance it",
 "Within a step every coupled point, rod and body moves linearly from the position the caller gives with the velocity given, ends exactly there for every step size and sub-stepping, in the documented order and number of coupling entries, with attached objects following and fixed points staying put; orientations are the given roll, pitch, yaw. "
 "The force (and moment) returned for each coupled object is the sum of line pulls, weight, buoyancy and the inertia of what it carries under the prescribed acceleration.",
 "all prescribed positions, velocities, step lengths and masses in the boxes; one and two consecutive steps, with and without internal sub-steps; rigidly coupled and pinned bodies and rods",
 "tests drive one platform history; the mapping of every entry and force is not checked for arbitrary motions",
 [M2, PT, R, B], [("driver", "MoorDyn::Step, initiateStep, updateFairlead"), ("forces", "getFnet of points, rods, bodies")],
 ["MoorDyn_Step", "MoorDyn_NCoupledDOF", "MoorDyn_GetBodyState"], "as C01; up to 2 steps", over=("inputs", "histories", "configurations"))
prop("C13", "Bathymetry files: the reported depth is the interpolation of the given grid",
 "For every rectangular bathymetry file, whatever the order of its rows, the depth at each given grid point is the given depth, between grid points it is the bilinear interpolation, and outside the grid it is the value at the nearest edge. "
 "The average depth reported is the mean of the depths and the minimum depth is the shallowest of them.",
 "all depths, tick positions and query points in the boxes; grids of 2x2 to 4x2 points, rows in several orders",
 "one small file is sampled by the tests",
 ["source/Seafloor.cpp"], [("parser", "Seafloor::setup"), ("lookup", "Seafloor::getDepthAt")],
 ["MoorDyn_GetDepthAt", "MoorDyn_GetAverageDepth", "MoorDyn_GetMinDepth"], "as C01; grid sizes bounded")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_more.py")).read())

TECH = "symbolic execution of instrumented LLVM IR + SMT (z3/cvc5), native replay"
checks = []
P.sort(key=lambda t: t[0]["id"])
na = set(n["property"] for n in NA)
for p, note in P:
    if p["id"] in na:
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
        technique=TECH, level="model_checking",
        level_note="Bounded: " + note + ". Floating point is encoded as exact reals with stated tolerances; bounds, undecided branches and unexplored paths are listed in the evidence file."))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA,
        notes="No hooks in /repo. Each check recompiles /repo/source with an instrumentation plugin (see DESIGN.md)."), f, indent=1)
    f.write("\n")
print(len(checks), "checks")
