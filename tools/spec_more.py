prop("C10", "Time schemes advance states and clock by their formulas",
 "For every state, prescribed motion and step length, one step of the selected time scheme changes the positions, velocities and attitudes by that scheme's formula applied to the system's own derivative (Euler, local Euler, Heun, Runge-Kutta 2 and 4, Adams-Bashforth 2 to 4, backward Euler, midpoint, average acceleration), with coupled motion and line reeling taken at each stage's time. "
 "The clock advances by exactly the requested step, whatever the internal sub-steps, and switching the scheme at run time keeps clock and state. "
 "Under constant acceleration each scheme, once started, gains velocity acceleration times step, and a neutrally buoyant body at rest keeps its attitude under every scheme and in the stationary initial-condition solver.",
 "all coupled velocities (1D and 3D), step lengths, reeling rates, masses, volumes and attitudes in the boxes; 1-6 consecutive steps, 1-2 sub-steps, up to 3 implicit iterations; all symbolic states for the state algebra",
 "the tests only require that a pendulum simulated with each scheme does not blow up; a wrong coefficient, stage time or clock passes",
 ["source/Time.cpp", "source/Time.hpp", "source/State.cpp", M2], [("schemes", "EulerScheme/HeunScheme/RK2Scheme/RK4Scheme/ABScheme/Implicit*Scheme::Step"), ("state algebra", "StateVar, StateVarDeriv, MoorDynState, DMoorDynStateDt operators"), ("stage update", "TimeSchemeBase::Update, CalcStateDeriv"), ("clock", "MoorDyn::Step")],
 ["MoorDyn_Step", "MoorDyn_GetLineNodePos", "MoorDyn_GetPointPos", "MoorDyn_GetBodyState"], "up to 6 steps of a two-line chain, and single objects; the derivative comes from a second instance of the real code", over=("inputs", "histories", "configurations"))
prop("C11", "Currents are the interpolation of the given profiles",
 "For every water current given to MoorDyn (a steady profile over depth, a profile changing in time, or a 4D table over x, y, z and time), the water velocity at any point and time is the multilinear interpolation of the values given in the file, and the nearest given value outside their range in space and in time. "
 "That velocity is what the query functions report and what acts on every node of the lines, rods, points and bodies; currents add no acceleration, pressure or surface elevation by themselves, and velocities set from outside are added to them.",
 "all current values, z levels, grid coordinates, query points and times in the boxes; 1-4 levels, 1-3 times, up to 2x3 horizontal points, any order and spelling of the 4D rows",
 "the tests compare a handful of runs to stored results with one profile; other depths, times, orders of the rows and positions outside the grid are never looked at",
 ["source/Waves.cpp", "source/Waves.hpp", "source/Waves/WaveGrid.cpp", "source/Misc.hpp"], [("reading the profiles", "Waves/WaveGrid.cpp constructSteadyCurrentGrid, constructDynamicCurrentGrid, construct4DCurrentGrid"), ("interpolation", "CurrentGrid::getCurrentKin"), ("distribution", "Waves::updateWaves, getWaveKin")],
 ["MoorDyn_GetWavesKin", "MoorDyn_GetWaves", "water kinematics of lines, rods, points and bodies"], "tables up to 4 levels or 2x2x2x2 (4D)", over=("inputs", "configurations"))
prop("C12", "Waves: linear theory, spectra and records are reproduced",
 "For every wave train, wave spectrum or surface elevation record given to MoorDyn, elevation, velocity, acceleration (and, on a grid, dynamic pressure) at any point and time follow linear (Airy) wave theory for the sum of the given components, with Wheeler stretching where it applies, in the given directions; above the surface the values of the surface apply. "
 "A spectrum or record on a grid yields, at grid points and sample times, the inverse transform of its components, between them the linear interpolation, and repeats with its period; an elevation record is reproduced at the reference point. Currents are added to the waves, whether or not the grids are unified.",
 "all amplitudes, phases, query points and times in the boxes; 1-2 components, directions along x, y and oblique, 2-3 grid levels, 1-3 grid points, records of 4-5 samples; concrete frequencies",
 "the tests compare whole runs to one stored case; phase, direction, sign or scaling errors in other components, and values between grid points, are not seen",
 ["source/Waves.cpp", "source/Waves/WaveGrid.cpp", "source/Waves/WaveSpectrum.cpp", "source/Waves/SpectrumKin.cpp", "source/Waves/SpectrumKin.hpp", "source/Misc.hpp"], [("component sum", "Waves/SpectrumKin.cpp SpectrumKin::getWaveKin"), ("grid construction", "constructWaveGridSpectrumData, constructWaveGridElevationData"), ("grid lookup", "WaveGrid::getWaveKin"), ("unified currents", "Waves::setup"), ("spectrum reading", "Waves/WaveSpectrum.cpp")],
 ["MoorDyn_GetWavesKin", "water kinematics of lines, rods, points and bodies"], "the last sample interval of the record's period is outside (documented limitation of the grid); dispersion relation only at concrete frequencies", over=("inputs", "configurations"))
prop("C17", "Output files and queries report the quantity they name",
 "Every channel of the main output file holds, under its name and in its unit, the quantity of the object and node it names (positions, velocities, accelerations, tensions, forces, moments, rotations in degrees) as the system has it at that time, and every column of a line's own output file holds the quantity its letter selects for each node or segment; header names and columns correspond one to one. "
 "A row is written when the time reaches the next multiple of the output interval, and at every step when none is given. "
 "The query functions agree with the node values: fairlead tension, maximum tension over all nodes, seabed force, constant-stiffness flag, horizontal and vertical tensions.",
 "all velocities, positions and attitudes in the boxes for a model with a line, point, rod and body; all step lengths and output intervals in the box over 2-3 steps",
 "no test reads an output file, and the query tests only look at the number of values",
 [M2, "source/IO.cpp", L, PT, R, B, "source/Misc.hpp"], [("channels", "MoorDyn::GetOutput, Line/Point/Rod/Body::GetOutput"), ("rows", "MoorDyn::WriteOutputs, AllOutput"), ("line files", "Line::Output, Line::initializeOutput"), ("queries", "MoorDyn_GetFairTen, MoorDyn_GetLineMaxTen, MoorDyn_GetFASTtens")],
 [".out files", "MoorDyn_GetFairTen", "MoorDyn_GetLineMaxTen", "MoorDyn_GetLineNodeSeabedForce", "MoorDyn_GetFASTtens"], "one model of 2-segment objects; up to 3 steps", over=("inputs", "histories", "configurations"))
prop("C15", "Saving and loading restores the simulation exactly",
 "A system saved (to a file or to memory) and loaded into a newly created system of the same input, or into the same system later, reports the same time, positions, velocities, attitudes, lengths, tensions, forces and masses as when it was saved, and every following step with the same driver inputs gives the same results as if the simulation had not been interrupted, with every time scheme. "
 "Saving changes nothing in the running system, and every finite number comes back exactly (numbers below the smallest normal one may become zero).",
 "all prescribed velocities, step lengths, reeling rates in the boxes; lines, points, bodies and rods, free, coupled and pinned; 1-2 steps before and 1 after; all mantissas and signs in the stated windows of magnitudes",
 "the tests only check that saving and loading a null system is refused",
 ["source/IO.cpp", "source/IO.hpp", "source/Time.hpp", L, PT, R, B, M2], [("packing", "IO::Serialize, IO::Deserialize, pack754, unpack754"), ("files", "IO::Save, IO::Load"), ("contents", "Serialize/Deserialize of MoorDyn, TimeSchemeBase, ABScheme, Line, Point, Rod, Body")],
 ["MoorDyn_Save", "MoorDyn_Load", "MoorDyn_Serialize", "MoorDyn_Deserialize"], "as C10; number packing by CBMC for all numbers in 7 windows of magnitudes (more when thorough)", over=("inputs", "histories", "configurations"))
prop("C14", "Queries by index or handle answer exactly for what exists",
 "For every index a caller may pass, the query functions return the handle of the object with that number exactly when it exists (objects counted from one, line and rod nodes from zero to the number of segments, lines attached to a point within their count); for any other index they return a null handle or MOORDYN_INVALID_VALUE and leave the caller's output untouched. "
 "Null handles and missing coupled motion arrays are refused with an error instead of being followed, and a step of zero length changes neither clock nor state.",
 "all 2^32 unsigned indices; a model with one to three objects of each kind; every C API query function for null handles",
 "the tests try a null handle per function and a few valid indices; out-of-range indices and their neighbours are not tried",
 [M2, "source/MoorDyn2.h", "source/MoorDyn2.hpp", L, PT, R, B], [("object lookup", "MoorDyn_GetBody/GetRod/GetPoint/GetLine"), ("node lookup", "MoorDyn_GetLineNode*, MoorDyn_GetRodNodePos/Vel"), ("attached lines", "MoorDyn_GetPointAttached"), ("argument checks", "MoorDyn_Init, MoorDyn_Step")],
 ["return codes and outputs of the C API"], "indices are fully symbolic 32-bit integers, explored without bound", over=("inputs", "configurations"))
prop("C16", "The internal time step follows dtM and CFL",
 "The internal time step is the one given as dtM, or the one the CFL factor gives, or the smaller of the two when both are given (CFL 0.5 when none is): the factor times the natural period of the stiffest line segment, 2 pi sqrt(m/k) with the segment's mass and axial stiffness, the shortest over all lines. Setting either through the API keeps the other consistent, and the getters report the value in use. "
 "A driver step is divided in internal steps no longer than dtM that sum to it exactly.",
 "all dtM, CFL factors, line weights, lengths, stiffness values and driver steps in the boxes; 1-2 lines; up to 3 sub-steps",
 "the tests use fixed dtM or CFL values and never read the step in use back",
 [M2, L, "source/Util/CFL.hpp"], [("choice of the step", "MoorDyn::MoorDyn, ReadInFile, SetDt, SetCFL"), ("natural period", "CFL.hpp NatFreqCFL, LineCFL"), ("sub-steps", "MoorDyn::Step")],
 ["MoorDyn_GetDt", "MoorDyn_GetCFL", "MoorDyn_SetDt", "MoorDyn_SetCFL", "MoorDyn_Step"], "two lines with constant stiffness; wave and beam limits of the CFL are inactive in the code", over=("inputs", "configurations"))
prop("C18", "Computing the initial condition leaves the right state",
 "After Init() the clock is zero and every drag coefficient is the user's own again; during the dynamic relaxation the system moves as in a simulation in which all drag coefficients are multiplied by CdScaleIC, in the documented steps, until the tensions have converged over dtIC or TmaxIC has passed, and no longer. "
 "Coupled and fixed objects, and the points and line ends attached to them, stay where the input and the caller put them. Waves do not act during the initial condition and act afterwards.",
 "all drag coefficients, scale factors, dtIC, TmaxIC and prescribed positions in the boxes; single objects of each kind and chains of two lines",
 "the tests only use the state after a long simulation; scaling left behind, a wrong duration or a shifted clock die out before they look",
 [M2, L, PT, R, B, "source/Waves.cpp"], [("dynamic relaxation", "MoorDyn::icLegacy, Init"), ("drag scaling", "scaleDrag of Line, Point, Rod, Body"), ("fixed and coupled", "initializeUnfixed, initialize"), ("waves off", "Waves::setWaveKinematics in Init")],
 ["MoorDyn_Init", "MoorDyn_GetLineNodePos", "MoorDyn_GetPointPos", "MoorDyn_GetBodyState", "MoorDyn_GetRodNodePos"], "up to 12 relaxation steps; convergence of a hanging line at rest", over=("inputs", "histories", "configurations"))
prop("C19", "Every accepted spelling and layout of an input file means the same",
 "Input files that differ only in documented synonyms (section headers, attachment types, references such as 1, P1, Con1 or Point1, R1A or Rod1A, option names), letter case, order of sections, amount of white space, line ends, optional columns or number of entries of a body's vectors, or in whether the file is named with its directory, give the same system, which moves and answers the same; leaving an option out means its documented default. "
 "A reference to an object that does not exist, or a row with missing fields, is refused with an error; an output channel of an object that does not exist is left out and the others keep their place. A reference to an object that exists attaches to that object, at that end.",
 "all property values and motions in the boxes for each pair of spellings; all integers 0 to 1e6 as references and as number of segments within 1 to 5",
 "the tests read a handful of fixed files in one spelling each and never compare what two of them mean",
 [M2, "source/Misc.cpp", "source/Misc.hpp", "source/IO.cpp"], [("sections", "MoorDyn::ReadInFile, findStartOfSection"), ("rows", "readLineProps, readRodProps, readBody, readRod, readPoint, readLine"), ("options", "MoorDyn::readOptionsLine"), ("channels", "MoorDyn::ReadInFile (OUTPUTS section)")],
 ["MoorDyn_Create return", "MoorDyn_Init", "MoorDyn_Step", "positions, tensions, forces, masses"], "pairs of files of up to 7 objects; what is equal is decided for all numbers in the boxes, the spellings are a list", over=("inputs", "configurations"))
prop("C20", "The initial profile of a line is the static solution between its ends",
 "For every pair of end positions and every length, weight, stiffness and seabed friction of a line, the nodes start on the elastic catenary hanging between its ends (lying on the seabed where it would touch it), and no node starts below the seabed.",
 "all end positions and line properties for which the catenary exists",
 "the tests compare a few lines to a stored solution",
 ["source/QSlines.hpp", L], [("catenary", "Catenary() in QSlines.hpp"), ("use", "Line::initialize")],
 ["MoorDyn_GetLineNodePos after MoorDyn_Init"], "not claimed")
NA.append(dict(property="C20", reason="Catenary() is a Newton iteration of up to 100 rounds over nested log and sqrt with data-dependent restarts and fallbacks; its expressions exceed what the encoding and z3/cvc5 can decide, and unrolling a convergence loop to a bound says nothing about the solution it converges to."))
