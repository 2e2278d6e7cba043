"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

OPT = ["pyswarms/single/global_best.py", "pyswarms/single/local_best.py", "pyswarms/single/general_optimizer.py"]
ALLOPT = OPT + ["pyswarms/discrete/binary.py"]
TOP = ["pyswarms/backend/topology/star.py", "pyswarms/backend/topology/ring.py", "pyswarms/backend/topology/von_neumann.py", "pyswarms/backend/topology/pyramid.py", "pyswarms/backend/topology/random.py"]

prop("P01", "A bounded optimizer never leaves its search space",
 "When bounds with lower < upper in every dimension are given, every position that a continuous optimizer hands to the objective function, records in its history or returns lies inside the bounds (limits included), for every one of the six boundary strategies (nearest, random, shrink, reflective, intermediate, periodic), every topology and every velocity strategy. This holds in every iteration, no matter how large the velocities get, provided the initial positions are inside the bounds.",
 ["inputs", "configurations", "histories"], "all swarm sizes, dimensions, bounds, option values, objective functions, random draws, iterations, boundary strategies and topologies",
 "The tests apply each strategy to a handful of hand-written positions and run the optimizers for a few iterations on one benchmark; they cannot cover every position, velocity, bound and iteration.",
 ["pyswarms/backend/handlers.py", "pyswarms/backend/operators.py", "pyswarms/backend/generators.py"] + OPT,
 [("boundary strategies", "pyswarms/backend/handlers.py:BoundaryHandler"), ("position update", "pyswarms/backend/operators.py:compute_position"), ("initial positions", "pyswarms/backend/generators.py:generate_swarm"), ("optimization loop", "pyswarms/single/*.py:optimize")],
 [("position matrix", "current particle positions", "pyswarms/backend/swarms.py:Swarm.position"), ("boundary memory", "last repaired position matrix", "pyswarms/backend/handlers.py:BoundaryHandler.memory")],
 ["objective function argument", "pos_history", "returned position"])

prop("P02", "The returned cost is the best cost evaluated, at the returned position",
 "An optimization run returns a pair (cost, position) in which cost is the smallest cost (not-a-number values ignored) the objective function produced for any particle in any iteration of that run, and position is a position for which the objective function produced exactly that cost in that run. It holds for all four optimizers and for a repeated run on the same optimizer, even with another objective function, whenever some evaluated cost is less than infinity.",
 ["inputs", "configurations", "histories"], "all objective functions (also non-deterministic, infinite or not-a-number valued), swarm sizes, topologies, iteration counts and random draws",
 "Tests only check the type and shape of the result and convergence on the sphere function; losing a best particle in a rare configuration or returning a mismatched pair stays invisible.",
 ALLOPT + ["pyswarms/backend/operators.py"] + TOP,
 [("personal best update", "pyswarms/backend/operators.py:compute_pbest"), ("swarm best", "pyswarms/backend/topology/*.py:compute_gbest"), ("final result", "pyswarms/*/*.py:optimize")],
 [("personal bests", "best cost and position of each particle", "pyswarms/backend/swarms.py:Swarm.pbest_cost, pbest_pos")],
 ["return value of optimize", "objective function calls"])

prop("P03", "Personal bests are exactly the best evaluation of each particle",
 "After every iteration each particle's remembered best cost is the lowest cost it has been evaluated at so far in the run and its remembered best position is the position of that evaluation. It changes only on a strict improvement (ties keep the earlier position), never gets worse, and a not-a-number cost never becomes a best.",
 ["inputs", "histories"], "all sequences of positions and costs of every particle, all swarm sizes and dimensions",
 "The unit test compares one fixed 3x3 example; ties, not-a-number costs, mixed rows and long histories are not exercised.",
 ["pyswarms/backend/operators.py"] + ALLOPT,
 [("masked update of cost and position", "pyswarms/backend/operators.py:compute_pbest"), ("initial infinite costs", "pyswarms/*/*.py:optimize")],
 [("personal bests", "best cost and position of each particle", "pyswarms/backend/swarms.py:Swarm.pbest_cost, pbest_pos")],
 ["swarm attributes after optimize", "return value of the personal best operator"])

prop("P04", "Each particle is attracted to the best personal best in its neighbourhood",
 "For every topology the attractor given to a particle is the personal best position of the particle with the lowest personal best cost among its neighbours: the whole swarm for star, the k nearest particles under the chosen Minkowski norm (itself when k is 1) for ring, the same with k given by the Delannoy number for Von Neumann, the adjacent vertices of the Delaunay triangulation for pyramid (everybody in swarms of at most dimensions + 1 particles), and the particles joined to it for random. The best cost reported by the topology is the lowest personal best cost of the swarm, except that star keeps a strictly better best it already knows.",
 ["inputs", "configurations"], "all swarms (positions, personal best costs and positions), all topologies, k, p, r, static and dynamic",
 "Tests check one fixed swarm per topology with a hand-computed answer; the neighbourhood minimum must be right for every swarm and every neighbour list.",
 TOP, [("neighbourhood minimum", "pyswarms/backend/topology/*.py:compute_gbest")],
 [("neighbour index", "neighbours of every particle", "pyswarms/backend/topology/base.py:neighbor_idx")],
 ["return value of the topology's global best operation"])

prop("P05", "The velocity update is the PSO equation with fresh random weights",
 "Before the velocity strategy and clamp are applied, the new velocity of every particle in every dimension is w*velocity + c1*r1*(personal best - position) + c2*r2*(attractor - position), where r1 and r2 are drawn anew, independently for every particle and dimension, uniformly from [0, 1), and w, c1, c2 are the options currently in force. The strategies then behave as documented: unmodified keeps it, invert multiplies the velocity of each particle outside the bounds by -z once (z is 0.5 unless given), zero sets that velocity to zero, adjust replaces it by the difference between the current and the previously seen position.",
 ["inputs", "configurations"], "all swarms, options, random draws, velocity strategies, bounds and dimensions",
 "Tests only look at the shape and clamp range of the result because the weights are random; a wrong sign, a shared random number or a mixed-up coefficient still passes.",
 ["pyswarms/backend/operators.py", "pyswarms/backend/handlers.py"] + TOP,
 [("velocity equation", "pyswarms/backend/operators.py:compute_velocity"), ("velocity strategies", "pyswarms/backend/handlers.py:VelocityHandler")],
 [("velocity memory", "previously seen positions for adjust", "pyswarms/backend/handlers.py:VelocityHandler.memory")],
 ["return value of the velocity operator", "velocity_history"])

prop("P06", "Velocities never exceed the velocity clamp",
 "When a velocity clamp (min, max) with min <= max is given, every velocity component of every particle lies in [min, max]: the initial ones and those after every update, for every velocity strategy, optimizer and topology. Components that were already inside the clamp are not changed by the clamping.",
 ["inputs", "configurations", "histories"], "all clamps, swarms, options, random draws, velocity strategies and iterations",
 "Tests sample a few strategies and one random swarm each; a strategy that forgets the clamp only for out-of-bounds particles or on its first call is not noticed.",
 ["pyswarms/backend/handlers.py", "pyswarms/backend/operators.py", "pyswarms/backend/generators.py"] + ALLOPT,
 [("clamping", "pyswarms/backend/handlers.py:VelocityHandler"), ("initial velocities", "pyswarms/backend/generators.py:generate_velocity")],
 [("velocity matrix", "current velocities", "pyswarms/backend/swarms.py:Swarm.velocity")], ["velocity_history", "return value of the velocity strategies"])

prop("P07", "Positions move by their velocity and are repaired as documented",
 "The new position of a particle is its old position plus its velocity; when bounds are given, a particle that is inside them is left unchanged by every boundary strategy, and coordinates (or, for random and shrink, whole particles) that left them get exactly the value the documentation of the chosen strategy defines: nearest bound, repeated mirroring, scaling of the whole step so that it ends on the bound, a uniformly random point between the bounds, midpoint between the previous coordinate and the bound, or wrap-around. The previous positions used by shrink and intermediate are the positions these strategies returned last time.",
 ["inputs", "configurations", "histories"], "all positions, velocities, bounds, boundary strategies, swarm sizes, dimensions and call sequences",
 "Tests check that outputs are in bounds and one or two fixed values; a wrong formula that still lands inside the bounds passes.",
 ["pyswarms/backend/handlers.py", "pyswarms/backend/operators.py"] + TOP,
 [("boundary strategies", "pyswarms/backend/handlers.py:BoundaryHandler"), ("position update", "pyswarms/backend/operators.py:compute_position")],
 [("boundary memory", "previous positions", "pyswarms/backend/handlers.py:BoundaryHandler.memory")], ["return value of the boundary strategies and of the position operator"])

prop("P08", "A generated swarm has the requested shape, range and initial positions",
 "Generated positions and velocities have one row per particle and one column per dimension; continuous positions lie inside the bounds when given (center 1), otherwise in [0, center); velocities lie inside the clamp when given, otherwise in [0, 1); binary positions are 0 or 1 and other discrete rows are permutations of 0..dimensions-1. User-supplied initial positions are used verbatim, and are rejected with a ValueError when any coordinate is outside the bounds or when a binary swarm gets more than two distinct values.",
 ["inputs", "configurations"], "all swarm sizes, dimensions, bounds, clamps, centers, initial positions and random draws",
 "Tests sample one random swarm of fixed size per option; ranges must hold for every draw and every bound, including per-dimension bounds of different width.",
 ["pyswarms/backend/generators.py", "pyswarms/backend/swarms.py"],
 [("generators", "pyswarms/backend/generators.py"), ("swarm record", "pyswarms/backend/swarms.py:Swarm")], [], ["return values of the generator functions", "swarm attributes"])

prop("P09", "Binary particles stay binary and flip with the sigmoid probability",
 "Every position matrix a binary optimizer evaluates, records or returns after generating it contains only 0 and 1. In every update the coordinate becomes 1 exactly when a random number drawn uniformly from [0, 1), independently for every particle and dimension, is less than 1/(1+exp(-v)) for its current velocity v, and 0 otherwise.",
 ["inputs", "histories"], "all velocities, random draws, swarm sizes, dimensions and iterations",
 "Tests only check that a few runs produce zeros and ones; the comparison, its direction and the independence of the draws are random and not observable in a sample.",
 ["pyswarms/discrete/binary.py", "pyswarms/backend/generators.py"],
 [("binary position update", "pyswarms/discrete/binary.py:_compute_position, _sigmoid")], [], ["pos_history", "returned position"])

prop("P10", "Histories record every iteration faithfully",
 "Each performed iteration evaluates the objective function exactly once on the whole current swarm and appends exactly one entry to each of the five history lists: the best cost so far, the mean of the personal best costs, the mean neighbour cost (the best cost), the positions that were evaluated and the velocities at that time. Entries of earlier iterations never change afterwards, and within one run the recorded best cost never increases.",
 ["inputs", "configurations", "histories"], "all optimizers, topologies, objective functions, iteration counts and early stops",
 "Tests check the lengths of the histories only; a shifted, aliased or later overwritten entry keeps the right length.",
 ["pyswarms/base/base_single.py", "pyswarms/base/base_discrete.py"] + ALLOPT,
 [("history recording", "pyswarms/base/*.py:_populate_history"), ("optimization loop", "pyswarms/*/*.py:optimize")],
 [("histories", "one entry per iteration", "cost_history, mean_pbest_history, mean_neighbor_history, pos_history, velocity_history")], ["history attributes", "objective function calls"])

prop("P11", "Optimization stops exactly when the documented rule says so",
 "Without a tolerance a run performs exactly the requested number of iterations. With a tolerance ftol and window ftol_iter it stops after the first iteration number i >= ftol_iter (counting from 0) in which the last ftol_iter iterations each changed the best cost by less than ftol*(1 + |previous best cost|), and otherwise performs all iterations; a window that is not a positive integer is rejected at construction.",
 ["inputs", "configurations", "histories"], "all tolerances, windows, iteration counts, cost sequences and optimizers",
 "Tests use one tolerance per optimizer and assert that fewer iterations ran; off-by-one windows or a one-sided comparison pass.",
 ["pyswarms/base/base_single.py", "pyswarms/base/base_discrete.py"] + ALLOPT,
 [("stopping rule", "pyswarms/*/*.py:optimize"), ("argument check", "pyswarms/base/*.py:__init__")],
 [("tolerance window", "outcomes of the last ftol_iter comparisons", "pyswarms/*/*.py:optimize")], ["number of objective function calls", "length of cost_history"])

prop("P12", "Option schedules follow their documented formulas from the initial options",
 "In iteration i of n the options in force for the velocity update are, for each option with a strategy, exactly the documented function of its initial value, its end value, i and n (exponential decay, linear variation, non-linear modulation, or a uniform random value between start and end), and the unchanged initial value for every other option. Schedules always start from the options given at construction, which are never modified, and an unknown strategy raises KeyError.",
 ["inputs", "configurations", "histories"], "all initial and end options, iteration numbers and counts, strategies and random draws",
 "Tests compare one value per strategy at a single iteration; drift (starting from the already varied options) or mutation of the user's dictionary is not covered.",
 ["pyswarms/backend/handlers.py"] + OPT,
 [("option strategies", "pyswarms/backend/handlers.py:OptionsHandler"), ("per-iteration update", "pyswarms/single/*.py:optimize")], [], ["swarm options during a run", "return value of the options handler"])

prop("P13", "Optimizing never modifies what the caller passed in",
 "Constructing, running and resetting an optimizer leaves the caller's option dictionary, bounds, velocity clamp, center and initial position array unchanged. The personal best, global best, stopping and initialization operations do not modify the arrays they are given, and the benchmark functions and the cost decorator do not modify the positions they evaluate.",
 ["inputs", "configurations", "histories"], "all arguments, optimizers, strategies and run lengths",
 "Tests never compare the arguments before and after a call; an in-place update of a shared array shows only for particular strategies and aliasing.",
 ["pyswarms/backend/operators.py", "pyswarms/backend/handlers.py", "pyswarms/backend/generators.py", "pyswarms/utils/functions/single_obj.py", "pyswarms/utils/decorators/decorators.py"] + ALLOPT + TOP,
 [("copy before in-place update", "pyswarms/backend/operators.py:compute_position"), ("copy of the options", "pyswarms/backend/handlers.py:OptionsHandler.__call__")], [], ["caller-owned arrays and dictionaries"])

prop("P14", "Parallel evaluation gives the same costs as serial evaluation",
 "For an objective function that computes each particle's cost from that particle alone, evaluating the swarm with a pool of any number of worker processes evaluates every particle exactly once and returns the costs in particle order, equal to those of the serial evaluation. Extra keyword arguments reach the objective function unchanged in both cases.",
 ["inputs", "configurations"], "all swarm sizes, process counts (also more processes than particles), objective functions and keyword arguments",
 "Tests run two processes on one swarm size; uneven splits and more processes than particles are not covered.",
 ["pyswarms/backend/operators.py"] + ALLOPT, [("splitting and merging", "pyswarms/backend/operators.py:compute_objective_function")], [], ["cost vector of an iteration"])

prop("P15", "Hyperparameter search explores exactly its grid and reports its optimum",
 "Grid search evaluates every combination of the listed option values exactly once and nothing else; random search evaluates exactly the requested number of combinations, each c1, c2, w inside its range, k an integer in [low, high), and p fixed. Each combination is scored by optimizing with exactly that combination (and the given swarm size, bounds, clamp and iterations), and the search returns the smallest score, or the largest if a maximum is asked for, together with the combination that achieved it.",
 ["inputs", "configurations"], "all option tables, value lists, ranges, iteration counts, scores and optimizers",
 "Tests use one small grid and only compare a few fields; the pairing of score and options and exactness for other grids is not covered.",
 ["pyswarms/utils/search/base_search.py", "pyswarms/utils/search/grid_search.py", "pyswarms/utils/search/random_search.py"],
 [("grid generation", "pyswarms/utils/search/*.py:generate_grid"), ("scoring and selection", "pyswarms/utils/search/base_search.py")], [], ["return value of search", "options passed to the optimizer"])

prop("P16", "The cost decorator evaluates each particle on its own row",
 "A decorated single-particle cost function returns, for a swarm of n particles, a vector of length n whose i-th entry is the cost function applied to the i-th particle with the same keyword arguments. If the cost function does not return one number per particle, a ValueError is raised instead of a wrongly shaped result.",
 ["inputs"], "all cost functions, swarm sizes, dimensions and keyword arguments",
 "Tests decorate two functions on one swarm size.",
 ["pyswarms/utils/decorators/decorators.py"], [("row-wise evaluation and shape check", "pyswarms/utils/decorators/decorators.py:cost")], [], ["return value of the decorated function"])

prop("P17", "Benchmark functions accept exactly their documented domain",
 "Every benchmark function raises ValueError when any coordinate of any particle is outside its documented domain (limits included in the domain), raises IndexError when a two-dimensional function gets another number of columns, and otherwise returns one cost per particle without raising. Not-a-number coordinates count as outside the domain of a bounded function.",
 ["inputs"], "all position matrices of any number of particles, for all seventeen functions",
 "Tests check one out-of-range array per function (all coordinates far outside); a single offending coordinate, the other side or the exact limit are not covered.",
 ["pyswarms/utils/functions/single_obj.py"], [("domain checks", "pyswarms/utils/functions/single_obj.py")], [], ["exceptions and return value of each function"])

prop("P18", "Benchmark functions compute their formula independently for each particle",
 "On its domain each benchmark function returns for each particle the value of its published formula at that particle's coordinates, independent of the other particles. The documented minimizers attain the documented minimum, and (for the functions whose minimum is documented as exact) no point of the domain gets a smaller value.",
 ["inputs"], "all particles in the domain, all swarm sizes and (for the n-dimensional functions) dimensions",
 "Tests evaluate each function only at its documented minimum; any other point may have any value.",
 ["pyswarms/utils/functions/single_obj.py"], [("formulas", "pyswarms/utils/functions/single_obj.py")], [], ["return value of each function"])

prop("P19", "The random topology builds a connected, symmetric neighbour graph",
 "The neighbour graph generated by the random topology joins every particle to itself and to at least k other particles, is symmetric, and is connected, for every swarm size, every k smaller than the number of particles and every random draw.",
 ["inputs"], "all swarm sizes, k and random draws",
 "Tests build a few small graphs; the repair step that joins separate components is needed only for rare draws (small k, larger swarms).",
 ["pyswarms/backend/topology/random.py"], [("graph construction and repair", "pyswarms/backend/topology/random.py:__compute_neighbors")], [], ["neighbour lists of the topology"])

prop("P20", "Static neighbourhoods stay fixed, dynamic ones follow the swarm",
 "A topology created as static determines its neighbours on first use from the positions at that time and uses exactly these neighbours in every later call; a dynamic ring or pyramid topology recomputes them from the current positions, and a dynamic random topology draws them anew, in every call. Star and Von Neumann always behave as static.",
 ["histories", "configurations"], "all sequences of swarms passed to one topology object, all topologies, k, p, r",
 "Tests call each topology once or twice on the same swarm, where a static and a dynamic topology cannot be told apart.",
 TOP, [("neighbour caching", "pyswarms/backend/topology/*.py:compute_gbest")],
 [("neighbour index", "cached neighbours", "pyswarms/backend/topology/base.py:neighbor_idx")], ["neighbor_idx after each call", "attractors"])

prop("P21", "Reset gives a fresh run and optimizers do not influence each other",
 "Constructing or resetting an optimizer leaves it with empty histories and a newly generated swarm (of the size, bounds, clamp, options and initial positions given at construction) that has no best cost, best position or evaluated cost yet. Neither constructing, running nor resetting one optimizer changes the state of another one, and objects created with default arguments share no modifiable state that a run changes.",
 ["histories", "configurations"], "all optimizers, constructor arguments, run lengths before the reset, and interleavings of calls on several optimizers",
 "Tests check that a few attributes are emptied after one short run and never use two optimizers at once.",
 ["pyswarms/base/base_single.py", "pyswarms/base/base_discrete.py", "pyswarms/backend/generators.py", "pyswarms/backend/swarms.py"] + ALLOPT,
 [("reset", "pyswarms/base/*.py:reset"), ("swarm creation", "pyswarms/backend/generators.py:create_swarm")], [], ["optimizer attributes after construction and reset"])

prop("P22", "Plot data pairs every recorded position with its own cost",
 "Preparing a two-dimensional position history for surface plots yields for every iteration and particle the unchanged x and y coordinates followed by the function value at that position, and a mesh for contour plots contains at every grid point the function value at that point with x running from left to right and y from bottom to top over the half-open limits in steps of delta. Both give the same data with any number of worker processes.",
 ["inputs", "configurations"], "all position histories, swarm sizes, row-wise functions, limits, step sizes and process counts",
 "Tests check the shape of one prepared history only.",
 ["pyswarms/utils/plotters/formatters.py", "pyswarms/utils/plotters/plotters.py"], [("3d history", "pyswarms/utils/plotters/formatters.py:Mesher.compute_history_3d"), ("mesh", "pyswarms/utils/plotters/plotters.py:_mesh")], [], ["return values"])

prop("P23", "The Von Neumann neighbour count is the Delannoy number",
 "The number of neighbours used by the Von Neumann topology for dimension d and range r satisfies D(0, r) = D(d, 0) = 1 and D(d, r) = D(d-1, r) + D(d-1, r-1) + D(d, r-1) for all positive d and r, which makes it symmetric in d and r, at least 1 and non-decreasing in both.",
 ["inputs"], "all non-negative dimensions and ranges",
 "Tests compare a handful of small values.",
 ["pyswarms/backend/topology/von_neumann.py"], [("neighbour count", "pyswarms/backend/topology/von_neumann.py:delannoy")], [], ["return value of the neighbour count"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
