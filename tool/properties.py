#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
I = "include/crocoddyl/core/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)


T = ("The tests that run here exercise two utilities (the box QP and the control "
     "parametrizations) on a handful of random inputs; ")

prop("C01", "Evaluating a model never changes the model",
     "Evaluating or differentiating any model (dynamics, cost, residual, constraint, activation, actuation, squashing, control parametrization, state geometry) writes only to the data object and output arguments it was given. The model itself, its sub-models and global state are left untouched, so one model can be shared by many nodes and threads.",
     ["inputs", "histories", "schedules"], "every model class, every evaluation entry point, every sequence and interleaving of calls on shared models",
     T + "a hidden cache in a model only shows when two data objects or two threads share it.",
     [I + "action-base.hpp", I + "diff-action-base.hpp", I + "cost-base.hpp", I + "activation-base.hpp", I + "constraints/constraint-manager.hxx", I + "actions/lqr.hxx"],
     [("calc/calcDiff write through the data pointer only", I + "action-base.hpp")])

prop("C02", "Parallel node evaluation keeps nodes independent",
     "When the nodes of an optimal control problem are evaluated, differentiated, rolled out or initialised in parallel, each iteration writes only objects indexed by its own node (or variables private to the iteration). Quantities combined over nodes are reduced outside the parallel section or by a declared reduction, so the result does not depend on the thread schedule.",
     ["schedules"], "every interleaving of the iterations of every parallel loop in the library",
     "The library is built here with multithreading off, and no finite number of runs covers the schedules.",
     [I + "optctrl/shooting.hxx", "src/core/solvers/ddp.cpp", "src/core/solver-base.cpp"],
     [("parallel loops over nodes", I + "optctrl/shooting.hxx"), ("parallel node resets", "src/core/solver-base.cpp")])

prop("C03", "Results never depend on what the data held before",
     "Evaluating a model (or differentiating it after evaluating it at the same point) a second time with the same arguments and a reused data object gives the same result as the first time. Every quantity a call accumulates into is reset or overwritten earlier in the same call, on every path, and no result is refreshed on some paths of a call while other normal paths leave the previous call's value behind.",
     ["inputs", "histories"], "every evaluation entry point, every prior content of the data object",
     T + "they evaluate fresh data objects, where stale content is still zero.",
     [I + "costs/cost-sum.hxx", I + "integrator/rk.hxx", I + "integrator/euler.hxx", I + "constraints/constraint-manager.hxx", I + "optctrl/shooting.hxx", "src/core/solvers/ddp.cpp"],
     [("accumulators zeroed before the loop over items", I + "costs/cost-sum.hxx"), ("weighted sums over integrator stages", I + "integrator/rk.hxx")])

prop("C04", "Wrong-sized arguments are rejected before anything is computed",
     "Every entry point of the dynamics, activation, actuation, control-parametrization and state-geometry models, of the cost and constraint collections and of the shooting problem raises an exception when a state, control, tangent vector, residual, trajectory, bound or Jacobian it uses has a size other than the one its role calls for, and accepts every correctly sized one. Inputs are checked before any output or data is written, and an output before it is written itself.",
     ["inputs"], "every entry point, every argument, all sizes",
     T + "none passes a wrong-sized argument.",
     [I + "actions/lqr.hxx", I + "actions/unicycle.hxx", I + "states/euclidean.hxx", I + "integrator/euler.hxx", I + "integrator/rk.hxx", I + "activations/quadratic.hpp", I + "optctrl/shooting.hxx"],
     [("size guards that throw", I + "actions/unicycle.hxx"), ("size guards of the state manifold", I + "states/euclidean.hxx")])

prop("C05", "A rejected request leaves the object as it was",
     "When a setter, a registry operation (adding, removing or activating a cost or constraint), a problem update or a warm-start raises an exception because its arguments are invalid, the object keeps the configuration it had before the call. No part of the request is applied.",
     ["inputs", "histories"], "every configuration entry point that can reject, every invalid argument",
     T + "no test inspects an object after a rejected request.",
     [I + "optctrl/shooting.hxx", I + "constraints/residual.hxx", "src/core/solver-base.cpp", I + "action-base.hxx", I + "costs/cost-sum.hxx"],
     [("validate first, assign last", I + "action-base.hxx"), ("warm-start validation", "src/core/solver-base.cpp")])

prop("C06", "Copies and scalar conversions keep the configuration",
     "Converting a model to another scalar type, or copying a model, yields a model with the same configuration: every user-supplied parameter that influences the results (weights, bounds, references, flags, time steps, sub-models, limits) is carried over.",
     ["configurations"], "every model class with a conversion or a user-written copy, every configuration",
     T + "conversions are tested only for the default configuration of some classes.",
     [I + "actions/unicycle.hxx", I + "actions/lqr.hxx", I + "states/euclidean.hxx", I + "activations/quadratic-barrier.hpp", I + "actuation/squashing/smooth-sat.hpp", I + "numdiff/action.hxx"],
     [("cast members", I + "actions/lqr.hxx"), ("copy constructors", I + "action-base.hxx")])

prop("C07", "Set, add and subtract modes do what they say",
     "Operations that take an assignment mode overwrite their output when asked to set, add the same quantity when asked to add, and subtract that same quantity when asked to subtract; any other mode is rejected or does nothing. Operations asked for the Jacobian of the first, the second or both arguments write exactly the requested ones, with the same value as when requested alone.",
     ["inputs"], "every operation with a mode argument, every mode, every prior output content",
     T + "only some modes of some parametrizations are sampled.",
     [I + "states/euclidean.hxx", I + "numdiff/state.hxx", I + "controls/poly-one.hxx", I + "controls/poly-two-rk.hxx", I + "controls/poly-zero.hxx", I + "numdiff/control.hxx", I + "control-base.hxx"],
     [("mode switch", I + "states/euclidean.hxx"), ("mode switch", I + "controls/poly-one.hxx")])

prop("C08", "Matrix algebra is dimensionally consistent for every state space",
     "In every assignment, sum, product and block operation on vectors and matrices, the operand dimensions agree for every state manifold and model, including those where the state, its tangent space, the configuration, the velocity and the control all have different sizes. No operation relies on two of these sizes being equal by accident.",
     ["configurations"], "every dimension of state, tangent, configuration, velocity, control, residual and constraints",
     "Dimension assertions are compiled out of the build, and the sampled models have coinciding sizes (state and tangent sizes are equal in every Euclidean test).",
     [I + "integrator/euler.hxx", I + "integrator/rk.hxx", I + "actions/lqr.hxx", "src/core/solvers/ddp.cpp", "src/core/solvers/intro.cpp", "src/core/solvers/kkt.cpp", I + "states/euclidean.hxx"],
     [("data constructors fix the sizes", I + "action-base.hpp"), ("buffers sized per node", "src/core/solvers/ddp.cpp")])

prop("C09", "A solver reports success only when its criteria hold",
     "A solve call returns success only if the current trajectory is dynamically feasible and the stopping measure, recomputed in the last iteration, is below the user's threshold. It returns failure when the iteration budget runs out or the regularization saturates.",
     ["inputs", "histories"], "every problem, warm start and parameter setting, every exit of the solve loop",
     "No solver runs in the stable tests; each run would only sample one exit of the loop.",
     ["src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/intro.cpp", "src/core/solvers/kkt.cpp"],
     [("success exit of the iteration loop", "src/core/solvers/fddp.cpp"), ("success exit of the iteration loop", "src/core/solvers/ddp.cpp")])

prop("C10", "An accepted step commits the candidate consistently",
     "When a line search accepts a step, the candidate states and controls become the current trajectory, the stored cost and feasibility are the candidate's, and derivatives are recomputed before the next direction is used. A rejected step changes neither the current trajectory nor its cost.",
     ["inputs", "histories"], "every sequence of accepted and rejected steps",
     "No solver runs in the stable tests; an inconsistent commit still converges on easy problems.",
     ["src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/intro.cpp", "src/core/solvers/kkt.cpp", "src/core/solver-base.cpp"],
     [("acceptance branch of the line search", "src/core/solvers/ddp.cpp"), ("candidate commit", "src/core/solver-base.cpp")])

prop("C11", "Regularization stays in range and every failure raises it",
     "The regularization used by a solver always stays between the user's minimum and maximum and is never left unset. A direction that cannot be computed raises the regularization before the next attempt and the solve gives up, reporting failure, once the maximum is reached; it never retries with the same regularization.",
     ["inputs", "fault_sequences"], "every sequence of failed and successful direction computations",
     "No solver runs in the stable tests and none of them produces a failing factorization.",
     ["src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/intro.cpp", "src/core/solvers/kkt.cpp"],
     [("saturated increase and decrease", "src/core/solvers/ddp.cpp"), ("retry loop around the direction", "src/core/solvers/fddp.cpp")])

prop("C12", "Diverged numbers are never accepted silently",
     "A rollout, backward pass or factorization that produces a NaN, an infinite or a numerically exploded value, or whose matrix factorization reports failure, raises an exception before the value is used for a step. The check covers every node and the terminal node.",
     ["inputs"], "every node, every magnitude of the computed quantities",
     "No solver runs in the stable tests.",
     ["src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/box-ddp.cpp", "src/core/solvers/box-fddp.cpp", "src/core/solvers/intro.cpp"],
     [("value checks of the rollouts", "src/core/solvers/fddp.cpp"), ("value checks of the Riccati sweep", "src/core/solvers/ddp.cpp")])

prop("C13", "Box-constrained controls stay inside their limits",
     "In the box-constrained solvers, every control handed to the dynamics by a rollout lies within the node's lower and upper limits whenever the node has limits. Every solution returned by the box quadratic solver lies within the bounds it was given, whichever way the solver terminates.",
     ["inputs"], "every warm start, step length, direction and bound",
     "A few random quadratic programs are sampled; rollouts are not tested at all.",
     ["src/core/solvers/box-ddp.cpp", "src/core/solvers/box-fddp.cpp", "src/core/solvers/box-qp.cpp"],
     [("projection of the control", "src/core/solvers/box-ddp.cpp"), ("projection of the iterate", "src/core/solvers/box-qp.cpp")])

prop("C14", "A problem keeps every node's model and data paired",
     "A shooting problem always holds one data object per running model plus one for the terminal model, created by that model or verified to belong to it, through construction, appends, updates, replacement of the running models and copies. Evaluation uses each node's own model, data, state and control.",
     ["histories"], "every sequence of updates, appends and replacements",
     "The problem class is not exercised by the stable tests.",
     [I + "optctrl/shooting.hxx", I + "optctrl/shooting.hpp"],
     [("paired containers", I + "optctrl/shooting.hxx")],
     state=[("running models/datas", "one data per running model", I + "optctrl/shooting.hpp")])

prop("C15", "Every node is visited exactly once",
     "Each sweep over the horizon (evaluation, differentiation, rollout, direction, step, feasibility and cost sums) covers every running node exactly once and treats the terminal node separately, forwards or backwards as the recursion requires. No stage access falls outside the horizon.",
     ["configurations"], "every horizon length, including an empty one, and every node",
     "The sweeps are not exercised by the stable tests; an off-by-one is hidden when neighbouring nodes are identical.",
     [I + "optctrl/shooting.hxx", "src/core/solver-base.cpp", "src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/intro.cpp", "src/core/solvers/kkt.cpp"],
     [("loops over running nodes", I + "optctrl/shooting.hxx"), ("Riccati sweep", "src/core/solvers/ddp.cpp")])

prop("C16", "Registries of costs and constraints keep exact dimension counts",
     "After any sequence of adding, removing, activating and deactivating costs or constraints, the reported total and active dimensions equal the sums over the registered and the active items, and an item is listed as active or inactive, never both. A rejected operation (duplicate or unknown name) changes nothing.",
     ["histories"], "every sequence of registry operations, including rejected ones",
     "The registries are not exercised by the stable tests.",
     [I + "costs/cost-sum.hxx", I + "constraints/constraint-manager.hxx"],
     [("running totals", I + "costs/cost-sum.hxx"), ("running totals", I + "constraints/constraint-manager.hxx")])

prop("C17", "Stacked constraints and costs occupy their own slots",
     "When several constraints are evaluated together, each active one writes its values, Jacobians and bounds to its own contiguous rows, in the same order everywhere, and the rows add up to the reported dimensions. Inactive items contribute nothing, and each cost contributes its own weight exactly once to the value and to every derivative.",
     ["configurations", "histories"], "every set of registered items, every activation pattern",
     "The registries are not exercised by the stable tests.",
     [I + "constraints/constraint-manager.hxx", I + "costs/cost-sum.hxx"],
     [("row offsets", I + "constraints/constraint-manager.hxx"), ("weighted sums", I + "costs/cost-sum.hxx")])

prop("C18", "No object starts with an undefined setting",
     "However a model, problem, solver or data object is constructed, each of its scalar settings, counters, flags and pointers has a defined value before the constructor returns. No behaviour depends on leftover memory.",
     ["configurations"], "every constructor of every class",
     "An undefined flag usually reads as zero in a test process; only some constructors are called by tests.",
     [I + "action-base.hxx", I + "state-base.hxx", I + "actions/lqr.hxx", I + "optctrl/shooting.hxx", "src/core/solvers/ddp.cpp", I + "residuals/joint-effort.hxx"],
     [("constructor initialisers", I + "action-base.hxx")])

prop("C19", "Models create and recognise their own data",
     "The data object that a model creates is always of the kind the model's own evaluation expects, is built for that very model, and passes the model's own consistency check. The consistency check rejects null or foreign data instead of accepting it.",
     ["configurations"], "every model class, every data object",
     "Evaluation reinterprets the data pointer without a run-time check, so a mismatch corrupts memory silently.",
     [I + "integrator/euler.hxx", I + "integrator/rk.hxx", I + "actions/lqr.hxx", I + "activations/quadratic-barrier.hpp", I + "costs/residual.hxx"],
     [("data factories", I + "actions/lqr.hxx"), ("data checks", I + "integrator/euler.hxx")])

prop("C20", "Profiling brackets are balanced on every exit",
     "Every profiled section that is entered is left exactly once on every way out of the function, including early returns and exceptions, so the profiler's totals stay meaningful and starting a section again never fails.",
     ["inputs", "fault_sequences"], "every path through every profiled function",
     "The profiler is off by default and error paths are not tested.",
     ["src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/box-ddp.cpp", "src/core/solvers/intro.cpp", "src/core/solvers/box-qp.cpp", I + "optctrl/shooting.hxx"],
     [("start/stop macros", I + "utils/stop-watch.hpp")])

prop("C21", "The nonlinear-programming view describes the problem it evaluates",
     "In the interior-point interface, the numbers of variables, constraints and non-zeros announced to the optimizer equal the number of entries filled by the bound, structure and value callbacks, for every horizon and model size. Structure and value callbacks enumerate the entries in the same order.",
     ["configurations"], "every horizon length and node dimension",
     "The optimizer interface is not exercised by the stable tests; a count mismatch overruns buffers.",
     ["src/core/solvers/ipopt/ipopt-iface.cpp"],
     [("problem sizes", "src/core/solvers/ipopt/ipopt-iface.cpp"), ("constraint Jacobian entries", "src/core/solvers/ipopt/ipopt-iface.cpp")])

prop("C22", "Numerical differentiation perturbs and restores one coordinate",
     "Numerical differentiation evaluates the model at points that differ from the nominal one in a single perturbed coordinate, undoes each perturbation before the next one, and divides every difference by the step that was actually applied. The nominal evaluation is subtracted, never another perturbed one.",
     ["inputs"], "every model, dimension and step size",
     "Numerical differentiation is itself the oracle of the derivative tests, which are not part of the stable suite.",
     [I + "numdiff/action.hxx", I + "numdiff/diff-action.hxx", I + "numdiff/state.hxx", I + "numdiff/cost.hxx", I + "numdiff/residual.hxx", I + "numdiff/activation.hxx"],
     [("perturbation loops", I + "numdiff/action.hxx")])

prop("C23", "What is set is what is used and what is read back",
     "A setting changed through a setter is the one later evaluations use and the one the matching getter returns, with nothing else altered. Setting a value and reading it back gives that value.",
     ["inputs", "histories"], "every public setter/getter pair",
     "Most setters are never called by the stable tests.",
     [I + "solver-base.hpp", I + "integ-action-base.hxx", "src/core/solvers/ddp.cpp", "src/core/solver-base.cpp", "src/core/solvers/box-qp.cpp"],
     [("setters and getters", "src/core/solver-base.cpp")])

prop("C24", "Out-of-domain parameters are rejected",
     "Setters of numerical parameters with a documented domain (positive thresholds and regularizations, acceptance ratios between zero and one, non-negative sizes, ordered and positive step lengths) raise an exception for every value outside the domain and accept every value inside it.",
     ["inputs"], "every parameter setter, every value including the boundary",
     "Boundary values of parameters are not sampled.",
     ["src/core/solver-base.cpp", "src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/box-qp.cpp", "src/core/solvers/intro.cpp", I + "activations/smooth-1norm.hpp"],
     [("range guards", "src/core/solver-base.cpp")])

prop("C25", "Solver buffers follow a problem whose dimensions change",
     "When the models of a problem change their control or constraint dimension between solves, every solver buffer whose size depends on that dimension is resized before it is used. No buffer keeps the size of the previous problem.",
     ["histories"], "every sequence of problem changes followed by a solve",
     "No test changes a problem between solves.",
     ["src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/intro.cpp", "src/core/solver-base.cpp"],
     [("allocation", "src/core/solvers/ddp.cpp"), ("resizing", "src/core/solver-base.cpp")])

prop("C26", "Observers see every iteration",
     "Every completed iteration of a solver, including the last successful one, notifies all registered callbacks exactly once before the solver decides to stop or return. A user's callbacks therefore record the whole history.",
     ["histories", "inputs"], "every solver, every iteration, every way of ending an iteration",
     "No solver runs in the stable tests.",
     ["src/core/solvers/ddp.cpp", "src/core/solvers/fddp.cpp", "src/core/solvers/intro.cpp", "src/core/solvers/kkt.cpp"],
     [("callback loop", "src/core/solvers/fddp.cpp")])

prop("C27", "Warm starts are validated and stored completely",
     "A warm start with too few, too many or wrongly sized states or controls is rejected; an accepted one becomes the current trajectory in full, including its feasibility flag, and missing trajectories are replaced by the models' neutral state and zero controls.",
     ["inputs"], "every warm start trajectory, including empty and partially wrong ones",
     "No solver runs in the stable tests.",
     ["src/core/solver-base.cpp"],
     [("warm-start entry point", "src/core/solver-base.cpp")])

# --- not decidable by static analysis, kept for completeness --------------
prop("N01", "Analytical derivatives equal the true derivatives",
     "The derivatives computed by every model are the exact derivatives of the quantities it evaluates.",
     ["inputs"], "all states, controls and model parameters",
     "Derivative tests sample random points.", [I + "integrator/rk.hxx", I + "actions/unicycle.hxx", I + "activations/smooth-2norm.hpp"],
     [("derivative formulas", I + "actions/unicycle.hxx")])
prop("N02", "Integration and difference on the state manifold are inverse",
     "Integrating the difference between two states onto the first one returns the second one, and differencing an integrated tangent returns the tangent.",
     ["inputs"], "all states and tangent vectors", "Round trips are numerical and sampled.", [I + "states/euclidean.hxx"],
     [("state operations", I + "states/euclidean.hxx")])
prop("N03", "Integrators reach their order of accuracy",
     "The Euler and Runge-Kutta integrators approximate the continuous dynamics with the error order they are named after.",
     ["inputs"], "all dynamics and time steps", "Accuracy is a numerical limit.", [I + "integrator/rk.hxx", I + "integrator/euler.hxx"],
     [("Butcher tables", I + "integrator/rk.hxx")])
prop("N04", "Solvers decrease the merit function and converge",
     "On a well-posed problem each accepted step decreases the merit function and the solvers converge to a stationary trajectory.",
     ["inputs"], "all problems and warm starts", "Convergence is a property of numerical runs.", ["src/core/solvers/fddp.cpp", "src/core/solvers/intro.cpp"],
     [("expected improvement", "src/core/solvers/fddp.cpp")])
prop("N05", "Solutions satisfy the optimality conditions",
     "A converged solution satisfies the first-order optimality conditions of the optimal control problem and, for the box quadratic program, of the bounded quadratic program.",
     ["inputs"], "all problems", "Optimality is a numerical residual.", ["src/core/solvers/kkt.cpp", "src/core/solvers/box-qp.cpp"],
     [("KKT system", "src/core/solvers/kkt.cpp")])
prop("N06", "Rigid-body, contact and code-generated models are correct",
     "The multibody models, their data wiring, the Python bindings and generated code obey the same contracts as the core models.",
     ["inputs", "configurations"], "all robots and contact modes", "They need packages that are not installed and are not built here.",
     ["include/crocoddyl/multibody/fwd.hpp", I + "codegen/action-base.hpp"], [("multibody models", "include/crocoddyl/multibody/fwd.hpp")])
prop("N07", "Serial, parallel and scalar-type variants agree numerically",
     "Running with a different number of threads or converting a problem to single precision and back gives the same results up to rounding.",
     ["inputs", "schedules"], "all problems", "Agreement up to rounding is a numerical comparison of runs.", [I + "optctrl/shooting.hxx"],
     [("parallel evaluation", I + "optctrl/shooting.hxx")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
