"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PC = "paramz/core/parameter_core.py"; PD = "paramz/parameterized.py"; PR = "paramz/param.py"
CN = "paramz/core/constrainable.py"; IX = "paramz/core/indexable.py"; IO = "paramz/core/index_operations.py"
MD = "paramz/model.py"; CA = "paramz/caching.py"; TR = "paramz/transformations.py"; LD = "paramz/core/lists_and_dicts.py"
OB = "paramz/core/observable.py"; OA = "paramz/core/observable_array.py"; PK = "paramz/core/pickleable.py"
UP = "paramz/core/updateable.py"; NM = "paramz/core/nameable.py"; SC = "paramz/optimization/scg.py"
OP = "paramz/optimization/optimization.py"; VO = "paramz/optimization/verbose_optimization.py"
PT = "paramz/core/parentable.py"; IN = "paramz/__init__.py"; RR = "paramz/examples/ridge_regression.py"; GC = "paramz/core/gradcheckable.py"

prop("C01", "One storage for values and gradients at every level of a hierarchy",
 "In any parameter tree, at any time, a value written through any handle (leaf, leaf slice, intermediate node, root, regular-expression selection, flat array) is exactly what every other handle of the same tree reads, at the position given by the order of the parameters; the same holds for gradients. Trees that are not connected (a parameter that was unlinked, a parameter never linked, a copy) share nothing: writing one never changes the other.",
 ["histories", "programs"], "every history of link, insert, move, unlink, relink and assignment operations over a forest of nodes and leaves, of any shapes",
 "Tests check a handful of fixed trees after one construction; aliasing errors appear only after particular link/unlink orders (e.g. the last child removed and a new one linked).",
 [PD, PC, PR], [("link_parameter/unlink_parameter", PD), ("_connect_parameters", PD), ("_propagate_param_grad", PC), ("param_array", PC)],
 ["leaf.values", "node.param_array", "node[...]", "node.gradient", "leaf.gradient"],
 [("param_array buffers", "flat storage of a node, leaves are views into the root's", PC)])

prop("C02", "Linking, moving and unlinking keep every parameter's content",
 "Linking, inserting at an index, moving or unlinking a parameter changes neither the value, gradient, constraint nor fixed status of any element of any parameter. Afterwards each node's parameters are exactly those linked and not unlinked, in the requested order, each parameter has exactly one parent, and the size of every node is the total size of the leaves below it.",
 ["histories"], "every sequence of structural operations (append, insert at any index, move within a node, move between nodes, unlink, relink) interleaved with constraining and fixing, including subtrees",
 "Tests link and unlink once or twice in one place; index shifting of constraints and fixes depends on sizes, positions and depth, and on the history.",
 [PD, IX, IO, PC], [("link_parameter index shift", PD), ("unlink_parameter", PD), ("shift_left/shift_right/update", IO), ("_disconnect_parent/_parent_changed", IX), ("_offset_for", IX)],
 ["node.parameters", "node.size", "leaf.values", "constraints.items()", "is_fixed"])

prop("C03", "Refused operations change nothing",
 "An operation that is refused with an exception (linking a node below itself or a parameter twice, unlinking something that is not a child, an unusable name, an unknown or unsuitable constraint, invalid bounds, an assignment of the wrong shape, an unknown name) leaves values, structure, constraints, names and update behaviour of every involved object exactly as before. Every later valid operation works as if the refused one had never been tried.",
 ["histories", "inputs"], "every refused operation placed at every point of every bounded history of valid operations",
 "Tests assert that the exception is raised, never what state is left behind or whether the hierarchy is still usable.",
 [PD, PC, NM, CN, TR], [("HierarchyError in link/unlink", PD), ("traverse visited flags", PC), ("name setter", NM), ("Logistic bounds", TR)],
 ["full observable state before and after", "later operations"])

prop("C04", "Constraint bookkeeping is one consistent per-element map",
 "Every element carries at most one transformation plus, independently, a fixed mark; what is constrained through any handle (leaf, slice, node, root, selection) is reported identically at every level of the tree, each at its own offset, for exactly the elements addressed and no others. Constraining replaces an earlier transformation and fixed mark and moves values outside the domain into it while leaving values inside untouched; removing constraints (all or named ones) removes exactly those from exactly the addressed elements and reports which elements were freed.",
 ["histories", "inputs"], "every sequence of constrain, unconstrain, fix and unfix calls on every handle and index expression of a tree, before or after linking, interleaved with structural changes",
 "Tests constrain one fixed model in a few ways; overlaps, partial slices, offsets at depth and constraint-before-link orders multiply.",
 [CN, IX, IO, PR], [("constrain/unconstrain/fix", CN), ("_add_to_index_operations/_remove_from_index_operations", IX), ("ParameterIndexOperationsView", IO), ("_raveled_index", PR)],
 ["handle.constraints.items()", "handle.constraints.properties_for", "leaf values after constraining"])

prop("C05", "Fixed parameters stay put, are hidden from the optimizer, and come back",
 "A fixed element is absent from the optimizer's vector, from the optimizer's gradient and from the names of the free parameters, and keeps its value exactly through setting that vector, randomizing and optimizing, while every other element is reached. Unfixing restores the transformation it had before fixing; explicitly assigning a value to a fixed element works and it is then fixed at the new value.",
 ["histories", "inputs"], "every history of fixing and unfixing on leaves, slices, nodes and the root, mixed with constraining, linking, assignment, randomizing and optimizer-vector writes, observed from every level",
 "Tests fix single parameters on one model and look at the root; per-level masks go stale only in particular orders.",
 [CN, PC, IX, MD], [("constrain_fixed/unconstrain_fixed", CN), ("_ensure_fixes/_set_fixed/_connect_fixes", CN), ("optimizer_array", PC), ("randomize", PC)],
 ["optimizer_array", "parameter_names_flat", "leaf values", "is_fixed"])

prop("C06", "The optimizer vector is an exact view of the free parameters",
 "On any node at any time the optimizer vector equals the inverse-transformed current values of the free elements below it, in order, whatever happened before it is read. Writing a vector sets each free element to the transformation of its entry and nothing else, reading it back gives the same vector (up to rounding), and writing back what was read changes no parameter beyond rounding.",
 ["histories", "inputs"], "every history of value changes through any handle, constraint changes, fixes, structural changes, updates switched on or off, and vector reads and writes, on every node",
 "Tests read the vector after one change; a cached vector is stale only after particular change/read orders on particular nodes.",
 [PC, CN], [("optimizer_array getter/setter", PC), ("_optimizer_copy_transformed", PC)],
 ["node.optimizer_array", "leaf values"])

prop("C07", "Transformations are bijections onto their domain with correct derivatives",
 "For every transformation, mapping an optimizer value to a model value always lands in the declared domain, mapping there and back gives the same value in both directions within the range of the transformation wherever floating point can represent it, and the gradient factor, log-Jacobian and its gradient equal the true derivatives. Initialising moves any value into the domain and leaves values already inside untouched, and asking for the same transformation (same bounds, or a pickled copy) yields the same transformation.",
 ["inputs", "histories"], "every supported transformation, over a grid spanning all code branches (tails, limits, both signs) and array shapes, and every create/drop/recreate history of bounded transformations",
 "Tests check a few transformations on a central interval with one random draw.",
 [TR], [("f/finv/gradfactor/initialize/log_jacobian", TR), ("Logistic.__new__ instance list", TR)], ["transformation methods", "identity of instances"])

prop("C08", "Optimizers are given the objective and the chain-rule gradient of the free part",
 "Whatever vector an optimizer asks for, the objective it receives is the model's objective at the correspondingly transformed parameters with fixed ones unchanged, and the gradient it receives is the model's gradient times the derivative of each transformation, for exactly the free elements in order. This holds for all three callbacks, in any order of calls.",
 ["configurations", "inputs", "histories"], "every assignment of {no constraint, each transformation, fixed} to the elements of a tree, each callback, each call order and each query vector in a bounded grid",
 "Tests run gradient checks on a few random models and cannot see a wrong order or stale gradient in rare constraint mixtures.",
 [MD, PC, TR], [("_objective/_grads/_objective_grads", MD), ("_transform_gradients", PC)], ["callbacks received by an optimizer"])

prop("C09", "The gradient checker's verdict is right and it leaves the model alone",
 "Checking gradients passes when the analytical gradient of every free selected element matches the objective and fails when any of them is clearly wrong (for the step and tolerance asked for), in summary and in verbose mode, for the model, a node, a leaf, a slice or a multi-parameter selection. In verbose mode each free selected element is listed once, in order, under its name, with its analytical and numerical gradient and its own verdict. Elements that are not selected or fixed do not influence the verdict, and all parameters, constraints and fixes are afterwards as before.",
 ["configurations", "inputs"], "every placement of a gradient error, every fix and constraint pattern, every target handle, every sign pattern of the perturbation",
 "Tests check correct models and one wrong one; the index mapping between the target and the free elements depends on fix patterns and offsets.",
 [MD, GC, IX, PR], [("_checkgrad", MD), ("_raveled_index_for_transformed", IX), ("checkgrad", GC)], ["return value of checkgrad", "parameter values afterwards"])

prop("C10", "Every change re-evaluates exactly the affected part, children before parents",
 "After any assignment of parameter values, through any handle, and after applying or re-applying a constraint, with updates on, every node whose parameters changed, and all its ancestors, has been re-evaluated, children before parents, with the final values visible; assigning to a leaf or one of its slices re-evaluates each ancestor exactly once and nothing else. With updates off nothing is re-evaluated, and switching them on (or toggling them) from any node brings every node of the tree up to date. An update asked for explicitly evaluates the nodes below and above, and only these.",
 ["histories", "programs"], "every history of assignments through leaves, slices, nodes, selections and the optimizer vector, constraint changes, structural changes and update switches from every node",
 "Tests count re-evaluations for two or three assignments on one model; derived state goes stale only after particular handle and update-switch orders.",
 [OB, UP, PC, PR], [("notify_observers/min_priority", OB), ("_trigger_params_changed", PC), ("trigger_update/update_model", UP), ("_pass_through_notify_observers", PC)],
 ["calls of the user's parameters_changed()", "values seen inside it"])

prop("C11", "Observers are called by priority, exactly once, while registered and alive",
 "A notification calls every registered callback exactly once per registration, highest priority first and in registration order within a priority, passing the changed object; a minimum priority excludes exactly the callbacks at or below it. Removing an observer (or one of its callbacks), changing its priority, or letting it be garbage collected removes exactly those registrations, for any kind of observer object, and registering never keeps an observer alive.",
 ["histories"], "every history of add, remove, re-prioritise, drop, notify and update on/off over several observers, callbacks and priorities, including equal-comparing and array observers",
 "Tests use two observers in one order; ordering and removal depend on the history and on the observer's equality.",
 [OB, LD], [("ObserverList.add/remove/flush", LD), ("notify_observers", OB)], ["sequence of callback calls", "weakrefs of observers"])

prop("C12", "Observable arrays behave as arrays and report every in-place change",
 "Every in-place operation on an observable array (item assignment with any index, every augmented assignment operator, through the array or a view of it) performs the same change as on a plain array and notifies each observer exactly once after the change; operations that do not change it notify nobody. Results of arithmetic and comparison operators, universal functions and sums are plain arrays that share neither memory nor observers with it, and copies are observable, equal and have no observers.",
 ["programs", "inputs"], "every sequence up to a bound of operators, index expressions, dtypes, views and copies",
 "Tests exercise a few operators on one array.",
 [OA], [("__setitem__ and augmented operators", OA), ("__array_wrap__/__array_finalize__", OA), ("copy/__deepcopy__", OA)], ["array contents", "observer calls"])

prop("C13", "A cached function never returns a stale or foreign result",
 "A cached function or method returns, for every call, what the underlying function would return for the current contents of the arguments, whatever happened before: in-place changes of an argument (through the array, a view of it, or any handle of a hierarchy), earlier calls, evictions, keyword spellings, failures, resets, enable/disable switches, also when called re-entrantly or by an observer of an argument. Each object, and each copy of it, has its own cache for its own methods, and arguments that cannot be tracked are simply not cached.",
 ["histories", "fault_sequences"], "every history of calls with overlapping arguments, in-place changes of arguments and their views, switches, resets, garbage collection and failing calls",
 "Tests check a handful of call/change orders on one array argument.",
 [CA, OB, OA], [("Cacher.__call__/on_cache_changed/ensure_cache_length/add_to_cache/reset", CA), ("Cache_this", CA)], ["return values of the cached callable"])

prop("C14", "Caches reuse results, stay within their limit and recover from failures",
 "While its arguments are unchanged and fewer than the limit of other argument combinations were stored since its result was, a repeated call returns the stored result without calling the function again; at most the limit of results is kept and the oldest is dropped first, and a call forced to recompute always calls the function. A failing call propagates its exception, caches nothing and leaves the cache working; disabling (on the cache or on the object or tree owning it) forgets all results, and dropping results removes the cache's hold on the arguments.",
 ["histories", "fault_sequences"], "every history of calls, changes, failures, resets and switches for each small limit, ignore and force setting",
 "Tests look at one limit and one eviction.",
 [CA], [("ensure_cache_length", CA), ("add_to_cache", CA), ("reset/disable_cacher/enable_cacher", CA), ("FunctionCache", CA)], ["number of calls of the wrapped function", "observers of the arguments"])

prop("C15", "Copies are equal and completely independent",
 "A copy of a leaf, node or model taken at any time has the same values, structure, names, constraints, fixes and optimizer vector, has no parent, and works like a freshly built one (re-evaluates, can be linked, optimized, copied again). No later operation on either side (assignment, gradient, constraint, fix, link, rename, cached methods) is visible on the other.",
 ["histories"], "every copy point in every bounded history, of every object in the tree, followed by every operation on either side",
 "Tests copy one model and compare a few arrays.",
 [PK, PD, PR, CA], [("copy/__deepcopy__", PK), ("Parameterized.copy", PD), ("Param.__deepcopy__", PR), ("Cacher.__deepcopy__", CA)], ["all observables of both sides"])

prop("C16", "Pickling round trips restore an equal, working object",
 "Pickling any leaf, node or model to bytes or a file and loading it gives an object with the same values, structure, names, constraints, fixes, optimizer vector and update behaviour, that re-evaluates on change and accepts every later operation (including unfixing and removing the loaded constraints) exactly as the original does. The original is not affected.",
 ["histories"], "every dump point in every bounded history, every protocol from 2 on, followed by every operation on the loaded object",
 "Tests pickle a few models and compare arrays; loaded objects are hardly operated on.",
 [PK, PD, PR, OA, IN], [("__getstate__/__setstate__", PK), ("Parameterized.__setstate__", PD), ("ObsAr.__reduce__", OA), ("load", IN)], ["all observables of the loaded object"])

prop("C17", "Names stay unique and resolve to the right parameter",
 "After any sequence of linking, renaming, unlinking and moving, siblings have distinct names, each is reachable as an attribute of its parent under its printable name (unless that is taken by an attribute of the library, which keeps working) and under no stale name, and hierarchical and flat name lists follow the parameter order and point to the matching element. A regular-expression lookup selects exactly the parameters below the node whose hierarchical name matches, and assigning to a name assigns that parameter.",
 ["histories", "inputs"], "every sequence of link, rename, unlink, relink and move with colliding, numbered and special-character names, and every lookup in each state",
 "Tests resolve one or two collisions.",
 [PC, NM, PD], [("_add_parameter_name/_remove_parameter_name/_name_changed", PC), ("adjust_name_for_printing/hierarchy_name", NM), ("grep_param_names", PD)], ["getattr", "parameter_names", "parameter_names_flat", "node['regex']"])

prop("C18", "Index expressions on a parameter address the elements NumPy would",
 "For every single index expression (integers, slices, boolean masks, integer arrays, mixtures, ellipsis, new axes) on a parameter of any shape, reading and writing values, constraining, fixing, unfixing and unconstraining through it act on exactly the elements a plain array would select, and no others. Gradients, printed indices and whether it is fixed are those of the same elements. Positions given to a node (an integer, slice, tuple or integer or boolean array) select among its flattened values in the same way.",
 ["inputs", "programs"], "every index expression of a bounded grammar over shapes of up to three dimensions, times each operation",
 "Tests use three or four slices on one- and two-dimensional parameters.",
 [PR, IX, CN], [("__getitem__/_raveled_index/_indices", PR), ("constrain on slices", CN)], ["values", "constraints of the full parameter"])

prop("C19", "A multi-parameter selection behaves as the flat concatenation of its members",
 "A selection of several parameters reads, assigns (any index, scalar or array), updates in place and compares as the flat concatenation of its distinct leaves, however often it is used, with all owners re-evaluated after the change. Constraining, fixing, unfixing, unconstraining and gradient checking through it have the same effect as doing so on every member.",
 ["inputs", "histories"], "every regular-expression selection of a tree, every index and value shape, every operation, repeated on the same selection object",
 "Tests assign to a whole selection once.",
 [PR], [("ParamConcatenation", PR)], ["values of all members", "constraints", "re-evaluation calls"])

prop("C20", "Objective failures while optimizing are tolerated up to the limit, then raised",
 "While an optimizer runs, numerical failures of the objective or gradient (linear-algebra, division and value errors) are reported to it as an infinite objective and finite, bounded gradients, as long as no more than the allowed number occur without a success in between; one more raises the original exception, and any success resets the count. Other exceptions are raised at once, and after a failure or a raise the model evaluates correctly at the next vector.",
 ["fault_sequences"], "every success/failure sequence up to a length, each failing site (update, objective, gradient), each exception type, each callback and callback mixture",
 "These branches are excluded from test coverage.",
 [MD], [("_objective/_grads/_objective_grads failure counting", MD)], ["values returned to the optimizer", "exceptions"])

prop("C21", "Optimizing leaves the model at the reported optimum; restarts keep the best",
 "After an optimization the model's parameters are those of the vector the optimizer reported, the run is recorded once (with the objective there and the number of evaluations made, which stays within what was allowed), and fixed parameters are unchanged; starting from an explicit start vector works the same. Random restarts leave the model at the best finite result among this call's successful runs, whichever run it was, serial or parallel, and at its original parameters if all fail; failures are raised or tolerated as requested. Limits and tolerances asked for are honoured and the status names the reason to stop; odd objectives (not-a-number, infinite, constant, unbounded) end in a recorded run, not in another exception.",
 ["fault_sequences", "programs", "histories"], "every combination of per-restart outcomes (values, ties, infinities, not-a-number, exceptions), serial and parallel, robust or not, after earlier optimizations",
 "Tests run real optimizers on convex problems where every restart finds the same optimum.",
 [MD, OP], [("optimize", MD), ("optimize_restarts", MD), ("opt_* wrappers", OP)], ["parameters after the call", "optimization_runs", "exceptions"])

prop("C22", "Scaled conjugate gradients reports only what it has seen and never gets worse",
 "For every objective, the scaled-conjugate-gradient optimizer returns a point at which it evaluated the objective, its recorded objective values never increase, the last one is the objective at the returned point, and the number of evaluations it reports is the number it made. It stops within its iteration limit with a status that names the reason, and does not modify its starting vector. A trial which made things worse is not followed by a longer one, and on smooth convex objectives it arrives at the minimum. It evaluates finite points only, as long as the answers are finite.",
 ["fault_sequences", "inputs"], "every sequence of environment answers (objective better, equal, slightly or much worse, infinite; gradients of each sign, zero, changing curvature) up to an iteration bound",
 "Tests optimize a few smooth functions.",
 [SC, OP], [("SCG main loop", SC), ("opt_SCG", OP)], ["return value of the optimizer", "calls of f and gradient"])

prop("C23", "Building a model late, loading and saving give the same model",
 "A model whose parts were built without initialization (or inside of its __init__) and initialized later, or built, switched off, initialized, assigned saved parameters and switched on again, equals one built eagerly by the same steps: values, constraints, fixes, names and re-evaluated state. Already before initialization, constraints, fixes and assignments reach exactly the parameters they were made on. Until it is initialized, assignments through nodes are refused rather than lost.",
 ["programs", "histories"], "every interleaving of deferred and eager construction steps (link, constrain, fix, assign to leaves, initialize) of nested models",
 "Tests build one model deferred.",
 [PD, PC, UP], [("ParametersChangedMeta", PD), ("initialize_parameter", PC), ("update_model", UP)], ["all observables of both models"])

prop("C24", "Index-operation containers behave as a map from property to index set",
 "A container of indexed properties, and every view of it at any offset, behaves as a mapping from property to a set of indices: adding unions, removing subtracts and returns what was removed, shifting moves or drops exactly the indices at and behind a position, copies are equal and independent, and queries per index or per property agree. A view shows and changes exactly the part of the container in its window.",
 ["histories", "inputs"], "every sequence of container and view operations over small index universes, properties, offsets and window sizes",
 "Tests run one sequence of operations.",
 [IO, LD], [("ParameterIndexOperations", IO), ("ParameterIndexOperationsView", IO)], ["items/properties/indices/properties_for/size"])

prop("C25", "Looking at a model never changes it and shows the truth",
 "Printing (text, HTML, representation), reading values, gradients, names, constraints, slices, selections and optimizer vectors never changes any value, structure, constraint or later behaviour. The printed tables list every parameter in order with its current value or shape, its constraint and its fixed mark.",
 ["histories", "configurations"], "every read operation in every state of a bounded exploration, followed by every operation",
 "Tests print a few models and compare fixed strings.",
 [PD, PR, MD], [("__str__/_repr_html_", PD), ("__str__/_repr_html_", PR), ("__str__", MD)], ["state before and after", "printed text"])

prop("C26", "Progress reporting has no influence on the optimization",
 "Optimizing with messages on gives the same parameters, objective values, calls and recorded runs as with messages off, for every optimizer outcome including failures. Afterwards, also after an exception, no observer stays behind, and the printed runtime is the elapsed time.",
 ["fault_sequences", "configurations"], "every optimizer script (evaluations, failures, extreme values) up to a bound and every clock advance pattern crossing each formatting threshold",
 "Tests run the printing once per time scale with a fixed string.",
 [VO, MD], [("VerboseOptimization.__enter__/print_status/__exit__", VO), ("exponents/print_out", VO)], ["parameters and runs with and without messages", "observers", "printed text"])

prop("C27", "The ridge-regression example computes its documented objective",
 "For every data set, degree, regularizer, weights and sequence of weight, data and caching changes, the example regression model's objective, gradient, predictions and per-degree components equal the closed formulas for the current weights and data.",
 ["inputs", "histories"], "every small data shape, degree, regularizer and every bounded history of weight assignments, in-place data changes followed by an update, copies and caching switches",
 "Tests check the gradient on one data set per regularizer.",
 [RR, CA], [("RidgeRegression.parameters_changed/predict/phi", RR), ("Ridge/Lasso", RR), ("Basis._basis Cacher", RR)], ["objective_function", "gradient", "predict", "phi"])

prop("C28", "Further properties of elements follow them as the constraints do",
 "Besides constraints, parameters can carry further indexed properties (such as priors), declared by add_index_operation. Whatever is attached to elements of a parameter, through the parameter, a slice or a node above it, stays with exactly these elements through linking, moving, unlinking, transfer to another tree, constraining, fixing, copying, deep copying and pickling, is seen alike from every level, and is independent of the constraints, the fixes and the other properties. Printed tables show it at its parameter.",
 ["histories"], "every bounded history of attaching and detaching properties at every level, structural changes, constraints, copies and pickles",
 "No test carries an index operation other than the constraints through a structural change.",
 [IX, PD, PR, CN], [("add_index_operation/remove_index_operation/_disconnect_parent/_parent_changed", IX), ("link_parameter/unlink_parameter", PD), ("_setup_observers/__setstate__/copy", PD)], ["indexed properties at every level", "printed tables", "constraints, values"])

prop("C29", "Anything array-like can become a parameter, and is left as it was",
 "A parameter or observable array can be built from anything array-like (scalars, nested lists, any real dtype, order, strides, read-only memory, views, observable arrays and other parameters, linked or constrained ones): it has the given name, the type asked for, the shape and values as floats, no constraint, observer or parent of its source, and works as any other. The source keeps its type, values, name, observers, constraints, parent and links, and once linked the two share no memory.",
 ["inputs", "histories"], "every combination of source kind, shape, dtype, memory layout, default constraint and what is done next",
 "Tests build parameters from fresh float arrays.",
 [PR, OA], [("Param.__new__/__init__", PR), ("ObsAr.__new__/__init__", OA), ("_connect_parameters", PD)], ["type, name, dtype, shape, values", "the source and its observers", "memory sharing after linking"])

prop("C30", "A failing evaluation reaches the caller and leaves a consistent, usable model",
 "When the user's parameters_changed or an observer's callback raises, whatever the type of the exception and wherever in the re-evaluation it occurs, this same exception comes out of the operation (assignment through any handle, optimizer vector, randomize, constrain, fix and their removal, update switches). Afterwards every element has its value, constraint and fixed mark of either before or after the operation and lies in the domain of its constraint, structure, names and gradients are intact, the update switch reads alike everywhere, and every later operation works and re-evaluates as on a model where nothing failed.",
 ["fault_sequences", "histories"], "every operation, every call of user code in it failing, every type of exception, before and after every other operation",
 "No test lets an evaluation fail outside of an optimization.",
 [OB, UP, CN, PC, PR, PD], [("notify_observers", OB), ("update_model/trigger_update", UP), ("constrain/fix", CN), ("optimizer_array/traverse", PC), ("ParamConcatenation updates", PR)], ["exceptions", "values, constraints, marks, switches after the exception", "later evaluations"])

prop("C31", "Observers on any part of a tree are told of each change below it",
 "A callback registered at a leaf or node of a hierarchy is called for every change of a value at or below it, through whatever handle, by priority, before the callbacks and evaluation of the node above, told which parameter changed, and sees the final values; an assignment to a leaf or one of its slices calls each callback from there to the root exactly once, and nobody else. It is not called for changes elsewhere, reads, gradients, structural changes or while updates are off. Registrations survive linking, moving and unlinking unchanged, also those of a node observing its own parameters.",
 ["histories"], "every bounded history of registering, removing, structural changes, constraint changes and assignments through every handle",
 "Tests count the calls of one observer after one kind of assignment.",
 [OB, PC, PD, PR], [("add_observer/remove_observer/notify_observers", OB), ("_pass_through_notify_observers/_setup_observers", PC), ("link_parameter/unlink_parameter", PD), ("_trigger_params_changed", PC)], ["sequence of callback calls, their arguments and what they see"])

prop("C32", "Traversals visit exactly the documented parameters, also within traversals",
 "traverse visits a node and everything below it once each, parents before children, siblings in their order; traverse_parents visits all ancestors from the topmost, each followed by what is below it, except the branch come from. This also holds for a traversal started by the visitor of another one, so that everything which is built on them (selection by regular expression, copying, deepcopy, pickling, switching updates and caching, constraining, printing, linking names) works from within a visitor, to any nesting depth. A visitor which raises, or a copy made during a traversal, leaves everything traversable; the visitor gets the extra arguments.",
 ["inputs", "histories"], "every shape of hierarchy, start, nesting of traversals and action within them",
 "Tests traverse one hierarchy once, and do nothing within a visitor.",
 [PC, PD, UP], [("traverse/_traverse/traverse_parents", PC), ("grep_param_names/__getitem__", PD), ("update_model", UP)], ["sequence of visited parameters", "results of operations called by the visitor"])

prop("C33", "Independent models do not influence each other, also in different threads",
 "Two models which share no parameter behave as if the other one did not exist: each result and the whole state (values, vector, constraints, fixes, gradients, evaluations, names, caches, observers, runs) after each operation of one are the same whatever is done to the other before, between or at the same time in another thread, and whichever of them is the first to use a constraint, although both use the same transformation objects. This includes copies and unpickled models, refused constraints and models which are thrown away.",
 ["schedules", "histories"], "every order of the operations of two models, and every interleaving in two threads with a bounded number of preemptions",
 "Tests use one model at a time, in one thread.",
 [TR, PC, CN], [("Transformation.__new__/Logistic.__new__", TR), ("Constrainable", CN), ("Parameterizable", PC)], ["results of operations of one model while another one is used", "exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
