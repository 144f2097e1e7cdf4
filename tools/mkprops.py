#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

T0 = "The ten stable tests only compare the first-order policy matrices of five bundled models; "

prop("C01", "Arithmetic expressions mean what standard precedence says, or are rejected",
 "Evaluating an arithmetic or comparison expression yields the value given by standard precedence (power right-associative and binding tighter than sign, sign tighter than or equal to product, product/quotient and sum/difference left-associative, at most one comparison), with names taken from the supplied scope and functions applied to their argument. The same text has the same meaning wherever an expression can occur: stand-alone, as a parameter definition, in a model equation. Text that is not a complete expression of this grammar (dangling or doubled operators, unbalanced parentheses, two operands side by side, trailing tokens) is rejected with an exception instead of being given a value.",
 ["inputs"], "every expression string over the operator, parenthesis, number, name, function and comparison tokens",
 T0 + "they never evaluate a stand-alone expression and no bundled model has an unusual operator sequence.",
 ["pynare/parsing/lexer.py", "pynare/parsing/parser.py", "pynare/parsing/base.py", "pynare/parsing/api.py"],
 [("recursive descent over atom/call/exponent/term/expr", "pynare/parsing/parser.py:BaseParser"),
  ("model-expression twins of the same grammar", "pynare/parsing/parser.py:DynareParser.mexpr"),
  ("tree evaluation", "pynare/parsing/base.py:_BaseEvaluator")],
 ["pynare.parsing.evaluate", "pynare.Model"])

prop("C02", "Comments and whitespace never change a model, and reading always ends",
 "Inserting whitespace, end-of-line comments (% or //) or block comments (/* ... */) between any two tokens of a model file leaves every extracted piece of the model unchanged, whatever text the comments contain and wherever they stand, including at the very start or end of the file. Reading any text terminates, with a model or an exception; an unterminated block comment or string is an exception.",
 ["inputs"], "every placement and content of comments and whitespace between tokens, and every short character string",
 T0 + "the comments of the bundled files sit in a handful of easy places.",
 ["pynare/parsing/lexer.py", "pynare/parsing/parser.py"],
 [("comment and whitespace skipping", "pynare/parsing/lexer.py:DynareLexer")], ["pynare.Model.from_path"])

prop("C03", "A model file is accepted exactly when it is well formed",
 "A model file that declares every name once, uses only declared names and, in definitions, only names that already have a value, assigns values only to parameters and helper names, uses helper names only outside the model equations, gives leads or lags only to endogenous variables, sets boundary values only for endogenous variables and shock moments only for exogenous variables, and closes every block is accepted, whatever the order of its preamble declarations and of its post-model blocks and whether or not optional blocks are present. A file breaking any one of these rules is rejected with an exception, never silently loaded.",
 ["programs"], "every sequence of declarations, assignments, model statements, boundary and shock blocks",
 T0 + "all are well-formed files of nearly the same shape; no rejected file is tested.",
 ["pynare/parsing/parser.py", "pynare/parsing/semantics.py", "pynare/parsing/factory.py"],
 [("scoped symbol checks", "pynare/parsing/semantics.py:DynareSemanticAnalyzer"), ("block grammar", "pynare/parsing/parser.py:DynareParser")],
 ["pynare.Model.from_path", "pynare.parsing.read_model"])

prop("C04", "What a model file says is what the loaded model contains",
 "The model loaded from an accepted file has exactly the declared endogenous and exogenous variables in declaration order, every parameter at the value its definition denotes, every model-local name at its value, one equation per model statement in file order (left side minus right side), the boundary values assigned to each endogenous variable, and for every shock the variance (standard error squared), covariance or correlation written in the file.",
 ["programs"], "every accepted model file over the statement kinds of the language",
 T0 + "extracted boundary values, shocks and locals are never looked at directly.",
 ["pynare/parsing/factory.py", "pynare/parsing/ast.py", "pynare/core/model.py"],
 [("outline construction", "pynare/parsing/factory.py:DynareModelFactory"), ("model from outline", "pynare/core/model.py:Model.from_outline")],
 ["pynare.Model.from_path"])

prop("C05", "Parameter values always solve the current set of parameter definitions",
 "At every moment each parameter's value is the value of its latest definition evaluated at the current values of the parameters it refers to, independent of the order of definitions and of the history of assignments and deletions; assigning one parameter re-evaluates everything that depends on it. A set of definitions that is circular, or refers to an unknown name, is rejected with an exception and a rejected assignment leaves the previous calibration in force.",
 ["histories", "inputs"], "every sequence of assignments and deletions over definitions that are numbers or expressions in other parameters",
 T0 + "no test assigns a parameter after construction.",
 ["pynare/core/variables.py"],
 [("definition ordering", "pynare/core/variables.py:order_precedence"), ("solve on every assignment", "pynare/core/variables.py:ModelCalibration"), ("evaluation in order", "pynare/core/variables.py:solve_calibration")],
 ["pynare.core.variables.ModelCalibration", "Model.params"])

prop("C06", "Variable timing classes partition the variables and orderings are inverse",
 "Every endogenous variable is classed as static, purely backward, mixed or purely forward exactly according to the periods (previous, current, next) at which it occurs anywhere in the equations, and the reported counts and index sets agree with that classification. Decision-rule order lists the static, purely backward, mixed and purely forward variables in that sequence, each class in declaration order, each variable exactly once, and declaration order is its inverse permutation; a variable that occurs nowhere, or with a lead or lag longer than one period, is an exception.",
 ["inputs", "configurations"], "every assignment of non-empty period sets to the variables, in every declaration order",
 T0 + "the five models contain few of the possible timing patterns.",
 ["pynare/core/variables.py", "pynare/core/generic.py"],
 [("lead-lag counting", "pynare/core/variables.py:read_lead_lags"), ("index manager", "pynare/core/variables.py:VariableIndexManager")],
 ["Model.indexes", "Model.state_vars"])

prop("C07", "Dynamic and static equation residuals equal the written equations",
 "Evaluating the dynamic representation at any point gives, for each equation in order, left side minus right side at those lagged, current, leading and shock values (shocks zero when omitted) with the current parameter values; the static representation gives the same with all periods of a variable equal and shocks zero. Arguments are ordered by period, then declaration order, then shocks, and a wrong number of arguments is an exception.",
 ["inputs"], "every model equation and evaluation point",
 T0 + "residuals away from the steady state are never evaluated.",
 ["pynare/core/expressions.py", "pynare/parsing/base.py"],
 [("dynamic function", "pynare/core/expressions.py:dynamic_func"), ("static function", "pynare/core/expressions.py:steady_func")],
 ["Model.dynamic_repr", "Model.steady_repr"])

prop("C08", "Jacobian and Hessian are the exact derivatives in the documented layout",
 "The dynamic Jacobian and Hessian hold the first and second partial derivatives of every equation at the steady state with zero shocks; the static Jacobian holds those of the static equations. Columns run over lagged, current and leading occurrences in declaration order and then the shocks, and Hessian columns run over all ordered pairs of these.",
 ["inputs"], "every differentiable model and timing pattern",
 T0 + "second derivatives are never compared with anything.",
 ["pynare/core/linearizing.py"],
 [("automatic differentiation", "pynare/core/linearizing.py:Linearization"), ("Hessian", "pynare/core/linearizing.py:ModelHessian")],
 ["Model.jacobian", "Model.hessian", "Model.ss.jacobian"])

prop("C09", "The computed steady state solves the static equations",
 "The steady state found from the model's initial values makes every static equation hold within the tolerance of the search, lists the variables in declaration order, and uses the current parameters and equations. The initial, terminal and historical vectors contain, in declaration order, the boundary values given to each variable, with initial value zero when no boundary value at all was given.",
 ["inputs", "histories"], "every model with a solvable static system and starting point in its basin",
 T0 + "the steady state is only used through five policy matrices.",
 ["pynare/core/steady.py", "pynare/core/generic.py", "pynare/core/variables.py"],
 [("least-squares search", "pynare/core/steady.py:minimize_conjugate_gradient"), ("boundary vectors", "pynare/core/generic.py:StructuredModel.initial")],
 ["Model.ss.values", "Model.initial"])

prop("C10", "The first-order solution is the unique stable rational-expectations solution",
 "For every linear(ised) model with a unique stable solution, the first-order policy matrices reproduce it exactly: rows in decision-rule order, columns the lagged state variables in decision-rule order and the shocks in declaration order, so that substituting the rule into the linearised equations gives zero for every state and shock. This holds for every mix of static, backward, mixed and forward variables, every declaration order and every scaling or combination of the equations, including real, complex, negative and zero roots.",
 ["inputs", "configurations"], "every linear model with a unique stable solution",
 T0 + "which have distinct positive roots and one or two timing patterns.",
 ["pynare/core/solve/first_order.py", "pynare/core/solve/statespace.py", "pynare/utils/numpy.py"],
 [("generalised Schur solution", "pynare/core/solve/first_order.py:solve_first_order"), ("state space", "pynare/core/solve/statespace.py:_compute_structural_state_space")],
 ["Model.solve(order=1).gy", "Model.solve(order=1).gu"])

prop("C11", "Models are solved only if the Blanchard-Kahn conditions hold",
 "The reported eigenvalues are the generalised eigenvalues of the linearised dynamic system, and a model whose number of eigenvalues outside the unit circle (in modulus, counting infinite ones) differs from its number of forward-looking variables, or whose rank condition fails, is rejected with the identification error, which names the condition that fails, at the latest when it is verified or solved. A model satisfying both conditions is never rejected.",
 ["inputs"], "every linear model: unique, indeterminate, explosive; real, complex, negative, infinite roots",
 T0 + "all five models satisfy the conditions.",
 ["pynare/core/solve/statespace.py", "pynare/utils/numpy.py", "pynare/errors/__init__.py"],
 [("verification", "pynare/core/solve/statespace.py:StateSpace.verify"), ("QZ ordering", "pynare/utils/numpy.py:partitioned_qz")],
 ["Model.statespace.verify()", "Model.statespace.eigen", "Model.solve"])

prop("C12", "The second-order solution is the exact second-order expansion",
 "For every smooth model with a unique stable solution, the second-order arrays are the Taylor coefficients of the true policy function at the steady state: the quadratic state, state-shock and shock coefficients (one half of the second derivatives for the pure squares) and the uncertainty constant (one half of its second derivative) for the model's shock covariance. Rows are in decision-rule order and columns run over ordered pairs of states, of states and shocks, and of shocks.",
 ["inputs", "configurations"], "every polynomial model with a known exact expansion",
 T0 + "no second-order array is ever compared with anything.",
 ["pynare/core/solve/second_order.py", "pynare/utils/numpy.py"],
 [("generalised Sylvester solve", "pynare/core/solve/second_order.py:solve_ghxx"), ("uncertainty correction", "pynare/core/solve/second_order.py:solve_del2")],
 ["Model.solve(order=2)"])

prop("C13", "First-order simulation follows the policy rule from the initial point",
 "A simulated first-order path starts at the given initial values (the steady state by default), and each later period equals the steady state plus the policy rule applied to the previous period's deviations and the previous row of shocks; rows of supplied shocks are in standard-deviation units and are turned into innovations with the lower Cholesky factor of the shock covariance. Paths have one row per shock row (or per requested period) and columns in declaration order, and without supplied shocks the drawn innovations have the model's covariance structure.",
 ["inputs", "histories"], "every solved model, shock path and initial point",
 T0 + "nothing is ever simulated.",
 ["pynare/simul.py"], [("recursion", "pynare/simul.py:LinearSimulator._simulate_first_order"), ("shock scaling", "pynare/simul.py:_generate_simul_shocks")],
 ["Model.simulate(...).paths", "Model.simulate(...).shocks"])

prop("C14", "Second-order simulation evaluates the full second-order rule",
 "Each period of a second-order path equals the steady state plus the uncertainty constant, the linear terms, and the quadratic state, shock and cross terms of the second-order expansion, each exactly once, evaluated at the previous period's level deviations and the previous row of scaled shocks. The path starts at the given initial values and is in declaration order.",
 ["inputs", "histories"], "every solved model, shock path and initial point",
 T0 + "nothing is ever simulated.",
 ["pynare/simul.py"], [("recursion", "pynare/simul.py:LinearSimulator._simulate_second_order")],
 ["Model.simulate(order=2).paths"])

prop("C15", "An impulse response is the effect of exactly one scaled shock",
 "The impulse response to a named shock is the deviation from the steady state of the path that starts at the steady state and receives, once, an impulse of the requested number of standard deviations along that shock (including its effect on correlated shocks through the Cholesky factor) and no other shock; the impact appears one period after the start. By default the first declared shock is used, at size one, for twenty periods, and at first order responses are linear in the size.",
 ["inputs"], "every solved model, shock, size and horizon",
 T0 + "no impulse response is computed.",
 ["pynare/impulse.py", "pynare/simul.py"], [("impulse construction", "pynare/impulse.py:impulse_response")],
 ["Model.impulse_response(...).impulse"])

prop("C16", "The shock covariance matrix is the one the shock declarations define",
 "The shock covariance matrix has, in declaration order of the shocks, each declared variance (one if none is declared) on its diagonal, and for every declared pair the declared covariance or the correlation times both standard deviations, symmetrically; all other entries are zero.",
 ["inputs"], "every set of variance, covariance and correlation declarations over any number of shocks, in any order",
 T0 + "the covariance does not enter first-order policy matrices.",
 ["pynare/core/generic.py", "pynare/core/variables.py", "pynare/parsing/factory.py"],
 [("covariance assembly", "pynare/core/generic.py:DynamicModel._define_sigma")], ["Model.sigma"])

prop("C17", "Theoretical second moments are those of the solved process",
 "The reported variances, standard deviations, covariances, correlations, autocovariances and autocorrelations of the endogenous variables are the stationary moments of the first-order process for the model's shock covariance, in declaration order; the k-th autocovariance entry relates a variable to another k periods earlier. They do not depend on the order at which the model was solved.",
 ["inputs"], "every stable solved model and shock covariance",
 T0 + "no moment is computed.",
 ["pynare/stats/moments.py", "pynare/core/solve/statespace.py"],
 [("Lyapunov equation", "pynare/core/solve/statespace.py:StateSpace.sigma"), ("observables", "pynare/stats/moments.py:cov"), ("lags", "pynare/stats/moments.py:autocov")],
 ["Model.stats.cov()", "Model.stats.autocov()"])

prop("C18", "Theoretical means are the steady state plus the exact risk correction",
 "The reported mean of a model solved at first order is the steady state; solved at second order it is the steady state plus the correction implied by the second-order expansion under the stationary first-order state variance: uncertainty constant, quadratic state and shock terms, propagated through the states. It is in declaration order.",
 ["inputs"], "every stable solved model and shock covariance",
 T0 + "no mean is computed.",
 ["pynare/stats/moments.py"], [("mean", "pynare/stats/moments.py:mean")], ["Model.stats.mean()"])

prop("C19", "Variance decompositions attribute all of each variable's variance",
 "Each entry of the variance decomposition is the share of a variable's stationary variance caused by one orthogonalised (lower-Cholesky) shock; rows sum to one, and selecting endogenous or stochastic variables by name returns exactly those rows and columns in the requested order. An unknown name is an exception.",
 ["inputs"], "every stable solved model, shock covariance and selection of names",
 T0 + "no decomposition is computed.",
 ["pynare/stats/var.py"], [("decomposition", "pynare/stats/var.py:var_decomp")], ["Model.stats.var_decomp()"])

prop("C20", "After any alteration every derived object reflects the altered model",
 "Whatever sequence of alterations (adding or replacing parameters and equations, adding variables and shocks) and queries is made on a model, every query that follows (residuals, derivatives, steady state, timing indexes, covariance, state space, solution, simulation, moments) answers as a freshly built model with the same content would. Queries never change what later queries answer, except that an explicit request for a solution order selects that order.",
 ["histories"], "every interleaving of alterations and queries",
 T0 + "no test alters a model after building it.",
 ["pynare/core/generic.py", "pynare/core/model.py", "pynare/core/variables.py"],
 [("alteration flag and update", "pynare/core/generic.py:DynamicModel.update"), ("solution cache", "pynare/core/model.py:Model.solution")],
 ["Model.add_params", "Model.add_exprs", "Model.update"])

prop("C21", "Copies and separately built models do not share mutable state",
 "A copy of a model has the same content (parameters with their definitions, model-local values, equations, variables, boundary values, shocks) and gives the same answers as the original. Afterwards neither alterations of the copy nor of the original are visible in the other; likewise models built from the same caller-supplied collections, or from defaults, never affect each other or the caller's collections.",
 ["histories"], "every sequence of constructions, copies and alterations of two or more models",
 T0 + "no test copies a model or builds two from shared inputs.",
 ["pynare/core/generic.py", "pynare/core/variables.py", "pynare/core/expressions.py"],
 [("copy", "pynare/core/generic.py:DynamicModel.copy"), ("calibration", "pynare/core/variables.py:ModelCalibration")],
 ["Model.copy"])

prop("C22", "Solution order requests and the stored solution stay consistent",
 "A solve request without an order uses second order, an explicit order is obeyed and becomes the stored solution, and an unsupported order is an exception that leaves the stored solution unchanged; asking for the solution of an unsolved model solves it at the default order. Simulation with an explicit order re-solves at that order and otherwise uses the stored solution, and the reported order always is that of the stored solution; the first-order part obtained from a second-order solution equals the first-order solution.",
 ["histories"], "every interleaving of solve, simulate, impulse, moment and solution queries with and without orders",
 T0 + "each solves a model once at order one.",
 ["pynare/core/model.py", "pynare/simul.py", "pynare/impulse.py"],
 [("order selection", "pynare/core/model.py:Model.solve"), ("reuse of stored solution", "pynare/simul.py:simulate")],
 ["Model.solution_order", "Model.solution"])

prop("C23", "Occasionally binding paths satisfy constraints, regimes and equations",
 "A path computed under one or two occasionally binding constraints satisfies, in every period, the equations of the regime in force (the reference equations while the constraint is slack, the alternative equations while it binds) under perfect foresight of the remaining path, the constraint holds exactly when its regime says so, and the path returns to the reference rule at the end. If the constraint never binds the path equals the linear simulation.",
 ["inputs"], "every small piecewise-linear model, constraint and shock path",
 T0 + "no constrained solution is computed.",
 ["pynare/core/solve/binding.py"],
 [("regime guess and verify", "pynare/core/solve/binding.py:solve_occbin_one_constraint")], ["Model.solve(constraint=...)"])

prop("C24", "A regime-switching model differs from its baseline only where told",
 "Each regime of a regime-switching model equals the baseline with exactly the listed equations replaced, the baseline regime and the original model are unaffected, and the number of regimes is one plus the number of alternatives; building one without any alternative is an exception.",
 ["inputs", "histories"], "every baseline and set of replacement equations, followed by any alteration",
 T0 + "no regime-switching model is built.",
 ["pynare/regimes.py", "pynare/core/generic.py"],
 [("regime construction", "pynare/regimes.py:RegimeSwitchingModel")], ["pynare.regimes.RegimeSwitchingModel"])

prop("C25", "Sample statistics of a simulation are those of the retained periods",
 "The correlation matrix and the autocorrelation coefficients of a simulation are computed from exactly the periods left after dropping the requested initial ones: mean-centred, normalised by the sample variance, autocovariances divided by the number of overlapping periods, labelled by the variables in declaration order. Requests that drop a negative number or more than all periods, or more lags than periods, are exceptions.",
 ["inputs"], "every simulated path, drop count and lag count",
 T0 + "nothing is ever simulated.",
 ["pynare/simul.py"], [("sample correlation", "pynare/simul.py:ModelSimulation.corr"), ("sample autocorrelation", "pynare/simul.py:ModelSimulation.autocorr")],
 ["ModelSimulation.corr", "ModelSimulation.autocorr"])

prop("C26", "Printed summaries show the right number for each label",
 "Every number shown in a model, solution or statistics summary is the value of the quantity named by its row and column labels (coefficients of a policy function by state, shock or pair and by variable; moments, correlations and decomposition shares by variable and shock; eigenvalues; shock covariances), rounded to the displayed digits.",
 ["inputs"], "every solved model and display option",
 T0 + "no summary is printed.",
 ["pynare/io/summary.py"], [("tables", "pynare/io/summary.py")], ["summary() output"])

prop("C27", "The equation container behaves as a list of parsed equations",
 "Inserting, appending, replacing and deleting equations keeps the parsed equations and their source texts aligned exactly as the same operations on a list would, whatever the sequence of operations and index signs; only text and parsed equations are accepted, and a rejected operation changes nothing.",
 ["histories"], "every sequence of list operations",
 T0 + "none edits the equations of a model.",
 ["pynare/core/expressions.py"], [("paired lists", "pynare/core/expressions.py:ModelExprs")], ["pynare.core.expressions.ModelExprs"])

prop("C28", "Variables are found by name, and collections stay homogeneous",
 "Looking up one or several variables by name or object returns their positions in the collection in the order asked; unknown names are exceptions; membership, selection and concatenation agree with the names held, and a collection never mixes variable kinds.",
 ["inputs"], "every collection of variables and sequence of names",
 T0 + "no lookup by name is made.",
 ["pynare/core/variables.py"], [("name lookup", "pynare/core/variables.py:VarArray.get_loc")], ["pynare.core.variables.VarArray"])

prop("C29", "A path names the file it leads to, a bare name may name a bundled model",
 "Loading a model by path reads the file the path leads to from the current directory, however its directories are spelt and whether given as text or as a path object; only when there is no such file, and the name is (with or without an ending) that of a bundled model, the bundled model is loaded, from any current directory. When neither exists the outcome is FileNotFoundError, a malformed file is an exception rather than another model, and the loaded model is called by the file name without its ending.",
 ["histories", "inputs"], "every history of writing, removing and loading files and changing directory",
 T0 + "they load five files by fixed paths from one directory.",
 ["pynare/core/model.py", "pynare/io/files.py", "pynare/examples/__init__.py"],
 [("path or example", "pynare/core/model.py:Model.from_path"), ("registry", "pynare/examples/__init__.py:ExampleRegistry")],
 ["pynare.Model.from_path"])

prop("C30", "Plots show every series once, under its own label, in the requested layout",
 "Plotting a simulation, an impulse response or any table of series draws every series exactly once with its own values and its own label, for every number of series and every layout, also when there are fewer panels than series or panels left empty. The panels are arranged as documented: 'rect' is the squarest exact factorisation with no more rows than columns, 'square' the smallest sufficient square, 'column', 'row', or the given pair; they are filled row after row, and an unknown layout is an exception.",
 ["inputs", "configurations"], "every number of series and every layout",
 T0 + "nothing is ever plotted.",
 ["pynare/plotting/base.py", "pynare/simul.py", "pynare/impulse.py"],
 [("series to panels", "pynare/plotting/base.py:PynarePlot._plot_grid"), ("arrangement", "pynare/plotting/base.py:PynarePlot.arrange_plot")],
 ["ModelSimulation.plot", "ImpulseResponse.plot"])

prop("C31", "Files outside the grammar are rejected at the line of the first fault",
 "A model file whose tokens do not follow the grammar of declarations, assignments, the model block, boundary blocks and the shocks block is rejected; a file that follows it is never rejected as misspelled. The line number in the error is that of the first token after which no well-formed file could follow (or of a character or number that is no token), wherever comments, blanks and line breaks stand; where the file ends too early it is the end of the file. A well-formed file with an undeclared or twice declared name, a value for a variable, a lead or lag, boundary value or moment of a name of the wrong kind is rejected with the line of such a use.",
 ["programs"], "every sequence of tokens of the modelling language and every layout on lines",
 T0 + "the five model files are well formed, so no error message is ever seen.",
 ["pynare/parsing/lexer.py", "pynare/parsing/parser.py", "pynare/parsing/semantics.py", "pynare/errors/__init__.py"],
 [("recursive descent", "pynare/parsing/parser.py:DynareParser"), ("line counting", "pynare/parsing/lexer.py:BaseLexer.advance"), ("name checks", "pynare/parsing/semantics.py:DynareSemanticAnalyzer")],
 ["pynare.Model.from_path"])

prop("C32", "Constrained-solution requests are carried out as asked or refused",
 "A request for a path under one or two constraints is carried out with exactly the constraints, regimes, shocked variables (the first one unless named, several in the order named), shocks, starting values and number of periods it names, however these are packaged (names or sequences of names, vectors, columns or matrices of shocks, numbers of shocks to draw, one or many pairs, separately built regimes), and a path whose plans do not return to the reference regime in time is warned about. A request that does not determine a path is refused with an exception: incomplete or superfluous conditions, undeclared names, shocks that are not numbers or do not match the variables named, starting values of another length, missing regimes, regimes whose variables or parameters differ. Neither alters the model, and a refused request leaves its solution and later answers as they were.",
 ["inputs", "histories"], "every history of well-formed and ill-formed requests",
 T0 + "no constrained solution is requested.",
 ["pynare/core/solve/binding.py", "pynare/regimes.py", "pynare/core/model.py"],
 [("argument checks", "pynare/core/solve/binding.py:_process_occbin_parameters"), ("constraints", "pynare/core/solve/binding.py:Constraint"), ("matching regimes", "pynare/core/solve/binding.py:_ensure_variables_match")],
 ["Model.solve(constraint=...)", "pynare.core.solve.OccBinSolution"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
