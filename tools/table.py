prop("C01", "Queries and analyses never change the model they are given",
  "Answering a probability or expected-value question, evaluating a policy, enumerating or searching policies, testing any graphical criterion, building relevance or mechanism graphs, exporting to a game tree or solving for equilibria leaves the model passed in exactly as it was: same nodes, edges, roles, conditional distributions and domains. Only operations documented to change a model change it.",
  "inputs histories", "for every model, every argument and every sequence of calls, also when the call raises",
  "tests call each analysis once on a few example models and rarely compare the model before and after; an in-place graph edit only shows on models with particular shapes",
  f"{CBN} {MB} {CID_} {MAC} {AN} {GA}", [("work happens on copies", "copy() before intervene / impute / remove edges in analyze/, core/"), ("query on derived models", "CausalBayesianNetwork.query")],
  claim=SUM)
prop("C02", "Copies are complete and fully independent of the original",
  "A copy of a model has the same nodes, edges, agents, decisions, utilities, ownership, conditional distributions and domains as the original. Afterwards no change to either one, structural or parametric, is visible in the other.",
  "inputs histories", "for every model and every later sequence of changes to the copy or the original",
  "tests check equality of a few attributes of one copied example; shared mutable state only shows after a particular later mutation",
  f"{CBN} {MB} {CID_} {MAC} {CPD}", [("copy / copy_without_cpds / per-CPD copy", f"{CBN}, {MB}")], claim=SUM)
prop("C03", "Roles, ownership and agents stay mutually consistent",
  "After any sequence of construction, role changes, structural edits and removals, every node has at most one role, every decision and utility belongs to exactly one agent, and the per-agent lists, the reverse maps, the list of agents and the graph describe the same assignment. Changing a node's role or owner leaves the other nodes' roles alone.",
  "inputs histories", "for every sequence of role changes and node additions and removals on any model",
  "tests exercise single role changes on one example each; the invariant is over arbitrary histories of changes",
  f"{MB} {CID_} {MAC}", [("role mutators", f"{MB}: make_decision, make_utility, make_chance, remove_node, constructor")], claim=SUM)
prop("C04", "Stored distributions, domains and graph stay coherent",
  "Adding, replacing or removing a node, an edge or a node's relationship keeps the stored relationships, the derived tables and the node domains in agreement with the current graph: each table conditions on exactly the node's current parents in their current domains, removed things leave nothing behind, and a table is derived as soon as, and only when, all its parents have domains.",
  "inputs histories", "for every order of additions, replacements and removals of nodes, edges and relationships",
  "tests add relationships in a handful of orders; the property is over all orders and interleavings of edits",
  f"{CBN} {CPD}", [("relationship registry that re-derives tables", f"{CBN}: Model"), ("table derivation from a function", f"{CPD}: StochasticFunctionCPD")], claim=SUM)
prop("C05", "Only valid distributions over the declared domain are accepted",
  "A relationship given as a function is accepted only if its arguments match the node's parents, and for every combination of parent outcomes the values it produces are outcomes of the node's domain with non-negative probabilities that sum to one within rounding. The derived table lists, for each parent combination in order, exactly the probabilities the function returns for that combination.",
  "inputs", "for every function, domain and parent configuration",
  "tests use a few functions; invalid weights, extra outcomes or a permuted parent order only show for particular functions",
  f"{CPD}", [("table construction with checks", f"{CPD}: StochasticFunctionCPD.to_tabular_cpd"), ("argument check", f"{CPD}: check_function_arguments_match_parent_names")], claim=SUM)
prop("C07", "Interventions replace exactly the intervened mechanisms",
  "Intervening on a set of nodes cuts each one from its parents, fixes it to the given value, and leaves every other node's mechanism, role and incoming edges as they were. A query or expected value under an intervention equals the same question asked of the intervened model, and asking for several interventions at once applies them all.",
  "inputs", "for every model, every set of nodes and every value",
  "tests intervene on single nodes of small examples; simultaneous interventions and intervened parents are barely sampled",
  f"{CBN} {MB} {CPD}", [("intervene / query / expected_value", f"{CBN}")], claim=SUM)
prop("C08", "Questions that cannot be answered are refused, the rest answered in order",
  "A query is refused when a context value is outside the node's domain or a decision that influences the answer has no policy, and never refused when the decision cannot influence it. Expected values are returned one per requested node, in the requested order, and an expected utility is the sum over exactly the agent's utilities.",
  "inputs", "for every query, context, intervention and partially specified model",
  "tests ask a few well-formed questions and a couple of bad ones; the refusal condition depends on the graph and which policies are present",
  f"{CBN} {MB}", [("query validation", f"{MB}: MACIDBase.query"), ("expected values", f"{CBN}: expected_value; {MB}: expected_utility")], claim=SUM)
prop("C10", "Path and separation questions follow the d-separation rules",
  "Deciding whether a path is active, enumerating directed or undirected paths, searching an active path and testing for active back-door or indirect front-door trails follow the textbook rules: chains and forks block when observed, colliders block unless they or a descendant are observed, paths visit no node twice, and every path between the endpoints is found. Unknown nodes are reported as errors.",
  "inputs", "for every graph, pair of endpoints and observation set, including adjacent, equal and unconnected endpoints",
  "tests look at a few paths of example graphs; the rules quantify over all graphs, paths and observation sets",
  f"{GP}", [("path search and motif classification", f"{GP}")], claim=SUM)
prop("C11", "Strategic relevance and recall follow the reachability criteria",
  "One decision is reported as relevant to another exactly when adding a fresh mechanism parent to it makes that parent d-connected to a utility of the other decision's agent below that decision, given the other decision and its observations. The relevance graph has exactly these edges, its components and their ordering are those of the condensation, an agent has sufficient recall exactly when the relevance graph of its decisions is acyclic, and a valid order respects the graph.",
  "inputs", "for every model, every pair of decisions and every agent",
  "tests check some pairs in a handful of games; the criterion ranges over all graphs",
  f"{MB} {RG}", [("r- and s-reachability, mechanism graph", f"{MB}"), ("relevance graphs", f"{RG}")], claim=SUM)
prop("C12", "Trimming removes exactly the non-requisite observations",
  "An observation of a decision is requisite exactly when it is d-connected to a utility of the same agent below the decision, given the decision and its other observations. The requisite graph is the original graph without the information links from non-requisite observations, taking decisions in an order that leaves no non-requisite link behind, and the original is untouched.",
  "inputs", "for every model, decision and observation",
  "tests trim a few examples; nested trimming only matters for graphs with several decisions in a row",
  f"{AN}requisite_graph.py", [("requisite / requisite_list / requisite_graph", f"{AN}requisite_graph.py")], claim=SUM)
prop("C13", "Value of information and response incentives follow their criteria",
  "Value of information is admitted for exactly those nodes that are not below the decision and, once observed, are d-connected to a utility below the decision given the decision's other observations. A response incentive is admitted for exactly those nodes with a directed path to the decision in the trimmed graph.",
  "inputs", "for every single-agent model, decision and node",
  "tests check a few nodes of a few examples; the criteria quantify over all graphs",
  f"{AN}value_of_information.py {AN}response_incentive.py", [("admits_voi", f"{AN}value_of_information.py"), ("admits_ri", f"{AN}response_incentive.py")], claim=SUM)
prop("C14", "Control incentives follow their graphical criteria",
  "Value of control is admitted for exactly those nodes with a directed path to a utility in the trimmed graph; it is direct if such a path avoids decisions and indirect for a decision if a path runs through that decision and the node has an open back-door to the utility given the decision's family. An instrumental control incentive is admitted for exactly those nodes on a directed path from the decision to a utility.",
  "inputs", "for every single-agent model, decision and node",
  "tests check a few nodes of a few examples; the criteria quantify over all graphs",
  f"{AN}value_of_control.py {AN}instrumental_control_incentive.py", [("admits_voc and its direct and indirect forms", f"{AN}value_of_control.py"), ("admits_ici", f"{AN}instrumental_control_incentive.py")], claim=SUM)
prop("C15", "Reasoning patterns follow their graphical definitions",
  "A decision is motivated by direct effect, manipulation, signaling or revealing/denying exactly when the defining paths exist: decision-free influence, effective paths to the right agents' utilities, and back-door or indirect front-door paths left open by what the other decision observes. The reported patterns are those of the decisions that remain after repeatedly discarding decisions without any pattern.",
  "inputs", "for every multi-agent model, decision and set of effective decisions",
  "tests check the patterns of a few published examples; several candidate paths and blocked alternatives are not sampled",
  f"{AN}reasoning_patterns.py {GP}", [("pattern predicates and the elimination loop", f"{AN}reasoning_patterns.py")], claim=SUM)
prop("C16", "Quantitative values and effects are the differences they are defined as",
  "The quantitative value of information of a node is the optimal expected utility with the node observed minus that with it unobserved by the decision; the value of control is the best expected utility over interventions on the node by a policy for it minus the optimum without. A total effect is the difference of the two interventional expectations and an introduced total effect the difference of total effects on response and on treatment variable.",
  "inputs", "for every single-agent model with complete relationships, every decision, node and value",
  "tests compare a few numbers; a swapped sign, a missing policy optimisation or an extra observation only shows on asymmetric models",
  f"{AN}value_of_information.py {AN}value_of_control.py {AN}effects.py", [("quantitative_voi", f"{AN}value_of_information.py"), ("quantitative_voc", f"{AN}value_of_control.py"), ("total effects", f"{AN}effects.py")], claim=SUM,
  note="Decides how the returned number is composed of optimisations and expectations on which model; the inference numerics themselves are outside.")
prop("C17", "Analyses reject exactly the inputs they are not defined for",
  "Asking an incentive or pattern question about an unknown node, a node that is not a decision where a decision is required, a model with several agents where one is required, or a model without sufficient recall where it is needed raises an error, and well-formed questions never do.",
  "inputs", "for every model and every argument",
  "tests try one bad argument per function; whether a good input is wrongly refused depends on the model",
  f"{AN}", [("argument checks at the head of each analysis", f"{AN}")], claim=SUM)
prop("C18", "List-valued analyses contain exactly the nodes that pass the test",
  "Each analysis that lists the nodes with a property returns every node of the model for which the single-node question answers yes, and no other node.",
  "inputs", "for every single-agent model and decision",
  "tests compare a few lists on small examples",
  f"{AN}", [("list variants", f"{AN}value_of_information.py, value_of_control.py, response_incentive.py, instrumental_control_incentive.py")], claim=SUM)
prop("C09", "Each agent is judged by its own utilities only",
  "The expected utility of an agent is computed from exactly the utilities that agent owns, optimising a decision maximises the utility of the agent owning that decision, and solving for one agent leaves the other agents' policies as given. Without naming an agent, a single-agent model answers for its only agent.",
  "inputs", "for every multi-agent model, agent and policy",
  "tests compute utilities in a few two-agent games, often symmetric ones",
  f"{MB} {CID_}", [("expected_utility and the optimisers built on it", f"{MB}: expected_utility, optimal_pure_policies, impute_optimal_decision")], claim=SUM,
  note="Decides which utilities are summed and which objective is maximised for every model; inference numerics are outside.")
prop("C19", "Games are solved backwards so that later decisions are settled first",
  "Solving a single-agent model optimises its decisions in an order in which every decision comes after all those its optimality depends on, and a subgame perfect equilibrium solves the strategic components from the last to the first, keeping the policies already found. Decisions without any utility below them are given a policy too.",
  "inputs schedules", "for every model and every dependency structure between its decisions",
  "tests solve a few games with one natural order; a wrong order is invisible on models whose decisions are independent",
  f"{MAC} {CID_} {RG}", [("backward induction", f"{MAC}: get_spe; {CID_}: impute_optimal_policy"), ("order of components", f"{RG}: get_scc_topological_ordering")], claim=SUM)
prop("C20", "Pure policies are enumerated completely and the best ones are selected",
  "The pure decision rules of a decision are exactly the functions from its observations' outcome combinations to its available actions, each once, and pure policies are exactly the combinations of one rule per decision. The optimal ones are those reaching the maximum expected utility, and an imputed optimal rule is one of them.",
  "inputs", "for every decision context, action set and set of decisions",
  "tests count the rules of a few small decisions; completeness and tie handling depend on the sizes and on equal utilities",
  f"{MB} {CID_} {MAC}", [("enumeration of rules and policies", f"{MB}: pure_decision_rules, pure_policies; {MAC}: joint_pure_policies"), ("selection", f"{MB}: optimal_pure_policies")], claim=SUM)
prop("C21", "The exported game tree has the right moves, information and payoffs",
  "The exported tree moves through decisions and the chance nodes that matter in an order in which every move comes after what it observes or depends on, offers exactly the domain's outcomes as moves with the model's probabilities at chance moves, puts two decision points in the same information set exactly when the decision and what it observes coincide, and pays each agent its utilities at every leaf.",
  "inputs", "for every multi-agent model with complete relationships",
  "tests export a few games and look at the text; wrong information sets or payoffs need particular orders and observations",
  GA, [("macid_to_efg, behavior_to_cpd", GA)], claim=SUM)
prop("C22", "The requested equilibrium solver is the one that runs",
  "Each solver name runs the solver of that name on the exported game and returns its equilibria, without a name the solver suited to the number of players is chosen with a fallback when it finds none, and an unknown name or a solver restricted to two players used with more is refused.",
  "inputs", "for every solver name and number of agents",
  "tests run a few solvers on two-player games; a swapped solver usually finds the same equilibrium",
  GA, [("pygambit_ne_solver", GA)], claim=SUM)
prop("C23", "Subgames contain exactly the decisions being solved",
  "The subgame for a set of decisions keeps those decisions, every node needed to evaluate their utilities and their relationships, and demotes all other decisions to fixed behaviour. The equilibria of a subgame assign a policy to exactly its decisions, and by default the subgame is the whole game.",
  "inputs", "for every game and every set of decisions",
  "tests build one or two subgames",
  f"{MAC}", [("create_subgame, get_ne_in_sg, decs_in_each_maid_subgame", f"{MAC}")], claim=SUM)
prop("C24", "Every option given to an operation takes effect",
  "Every option of a public operation, such as the solver, the seed, the number of nodes, the density or the recall requirement, reaches the part it controls, also when the operation delegates to another one; leaving it out has the same effect as giving the documented default.",
  "inputs", "for every combination of options",
  "tests pass most options only at their default; an option that is dropped on the way is invisible then",
  f"{MAC} {RN}random_cid.py {RN}random_macid.py {RN}random_macidbase.py {AN}effects.py", [("delegating operations", f"{MAC}: get_ne, get_spe, get_ne_in_sg; {RN}: random_cid, random_macid and their list versions")], claim=SUM)
prop("C25", "Any iterable and any value is accepted where the interface allows it",
  "Where an operation takes an iterable of edges, nodes or decisions, a one-shot iterator has the same effect as a list with the same elements. An outcome or value that is falsy, such as zero, false or the empty text, is treated like any other value and is not mistaken for a missing one.",
  "inputs", "for every iterable and every falsy outcome",
  "tests pass lists and mostly truthy outcomes",
  f"{CBN} {CPD} {MB} {AN}effects.py", [("arguments traversed more than once; tests for missing values", f"{CBN}: constructor; {CPD}; {MB}: active_trail_nodes")], claim=SUM)
prop("C26", "Seeded randomness is reproducible and leaves the global generator alone",
  "A random relationship with a seed gives the same distribution for the same parent outcomes on every call and in every process, draws anew for other parent outcomes, and using it leaves the state of the global random generators unchanged, also when an error occurs. The same seed and model give the same samples.",
  "inputs histories", "for every seed, node, parent configuration and history of other random draws",
  "tests compare two calls in one process; dependence on the process, on call order or a lost generator state is not visible there",
  f"{RN}random_cpd.py {CBN}", [("temp_seed, RandomCPD", f"{RN}random_cpd.py")], claim=SUM)
prop("C27", "Random models respect the constraints asked for",
  "A generated graph is acyclic with the requested number of nodes and no node above the maximum number of parents. A generated model has for each agent exactly the requested numbers of decisions and utilities, utilities have no descendants, each decision precedes a utility of its agent, and every node has a relationship or every agent recalls enough when asked for; otherwise an error is raised.",
  "inputs schedules", "for every parameter combination and every sequence of random draws",
  "tests generate a few models and check some of the constraints on them",
  f"{RN}random_dag.py {RN}random_macidbase.py {RN}random_cid.py {RN}random_macid.py", [("random_dag, random_macidbase", f"{RN}")], claim=SUM)
prop("C28", "Arguments of the caller are neither modified nor retained",
  "Lists, dictionaries and sets passed to a constructor or an operation are left unmodified, and changing the edges, node lists and role assignments that were passed does not change the model afterwards. The role lists and mappings of one model are not shared with another one.",
  "inputs histories", "for every argument and every later change to it",
  "tests pass literals that are never looked at again",
  f"{MB} {CBN} {MAC}", [("constructors and role mutators", f"{MB}: constructor, make_decision")], claim=SUM)
prop("C29", "Probabilities, expectations and equilibria are numerically right",
  "Posterior probabilities and expectations equal those of the joint distribution defined by the model, and the strategies returned as equilibria give no agent a profitable deviation.",
  "inputs", "for every model with complete relationships",
  "tests compare a few numbers",
  f"{CBN} {MAC} {GA}", [("inference and equilibrium computation", "pgmpy variable elimination and pygambit solvers called from query and get_ne")],
  na="The numbers are computed inside pgmpy and pygambit on run-time tables; no static argument over this repository's source bounds them. What this code contributes (which query, on which model, with which options) is decided under C07, C08, C09, C16, C20-C23.")
prop("C30", "Random generation ends and samples without systematic gaps",
  "For satisfiable constraints random generation finishes, and every graph satisfying them can be produced.",
  "schedules", "for every satisfiable parameter combination",
  "tests run a few generations",
  f"{RN}random_dag.py {RN}random_macidbase.py", [("resampling loops", f"{RN}")],
  na="Termination with probability one and coverage of rejection sampling are properties of the run-time distribution of random draws; the loops have no static variant.")
