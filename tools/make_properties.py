import json
CB="pycid/core/causal_bayesian_network.py"; CP="pycid/core/cpd.py"; MB="pycid/core/macid_base.py"; MA="pycid/core/macid.py"; CI="pycid/core/cid.py"; RG="pycid/core/relevance_graph.py"; GP="pycid/core/get_paths.py"; GA="pycid/export/gambit.py"
AN="pycid/analyze/"; RN="pycid/random/"
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Queries return the exact conditional interventional distribution",
 "For every fully specified model, a query for a set of mutually connected variables returns exactly P(query | context, do(intervention)) of the product of the model's mechanisms (truncated at the intervened variables), for every context of positive probability and whichever nodes of the graph are connected to the query. The answer is labelled with the right outcomes, does not depend on the order in which the query, context or intervention is written, and a context outcome outside a variable's domain is refused with a ValueError.",
 ["inputs","programs"],"all discrete models, all query sets, contexts and interventions, for CBNs, CIDs and MACIDs",
 "Tests query a handful of three-node examples with known answers; the guarantee is over all graphs, domains, evidence and intervention combinations, including disconnected graphs and queries issued from inside the solvers.",
 [CB,MB],[("query: component restriction, intervention on a copy, belief propagation",CB+":CausalBayesianNetwork.query"),("context check and policy check before inference",MB+":MACIDBase.query")],
 ["return value of query on CausalBayesianNetwork, CID, MACID, also for the calls the library makes itself"],"wrapper installed by the harness around the public query methods")
p("C02","Every way of stating a mechanism compiles to the distribution it states",
 "A mechanism stated as a probability dictionary, a function of the parents' outcomes (returning an outcome or a full or partial distribution), a probability table or a list of decision options yields, for every combination of parent outcomes, exactly the stated distribution, with unspecified probability spread evenly over the unspecified outcomes; the variable's domain is the declared one in declared order, or else the sorted set of outcomes the statement can produce. A statement whose probabilities do not sum to one (beyond 0.01), lie outside [0,1], or fall outside the declared domain is refused with an error.",
 ["inputs","programs"],"all mechanism statements in every accepted form over all parent domains (numbers, strings, negative, any order)",
 "Tests compile a few binary CPDs; parent order, argument order, partial distributions, non-sorted or non-numeric domains and mixed forms are sampled at a point each.",
 [CP,CB],[("completion of partial distributions, domain inference, table layout",CP+":StochasticFunctionCPD.__init__"),("dispatch on the form of the statement",CB+":CausalBayesianNetwork.Model.to_tabular_cpd"),("bernoulli, discrete_uniform, noisy_copy",CP)],
 ["compiled table and domain of every variable after add_cpds"])
p("C03","The model depends on the final mechanisms and edges, not on the history",
 "Whatever the order and grouping in which mechanisms are added, replaced, removed and re-added, parents' domains changed, and edges added or removed, the resulting model has the same domains, the same conditional tables and the same query answers as one built directly in the final state. In particular changing a parent's domain re-evaluates every function-valued descendant, and a constant mechanism or decision domain follows added and removed incoming edges; a mechanism handed over as an already compiled table states that table, and is stated again when its parents change.",
 ["histories","programs"],"all sequences of structural and mechanism edits ending in the same specification",
 "Tests replay two or three fixed edit sequences; a stale table or domain shows only after particular multi-step histories.",
 [CB,MB,CP],[("Model.__setitem__ recompiles children when the domain changes and syncs outcome names",CB+":CausalBayesianNetwork.Model"),("add_edge/remove_edge refresh constant CPDs",CB)],
 ["domains, tables and query answers at quiescent points of an edit history"],None,
 [("model","mechanism statements by variable",CB+":CausalBayesianNetwork.Model"),("model.domain","outcomes by variable",CB+":CausalBayesianNetwork.Model")])
p("C04","Interventions cut incoming edges, fix values and change nothing else",
 "Intervening on any set of variables makes each of them certain to have the given outcome, removes exactly their incoming edges, and leaves every other mechanism, every domain (including the order of its outcomes) and every role unchanged, whether done in place or as part of a query, and in any order. Policies imputed beforehand stay as they were. The total effect of one variable on another equals the difference of the two interventional expectations, and the introduced total effect is the difference of total effects with both signs flipped when the effect on the outcome is negative.",
 ["inputs","histories"],"all models, sets of intervened variables and values, orders and repetitions, with frozen policies in place",
 "Tests intervene on one variable of a two- or three-node model with sorted binary domains.",
 [CB,AN+"effects.py",MB],[("intervene",CB+":CausalBayesianNetwork.intervene"),("total_effect, introduced_total_effect",AN+"effects.py")],
 ["structure, tables and queries after intervene; return values of the effect functions"])
p("C05","A copy is complete, equal and independent",
 "A copy of a model has the same kind, nodes, edges, latent variables, agents, decision and utility roles, domains, tables and query answers as the original, and later changes to either (mechanisms, edges, roles, interventions, imputed policies) never show in the other, also across copies of copies. A copy without mechanisms has the same structure and roles and no mechanisms.",
 ["histories","programs"],"all models with every kind of mechanism and role assignment, and all later edits of either side",
 "Tests compare a copy once, right after it is made, on small examples.",
 [CB,MB,MA,CI,CP],[("copy, copy_without_cpds",CB),("copy_without_cpds of (MA)CIDs",MB),("CPD copy methods",CP)],
 ["full snapshots of original and copy around each edit of the other"])
p("C06","Asking a question never changes the model or the arguments",
 "Queries, expected values and utilities, reachability and recall tests, policy enumeration, optimisation and equilibrium computations, subgame creation, graphical and quantitative incentive analyses, reasoning patterns, game export, sampling and drawing leave the model they are asked about exactly as it was (nodes, edges, roles, agents, domains, mechanisms, tables), and leave the objects passed to them unmodified. A model never modifies the lists it was created from.",
 ["inputs","histories"],"all models, all read-only operations of the public API, in any sequence",
 "Tests look at return values, hardly ever at the model afterwards; a side effect that only occurs on disconnected or unusual graphs is invisible to them.",
 [CB,MB,MA,CI]+[AN+f for f in ("value_of_information.py","value_of_control.py","requisite_graph.py","reasoning_patterns.py")]+[GA],
 [("analyses and solvers work on copies","copy() at the head of each analysis")],
 ["deep snapshots of model and arguments before and after each public call"],"wrapper installed by the harness around public operations")
p("C07","Policy-dependent questions are refused, others do not depend on policies",
 "On a diagram with decisions that have no policy, a query is refused with a ValueError exactly when its answer can structurally depend on the policy of such a decision (some unspecified decision's rule is d-connected to a queried variable given the context, with incoming edges of intervened variables cut); it is refused then also when the decision has no domain yet, and answered otherwise whenever every decision has a domain. When it is answered, the answer is the same under every policy of the unspecified decisions.",
 ["inputs","programs"],"all diagrams, subsets of decisions with policies, queries, contexts and interventions",
 "Tests check two or three hand-picked queries; the criterion is about all graphs and conditioning sets.",
 [MB],[("mechanism graph and d-connection test",MB+":MACIDBase.query"),("MechanismGraph",MB)],
 ["accept/refuse verdict and returned distribution of query"])
p("C08","Expected values and utilities are the exact expectations, in the requested order",
 "The expected values of a list of numeric variables given a context and an intervention are their exact conditional interventional expectations, returned in the order asked for; the expected utility of an agent is the sum of the expectations of exactly that agent's utility variables (zero if it has none), also when these lie in separate parts of the graph.",
 ["inputs","programs"],"all models with numeric variables, lists of variables, contexts, interventions and agents",
 "Tests compute expectations of one or two variables; order, negative or unsorted numeric domains, several agents and disconnected utilities are not sampled.",
 [CB,MB],[("expected_value",CB+":CausalBayesianNetwork.expected_value"),("expected_utility",MB+":MACIDBase.expected_utility")],
 ["return values of expected_value and expected_utility"])
p("C09","Optimal policies are optimal, and all optimal pure policies are listed",
 "Solving a single-agent diagram, or imputing an optimal policy or optimal decision, yields a policy whose expected utility equals the maximum over all policies given the mechanisms and other policies in place (in every decision context of positive probability, for an optimal decision), with or without sufficient recall; with sufficient recall every decision is also optimal in contexts that only the policies of earlier decisions rule out. The list of optimal pure policies or decision rules contains exactly the pure policies attaining the maximum, ties included and none missing, and mixing agents in one request is refused.",
 ["inputs","programs"],"all single-agent diagrams and single agents of multi-agent diagrams whose other decisions have policies or are irrelevant",
 "Tests solve a dozen textbook diagrams; optimality is a statement about every alternative policy on every diagram.",
 [CI,MB],[("impute_optimal_policy: backward induction or enumeration",CI),("optimal_pure_policies",MB),("impute_optimal_decision",MB)],
 ["policies returned or imputed and their expected utility"])
p("C10","Pure decision rules are enumerated exactly once each",
 "The pure decision rules of a decision are exactly all functions from its parents' outcome combinations to its domain, each listed once, deterministic, valid as a mechanism, and over the decision's own domain; the pure policies of a set of decisions are exactly the combinations of their rules, one rule per decision, in the order in which the decisions were given.",
 ["inputs"],"all decisions with any number of parents, cardinalities and outcome types",
 "Tests count rules on three small examples and never compare them pairwise.",
 [MB,MA],[("pure_decision_rules, pure_policies",MB),("joint_pure_policies",MA)],
 ["tables of the rules returned"])
p("C11","Reachability, relevance graphs and recall follow the graphical criterion",
 "A node is r-reachable (a decision s-reachable) from a decision exactly when a new parent of it would be d-connected to some utility of the decision's agent downstream of the decision given the decision and its parents, and a set is reachable from a set exactly when some member is from some member. The relevance graph has exactly the s-reachability edges among the chosen decisions, its condensation groups exactly the mutually reachable decisions in a valid topological order, and an agent has sufficient recall exactly when the relevance graph over its own decisions is acyclic.",
 ["inputs","programs"],"all single- and multi-agent diagrams, all pairs and sets of nodes",
 "Tests assert a few facts on hand-drawn diagrams.",
 [MB,RG],[("is_r_reachable, is_s_reachable, sufficient_recall",MB),("RelevanceGraph, CondensedRelevanceGraph",RG)],
 ["return values of the predicates and graphs"])
p("C12","Requisite observations, value of information and response incentives",
 "The requisite graph is the result of removing nonrequisite observation links until none is left and nothing else, so the best achievable expected utility is the same before and after. A node admits value of information exactly when it is not downstream of the decision and would be a requisite observation in the reduced graph if observed, and admits a response incentive exactly when it has a directed path to the decision in the reduced graph; the list forms contain exactly those nodes.",
 ["inputs","programs"],"all single-agent diagrams with sufficient recall, all decisions and nodes",
 "Tests check a few nodes on textbook diagrams with a single decision.",
 [AN+"requisite_graph.py",AN+"value_of_information.py",AN+"response_incentive.py"],[("requisite, requisite_graph",AN+"requisite_graph.py"),("admits_voi",AN+"value_of_information.py"),("admits_ri",AN+"response_incentive.py")],
 ["return values"])
p("C13","Instrumental control, value of control and its direct and indirect forms",
 "A node admits an instrumental control incentive exactly when it lies on a directed path from the decision to a utility, and admits value of control exactly when it is not a decision and is, or has a directed path to, a utility in the reduced graph. Value of control is direct exactly when such a path avoids all decisions, and indirect for a decision exactly when, for some utility, such a path runs through the decision and the node also has an active backdoor path to that utility given the decision and its other parents; the list forms contain exactly those nodes.",
 ["inputs","programs"],"all single-agent diagrams with sufficient recall, all decisions and nodes",
 "Tests check a few nodes on textbook diagrams.",
 [AN+"instrumental_control_incentive.py",AN+"value_of_control.py"],[("admits_ici",AN+"instrumental_control_incentive.py"),("admits_voc, admits_dir_voc, admits_indir_voc",AN+"value_of_control.py")],
 ["return values"])
p("C14","Quantitative value of information and control are the true differences",
 "The quantitative value of information of a node equals the best expected utility when the decision observes the node minus the best when it does not, and the quantitative value of control equals the best expected utility when the node is freely controlled minus the best without. Both are never negative, and are zero whenever the graphical criterion denies the incentive.",
 ["inputs","programs"],"all parameterised single-agent diagrams, decisions and admissible nodes",
 "Tests compare a handful of numbers on two examples.",
 [AN+"value_of_information.py",AN+"value_of_control.py"],[("quantitative_voi",AN+"value_of_information.py"),("quantitative_voc",AN+"value_of_control.py")],
 ["return values, against brute-force optima and against the graphical verdicts"])
p("C15","Path enumeration, activity and motifs are exact",
 "All directed and all undirected simple paths between two nodes are enumerated exactly once each and nothing else; a path is reported active exactly when every inner collider has an observed descendant-or-self and no other inner node is observed; an active path is found exactly when the end nodes are d-connected, and any path found is one; indirect front-door and back-door trails and decision-free directed paths are reported exactly when one exists. Every node of a path is classified with the right motif, orderings of nodes are topological, and unknown nodes are refused with a KeyError.",
 ["inputs"],"all acyclic graphs, node pairs, paths and observed sets",
 "Tests use a few diagrams and one or two observed sets.",
 [GP,MB],[("find_all_dir_paths, find_all_undir_paths, find_active_path, is_active_path, trails, motifs",GP),("get_valid_order",MB)],
 ["return values"])
p("C16","Reasoning patterns follow their graphical definitions",
 "Direct effect, manipulation, signaling and revealing-or-denying hold of a decision exactly when the documented graphical criterion holds for some choice of other effective decision, utilities and paths (with effective paths defined as documented), independent of the order in which paths are visited. The reported motivations cover exactly the decisions that survive repeated removal of decisions motivated by no pattern, each under the first pattern it satisfies of direct effect, signaling, manipulation and revealing or denying.",
 ["inputs","programs"],"all multi-agent diagrams and all sets of effective decisions",
 "Tests check one diagram per pattern; the existential over paths and decisions needs many graphs.",
 [AN+"reasoning_patterns.py"],[("direct_effect, manipulation, signaling, revealing_or_denying, get_reasoning_patterns",AN+"reasoning_patterns.py")],
 ["return values"])
p("C17","The exported extensive-form game is the same game",
 "The extensive-form game made from a diagram has one player per agent, and for every assignment of pure decision rules gives every player exactly the expected utility the diagram gives; two decision points are in the same information set exactly when they are the same decision with the same observed parent outcomes, and available moves are the decision's domain in order. The same holds for the game read back from an exported file.",
 ["inputs","programs"],"all multi- and single-agent diagrams with decision domains, including hidden chance nodes and impossible histories",
 "Tests count information sets and players on two examples and never evaluate the tree.",
 [GA],[("macid_to_efg, payoffs and players",GA),("macid_to_gambit_file",GA)],
 ["the game tree returned (walked by an independent evaluator) and the file written"])
p("C18","Computed Nash equilibria are equilibria, and pure enumeration misses none",
 "Every strategy profile reported as a Nash equilibrium assigns a valid decision rule to every decision of the game, and no agent can raise its expected utility by any change of its own decision rules. When pure equilibria are enumerated, every pure equilibrium of the game is represented (up to choices at contexts that never arise), with whichever solver is applicable.",
 ["inputs","programs"],"all small games with perfect recall, one to three agents, all applicable solvers",
 "Tests count equilibria of known games; soundness is a statement about every deviation and completeness about every profile.",
 [MA,GA],[("get_ne, get_ne_in_sg",MA),("pygambit_ne_solver, behavior_to_cpd",GA)],
 ["profiles returned by get_ne and get_ne_in_sg"])
p("C19","Subgames are exact, and subgame perfect equilibria are equilibria of each",
 "The decision sets reported as subgames are exactly the non-empty sets of decisions closed under strategic relevance, and a created subgame keeps exactly the given decisions, their relevant nodes and the parents of these, with relevant mechanisms unchanged. Every profile reported as subgame perfect assigns one rule to every decision and, in every subgame, no agent can gain by changing its rules within the subgame, even at contexts the rest of the profile never reaches; every pure subgame perfect equilibrium is represented when pure equilibria are enumerated.",
 ["inputs","programs"],"all small multi-agent diagrams with perfect recall",
 "Tests count the equilibria of a few examples.",
 [MA,RG],[("get_spe, decs_in_each_maid_subgame, create_subgame",MA),("condensed relevance graph ordering",RG)],
 ["return values of get_spe, decs_in_each_maid_subgame and create_subgame"])
p("C20","Random diagrams satisfy every requested constraint",
 "Random graphs and diagrams are acyclic and connected, have exactly the requested numbers of nodes, agents, decisions and utilities, never exceed the requested in-degree, reach the requested edge density when that is possible, have utilities without children and decisions upstream of their agent's utilities, have sufficient recall when it is requested, and are fully and validly parameterised (decisions with the domain [0, 1]) exactly when mechanisms are requested, arguments left out meaning their documented defaults; otherwise they fail with a ValueError within the stated number of attempts. Generation ends within a bounded number of random draws.",
 ["inputs","configurations"],"all parameter combinations and random states",
 "Tests draw a few graphs per parameter set and check one or two of the constraints.",
 [RN+"random_dag.py",RN+"random_macidbase.py",RN+"random_cid.py",RN+"random_macid.py"],[("random_dag",RN+"random_dag.py"),("random_macidbase and sufficient recall edges",RN+"random_macidbase.py"),("random_cid(s), random_macid(s)",RN)],
 ["graphs and models returned; number of random draws"],"counter around the random draws, installed by the harness")
p("C21","Random mechanisms are fixed, valid and leave the random state alone",
 "A random mechanism gives a valid distribution over its domain for every assignment of its parents, whatever the smoothness (concentrated when that is small, nearly uniform when it is large), drawn separately per assignment and seed, and always the same for the same assignment regardless of argument order, call history, copying or the global random state; two mechanisms with the same seed (zero included), domain and smoothness agree, also in another interpreter. Evaluating it leaves the global random state as it was, also when evaluation fails.",
 ["inputs","histories"],"all domains, smoothness values, seeds, parent assignments, interleavings with other random draws and hash seeds",
 "Tests check one mechanism's determinism in one setting.",
 [RN+"random_cpd.py"],[("temp_seed, RandomCPD",RN+"random_cpd.py")],
 ["values returned and numpy's global random state around each call"])
p("C22","Roles, agents and node removal are tracked consistently",
 "After any sequence of turning nodes into decisions, utilities or chance nodes, of any agent, and of adding and removing nodes, every node has exactly the role last given to it, belongs to exactly that agent's list once, and the per-agent lists, the node-to-agent maps and the role sets agree with each other; role changes of unknown nodes are refused with a KeyError. Decisions and utilities keep their mechanisms and edges when the role changes.",
 ["histories"],"all sequences of role changes and structural edits on all diagrams",
 "Tests make one or two role changes on one diagram.",
 [MB,CI],[("make_decision, make_utility, make_chance, remove_node",MB)],
 ["decisions, utilities, agents, agent_decisions, agent_utilities, decision_agent, utility_agent after each step"],None,
 [("agent_decisions / decision_agent","two views of decision ownership",MB),("agent_utilities / utility_agent","two views of utility ownership",MB)])
p("C23","Samples come from the joint distribution",
 "A sample assigns every variable (except those declared latent) an outcome of its own domain (the outcome itself, not an index), only ever jointly possible assignments are drawn, the same seed gives the same sample, and over many draws the frequencies of joint outcomes agree with the model's joint distribution.",
 ["inputs","histories"],"all fully specified models and seeds",
 "Tests draw one sample and check a single value.",
 [CB],[("sample",CB+":CausalBayesianNetwork.sample")],
 ["returned samples, against the reference joint distribution"])
p("C24","Structural causal models are recognised exactly",
 "A model is reported to be a structural causal model exactly when every variable that has parents is a deterministic function of them, whatever the form of its mechanism and whatever the distributions of the parentless variables.",
 ["inputs"],"all models",
 "Tests check one positive and one negative example.",
 [CB],[("is_structural_causal_model",CB)],["return value"])
p("C25","Imputed random, expectation-matching and removed policies are what they claim",
 "Imputing a random decision, policy or fully mixed profile makes the affected decisions uniform over their domains in every context and changes nothing else; imputing a conditional-expectation decision makes the decision equal, in every possible context, to the expectation of the target variable given the decision's parents; removing decision rules restores every decision's bare domain in its original order, so that policy-dependent questions are refused again and the diagram can be solved anew with the same result.",
 ["inputs","histories"],"all diagrams, decisions, targets and sequences of imputations",
 "Tests impute once on a small example.",
 [MB,CI],[("impute_random_decision, impute_fully_mixed_policy_profile, impute_conditional_expectation_decision, remove_all_decision_rules",MB),("impute_random_policy",CI)],
 ["tables of the decisions and of all other variables before and after"])
p("C26","Verdicts do not depend on insertion order, hash seed or repetition",
 "Graphical verdicts, value computations, optimal policy sets, equilibrium sets and reasoning patterns are functions of the diagram: they are the same when asked again, when nodes and edges are inserted in another order, when nodes or agents are renamed consistently, and under every hash seed of the interpreter.",
 ["inputs","configurations","histories"],"all diagrams, insertion orders, consistent renamings and hash seeds",
 "The test suite runs each question once under one hash seed and one insertion order.",
 [MB,MA,AN+"reasoning_patterns.py",GP,RG],[("iteration over sets inside path search, relevance graphs and policy enumeration","see the files")],
 ["digest of all verdicts on the same diagram in separate interpreter processes and permuted constructions"],"child processes with different PYTHONHASHSEED")
p("C27","Questions outside a method's validity are refused, not answered",
 "Edges that are not pairs of strings are refused when a diagram is built, cycles and self-loops when it is built or extended; the single-agent incentive analyses refuse diagrams with several agents and, where their criterion requires it, diagrams without sufficient recall; unknown nodes, non-parents, unknown agents, outcomes outside a domain and decisions of different agents are refused with an error by every function that takes them; and a refused edge, role change, removal or intervention leaves the diagram as it was.",
 ["inputs","fault_sequences"],"all diagrams and all invalid arguments of the public functions",
 "Tests assert a few refusals per function; a refusal lost on a particular path or argument position is not seen.",
 [CB,MB,GP]+[AN+f for f in ("value_of_information.py","value_of_control.py","response_incentive.py","instrumental_control_incentive.py","requisite_graph.py")],
 [("validation at the head of each public function","see the files")],
 ["exception type or its absence, and the structure afterwards"])
p("C28","Arguments taken as iterables mean the same in every form",
 "Edges, query variables, sets of observed nodes, decisions, agents and other arguments that public functions take as iterables may be given as a list, tuple, set, dictionary view or one-pass iterator and, where a single node is accepted too, as its bare name: the result is the same as for the list, whatever the function does with the argument internally.",
 ["inputs"],"all public functions with iterable arguments and all forms of these",
 "Tests pass lists (occasionally sets); a function that iterates twice silently sees nothing the second time.",
 [CB,MB,MA,GP,RG,"pycid/export/gambit.py"],[("iterable parameters of public functions","see the files")],
 ["results of the same request with the argument in different forms"])
p("C29","Drawings and printed mechanisms show the model",
 "Drawing a diagram shows every node once, by name and at its place in the layout, with the marker of its role (circle for chance, square for decision, diamond for utility) and the colour of its role, or in a multi-agent diagram of its agent (different agents differ), or the colour, shape and label asked for, and an arrow for exactly each edge; highlighting a property colours exactly the nodes that have it; drawn relevance graphs show exactly the relevance edges, components by colour. Beside each node its mechanism's label is shown, also in copies: the one it was given, its function's name, the body of a lambda written on its own line, or the dictionary or domain stated. Printing a function mechanism states its outcome or distribution once for each combination of its parents' outcomes, and its probability table every entry.",
 ["inputs"],"all diagrams, drawing options, properties and mechanisms",
 "Tests call the drawing functions without looking at what they draw, and print one mechanism.",
 [CB,MB,CI,RG,CP],[("draw, draw_property",CB),("colours and shapes by role and agent",MB),("draw, draw_sccs",RG),("__repr__",CP)],
 ["markers, colours, texts and arrows left on the matplotlib figure; text of mechanisms"])
p("C30","Bundled examples are the described models, fresh on every call",
 "Every bundled example function returns, on every call, in every interpreter and whatever was done before to models it returned earlier, a model of the same kind with the same nodes, edges, agents, roles, outcomes and tables, namely the ones of the example as published and described: payoff matrices, numbers of pure, mixed and subgame perfect equilibria, and statements about recall in the descriptions hold of it. Where an example is parameterised, its tables are complete and valid, and its decisions are left open.",
 ["histories","configurations"],"all bundled examples, histories of changes to earlier results, and hash seeds",
 "Tests build the examples once and look at a few; a shared list or a swapped payoff shows only in the histories and cells they do not visit.",
 ["pycid/examples/simple_cbns.py","pycid/examples/simple_cids.py","pycid/examples/simple_macids.py","pycid/examples/story_cids.py","pycid/examples/story_macids.py"],
 [("example constructors","pycid/examples")],
 ["models returned by the example functions"])
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
