"""Which function is compared with which reference definition, for which properties and kinds of arguments."""
from __future__ import annotations

import os
from dataclasses import dataclass, field
from typing import Any, Dict, List, Tuple

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {"refspec_" + n: os.path.join(HERE, "specs", n + ".py") for n in ("analyze", "paths", "reach", "patterns", "network", "roles", "cpds", "games", "generate")}


@dataclass
class Entry:
    props: Tuple[str, ...]
    target: str
    spec: str
    kinds: Dict[str, str]
    opts: Dict[str, Any] = field(default_factory=dict)
    label: str = ""


ENTRIES: List[Entry] = []


def E(props: str, target: str, spec: str, kinds: str, label: str = "", **opts: Any) -> None:
    """kinds: 'model:CID str str' — one per parameter, in order"""
    ks = {f"p{i}": k for i, k in enumerate(kinds.split())}
    ENTRIES.append(Entry(tuple(props.split()), "pycid." + target, "refspec_" + spec, ks, opts, label))


A = "analyze:ref_"
VI, VC = "analyze.value_of_information:", "analyze.value_of_control:"
C1, C2, CD = "model:CID", "model:CID str", "model:CID str str"
E("C12 C13 C14", "analyze.requisite_graph:requisite", A + "requisite", "model:MACIDBase str str")
E("C12 C13 C14", "analyze.requisite_graph:requisite_list", A + "requisite_list", "model:MACIDBase str")
E("C12 C13 C14", "analyze.requisite_graph:requisite_graph", A + "requisite_graph", "model:MACIDBase")
E("C13 C17", VI + "admits_voi", A + "admits_voi", CD)
E("C13 C17", "analyze.response_incentive:admits_ri", A + "admits_ri", CD)
E("C14 C17", "analyze.instrumental_control_incentive:admits_ici", A + "admits_ici", CD)
E("C14 C17", VC + "admits_voc", A + "admits_voc", C2)
E("C14 C17", VC + "admits_dir_voc", A + "admits_dir_voc", C2)
E("C14 C17", VC + "admits_indir_voc", A + "admits_indir_voc", CD)
E("C18", VI + "admits_voi_list", A + "admits_voi_list", C2, as_set=True)
E("C18", VC + "admits_voc_list", A + "admits_voc_list", C1)
E("C18", VC + "admits_dir_voc_list", A + "admits_dir_voc_list", C1)
E("C18", VC + "admits_indir_voc_list", A + "admits_indir_voc_list", C2)
E("C18", "analyze.response_incentive:admits_ri_list", A + "admits_ri_list", C2)
E("C18", "analyze.instrumental_control_incentive:admits_ici_list", A + "admits_ici_list", C2)
E("C16 C17", VI + "quantitative_voi", A + "quantitative_voi", CD)
E("C16 C17", VC + "quantitative_voc", A + "quantitative_voc", C2)
E("C16", "analyze.effects:total_effect", A + "total_effect", "model:CID str str any any")
E("C16", "analyze.effects:introduced_total_effect", A + "introduced_total_effect", "model:CID str str str any any any")

P = "paths:ref_"
GP = "core.get_paths:"
B = "model:MACIDBase"
E("C10", GP + "get_motif", P + "get_motif", B + " seq int")
E("C10", GP + "get_motifs", P + "get_motifs", B + " seq")
E("C10", GP + "_get_path_edges", P + "path_edges", B + " seq", private=True)
E("C10", GP + "is_active_path", P + "is_active_path", B + " seq optset")
E("C10", GP + "is_active_indirect_frontdoor_trail", P + "frontdoor", B + " str str optset")
E("C10", GP + "is_active_backdoor_trail", P + "backdoor", B + " str str optset")
E("C10 C15", GP + "directed_decision_free_path", P + "decision_free", B + " str str")
E("C10", GP + "_active_neighbours", P + "active_neighbours", B + " seq set", private=True)
R = "reach:ref_"
MB = "core.macid_base:MACIDBase."
E("C11", MB + "is_r_reachable", R + "r_reachable", B + " coll coll", "for collections")
E("C11", MB + "is_r_reachable", R + "r_reachable_one", B + " str str", "for single nodes")
E("C11", MB + "is_s_reachable", R + "s_reachable", B + " str str")
E("C11", MB + "sufficient_recall", R + "sufficient_recall", B + " any")
E("C11", MB + "get_valid_order", R + "valid_order", B + " optset")
Q = "patterns:ref_"
RP = "analyze.reasoning_patterns:"
E("C15", RP + "_path_is_effective", Q + "path_is_effective", B + " seq set", private=True)
E("C15", RP + "direct_effect", Q + "direct_effect", B + " str", given="dec:p1")
E("C15 C17", RP + "manipulation", Q + "manipulation", B + " str set", given="dec:p1")
E("C15 C17", RP + "revealing_or_denying", Q + "revealing_or_denying", B + " str set", given="dec:p1")
E("C15", RP + "_get_key_node", Q + "key_node2", B + " seq", private=True)
E("C15 C17", RP + "signaling", Q + "signaling", B + " str set", given="dec:p1")
E("C15", RP + "get_reasoning_patterns", Q + "get_reasoning_patterns", B)
E("C10", GP + "find_active_path", P + "find_active_path", B + " str str set")
E("C10 C13 C14 C15", GP + "find_all_dir_paths", P + "find_all_dir_paths", B + " str str")
E("C10 C15", GP + "find_all_undir_paths", P + "find_all_undir_paths", B + " str str")
E("C10", GP + "_dfs_search_paths", P + "dfs", "str str any", private=True)
RG = "core.relevance_graph:"
E("C11", RG + "RelevanceGraph.__init__", R + "relevance_graph", "obj:RelevanceGraph model:MACIDBase optseq")
E("C11 C19", RG + "CondensedRelevanceGraph.__init__", R + "condensed", "obj:CondensedRelevanceGraph model:MACIDBase")
E("C11 C19", RG + "CondensedRelevanceGraph.get_scc_topological_ordering", R + "scc_order", "obj:CondensedRelevanceGraph")
E("C11 C19", RG + "CondensedRelevanceGraph.get_decisions_in_scc", R + "decisions_in_scc", "obj:CondensedRelevanceGraph")
E("C11", RG + "RelevanceGraph.is_acyclic", R + "is_acyclic", "obj:RelevanceGraph")
E("C11", RG + "RelevanceGraph.get_sccs", R + "sccs", "obj:RelevanceGraph")

# ---- the network layer
N = "network:ref_"
CB = "core.causal_bayesian_network:CausalBayesianNetwork."
MO = CB + "Model."
OM = "obj:CausalBayesianNetwork.Model"
CN = "model:CausalBayesianNetwork"
E("C04", MO + "__init__", N + "model_init", OM + " any seq kwargs")
E("C04", MO + "__setitem__", N + "setitem", OM + " str any")
E("C04", MO + "__delitem__", N + "delitem", OM + " str")
E("C04", MO + "sync_state_names", N + "sync", OM)
E("C04", MO + "to_tabular_cpd", N + "to_tabular", OM + " str any")
E("C25", CB + "__init__", N + "init", "obj:CausalBayesianNetwork optseq kwargs")
E("C04", CB + "remove_edge", N + "remove_edge", CN + " str str")
E("C04", CB + "add_edge", N + "add_edge", CN + " str str kwargs")
E("C04", CB + "remove_node", N + "remove_node", CN + " str")
E("C04", CB + "add_cpds", N + "add_cpds", CN + " seq kwargs")
E("C04", CB + "remove_cpds", N + "remove_cpds", CN + " seq")
E("C05", CB + "is_structural_causal_model", N + "is_scm", CN)
E("C01 C07 C08", CB + "query", N + "query", CN + " seq dict any")
E("C07", CB + "intervene", N + "intervene", CN + " dict")
E("C08", CB + "expected_value", N + "expected_value", CN + " seq dict any")
E("C26", CB + "sample", N + "sample", CN + " any")
E("C02", CB + "copy_without_cpds", N + "copy_without_cpds", CN)
E("C02", CB + "copy", N + "copy", CN)

# ---- agents, roles and policies
L = "roles:ref_"
MM = MB + "Model."
OB = "obj:MACIDBase"
E("C04", MM + "__setitem__", L + "model_setitem", "obj:MACIDBase.Model str any")
E("C04", MM + "to_tabular_cpd", L + "model_to_tabular", "obj:MACIDBase.Model str any")
E("C03 C28", MB + "__init__", L + "init", OB + " any dict dict kwargs")
E("C03", MB + "decisions", L + "decisions", OB)
E("C03", MB + "utilities", L + "utilities", OB)
E("C03", MB + "agents", L + "agents", OB)
E("C03", MB + "make_decision", L + "make_decision", OB + " str any", hint="_ _ agent")
E("C03", MB + "make_utility", L + "make_utility", OB + " str any", hint="_ _ agent")
E("C03", MB + "make_chance", L + "make_chance", OB + " str")
E("C03", MB + "remove_node", L + "remove_node", OB + " str")
E("C04", MB + "add_cpds", L + "add_cpds", B + " seq kwargs")
E("C08", MB + "query", L + "query", B + " seq dict any")
E("C09", MB + "expected_utility", L + "expected_utility", B + " dict any any")
E("C20", MB + "pure_decision_rules", L + "pure_decision_rules", B + " str")
E("C20", MB + "pure_policies", L + "pure_policies", B + " seq")
E("C09 C20", MB + "optimal_pure_policies", L + "optimal_pure_policies", B + " seq any")
E("C20", MB + "optimal_pure_decision_rules", L + "optimal_pure_decision_rules", B + " str")
E("C20", MB + "impute_random_decision", L + "impute_random_decision", B + " str")
E("C20", MB + "impute_fully_mixed_policy_profile", L + "impute_fully_mixed", B)
E("C20", MB + "remove_all_decision_rules", L + "remove_all_decision_rules", B)
E("C09 C20", MB + "impute_optimal_decision", L + "impute_optimal_decision", B + " str")
E("C20", MB + "impute_conditional_expectation_decision", L + "impute_conditional_expectation", B + " str str")
E("C10", MB + "active_trail_nodes", L + "active_trail_nodes", B + " any optseq kwargs")
E("C02", MB + "copy_without_cpds", L + "macidbase_copy", B)
E("C11", "core.macid_base:MechanismGraph.__init__", L + "mechanism_graph", "obj:MechanismGraph model:MACIDBase")
CI = "core.cid:CID."
E("C03", CI + "__init__", L + "cid_init", "obj:CID any any any kwargs")
E("C19", CI + "impute_optimal_policy", L + "impute_optimal_policy", C1)
E("C20", CI + "optimal_policies", L + "optimal_policies", C1)
E("C20", CI + "impute_random_policy", L + "impute_fully_mixed", C1)
E("C01 C20", CI + "solve", L + "solve", C1)
E("C02", CI + "copy_without_cpds", L + "cid_copy", C1)

# ---- distributions
D = "cpds:ref_"
SC = "core.cpd:StochasticFunctionCPD."
OS = "obj:StochasticFunctionCPD"
E("C05", SC + "__init__", D + "init", OS + " str any any any any any")
E("C05", SC + "stochastic_function", D + "stochastic_function", OS + " kwargs")
E("C05", SC + "check_function_arguments_match_parent_names", D + "check_arguments", OS)
E("C05", SC + "parent_values", D + "parent_values", OS)
E("C05", SC + "possible_values", D + "possible_values", OS)
E("C02", SC + "copy", D + "copy", OS)
E("C05", "core.cpd:ConstantCPD.__init__", D + "constant_init", "obj:ConstantCPD str any any any any")
E("C05", "core.cpd:DecisionDomain.__init__", D + "domain_init", "obj:DecisionDomain str any any")
E("C02", "core.cpd:DecisionDomain.copy", D + "domain_copy", "obj:DecisionDomain")
E("C05", "core.cpd:bernoulli", D + "bernoulli", "any")
E("C05", "core.cpd:discrete_uniform", D + "discrete_uniform", "seq")
E("C05", "core.cpd:noisy_copy", D + "noisy_copy", "any any any")

# ---- games
S = "games:ref_"
MC = "core.macid:MACID."
CM = "model:MACID"
E("C24", MC + "get_ne", S + "get_ne", CM + " any")
E("C23", MC + "create_subgame", S + "create_subgame", CM + " seq")
E("C23 C24", MC + "get_ne_in_sg", S + "get_ne_in_sg", CM + " optset any")
E("C19 C24", MC + "get_spe", S + "get_spe", CM + " any")
E("C11 C23", MC + "decs_in_each_maid_subgame", S + "decs_in_each_subgame", CM)
E("C20", MC + "joint_pure_policies", S + "joint_pure_policies", CM + " seq")
E("C20", MC + "policy_profile_assignment", S + "policy_profile_assignment", CM + " seq")
E("C02", MC + "copy_without_cpds", L + "macid_copy", CM)
GB = "export.gambit:"
E("C21", GB + "macid_to_efg", S + "macid_to_efg", B + " optset optset")
E("C21", GB + "macid_to_gambit_file", S + "gambit_file", B + " str")
E("C22", GB + "pygambit_ne_solver", S + "ne_solver", "any any")
E("C21 C22", GB + "behavior_to_cpd", S + "behavior_to_cpd", B + " any any optset")

# ---- random generation
Z = "generate:ref_"
E("C26", "random.random_cpd:temp_seed", Z + "temp_seed", "any")
E("C26", "random.random_cpd:RandomCPD.__init__", Z + "cpd_init", "obj:RandomCPD any any any")
E("C26", "random.random_cpd:RandomCPD.__call__", Z + "cpd_call", "obj:RandomCPD kwargs")
E("C27", "random.random_dag:add_random_edge", Z + "add_random_edge", "any seq any", hint="_ _ nat")
E("C27", "random.random_dag:random_dag", Z + "random_dag", "any any any", hint="nat num nat")
E("C24", "random.random_cid:random_cid", Z + "random_cid", "any any any any any any any any", hint="nat nat nat bool bool num nat nat")
E("C24", "random.random_cid:random_cids", Z + "random_cids", "any any any any any any any", hint="pair pair pair bool bool num nat")
E("C24", "random.random_macid:random_macid", Z + "random_macid", "any any any any any any any any", hint="nat nats nats bool bool num nat nat")
E("C24", "random.random_macid:random_macids", Z + "random_macids", "any any any any any any any", hint="pair pair pair bool bool num nat")
RM = "random.random_macidbase:"
E("C27", RM + "add_random_cpds", Z + "add_random_cpds", B)
E("C27", RM + "_check_max_in_degree", Z + "check_max_in_degree", B + " any", private=True, hint="_ nat")
E("C11 C27", RM + "_add_sufficient_recall", Z + "add_sufficient_recall", B + " str str str", private=True)
E("C11 C27", RM + "_add_sufficient_recalls", Z + "add_sufficient_recalls", B, private=True)
E("C24 C27", RM + "random_macidbase", Z + "random_macidbase", "any any any any any any any any", hint="nat nats nats bool bool num nat nat")

# ---- the same comparisons decide further properties
ALSO = {
    "C01": "CausalBayesianNetwork.copy copy_without_cpds StochasticFunctionCPD.copy DecisionDomain.copy",
    "C02": "CausalBayesianNetwork.__init__ MACIDBase.__init__ CID.__init__ CausalBayesianNetwork.Model.__init__ Model.__setitem__ .add_cpds "
           "StochasticFunctionCPD.__init__ DecisionDomain.__init__ ConstantCPD.__init__",
    "C03": "CausalBayesianNetwork.__init__ CausalBayesianNetwork.remove_node copy_without_cpds CausalBayesianNetwork.intervene create_subgame",
    "C04": "CausalBayesianNetwork.__init__ MACIDBase.remove_node CausalBayesianNetwork.intervene StochasticFunctionCPD.__init__ parent_values "
           "possible_values check_function_arguments_match_parent_names DecisionDomain.__init__ ConstantCPD.__init__ CausalBayesianNetwork.copy "
           "StochasticFunctionCPD.copy DecisionDomain.copy make_decision",
    "C05": "MACIDBase.Model.__setitem__ CausalBayesianNetwork.Model.__setitem__ RandomCPD.__call__ StochasticFunctionCPD.copy to_tabular_cpd",
    "C07": "add_cpds Model.__setitem__ .query expected_value expected_utility :total_effect quantitative_voc ConstantCPD.__init__ CausalBayesianNetwork.remove_edge",
    "C08": "MechanismGraph.__init__ active_trail_nodes .query expected_value expected_utility",
    "C09": "create_subgame impute_conditional_expectation_decision quantitative_voi quantitative_voc optimal_pure_decision_rules CID.solve CID.impute_optimal_policy CID.optimal_policies get_spe get_ne_in_sg macid_to_efg",
    "C10": "active_trail_nodes",
    "C11": "MechanismGraph.__init__ active_trail_nodes get_motif get_spe",
    "C12": "remove_edge active_trail_nodes find_all_dir_paths",
    "C13": "remove_edge active_trail_nodes admits_voi_list admits_ri_list",
    "C14": "remove_edge find_active_path _path_edges get_motif admits_voc_list admits_dir_voc_list admits_indir_voc_list admits_ici_list is_active_backdoor_trail",
    "C15": "get_motif get_motifs is_active_path is_active_indirect_frontdoor_trail is_active_backdoor_trail",
    "C16": "remove_edge MACIDBase.make_decision remove_all_decision_rules is_structural_causal_model add_cpds pure_decision_rules impute_random_policy stochastic_function MACIDBase.impute_optimal_decision optimal_pure_policies impute_random_decision CID.copy_without_cpds expected_value expected_utility CausalBayesianNetwork.intervene impute_optimal_policy CID.solve",
    "C17": "is_acyclic expected_value .query bernoulli get_spe macid_to_efg get_ne_in_sg pygambit_ne_solver optimal_pure_policies impute_random_decision introduced_total_effect total_effect is_structural_causal_model _list direct_effect get_reasoning_patterns sufficient_recall requisite requisite_graph is_r_reachable is_s_reachable",
    "C18": "requisite_list get_reasoning_patterns",
    "C19": "remove_all_decision_rules pure_policies pure_decision_rules get_decisions_in_scc is_acyclic get_sccs impute_random_policy MACIDBase.impute_optimal_decision optimal_pure_policies optimal_pure_decision_rules create_subgame decs_in_each_maid_subgame impute_fully_mixed_policy_profile impute_random_decision expected_utility RelevanceGraph.__init__ get_valid_order CID.solve get_ne_in_sg optimal_policies sufficient_recall",
    "C20": "remove_all_decision_rules stochastic_function parent_values CID.solve get_ne possible_values DecisionDomain.__init__ get_ne_in_sg",
    "C21": "get_valid_order",
    "C22": "macid_to_efg get_valid_order create_subgame get_ne get_ne_in_sg get_spe",
    "C23": "get_decisions_in_scc is_r_reachable is_s_reachable copy_without_cpds get_spe get_ne make_chance macid_to_efg behavior_to_cpd",
    "C24": ":total_effect introduced_total_effect expected_value expected_utility .query optimal_pure_policies pygambit_ne_solver "
           "macid_to_gambit_file macid_to_efg random_dag CausalBayesianNetwork.sample active_trail_nodes add_edge discrete_uniform noisy_copy "
           "RandomCPD.__init__ RandomCPD.__call__ temp_seed is_active_path is_active_indirect_frontdoor_trail is_active_backdoor_trail "
           "RelevanceGraph.__init__ get_valid_order behavior_to_cpd sufficient_recall StochasticFunctionCPD.__init__ DecisionDomain.__init__ "
           "ConstantCPD.__init__ add_cpds MACIDBase.__init__ CausalBayesianNetwork.__init__ CID.__init__ manipulation signaling "
           "revealing_or_denying add_random_edge _add_sufficient_recalls solve optimal_policies",
    "C25": "impute_conditional_expectation_decision pure_decision_rules impute_optimal_decision impute_random_decision Model.__setitem__ CausalBayesianNetwork.__init__ CausalBayesianNetwork.sample bernoulli get_ne get_spe check_function_arguments_match_parent_names optimal_pure_decision_rules make_decision make_utility _list :total_effect introduced_total_effect expected_value expected_utility .query StochasticFunctionCPD.__init__ stochastic_function "
           "parent_values possible_values to_tabular_cpd CausalBayesianNetwork.intervene active_trail_nodes get_valid_order is_active_path "
           "is_active_indirect_frontdoor_trail is_active_backdoor_trail pure_policies joint_pure_policies policy_profile_assignment create_subgame "
           "macid_to_efg behavior_to_cpd RelevanceGraph.__init__ discrete_uniform noisy_copy ConstantCPD.__init__ DecisionDomain.__init__ "
           "MACIDBase.__init__ CID.__init__ is_r_reachable is_s_reachable optimal_pure_policies quantitative_voc quantitative_voi get_ne_in_sg "
           "RandomCPD.__init__ RandomCPD.__call__ sufficient_recall random_dag random_macidbase temp_seed :random_cid :random_macid add_cpds",
    "C26": "add_random_cpds random_macidbase random_dag random_cid random_macid add_random_edge stochastic_function",
    "C27": "find_active_path get_motif _active_neighbours RandomCPD.__init__ RandomCPD.__call__ random_cid random_macid",
    "C28": "add_cpds Model.__setitem__ get_valid_order pure_policies optimal_pure_policies get_ne_in_sg macid_to_efg RandomCPD.__init__ :is_active_path find_active_path manipulation signaling revealing_or_denying get_reasoning_patterns random_macidbase CausalBayesianNetwork.__init__ CID.__init__ make_decision make_utility make_chance copy_without_cpds CausalBayesianNetwork.Model.__init__ "
           "StochasticFunctionCPD.__init__ DecisionDomain.__init__ .query CausalBayesianNetwork.intervene CausalBayesianNetwork.copy expected_value "
           "create_subgame sufficient_recall",
}


def _also() -> None:
    for prop, suffixes in ALSO.items():
        for s in suffixes.split():
            hits = [e for e in ENTRIES if e.target.endswith(s) or (s[0] == ":" and s[1:] in e.target.split(":")[1:] or s in ("random_cid", "random_macid") and s in e.target)]
            assert hits, s
            for e in hits:
                if prop not in e.props:
                    e.props += (prop,)


_also()
