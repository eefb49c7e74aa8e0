"""Rewrite the 'fixed:' lines of KNOWN_FINDINGS.txt from /repo's fix commits (kept by hand: the property map)."""
import pathlib
import subprocess

MAP = {
    "query no longer deletes": "C06", "expected_value returns": "C08", "MACIDBase.query accepts context": "C07",
    "create_subgame accepts a plain": "C19", "a rounding error": "C02", "ConstantCPD and DecisionDomain": "C03",
    "an intervention keeps": "C04", "create_subgame keeps the order": "C19", "a copy no longer depends": "C05",
    "copies keep agents": "C05", "a (MA)CID does not modify": "C06", "removing a decision or utility": "C22",
    "quantitative_voc no longer modifies": "C06", "RandomCPD treats 0": "C21", "random_dag respects": "C20",
    "expected utility and optimal decisions": "C09", "optimal_pure_policies keeps": "C09", "MechanismGraph detects": "C11",
    "decisions of one agent with the same parents": "C17", "behavior_to_cpd accepts": "C18", "get_spe keeps unrelated": "C19", "random_dag refuses": "C20", "RandomCPD with a": "C21", "samples of nodes": "C23", "an agent with only": "C22", "random diagrams of a single": "C20", "macid_to_efg accepts": "C17",
    "subgames of decisions that have no effect": "C19", "reasoning patterns: fork": "C16", "signaling considers": "C16",
    "revealing_or_denying requires": "C16", "quantitative_voc of a utility": "C14", "random (MA)CIDs with sufficient": "C20",
    "is_active_indirect_frontdoor_trail": "C15", "query keeps the outcome names": "C01", "impute_optimal_decision accepts": "C09",
    "impute_conditional_expectation_decision accepts": "C25", "a mechanism can be added after": "C03",
    "removing an edge from an unspecified parent": "C03", "copies of ConstantCPD and DecisionDomain": "C05",
    "a model with an unfinished ConstantCPD": "C05", "a copy keeps the mechanisms of the children": "C05",
    "the expected value of a variable in": "C08", "requisite_graph removes nonrequisite": "C12",
    "is_s_reachable accepts a set": "C11", "quantitative_voc of a utility node that": "C14",
    "removing a node also removes a mechanism": "C22", "query ignores unfinished": "C07",
    "any callable can be": "C02", "get_ne looks for": "C18", "requisite recognises latent": "C12", "copies keep the set of latent": "C05", "a copy of a mechanism keeps its label": "C29", "removing several edges refits": "C03", "the name of a random mechanism": "C29", "admits_voi_list refuses": "C27", "is_r_reachable refuses": "C27", "a refused intervention": "C27", "expected_value refuses interventions": "C27", "a model keeps edges": "C28", "optimal_pure_policies of no decisions": "C28",
    "active trails can be": "C28", "queries, subgames and relevance": "C28", "an exported game keeps": "C28",
}
root = pathlib.Path(__file__).resolve().parent.parent
f = root / "KNOWN_FINDINGS.txt"
keep = [ln for ln in (f.read_text().splitlines() if f.exists() else []) if not ln.startswith("fixed:")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], text=True).splitlines()
out = []
for ln in log:
    h, _, s = ln.partition(" ")
    if s.startswith("fix: in battle_of_the_sexes"):
        continue  # reverted: the bundled examples are left as they are
    if s.startswith("fix: "):
        s = s[5:]
        k = max((k for k in MAP if s.startswith(k)), key=len)
        out.append(f"fixed: property={MAP[k]} {h} {s}")
f.write_text("\n".join(keep + out) + "\n")
print(len(out))
