"""Writes known_findings.json: genuine defects that are recorded (known) or repaired (fixed)."""
import json, subprocess, os
KNOWN = [
 {"property": "C07", "status": "known", "clause": "C07.all_predicted_not_using_open_element",
  "what": "MinimizeGrandPotentialEnumerator drops predicted reactions that neither take up nor release the open element when pymatgen leaves it in the reaction with a round-off coefficient (enumerators/utils.py get_computed_rxn re-balances with the open phase forced onto a side); the existing tests pin the reduced counts (tests/enumerators/test_minimize.py: 119, 42, 14), so it is recorded and not repaired"},
 {"property": "C21", "status": "known", "clause": "C21.jitter_drops_elements",
  "what": "GibbsEntrySet.get_entries_with_jitter leaves the elemental entries out of the set it returns (entries/entry_set.py: 'if entry.is_element: continue' before adding); an existing test (tests/entries/test_entry_set.py test_get_entries_with_jitter) compares the sets pairwise by position and fails when the elements are kept, so it is recorded and not repaired"},
 {"property": "C26", "status": "known", "clause": "C26.distance_in_own_diagram",
  "what": "chempot_distance of a reaction with a metastable phase can depend on which reactions share its chunk: jobs/core.py _get_chempot_decorated_rxns_by_chunk reuses the chemical potential diagram of a larger chemical system, where domains are cut at other limits (-100 against -500 eV) and only vertices are compared (e.g. TiC -> Ti + C: 22.97 in Ti-C, 24.17 in Y-Ti-C); the reuse is deliberate (it avoids building diagrams, and gives distances to reactions with a single element besides the open one), so it is recorded and not repaired"},
]
# (commit, properties, what failed)
FIXED = [
 ("17ed693", "C01", "a computed reaction whose phases cannot be balanced was returned without being flagged as unbalanced"),
 ("44176b8", "C03", "product atomic fractions of open reactions ignored the coefficients"),
 ("eb572bc", "C03", "normalizing an open reaction lost its chemical potentials"),
 ("4b758c7", "C02", "reactions with the same phases in another order compared coefficients of different phases"),
 ("27bf1c5", "C02", "is_separable missed common gases and targets among the reactants"),
 ("5dbee73", "C02", "from_string failed on positive exponents written by str()"),
 ("20b897a", "C03", "open reactions without precomputed grand potential entries could not change temperature; OpenComputedReaction.from_dict altered its argument"),
 ("ad22fc7", "C01", "reactions with integer coefficients could not be created"),
 ("c54d63d", "C09", "get_rxns_by_product missed the first entry and other polymorphs and failed when nothing matched"),
 ("2ee8d08", "C10", "filter_duplicates failed with one CPU"),
 ("2aca506", "C08", "reaction sets created without data yielded no reactions"),
 ("ccd880e", "C08", "a loaded reaction set with an empty group had the wrong shape"),
 ("9b9fe38", "C11", "changing the temperature of a reaction set merged polymorphs"),
 ("2fd9ad5", "C08", "the entries of a reaction set depended on the iteration order of polymorphs; a missing reaction to be ensured raised"),
 ("cec0b03", "C22", "GibbsComputedEntry failed at float temperatures between tabulated ones"),
 ("e210ac1", "C22", "temperature-dependent adjustments were applied at the old temperature or twice after changing the temperature"),
 ("e11f46c", "C22", "InterpolatedEntry.get_new_temperature returned another class"),
 ("39b4f13", "C02", "is_separable of open reactions considered the open element instead of the target's elements"),
 ("448ce92", "C04", "minimize enumerators kept reactions outside filter_by_chemsys"),
 ("f45fa9d", "C14", "Yen's search missed and repeated paths (root path, parallel edges, loops)"),
 ("4173d3f", "C12", "loopback edges of earlier precursors remained and others were duplicated"),
 ("7a3b0ab", "C13", "rebuilding left precursors and target set without their nodes"),
 ("e2cfd69", "C17", "grand potential reactions found between intermediates were dropped"),
 ("516afff", "C17", "the pathway solver failed on one CPU, with fewer candidates than allowed combinations and when nothing was found"),
 ("00f553b", "C17", "entries of candidate reactions missing from the entry set of the solver raised"),
 ("fdde886", "C18", "contains_interdependent_rxns missed interdependent reactions"),
 ("ffa6e00", "C19", "pathways of different length or cost compared equal, equal ones had different hashes"),
 ("636138c", "C19", "pathway sets lost the balanced status of pathways"),
 ("e6e7d11", "C20", "the order of polymorphs in the entries list depended on the history of the set"),
 ("a92642b", "C23", "the computed entry was added next to the NIST entry when FREED had no data for the phase"),
 ("7addf93", "C23", "options of the entry set were lost for systems with ten or more elements"),
 ("f94d48f", "C23", "entry sets built from the same computed entries shared (and changed) their data"),
 ("9ae0063", "C22", "experimental reference entries of multiples of a formula unit had the energy of one unit"),
 ("32025f8", "C25", "the number of secondary reaction sequences of a reaction next to a precursor was computed from a negative count, which made its secondary competition meaningless"),
 ("95f24f3", "C25", "the recursive secondary competition differed from the other variants when a precursor decomposes"),
 ("9e3f59a", "C24", "reactions at an end of the hull with an energy of (round-off) zero removed the precursor vertex and raised"),
 ("94ed538", "C26", "reactions of one precursor and the open element were scored as an interface between the precursor and the open element"),
 ("ceb13fe", "C26", "competing reactions that consume the open element were left out unless a target reaction consumes it"),
 ("b3de1c9", "C28", "maximizing the metrics of a Pareto front raised (read-only array) or left the first metric minimized"),
 ("1152d6b", "C27", "softplus costs were 0 for very favorable and overflowed for very unfavorable reactions"),
 ("6cc5643", "C27", "a function given to aggregate chemical potential distances was ignored and calculating failed"),
 ("4f99014", "C32", "subsets of an iterator with more than one member were missing"),
 ("685e6a6", "C29", "queries for metastable domains removed original entries from the diagram or left the stabilized entry in it, so later answers changed"),
 ("02424a5", "C29", "grand potential entries with the same composition but for the open element were all ground states, with energies above hull of 0"),
 ("f6dff3c", "C30", "an unbuilt network could not be saved; a loaded network had dictionaries as precursors and target; loading emptied the dictionary"),
 ("d82bf35", "C30", "a loaded interface reaction hull had its endpoint reactions twice"),
 ("e301275", "C34", "a table requested again was the same object, with whatever the caller had done to it"),
 ("038800b", "C36", "energy cascades of pathways with formulas of several formula units used the energy of one unit"),
 ("28a6914", "C36", "three-dimensional scatter plots raised KeyError (titlefont)"),
 ("575f75a", "C36", "scatter plots of tables with repeated row labels (as after joining tables) left out reactions that share a label with one of the Pareto front"),
]
out = {"findings": KNOWN + [{"property": p, "status": "fixed", "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"} for c, p, w in FIXED]}
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "known_findings.json"), "w") as f: json.dump(out, f, indent=1); f.write("\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    if " fix:" in l and l.split()[0] not in {c for c, *_ in FIXED}: print("not recorded:", l)
