BUILT.update({
 'C05': "Real text reader over a simulated disk; trusts an independent reader of single lines written for the check and byte provenance of the damage model.",
 'C06': "Real text readers over a simulated disk; trusts an independent reader of single lines written for the check and byte provenance of the damage model.",
 'C07': "Real treebank readers over a simulated disk; trusts an independent reader of single lines and a recomputation of relative frequencies.",
 'C08': "Real automaton and class readers over a simulated disk; trusts an independent reader of single lines; the integeriser crate is a re-implementation.",
 'C16': "Real conversions and checks, in several simulated processes with hash seeds of their own; trusts a direct re-statement of the worklist and a bounded enumeration of derivations.",
 'C12': "Real parser (representation, chart, k-best, fallback) with interleaved enumerations in simulated processes; trusts a direct enumeration of all derivations of short sentences.",
 'C18': "Real stacks under a scheduler that operates on, keeps and drops versions; trusts an immutable model of each version.",
 'C17': "Real serialisation, partitions, bracket languages, rules and parsers over simulated streams, files and restarts; trusts a direct reading of the definition of (sorted) multiple Dyck languages.",
 'C14': "Real automata, conversions and recognition with interleaved sessions in simulated processes; trusts plain-value automata whose runs are found by trying every transition, and derivations enumerated from the grammar.",
 'C15': "Real approximations and coarse-to-fine recognisers with interleaved sessions in simulated processes; trusts plain-value automata whose runs are found by trying every transition.",
 'C13': "Real readers, conversions, parsers, automata and approximations in two or three simulated processes with hash seeds of their own; trusts nothing but the comparison of the processes (weights up to rounding, equal weights in any order).",
 'C09': "Real extract and parse commands in simulated processes over simulated streams and a file that can be cut, torn or changed; trusts an enumeration of all derivations of short sentences.",
 'C10': "Real parse command in simulated processes over simulated streams; trusts an enumeration of all derivations of short sentences and the comparison with each sentence parsed alone.",
 'C11': "Real commands in simulated processes over simulated streams and files; undisturbed output is compared with the library and derivations enumerated from the grammar, disturbed output with the undisturbed one; the dispatch of main.rs is re-stated in the harness.",
 'C19': "Real comparisons, hashes and numberings of every kind of value, in real collections that live through interleaved histories and restarts with other hash seeds; trusts the plain content each value was built from.",
})

BUILT['C22'] = "Real export and separation code in simulated processes whose pipe breaks at drawn bytes, read back by the reader of the check; words that look like node numbers or contain white space are not drawn."
BUILT['C24'] = "Real GornTree against a list of addresses with accounted values, under interleaved owners and failing copies, sources and callbacks."
