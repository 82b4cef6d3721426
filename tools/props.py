import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)

p('C01','Lazy graph searches explore exactly the reachable graph in their order',
 'A graph search handed out as an iterator emits, at every pull, an item its agenda discipline allows next (oldest discovered first for breadth-first, newest first for depth-first, a maximum-weight one for weighted search, whatever a caller-supplied agenda decides otherwise), asks for the successors of exactly that item exactly once, and ends only when nothing discovered is left. The duplicate-free variant emits every reachable item exactly once and never stops while an unexplored reachable item remains. Sessions do not influence each other: interleaving or abandoning sessions, or a successor function that panics in one, leaves the sequence of every other session as it would be alone.',
 ['schedules','inputs','histories','fault_sequences'],
 'for every finite successor relation (with cycles, shared nodes, duplicate edges and equal weights), every set of initial items, every agenda, every interleaving of pulls of several live sessions, every point at which a session is abandoned or its successor function panics',
 'The repository has no test of its search iterators at all except through two parsers; nothing pulls several sessions alternately, no test graph reaches a node twice, and the order among equal weights and the point at which enumeration ends depend on the whole history of pulls.',
 ['search/src/search.rs','search/src/agenda/mod.rs'],
 [('pop one item, extend the agenda with its successors','search/src/search.rs'),('set of items seen so far','search/src/search.rs')],
 [('agenda','frontier of a session','search/src/search.rs'),('elements','items already emitted by the duplicate-free variant','search/src/search.rs')],
 ['Iterator::next of a search'])
p('C02','Search agendas keep the right items in the right order, within their bound',
 'Whatever the history of pushes, bulk insertions, pops, peeks, clears and clones, every agenda returns each accepted item exactly once and in its order: first-in-first-out, last-in-first-out, or an item of greatest priority first. An agenda of bounded size never holds more than its capacity and always keeps the items of highest priority among those offered, handing back one of lowest priority when full; an agenda with a beam accepts an item exactly when it is empty or the priority is at least the best held priority multiplied by the beam factor. Peeking shows the item the next pop returns, the length is the number of items held, a clone is independent of its original, and an interrupted bulk insertion keeps exactly the items offered before the interruption.',
 ['histories','schedules','inputs','configurations','fault_sequences'],
 'for every sequence of operations on several live agendas and their clones, every capacity including zero, every beam factor, every pattern of equal priorities, every point at which the source of a bulk insertion fails',
 'The only tests are benchmarks that assert nothing; no test mixes pushes and pops, uses equal priorities, or reaches the full or beam-rejecting state.',
 ['search/src/agenda/mod.rs','search/src/agenda/limited_heap.rs','search/src/agenda/beam_heap.rs','search/src/agenda/binary_heap.rs','search/src/agenda/weighted.rs'],
 [('evict the minimum when full','search/src/agenda/limited_heap.rs'),('compare with best priority times the beam factor','search/src/agenda/beam_heap.rs'),('order on weights only','search/src/agenda/weighted.rs')])
p('C03','The unique priority queue holds each element at most once, first weight wins',
 'After any history of insertions, removals, bulk constructions and clones the queue holds each element at most once, with the weight of the insertion that was accepted; an insertion is accepted exactly when the element is not currently held, and an element can be inserted again after it was removed. Removal returns the held pair that is greatest by weight and then by element, peeking, the length, the emptiness test, iteration and the sorted listing all describe the same content, and every way of building a queue from a collection agrees with inserting its pairs one after the other. This does not depend on the hash function, on the size the source of a collection announces, or on the copying of an element failing half way through an insertion.',
 ['histories','schedules','inputs','configurations','fault_sequences'],
 'for every sequence of operations on several live queues and clones, every hash function from perfect to constant, every legal size announcement of an iterator, every point at which cloning an element panics',
 'One documentation example with four elements; it never re-inserts a removed element, never builds from a vector with duplicates, never iterates, and uses one hash function.',
 ['unique-heap/src/lib.rs'],
 [('membership set in step with the heap','unique-heap/src/lib.rs'),('bulk construction','unique-heap/src/lib.rs')],
 [('heap','weights and elements','unique-heap/src/lib.rs'),('current_items','elements currently held','unique-heap/src/lib.rs')])
p('C04','Multi-maps over vectors return exactly what was stored under each index',
 'After any history of stores, reads and in-place edits through the map and through adapters borrowed for a while over an existing vector of vectors, the list under each index is exactly the values stored there in order, reading an index never stored to yields an empty list or nothing and changes no other index, and no access is out of bounds. Conversion to a plain vector of lists keeps every non-empty list at its index and ends with the last non-empty one, and conversion with a given size yields exactly that many lists.',
 ['histories','schedules','inputs'],
 'for every sequence of operations by several interleaved writers and short-lived adapters over the same storage, every index and every requested size',
 'The crate has no tests; its users touch only one growth pattern, and the accessors use unchecked indexing whose validity depends on the growth history.',
 ['vecmultimap/src/lib.rs'],
 [('pad storage up to the index before unchecked access','vecmultimap/src/lib.rs')])
p('C05','Reading a damaged CFG text never panics and never loses an intact rule',
 'Reading a context-free grammar from text yields exactly the rules of the text in order, with their weights and initial nonterminals, when the text is intact, however it is commented, spaced and split into lines. When the stored text is damaged (cut off, with lines lost, doubled or reordered, with bytes changed), reading either reports an error or yields a grammar that contains every rule written on an undamaged line, in the order of those lines and nothing but what the lines say; it never panics or runs away. A grammar written out and read back after a restart is the same grammar.',
 ['inputs','fault_sequences','crash_points'],
 'for every grammar text in the documented syntax, every cut-off point and every sequence of line losses, duplications, reorderings and byte changes of the stored text, every hash seed of the reading process',
 'The tests read a handful of hand-written texts and malformed snippets; no test reads a long text with damage in it or compares the undamaged remainder.',
 ['src/grammars/cfg/from_str.rs','src/util/parsing.rs','src/grammars/cfg/mod.rs'],
 [('line-wise parser for rules and comments','src/util/parsing.rs'),('rule parser','src/grammars/cfg/from_str.rs')])
p('C06','Reading a damaged PMCFG or LCFRS text never panics or loses an intact rule',
 'Reading a multiple context-free grammar (general, linear, or with a single initial nonterminal) from text yields exactly the rules of the text in order, with composition, tail, weight and initial nonterminals, when the text is intact. When the stored text is damaged, reading either reports an error or yields a grammar that contains every rule written on an undamaged line, in order and nothing but what the lines say; it never panics or runs away. A grammar written out and read back after a restart is the same grammar.',
 ['inputs','fault_sequences','crash_points'],
 'for every grammar text in the documented syntax, every cut-off point and every sequence of line losses, duplications, reorderings and byte changes of the stored text, every hash seed of the reading process',
 'The tests read a handful of hand-written texts; several malformed weights and variable numbers end in a panic that no test reaches.',
 ['src/grammars/pmcfg/from_str.rs','src/grammars/lcfrs/from_str.rs','src/grammars/mcfg/mod.rs','src/util/parsing.rs','src/grammars/pmcfg/mod.rs'],
 [('rule parser','src/grammars/pmcfg/from_str.rs'),('line-wise parser','src/util/parsing.rs'),('single initial nonterminal, consistency','src/grammars/lcfrs/mod.rs')])
p('C07','Reading a damaged treebank grammar or lexicon never silently loses a rule',
 'Reading the two-file treebank format (grammar rules with frequencies and the lexicon) yields, when both files are intact, exactly one rule per grammar line and per lexicon entry, with relative-frequency weights that are normalised over each left-hand side, and with the default lexicon one certain rule for each symbol that occurs only on right-hand sides. When a file is damaged, reading reports an error or yields every rule written on an undamaged line with the frequencies those lines state; it never panics, and it never returns a grammar that silently lacks the lines after the damage.',
 ['inputs','fault_sequences','crash_points'],
 'for every grammar and lexicon in the format, every cut-off point and every sequence of line losses, duplications and byte changes of either file',
 'The tests read single lines and one tiny intact grammar; no test reads a file with a malformed line in the middle.',
 ['src/grammars/lcfrs/from_discodop.rs'],
 [('line-wise rule and lexicon parsers','src/grammars/lcfrs/from_discodop.rs'),('normalisation per left-hand side','src/grammars/lcfrs/from_discodop.rs')])
p('C08','Reading damaged automata and equivalence classes reports or keeps intact lines',
 'Reading a tree-stack automaton, a finite-state automaton or a file of equivalence classes from text yields exactly the transitions, initial and final configurations, or classes of the text when it is intact, and a mapping from symbols to classes that does not depend on the order of set members; a printed automaton names its initial and final configurations. When the text is damaged, reading reports an error or yields everything the undamaged lines say and nothing else; it never panics or runs away.',
 ['inputs','fault_sequences','crash_points'],
 'for every automaton or class file in the documented syntax, every cut-off point and every sequence of line losses, duplications and byte changes, every hash seed of the reading process',
 'The tests read a few hand-written texts and one-line malformed snippets.',
 ['src/automata/tree_stack_automaton/from_str.rs','src/automata/tree_stack_automaton/tree_stack_instruction.rs','src/automata/finite_state_automaton/from_str.rs','src/recognisable/from_str.rs','src/approximation/equivalence_classes.rs','src/util/parsing.rs'],
 [('transition and instruction parsers','src/recognisable/from_str.rs'),('class parser, first matching class and default','src/approximation/equivalence_classes.rs')])
p('C09','An extracted parser file is durable: intact and equal, or rejected',
 'A grammar extracted to a file and loaded by a later process gives, for every sentence, the same answers as parsing with the grammar in memory. If extraction could not write the whole file it exits with an error; a file that is cut off, torn or has changed bytes is rejected by the loading process with a non-zero exit, and is never used to print parses that the intact file would not give. Interrupted or partial writes and reads that the system allows to be retried have no effect on the outcome.',
 ['fault_sequences','crash_points','inputs'],
 'for every grammar, every sequence of short or interrupted writes, every write error or kill at any byte of extraction, every cut-off point and every changed byte of the stored file, every restart',
 'No test runs the extraction or loading commands at all; every file in the tests is held in memory and intact.',
 ['src/bin/csparsing.rs','src/grammars/lcfrs/csparsing/mod.rs'],
 [('serialise, compress and write to standard output','src/bin/csparsing.rs'),('decompress and deserialise','src/bin/csparsing.rs')])
p('C10','Sentence streams yield one block per sentence, in order, whatever the chunks',
 'Parsing a corpus read from standard input prints one block per input line in input order, with exactly the parses that parsing this sentence alone prints; sentences do not influence each other. The output does not depend on how the streams are cut into reads and writes or on interrupted system calls, and when reading or writing fails for good the command exits non-zero with output that is a prefix of the undisturbed output.',
 ['fault_sequences','schedules','inputs','crash_points'],
 'for every corpus, every division of the streams into reads and writes, every placement of interruptions, every error or kill at any byte of a stream',
 'No test runs the command line; the library tests parse one sentence from memory.',
 ['src/bin/csparsing.rs','src/grammars/lcfrs/csparsing/mod.rs'],
 [('loop over input lines','src/bin/csparsing.rs')])
p('C11','Grammar and automaton commands survive hostile streams without wrong output',
 'The commands for context-free and multiple context-free grammars, tree-stack automata and approximations print, for every input word, exactly the parses or automata the library computes, in the order of the words. Chunked or interrupted streams and file reads change nothing, and when a grammar, automaton or class file or the input cannot be read completely the command fails with a non-zero exit instead of printing results computed from a part of it.',
 ['fault_sequences','inputs','crash_points'],
 'for every grammar and corpus, every division into reads and writes, every placement of interruptions, every read or write error at any byte of any file or stream',
 'No test runs these commands, and no test lets a read fail.',
 ['src/bin/cfg.rs','src/bin/pmcfg.rs','src/bin/tree_stack_automata.rs','src/bin/approximation.rs'],
 [('read grammar file, then words from standard input','src/bin/pmcfg.rs')])
p('C12','Chomsky-Schützenberger parsing lists the best derivations lazily and soundly',
 'Every derivation the parser enumerates for a sentence is a derivation of the grammar whose yield is that sentence, none is enumerated twice, and weights never increase along the enumeration. Without a limiting beam or threshold no derivation better than the last one enumerated is missing, and when the enumeration ends it has contained every derivation of the sentence; it ends after the last one unless the grammar can pass components around a cycle of chain rules. A sentence outside the language yields no derivation, at most a fallback tree rooted in the initial nonterminal whose yield is the sentence. Reading never panics for a normal-form grammar, whatever the length of the sentence, the beam or the candidate limit, and also when no rule expands the initial nonterminal. Pulling several enumerations alternately, abandoning some, or reusing one parser for many sentences changes none of the sequences beyond the order of equal weights.',
 ['schedules','inputs','histories','configurations'],
 'for every normal-form grammar with weights in (0,1], every sentence, every interleaving of pulls of several live enumerations, every beam, candidate limit and hash seed',
 'The tests parse three words with two grammars and compare whole result lists; they never interleave enumerations, vary hash seeds, use ambiguous grammars with many derivations or restrict the beam.',
 ['src/grammars/lcfrs/csparsing/mod.rs','src/grammars/lcfrs/csparsing/automaton/mod.rs','src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs','src/grammars/lcfrs/csparsing/automaton/chart.rs','src/grammars/lcfrs/csparsing/automaton/estimates.rs','src/grammars/lcfrs/csparsing/cowderiv.rs'],
 [('lazy k-best extraction over a chart','src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs'),('outside estimates and filtered rules','src/grammars/lcfrs/csparsing/automaton/estimates.rs')])
p('C13','Results do not depend on hash seeds or on process restarts',
 'Reading a grammar, converting it, building a parser or an automaton from it and parsing with it gives the same rules and the same weighted parses in every process, whatever seed the process uses for its hash tables; where several parses or configurations have equal weight only their mutual order may differ. In particular the sets of rules, the number of parses and the sequence of weights are the same.',
 ['configurations','inputs','schedules'],
 'for every grammar and word and every pair of hash seeds of two processes',
 'Each test process draws one hash seed, and the tests compare results with order-insensitive or single-result assertions.',
 ['src/grammars/lcfrs/conversion.rs','src/grammars/lcfrs/from_discodop.rs','src/grammars/cfg/from_pmcfg.rs','src/automata/push_down_automaton/from_cfg.rs','src/automata/tree_stack_automaton/from_pmcfg.rs','src/grammars/lcfrs/csparsing/mod.rs'],
 [('iteration over hash maps and sets','src/grammars/lcfrs/conversion.rs')])
p('C14','Automata enumerate exactly the accepting runs, best first, session by session',
 'Recognition of a word by a push-down, tree-stack or finite-state automaton enumerates accepting runs lazily: each is a run of the automaton that consumes the word and ends in a final configuration, its weight is that of the transitions it lists, no run occurs twice, weights never increase, and every accepting run is enumerated when the search is exhausted. Recognition with a beam enumerates only runs the full recognition has. Several recognitions pulled alternately, abandoned or repeated on the same automaton behave as if alone. An automaton built from a context-free or multiple context-free grammar has exactly one accepting run for every derivation of the word, with its weight.',
 ['schedules','inputs','histories','configurations'],
 'for every automaton obtained from a grammar or read from text, every word, every interleaving of pulls of several live recognitions, every beam width and hash seed',
 'The tests recognise single words from fresh automata and check acceptance, mostly not the enumeration.',
 ['src/recognisable/automaton.rs','src/recognisable/transition.rs','src/recognisable/configuration.rs','src/automata/push_down_automaton/mod.rs','src/automata/tree_stack_automaton/mod.rs','src/automata/finite_state_automaton/mod.rs'],
 [('agenda of configurations by weight','src/recognisable/automaton.rs'),('runs as shared lists','src/util/push_down.rs')])
p('C15','Coarse-to-fine recognition finds exactly what direct recognition finds',
 'An approximation of an automaton accepts every word the automaton accepts, and mapping the transitions of a coarse run back yields exactly the transitions they stand for. A coarse-to-fine recogniser built from any stack of approximations enumerates for every word exactly the accepting runs of the finest automaton, each exactly once, best first as long as no merged coarse weight exceeds one, however its lazy result is pulled and however many words or sessions share it.',
 ['schedules','inputs','configurations'],
 'for every grammar, equivalence relation and limit on the approximated stack, every word, every interleaving of pulls',
 'The tests check acceptance of three words with one grammar and never look beyond the first result.',
 ['src/recognisable/coarse_to_fine.rs','src/approximation/mod.rs','src/approximation/relabel.rs','src/approximation/tts.rs'],
 [('lazy chain of recognisers','src/recognisable/coarse_to_fine.rs'),('map from coarse to fine transitions','src/approximation/mod.rs')])
p('C16','Conversions between grammar formalisms keep exactly the reachable rules',
 'Converting a well-formed multiple context-free grammar to one whose rules erase no component keeps the weighted language derivation by derivation: the result has, for every nonterminal and set of erased components reachable from the initial nonterminal, exactly the rules of that nonterminal without those components, each as often as in the original and with its weight, so that the derivations of both grammars correspond one to one with the same yields and weights. The conversion ends without a panic for every such grammar, including ones with unreachable, unproductive or undefined nonterminals. Whether a grammar counts as linear, non-erasing and consistent is decided by exactly that definition, without a panic for any variable number. Conversion of a grammar of fanout one to a context-free grammar keeps every rule in its place. All this holds in every process, whatever the iteration order of its hash tables, and every time a conversion is repeated.',
 ['configurations','inputs','schedules'],
 'for every well-formed grammar (consistent fanouts, variables within the tail, initial fanout one), every hash seed and repetition of the conversion in one process or after a restart',
 'The tests convert one grammar of five rules; the set of rules found depends on the exploration order, which differs per process.',
 ['src/grammars/lcfrs/conversion.rs','src/grammars/lcfrs/mod.rs','src/grammars/mcfg/mod.rs','src/grammars/cfg/from_pmcfg.rs'],
 [('worklist over nonterminals and erased components','src/grammars/lcfrs/conversion.rs'),('consistency of fanouts and variables','src/grammars/lcfrs/mod.rs')])
p('C17','Stored bracket languages, partitions and rules behave the same after a restart',
 'A partition of symbols, a multiple Dyck language, the rules of a grammar and a whole parser representation that were stored and loaded again by another process behave as before: the same words are accepted, the same sentences get the same parses. Membership of a word in a multiple Dyck language is exactly the cancellation condition that its definition states, in every process and however many queries came before. Stored bytes that are cut off are always rejected with an error; a partition or list of rules whose bytes were changed is rejected or loaded as a well-formed value, and cells that overlap are never accepted as a partition; nothing of this panics or runs away.',
 ['crash_points','fault_sequences','inputs','configurations'],
 'for every partition, language and grammar, every cut-off point and changed byte of the stored form, every pair of hash seeds of the storing and the loading process',
 'The tests check a few dozen fixed words in one process and never store anything.',
 ['src/util/partition.rs','src/dyck/multiple/mod.rs','src/dyck/multiple/automaton/mod.rs','src/grammars/lcfrs/csparsing/mod.rs','src/dyck/mod.rs'],
 [('serde implementations','src/util/partition.rs'),('partition-wise cancellation','src/dyck/multiple/automaton/mod.rs')])
p('C18','Versions of shared stacks and tree stacks never change under later operations',
 'A push-down or tree stack is a value: an operation returns a new version (or refuses) and every version kept by anyone still shows exactly what it showed when it was made, whatever is done to versions that share structure with it, in whatever order, and whichever of them are dropped. Each operation has exactly its documented effect, so that undoing a push, going up and down again, or applying the inverse of a push-down instruction leads back to the earlier content and position.',
 ['histories','schedules'],
 'for every tree of versions, every interleaving of operations on its leaves, every order of dropping versions',
 'The tests apply short straight-line sequences to one version at a time.',
 ['src/automata/tree_stack_automaton/tree_stack.rs','src/util/push_down.rs','src/automata/tree_stack_automaton/tree_stack_instruction.rs','src/automata/push_down_automaton/mod.rs'],
 [('copy-on-write children of tree-stack nodes','src/automata/tree_stack_automaton/tree_stack.rs'),('shared list cells','src/util/push_down.rs')])
# not applicable
def na(id,title,statement,text,why,files,mech):
    p(id,title,statement,['inputs'],text,why,files,mech)
p('C19','Members of hashed and ordered collections are found again in every process',
 'Configurations, transitions, items, instructions, grammar rules, push-downs, shared lists, tree stacks and brackets can be members of hash tables, ordered sets, heaps and numbering tables: whatever the hash seed of the process and whatever was inserted, replaced and removed before, by whomever, a collection contains a value exactly when an equal value was inserted and not removed since. Two values are equal exactly when they show the same content, whatever operations each was built by; configurations, transitions and rules are equal in hash tables whatever their weights, and told apart by their weights in ordered collections. Sorting gives the same sequence whatever the order in which values were met, configurations, transitions and items come in the order of their weights, reversed weights in the opposite order, and all ways of comparing two values agree. A value numbered in shared tables is restored as it was, with its weight.',
 ['histories','configurations'],'for every history, construction and hash seed','The tests compare a few values; none is a member of a collection that lives through a history or another hash seed.',
 ['src/recognisable/configuration.rs','src/recognisable/transition.rs','src/util/reverse.rs','src/automata/tree_stack_automaton/tree_stack.rs','src/util/push_down.rs','src/grammars/pmcfg/mod.rs','src/grammars/cfg/mod.rs'],[('hand-written Eq, Hash and Ord','src/recognisable/configuration.rs'),('structural equality of shared nodes','src/automata/tree_stack_automaton/tree_stack.rs')])
na('C20','Printing and re-reading single rules, weights and instructions is the identity',
 'The printed form of a single rule, composition, weight or instruction reads back as the same value.',
 'for every value','The tests cover a few values.',['src/grammars/pmcfg/mod.rs','src/grammars/cfg/mod.rs','src/automata/tree_stack_automaton/tree_stack_instruction.rs'],[('Display implementations','src/grammars/pmcfg/mod.rs')])
p('C22','Exported derivations are read back as the same words and constituents',
 'A derivation exported in the line-based treebank format is read back by any consumer as exactly the words in their order (or the words given in their place), each with the label of the rule it comes from, below exactly the constituents of the derivation that dominate a word, with their labels and discontinuities; a sentence without parse is exported as its words below one node without parse. When the pipe breaks or the exporting process ends at any byte, every complete block is still right and an incomplete one is recognisable, so that a restarted export can go on behind the last complete block. Separating terminals off rules first gives rules that consist of nonterminals only or of exactly one terminal, keeps the words, the rules, labels, successors and weights of the derivation, names new rules by no label in use, and changes nothing when it is repeated; all that in every process.',
 ['inputs','crash_points','fault_sequences','configurations'],
 'for every derivation whose root is no terminal rule (discontinuous, deep, wide, with unused or repeated components, with empty words), every byte at which the output breaks off, every hash seed',
 'The tests export one derivation of a few rules to a string, and separate the terminals of three derivations none of whose rules starts with a terminal in front of a nonterminal.',
 ['src/grammars/pmcfg/negra.rs','src/grammars/pmcfg/mod.rs','src/util/tree.rs'],
 [('numbering of constituents','src/grammars/pmcfg/negra.rs'),('evaluation of compositions','src/grammars/pmcfg/mod.rs'),('separate_terminal_rules','src/grammars/pmcfg/mod.rs')])
na('C23','Weights form the semiring and factorisation the parsers assume',
 'Reversed and factorised weights satisfy the algebraic laws (monotonicity, inverse of the factorisation, order reversal) that best-first search relies on.',
 'for every pair of weights','A few test values.',['src/util/reverse.rs','src/util/factorizable.rs'],[('Reverse wrapper','src/util/reverse.rs')])
p('C24','Trees indexed by Gorn addresses keep exactly what was stored at each address',
 'After any history of insertions, replacements, removals, in-place edits, appends, splits, clones and bulk constructions by several owners, a tree indexed by Gorn addresses holds exactly the values stored and not removed since, each at its address. Lookups, length, emptiness, equality and all traversals describe that content, in the order of the addresses (a constituent before its descendants and its later siblings, by number); an append moves every entry over, replacing those at common addresses, and leaves the other tree empty; a split moves exactly the addresses from the given one on. Clones are independent, no value is lost, doubled or leaked, and a source, callback or copy that fails half way, or an abandoned traversal, leaves the other content as it was.',
 ['histories','schedules','fault_sequences'],
 'for every sequence of operations on several live trees, every address, every point at which a source, a callback or a copy fails or a traversal is abandoned',
 'There is no test of the tree itself; its users insert and look up a handful of addresses in one order.',
 ['src/util/tree.rs'],
 [('map from addresses to values','src/util/tree.rs'),('traversal in order of addresses','src/util/tree.rs')])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
