import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
     'anchors':{'files':files,'state':[dict(zip(('name','meaning','where'),s)) for s in state],'mechanism':[dict(zip(('name','where'),m)) for m in mech],'observe_at':list(obs),'hook_needed':None}})
FE='include/find_embedding/'
BQ='include/busclique/'
p('C01','A reported success is a valid minor embedding',
  'Whenever find_embedding (or a miner) reports success, the chains it returns for the non-fixed source nodes are non-empty, connected in the target, pairwise disjoint and disjoint from the fixed chains, and every source edge with a non-fixed end has at least one target edge between the two chains. This holds for every source and target graph, seed, time limit and option combination. No input makes the call read or write outside its own data.',
  ['inputs','configurations','histories'],'all source/target graphs, seeds, initial/fixed chains, option values, and sequences of quickpass and find_embedding calls',
  'The tests run a few dozen fixed graphs with default options; validity depends on every step of a randomised search history, which the tests sample once per graph.',
  [FE+'embedding.hpp',FE+'pathfinder.hpp',FE+'chain.hpp',FE+'find_embedding.hpp'],
  [('embedding::statistics returns 1 only when no qubit is used twice',FE+'embedding.hpp'),('embedding::linked / construct_chain_steiner / link_path',FE+'embedding.hpp'),('find_chain',FE+'pathfinder.hpp')],
  [('qub_weight','number of chains using each qubit',FE+'embedding.hpp'),('links','qubit a chain uses to meet each neighbour',FE+'chain.hpp')],['find_embedding(S,T,**params)','miner.quickpass','findEmbedding()'])
p('C02','Fixed chains never change and never share their qubits',
  'A chain passed as a fixed chain is returned exactly as given in every result, whatever other chains, orders or passes are run, and on success no other chain contains any of its qubits. The qubits of fixed chains are never used to build another chain.',
  ['inputs','histories'],'all sets of fixed chains, together with any initial chains, variable orders and pass sequences',
  'The tests fix one or two single-qubit chains on one graph and run one call; the guarantee is about every later operation of the search.',
  [FE+'embedding.hpp',FE+'embedding_problem.hpp',FE+'graph.hpp',FE+'find_embedding.hpp'],
  [('fixed variables are numbered last and are nobody\'s to tear out',FE+'find_embedding.hpp'),('reserved qubits are sources only in the target neighbourhoods',FE+'graph.hpp'),('fixed_handler_hival',FE+'embedding_problem.hpp')],(),['find_embedding(fixed_chains=...)','miner.quickpass'])
p('C03','Qubit use counts equal the number of chains using the qubit',
  'After any sequence of operations on the chains of an embedding, the use count of every qubit equals the number of chains that contain it. Every chain operation changes the counts by exactly its own change of membership.',
  ['histories','inputs'],'all sequences of chain and embedding operations',
  'The counts are private and only spot-checked by debug builds that the tests do not make; overlap decisions depend on them after thousands of steps.',
  [FE+'chain.hpp',FE+'embedding.hpp'],[('every member that changes data also updates qubit_weight',FE+'chain.hpp'),('shared qub_weight',FE+'embedding.hpp')],
  [('qubit_weight','use count of each qubit',FE+'chain.hpp')],['overlap decisions, return_overlap results'])
p('C04','Chain parents form a tree rooted in the chain, with exact reference counts',
  'After any sequence of chain operations every qubit of a chain has its parent inside the chain, parents contain no cycle, every linking qubit belongs to the chain, and the reference count of a qubit is exactly the number of parent and link references to it. Trimming therefore only ever removes qubits nothing refers to.',
  ['histories','inputs'],'all sequences of chain operations (root, leaf, link, trim, adopt, steal, path linking, copy)',
  'The structure is only checked by a debug build; a wrong count shows as a torn chain many steps later.',
  [FE+'chain.hpp'],[('add_leaf/trim_leaf/trim_branch/set_link/drop_link/adopt/steal/link_path',FE+'chain.hpp')],
  [('data','qubit -> (parent, reference count)',FE+'chain.hpp'),('links','neighbour -> linking qubit',FE+'chain.hpp')],['chains returned by find_embedding'])
p('C05','Setting a chain aside and putting it back restores the embedding',
  'When a variable\'s chain is set aside and later put back with no change to the other chains in between, all chains, links, reference counts and use counts are exactly what they were. While it is set aside the chain is empty, no other chain is linked to it and its qubits are free.',
  ['histories'],'every embedding state and every variable, including repeated set-asides',
  'Tests observe only the final embedding; an inexact undo shifts reference counts and is silent until a later trim.',
  [FE+'chain.hpp',FE+'embedding.hpp'],[('chain::freeze / chain::thaw',FE+'chain.hpp'),('freeze_out / thaw_back / tear_out',FE+'embedding.hpp')],(),['chain length improvement in find_embedding'])
p('C06','The incumbent embedding never gets worse and its statistics are exact',
  'The statistics of an embedding report overlap exactly when some qubit is used by two chains, and otherwise count the non-fixed chains of each length. During a run the stored best embedding is replaced only by one that is better in the order (valid before overlapping; then smaller maximum, then fewer at the maximum, then fewer at the largest size that differs) - except that a new trial starts over while no valid embedding has been found - so restarting from a valid embedding never returns a worse one.',
  ['inputs','histories'],'all embeddings and all sequences of candidate embeddings',
  'Tests compare sizes on a single run; the order must be respected at each of thousands of comparisons.',
  [FE+'embedding.hpp',FE+'pathfinder.hpp'],[('embedding::statistics',FE+'embedding.hpp'),('pathfinder_base::check_improvement',FE+'pathfinder.hpp')],(),['find_embedding(initial_chains=..., skip_initialization=True)'])
p('C07','Every variable order visits each non-fixed variable exactly once',
  'Each ordering strategy (shuffle, depth-first, breadth-first, priority-first, reversed priority-first) produces a sequence containing every non-fixed variable exactly once and nothing else, for every source graph including disconnected ones and any random state. Keeping the previous order repeats it.',
  ['inputs','histories'],'all source graphs and random states, any sequence of strategies',
  'The tests only check that a pass returns; a missing or repeated variable merely leaves an empty chain or wastes work.',
  [FE+'embedding_problem.hpp'],[('embedding_problem::var_order, dfs_component, bfs_component, pfs_component',FE+'embedding_problem.hpp')],(),['miner.quickpass(varorder=...)'])
p('C08','Node labels survive the internal renumbering in both directions',
  'Chains, fixed chains, restrictions and explicit variable orders given in caller labels are applied to exactly those nodes, and results come back in caller labels. The renumbering that puts fixed variables and reserved qubits last is a bijection on the nodes it covers.',
  ['inputs','configurations'],'all graphs, all positions of fixed variables and reserved qubits, all components',
  'Tests mostly use identity labels and fixed chains on the last nodes, where a wrong renumbering is invisible.',
  [FE+'find_embedding.hpp',FE+'graph.hpp'],[('parameter_processor',FE+'find_embedding.hpp'),('components::into_component / from_component',FE+'graph.hpp')],(),['find_embedding','miner.quickpass','miner.set_initial_chains'])
p('C09','Neighbourhood lists are exactly the simple graph of the given edges',
  'The neighbour lists built from an edge list contain each edge in both directions exactly once, no self-loop and no other entry, after the requested renumbering and with entries into (or out of) the marked nodes left out. Connected components partition the nodes and keep every edge.',
  ['inputs'],'all edge lists with repeated edges, loops and any marking or renumbering',
  'Tests look at a handful of small graphs; a missed direction only shows as a rarely missed path.',
  [FE+'graph.hpp'],[('input_graph::get_neighbors*',FE+'graph.hpp'),('components constructor',FE+'graph.hpp')],(),['find_embedding result validity'])
p('C10','Searches always expand a nearest qubit and pick a true minimum',
  'The priority queue returns its entries in non-decreasing order and returns each inserted entry exactly once, for any interleaving of insertions and removals. The set of minimum positions handed to the root choice is exactly the set of positions holding the smallest value.',
  ['inputs','histories'],'all interleavings of insert and remove, all value vectors',
  'Tests insert a few sorted values; the shape of the heap depends on the whole history.',
  [FE+'pairing_queue.hpp',FE+'util.hpp'],[('pairing_queue merge/emplace/pop',FE+'pairing_queue.hpp'),('collectMinima',FE+'util.hpp')],(),['path distances, chain lengths'])
p('C11','The same inputs and seed give the same embedding',
  'With one thread and no timeout, two runs with equal graphs, options and random seed return identical results, and the seed fully determines the random stream. Restarting a generator with a seed reproduces its stream regardless of what was drawn before.',
  ['inputs','configurations'],'all inputs and seeds',
  'Tests compare a few seeds on one graph; hidden state or uninitialised data shows only on some inputs.',
  ['include/fastrng.hpp',FE+'util.hpp',FE+'pathfinder.hpp'],[('fastrng seed/splitmix/xorshift',  'include/fastrng.hpp'),('optional_parameters owns the generator',FE+'util.hpp')],(),['find_embedding(random_seed=...)'])
p('C12','Linear qubit labels and structured coordinates correspond one to one',
  'For every Chimera, Pegasus and Zephyr size, the conversion between a qubit number and its structured coordinates is a bijection onto the valid range, and every index computed from valid coordinates stays inside the table it indexes, with different coordinates getting different entries.',
  ['inputs','configurations'],'all topology families, sizes and coordinates',
  'Tests use a few sizes; an off-by-one stride collides only for particular non-square sizes.',
  [BQ+'coordinate_types.hpp',BQ+'util.hpp'],[('coordinate_converter',BQ+'coordinate_types.hpp'),('topo_spec linear indexing',BQ+'util.hpp')],(),['busgraph_cache results'])
p('C13','Line masks list exactly the unbroken lines',
  'For every yield of qubits and couplers, the precomputed mask of a line segment contains a track exactly when every qubit of the segment on that track is present and every coupler between consecutive ones is present. Turning a mask into chains yields one chain per marked track.',
  ['inputs','configurations'],'all topologies, sizes and sets of missing qubits and couplers',
  'Tests delete a few random qubits; a wrong mask entry matters only when the best clique runs through that segment.',
  [BQ+'bundle_cache.hpp',BQ+'cell_cache.hpp',BQ+'util.hpp'],[('bundle_cache::compute_line_masks',BQ+'bundle_cache.hpp'),('topo_spec::process_nodes/process_edges',BQ+'util.hpp')],(),['find_clique, find_biclique'])
p('C14','Every bad-coupler variant is tried and leaves no trace',
  'When couplers between the two orientations are missing, the sequence of masked variants covers the choices of which end to give up without repeating or skipping, each variant removes an end of every missing coupler, and returning to the start restores the original masks exactly.',
  ['inputs','histories'],'all sets of missing internal couplers and all iteration histories',
  'Tests never have more than a few missing internal couplers and only look at the best result.',
  [BQ+'topo_cache.hpp'],[('topo_cache::reset / next',BQ+'topo_cache.hpp')],(),['busgraph_cache.find_clique_embedding on graphs with missing couplers'])
p('C15','Clique embeddings are valid embeddings of the requested complete graph',
  'Whatever nodes and edges are missing from the target, a clique embedding returned by the busclique routines has the requested number of chains, each a connected set of present nodes, pairwise disjoint and pairwise joined by a present edge. When it reports none, nothing is returned.',
  ['inputs','configurations'],'all topologies, sizes, defect patterns, clique sizes and cache use',
  'Tests cover a few sizes with few defects.',
  [BQ+'find_clique.hpp',BQ+'clique_cache.hpp',BQ+'small_cliques.hpp','minorminer/busclique.pyx'],[('clique_cache/clique_iterator',BQ+'clique_cache.hpp'),('find_clique',BQ+'find_clique.hpp')],(),['find_clique_embedding','busgraph_cache.find_clique_embedding'])
p('C16','Biclique embeddings are valid embeddings of the requested bipartite graph',
  'A biclique embedding returned for sizes a and b has a and b disjoint connected chains of present nodes on its two sides, and every chain of one side has a present edge to every chain of the other, for every defect pattern and shape.',
  ['inputs','configurations'],'all topologies, sizes, defect patterns and shapes',
  'Tests cover a few shapes with few defects.',
  [BQ+'biclique_cache.hpp',BQ+'find_biclique.hpp','minorminer/busclique.pyx'],[('biclique_cache / biclique_yield_cache',BQ+'biclique_cache.hpp')],(),['busgraph_cache.find_biclique_embedding'])
p('C18','Packed layout rectangles stay inside the bounding box and never overlap',
  'Whenever packing succeeds, every item gets a position at which it lies completely inside the reported width and height, no two items overlap, and the grid bookkeeping used to find free regions always describes the placed items exactly.',
  ['inputs','histories'],'all lists of rectangle sizes and all bounds',
  'Tests pack a handful of component sizes.',
  ['minorminer/_extern/rpack/src/rpackcore.c','minorminer/_extern/rpack/_core.pyx','minorminer/_extern/rpack/_rpack.py'],[('grid_find_region / grid_split / pack',  'minorminer/_extern/rpack/src/rpackcore.c')],(),['rpack.pack, layout of disconnected graphs'])
p('C19','Embedding diagnosis is sound and complete',
  'The diagnosis of an embedding reports a problem exactly when some chain is missing, empty or disconnected, some target node is used twice or does not exist, or some source edge has no target edge; the yes/no check agrees with the diagnosis. It terminates on every input.',
  ['inputs'],'all source graphs, target graphs and candidate embeddings',
  'Tests give one example of each defect kind.',
  ['minorminer/utils/diagnostic.py'],[('diagnose_embedding','minorminer/utils/diagnostic.py')],(),['diagnose_embedding, is_valid_embedding, verify_embedding'])
p('C21','Label dictionaries are a bijection between labels and 0..n-1',
  'A label dictionary assigns consecutive numbers to new labels in order of first appearance, the same number to the same label for ever, and its inverse lookup returns the label that was given that number.',
  ['inputs','histories'],'all sequences of lookups',
  'Tests look up a few labels in a fixed order.',
  ['minorminer/_minorminer.pyx'],[('labeldict','minorminer/_minorminer.pyx')],(),['labels of returned embeddings'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert x['statement'].count('. ')<=2, x['id']
print(len(P))
