from common import *
import pyc
UNITS = [Unit('labeldict', pyc.make_main), Unit('subgraph', pyc.make_sub), Unit('read', pyc.make_read)]
HARNESSES = [dict(name='labels', py='labels_py.py', python='/usr/bin/python3', budget=25, stress=60, thorough=300, slack=180,
                  bound='at most 30 lookups of labels of eight kinds; find_embedding and miner on sources of at most 6 and targets of at most 8 nodes with arbitrary labels',
                  rule='numbers against first appearance, inverse lookups, and the labels of returned embeddings against the given graphs; distinct by input')]
EXPLANATION = ('both label dictionaries keep a bijection between labels and 0..n-1 through every lookup: a new label gets the next number, a known one its old number, label(k) is the label with number k; shuffling renumbers '
               'the same labels by a permutation; _read_graph gives every node of the graph exactly one number and passes every edge on by its numbers (isolated nodes as self-loops), _get_chainmap turns chains of labels into '
               'the same chains of numbers and refuses exactly when a label is unknown. That the labels of returned embeddings are those of the given graphs is checked by the bounded harness')
ASSUMPTIONS = ['the class text is translated mechanically (engine/py2cxx.py) on every run; dropped: labels become ints (hashing and equality of Python objects), `cdef` declarations, the inherited dict is a std::map whose missing keys go to __missing__',
               'random.shuffle permutes its list', 'input_graph.push_back as proved under C09', 'networkx edges() lists every edge once in one direction', 'arguments of chains are dicts of lists (the TypeError/ValueError handlers are dropped)', 'fewer than 2^29 labels and edges']
