"""find_embedding: shared driver TU, data model and macros"""
from common import *

DRIVER = '''
#include <memory>
#include <iostream>
#include "find_embedding/find_embedding.hpp"
namespace find_embedding {
typedef embedding_problem<fixed_handler_none, domain_handler_universe, output_handler<true>> EPN;
template class embedding_problem<fixed_handler_none, domain_handler_universe, output_handler<true>>;
template class embedding<EPN>;
template class pathfinder_serial<EPN>;
template void chain::steal<EPN>(chain &, EPN &, int);
// client used as a composition lemma over the contracts of freeze and thaw
inline void freeze_thaw(vector<chain> &others, int u, frozen_chain &keep) { others[u].freeze(others, keep); others[u].thaw(others, keep); }
}
'''


def prog():
    return program('fe', DRIVER, filters=('find_embedding::',),
                   inst={'embedding_problem': 'fixed_handler_none, find_embedding::domain_handler_universe'})


def registry():
    reg = Registry()
    reg.alias[('chain', 'qubit_weight')] = 'QW'
    reg.alias[('embedding', 'qub_weight')] = 'QW'
    reg.ghost = {'chain': [('rank', TZ3(z3.ArraySort(I, I)))]}
    return reg


INST = {'nn': ('fixed_handler_none, find_embedding::domain_handler_universe, find_embedding::output_handler<true>'),
        'hm': ('fixed_handler_hival, find_embedding::domain_handler_masked, find_embedding::output_handler<false>')}
DRIVER2 = '''
#include <memory>
#include <iostream>
#include "find_embedding/find_embedding.hpp"
namespace find_embedding {
typedef embedding_problem<fixed_handler_hival, domain_handler_masked, output_handler<false>> EPM;
typedef embedding_problem<fixed_handler_none, domain_handler_universe, output_handler<true>> EPN;
template class embedding<EPM>;
template class embedding<EPN>;
template class pathfinder_serial<EPM>;
template class pathfinder_serial<EPN>;
template class pathfinder_parallel<EPM>;
}
'''


def prog2(which, prio='long long, find_embedding::min_heap_tag'):
    """one instantiation of the problem/embedding/pathfinder templates, and of the entries of the search queues"""
    t = INST[which]
    return program('fe2' + which + prio, DRIVER2, filters=('find_embedding::',),
                   inst={'priority_node': prio, **{k: t for k in ('embedding_problem', 'embedding', 'pathfinder_base', 'pathfinder_serial', 'pathfinder_parallel')}})


def prog_hm():
    return prog2('hm')


def prog_nn():
    return prog2('nn')
