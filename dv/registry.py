"""Which functions, contracts, lemmas and drivers decide which property."""
from .pyfront import Repo
from .verify import PyUnit


class Prop:
    def __init__(self, units, drivers, level='proof', trusted=(), assumptions=(), note='', budget=25, technique=None):
        self._units, self.drivers, self.level = units, drivers, level
        self.technique = technique or 'contracts on the real functions, verification conditions generated from the source and discharged by z3/cvc5; runtime contracts replay failures'
        self.trusted, self.assumptions, self.note, self.budget = list(trusted), list(assumptions), note, budget

    def units(self, src):
        return self._units(src)

    def level_note(self):
        return self.note + '. Assumes: ' + '; '.join(self.assumptions) + '. Trusts: ' + '; '.join(self.trusted)


PROPS = {}


# ---------------------------------------------------------------- schedule
def sched_units(names):
    def mk(src):
        from .contracts import schedule as S
        repo = Repo(src)
        repo.module('schedule')
        out = []
        for q in names:
            con = S.CONTRACTS.get(q) or getattr(S, q)
            out.append(PyUnit(q, con, repo, S.SCHEMA, S.CONTRACTS, S.LOOPS, S.MODELS))
        return out
    return mk


G = ['schedule.ScheduleGroup.' + f for f in ('reset', 'add_evt', 'sort', '_add_during_ex_evts', 'execute_evts')]
SC = ['schedule.Schedule.' + f for f in ('_push_event', 'schedule_event', 'schedule_repeating_event', 'next_tick', '__new__', 'execute')]
RN = ['schedule.SharedScheduleRunner.' + f for f in ('schedule_event', 'schedule_repeating_event', 'schedule_stop', 'stop', 'tick', 'schedule_end_event', '__new__', 'execute')]
EVU = ['UNIT_RESCHED_REP', 'UNIT_RESCHED_ONE', 'UNIT_VOID_REP', 'UNIT_VOID_ONE', 'LEMMA_VOID_REP', 'LEMMA_VOID_ONE', 'UNIT_CALL']
PYENGINE = ['dv: the verification condition generator for Python in /verif/dv (pyfront, pybuiltins, core)', 'z3 5.3.2 / cvc5 as answered', 'CPython semantics as modelled']
SCHED_T = PYENGINE + ['heapq (the list stays a heap, the head is its least entry)', 'itertools.count', 'numpy Generator.integers / shuffle (range / permutation)',
                      'list.sort is a stable sort by the key', 'IntEnum constants']
SCHED_A = ['tick values and priorities are real numbers (no NaN tick, no rounding)', 'intervals are not negative',
           'rely: event callables change the schedule only through its public methods and void()',
           'termination of a callable and of the tick loop is not proved']
PROPS['S01'] = Prop(sched_units(G + SC[:1] + SC[3:] + EVU), [('schedule.py', 0)], trusted=SCHED_T, assumptions=SCHED_A,
                    note='each function of the group and schedule classes against its contract; execute_evts carries the ghost set of events already run')
PROPS['S02'] = Prop(sched_units(G + SC + EVU), [('schedule.py', 0)], trusted=SCHED_T, assumptions=SCHED_A, note='as S01, with the multiset of pending events as view')
PROPS['S03'] = Prop(sched_units(RN + SC[3:4]), [('schedule.py', 0)], trusted=SCHED_T + ['assumed contract: comm.allreduce(x, MIN) returns the minimum of the values all ranks pass'],
                    assumptions=SCHED_A + ['every rank calls execute and asks for a stop in the same tick'], note='the runner against the contracts of its schedule')

# ---------------------------------------------------------------- agents
def py_units(modname, pymods, names):
    """units for the functions and lemmas named in dv/contracts/<modname>.py (names: a list, or the name of a list there)"""
    def mk(src):
        import importlib
        S = importlib.import_module('dv.contracts.' + modname)
        ns = getattr(S, names) if isinstance(names, str) else names
        repo = Repo(src)
        for m in pymods:
            repo.module(m)
        return [PyUnit(q, S.CONTRACTS.get(q) or getattr(S, q), repo, S.SCHEMA, S.CONTRACTS, S.LOOPS, S.MODELS) for q in ns]
    return mk


class NoUnit:
    """stands for the units of a source the front end cannot read"""
    def __init__(self, name, why):
        self.name, self.why = name, why

    def run(self):
        from .verify import UnitResult
        r = UnitResult(self.name)
        r.status, r.why = 'unsupported', self.why
        return r


_CXX = {}


def cxx_repo(src):
    if src not in _CXX:
        from .cxx import CxxRepo
        _CXX[src] = CxxRepo(src)
    return _CXX[src]


def cxx_units(*groups):
    """groups of (module of dv/contracts, names, rounding) over the C++ source"""
    def mk(src):
        import importlib
        from .cinterp import CUnit, FUnit
        try:
            repo = cxx_repo(src)
        except Exception as ex:
            return [NoUnit('cxx', 'the C++ front end cannot read the source: %s' % ex)]
        out = []
        for modname, names, fp in groups:
            S = importlib.import_module('dv.contracts.' + modname)
            cons = dict(S.CONTRACTS, **(S.FP if fp else {}))
            for q in getattr(S, names) if isinstance(names, str) else names:
                con = cons.get(q) or getattr(S, q)
                out.append((FUnit if fp else CUnit)(q + (' (rounding)' if fp else ''), con, repo, dict(repo.schema, **getattr(S, 'SCHEMA', {})), cons, S.LOOPS, S.MODELS))
        return out
    return mk


CXXENGINE = ['dv: the C++ front end (cxx.py, from clang 18\'s own AST of the instantiated templates), interpreter and verification condition generator in /verif/dv',
             'z3 5.3.2 / cvc5 as answered', 'std::map / list / set / shared_ptr as modelled in dv/cinterp.py']
CXXA = ['machine integers do not overflow; integers converted to double are below 2^53', 'each point object owns its coordinate array',
        'reference counts, destructors and memory reclamation are dropped by the translation', 'coordinates are not NaN']

AMF = ['core.AgentManager.' + f for f in ('add_ghosts_to_projection', 'is_requested', 'add_req_ghost', 'remove_local', 'add_local', 'get_local', 'delete_local', 'is_ghosted_to',
                                          'tag_as_ghosted', 'set_as_ghosted', 'delete_ghosted', 'untag_as_ghosted', 'remove_ghost', 'delete_ghost', 'add_ghost', 'get_ghost')]
CXF = ['context.SharedContext.' + f for f in ('add', 'remove', 'contains_type', 'agent', 'ghost_agent', 'add_projection', 'get_projection')]
CXQ = ['AGENTS_ALL', 'AGENTS_TYPE', 'AGENTS_COUNT', 'AGENTS_TYPE_COUNT', 'SIZE_ALL', 'SIZE_TYPES']
PROJ_T = ['assumed contracts: Projection.add / remove change exactly the membership of that agent (their own code is under G02, G03 and N01)']
PROPS['A01'] = Prop(py_units('context', ['core', 'context'], CXF + CXQ + ['core.AgentManager.' + f for f in ('add_local', 'get_local', 'delete_local', 'add_ghosts_to_projection')]),
                    [('agents.py', 0)], trusted=PYENGINE + PROJ_T + ['numpy Generator.shuffle (a permutation)'],
                    assumptions=['an agent is filed under the id it had when it was added, and its id does not change', 'iteration order is checked by executions only'],
                    note='the functions of the context against contracts over its invariant (registers of ids, types and projections agree), with the members of each projection as ghost state')
PROPS['A02'] = Prop(py_units('context', ['core', 'context'], AMF), [('agents.py', 0)], trusted=PYENGINE, assumptions=['an agent is filed under the id it had when it was added, and its id does not change'],
                    note='every function of the agent manager against its contract: the maps of local agents, ghosted records with their counts, ghosts with their counts, and requests')
WORLD = [('world_mpi.py', n) for n in (2, 3, 4)]
MIXED = 'contracts on part of the real functions, verification conditions discharged by z3/cvc5; the rest by bounded executions against an oracle'
MOVES = ['context.SharedContext.%s' % f for f in ('_gather_oob_data', '_process_recv_oob_data', '_update_removed_ghosts', '_update_ghosts')]
MV_A = ['assumed contract: alltoall hands the list a rank made for rank r to r, and allgather hands every rank the same lists; the step from the contracts on each rank to the whole is argued in DESIGN.md, not proved',
        'assumed contract: create_agent gives an agent with the id in the state it is given; save gives a state with the agent\'s id first',
        'assumed contract: a projection that lets an agent go drops that agent, and ghosts that no space holds, and touches nothing else of the context',
        'assumed contract: a space\'s list of agents out of bounds has local agents or ghosts, once each, and two spaces name the same rank for one agent']
PROPS['A03'] = Prop(py_units('moves', ['core', 'context'], ['context.SharedContext._gather_oob_data', 'context.SharedContext._process_recv_oob_data']), WORLD, level='bounded', budget=60, trusted=PYENGINE + MV_A,
                    technique=MIXED, assumptions=['no agent is both local and a ghost on one rank when agents are gathered', 'synchronize, move_agents and _agents_moved, which call these and the projections, are covered by the executions only'],
                    note='proved, for any agents, spaces and messages: what a rank gathers of the agents out of its bounds (each sent once with its state and the ranks it is ghosted to, to the rank of its location, and forgotten here '
                         'by the context and every projection) and what it does with what it receives (each becomes local, with its record, at the place sent); bounded: random histories over 2, 3 and 4 ranks against a global oracle')
PROPS['A04'] = Prop(py_units('moves', ['core', 'context'], [x for x in MOVES if x not in ('context.SharedContext._gather_oob_data', 'context.SharedContext._process_recv_oob_data')]), WORLD, level='bounded', budget=60,
                    trusted=PYENGINE + MV_A[:3], technique=MIXED, assumptions=['the states received are of ghosts that were not removed', 'synchronize and the projections\' own exchange of ghosts are covered by the executions only'],
                    note='proved, for any agents, ghosts and messages: a rank sends the state of each agent ghosted from it to each of the ranks its record names, updates each ghost from the state received, and removes the '
                         'ghosts of the agents that were removed; bounded: random histories over 2, 3 and 4 ranks against a global oracle')

# ---------------------------------------------------------------- spaces
SP_NOTE = 'random spaces, agents and queries on one rank against a model'
GEO = ['geometry.find_%dd_nghs_%s' % (d, k) for d in (1, 2, 3) for k in ('sticky', 'periodic')] + ['DEFAULT_%d_%s' % (d, k) for d in (2, 3) for k in ('STICKY', 'PERIODIC')]
PROPS['G08'] = Prop(py_units('geometry', ['geometry'], GEO), [('spaces.py', 0)],
                    trusted=PYENGINE + ['numpy element-wise arithmetic, comparison, boolean selection, mod, array and stack as modelled in dv/nparr.py', 'numba.jit compiles the Python semantics of the function'],
                    assumptions=['machine integers do not wrap around', 'a grid\'s own neighbour methods are covered by the executions'],
                    note='each neighbour finder against its contract, over every point and every bounds: vectors are expanded element by element, a boolean selection becomes a guard')
PTF = ['cxx.%s' % (f % (k, k)) for k in 'DC' for f in ('point_equals(%s*,Point<%s>&)', 'extract_coords(%s*,Point<%s>&)', 'update_point(%s*,Point<%s>&)', 'create_point(PyTypeObject*,Point<%.0s%s>&)')]
BBF = ['cxx.BoundingBox.' + f for f in ('__init__(long,long,long,long,long,long)', '__init__(BoundingBox&)', 'reset', 'contains(D*)', 'contains(Point<D>&)', 'contains(C*)', 'contains(Point<C>&)')]
BRF = ['cxx.wrap<long>', 'cxx.wrap<double>', 'cxx.Sticky<D>.transform(D*,D*)'] + ['cxx.%s<%s>.transform(%s*,Point<%s>&)' % (b, k, k, k) for b in ('Sticky', 'Periodic') for k in 'DC'] + ['cxx.Periodic<D>.transform(D*,D*)']
BRC = ['cxx.%s<%s>.__init__(BoundingBox&)' % (b, k) for b in ('Sticky', 'Periodic') for k in 'DC']
PROPS['I01'] = Prop(cxx_units(('cgeo', ['ORDER_ID', 'ORDER_PD', 'ORDER_PC'] + PTF, False)), [('spaces.py', 0)], trusted=CXXENGINE, assumptions=CXXA + ['the fields of an agent id do not change'],
                    note='the comparators the maps of the spaces use, run on three arbitrary operands: strict total order whose equivalence is equality of every component; the coordinate accessors against their contracts')
PROPS['G01'] = Prop(cxx_units(('cgeo', BBF[:3] + BRC + BRF, False), ('cgeo', ['cxx.wrap<double>'] + [q for q in BRF if 'Point<C>' in q], True)), [('spaces.py', 0)], trusted=CXXENGINE,
                    assumptions=CXXA + ['sticky continuous borders keep a margin of 1e-8 below the upper bound (pinned by the tests): a point within 2e-8 of it may move by that much',
                                        'congruence is stated over exact reals; that the result lies inside is proved with every double operation rounded (rounding monotone and exact on representable numbers)'],
                    note='bounding boxes and both border classes, discrete and continuous, against contracts per dimension, for every point and bounds')
def _space_units(prop):
    def mk(src):
        from .contracts import cspace
        names = cspace.UNITS['G02'] + cspace.UNITS['G03'] if prop == 'G02' else [q for q in cspace.UNITS['G03'] if 'SO<' in q]
        return cxx_units(('cspace', names, False))(src)
    return mk


SPACE_T = CXXENGINE + ['assumed contract: the spatial index holds the points added and not removed (its code is under G07)',
                       'the border-handled coordinate is a function of coordinate and bounds (the code of the border classes, proved under G01, is deterministic)']
SPACE_A = CXXA + ['the agent moved is the object that was added', 'the fields of an agent id do not change', 'the Python binding (spacemodule.cpp) is covered by the executions only']
SPACE_N = 'the eight instantiated classes (grid, continuous; multiple, single occupancy; sticky, periodic) one by one, with the occupancy accessors executed inside them, against contracts over the ' \
          'invariant that the map from ids to points and the occupancy map from locations to agents are inverse to each other and every location is inside the bounds'
PROPS['G02'] = Prop(_space_units('G02'), [('spaces.py', 0)], trusted=SPACE_T, assumptions=SPACE_A, note=SPACE_N)
PROPS['G03'] = Prop(_space_units('G03'), [('spaces.py', 0)], trusted=SPACE_T, assumptions=SPACE_A, note=SPACE_N)
def _tree_units(src):
    from .contracts import cspace, ctree
    moves = [q for q in cspace.UNITS['G02'] + cspace.UNITS['G03'] if 'BaseCSpace' in q]
    return cxx_units(('ctree', ctree.UNITS, False), ('cspace', cspace.UNITS['G07'] + moves, False))(src)


PROPS['G07'] = Prop(_tree_units, [('spaces.py', 0)], budget=60,
                    trusted=CXXENGINE + ['the nodes of the index form a tree: children are made in the constructors and in split and never shared, so an operation on one child touches nothing of its siblings and its parent',
                                         'a virtual call runs the override of ComponentNode or CompositeNode, each verified against the one contract of STNode that callers use'],
                    assumptions=SPACE_A + ['coordinates are real numbers: halving the extent of a box is exact (with rounding, nested boxes could in principle leave a point out; the executions use halves that round)',
                                           'the query box has as many dimensions as the space', 'each agent of the space owns its point object', 'the output vector is empty at first'],
                    note='every function of both trees (2D, 3D; multiple, single occupancy): boxes, items, component and composite nodes, split, insertion, removal and query, against one contract over the set of points a node holds; '
                         'and getAgentsWithin, move and remove of the four continuous spaces, which keep the index in step with the locations')
MPI_T = CXXENGINE + ['assumed contract: a cartesian communicator numbers the points of its process grid; MPI_Cart_coords and MPI_Cart_rank are inverse to each other, and MPI_Cart_rank wraps coordinates '
                     'around exactly in periodic dimensions; MPI_Dims_create gives positive dimensions', 'Py_BuildValue makes an object that holds the values given']
TOPO_A = CXXA + ['the Python binding (spacemodule.cpp) is covered by the executions only']
PROPS['G04'] = Prop(cxx_units(('ctopo', 'UNITS_G04', False)), [('topo_mpi.py', 8)], budget=60, trusted=MPI_T, assumptions=TOPO_A + ['the processes in each dimension are as many as asked for'],
                    note='lemmas over the real constructors and getBounds of the topology for two arbitrary ranks of an arbitrary process grid, bounds and periodicity in 1 to 3 dimensions')
PROPS['G05'] = Prop(cxx_units(('ctopo', 'UNITS_G05', False)), [('topo_mpi.py', 8)], budget=60, trusted=MPI_T,
                    assumptions=TOPO_A + ['the buffer size is at most the local extent (for the strips to be complete)', 'that neighbours are mutual follows from the wrap of the process grid'],
                    note='lemmas over the real constructor, getNeighbors, getBounds and compute_neighbor_buffers for an arbitrary rank of an arbitrary process grid: exactly the adjacent ranks, each with the strip that faces it')
PROPS['G06'] = Prop(cxx_units(('cdist', 'UNITS', False)), [('topo_mpi.py', 8)], budget=60,
                    trusted=MPI_T + ['assumed contract: MPI_Allgather over the communicator gives every rank the numbers each rank sent, in rank order',
                                     'assumed contract: the local bounds of the ranks tile the bounds of the space (proved per pair of ranks under G04)'],
                    assumptions=TOPO_A + ['the constructor of the distributed space is covered by the executions only; its call of getAllBounds is assumed to find the neighbours of G05 in the list',
                                          'the agent object moved is the one that was added', 'ids are immutable', 'each point object owns its coordinate array', 'coordinates are numbers, not NaN'],
                    note='move, add, both removes, eraseOOB, clearOOBData, getOOBData and getAllBounds of all eight distributed spaces, for any decomposition and any history')
VLM = ['geometry', 'space', 'value_layer']
VL_T = PYENGINE + ['torch.full / torch.rand / tensor indexing and numpy arrays as modelled in dv/tensor.py and dv/nparr.py',
                   'assumed contract: the border classes give the border-handled coordinate (their code is proved under G01)']
PROPS['V01'] = Prop(py_units('vlayer', VLM, 'UNITS'), [('vlayer.py', 0)], trusted=VL_T,
                    assumptions=['written values are representable in the layer\'s dtype', 'a value read is looked at before the next write (torch returns a view)', 'machine integers do not wrap around',
                                 'neighbour queries are made at locations inside the bounds'],
                    note='lemmas over the real constructor, get, set and get_nghs of each implementation, from a layer with arbitrary cells: a step of any history, for every bounds, in 1 to 3 dimensions and both border types')
PROPS['V02'] = Prop(py_units('vlayer', VLM, 'UNITS2'), [('vlayer_mpi.py', 8)], level='bounded', budget=60, trusted=VL_T, technique=MIXED,
                    assumptions=['the buffer size is at most the local extent of every rank', 'the exchange itself (_init_sync_data_1d/2d, _synch_ghosts) is covered by the executions only'],
                    note='proved: the extent of the grid and its offsets, the positions of a received region, the self-buffers, initialisation and the delegation of the double layer; '
                         'bounded: shared value layers of up to 8 ranks against a global model')


# ---------------------------------------------------------------- networks
NX_T = PYENGINE + ['assumed contract: a networkx graph is a set of nodes and a map from pairs of nodes to attribute dictionaries (both directions of an undirected edge map to the same one)']
PROPS['N01'] = Prop(py_units('net', ['core', 'network'], 'UNITS'), [('net_mpi.py', n) for n in (2, 3, 4)], level='bounded', budget=60, trusted=NX_T, technique=MIXED,
                    assumptions=['the exchange itself (_sync_removed, _sync_vertices, _sync_edges, _sync_updated, _sync_ghost_refs and the movement of nodes) is covered by the executions only'],
                    note='proved, for both networks, any state and any arguments: add_edge, update_edge, remove_edge, remove, clear_edges, add, contains_edge and _has_edge keep the tables of shared, new, updated and '
                         'removed edges in step with the graph; bounded: random network histories over 2, 3 and 4 ranks against a global oracle')
PROPS['N02'] = Prop(lambda src: [], [('netfile_mpi.py', 4)], level='bounded', budget=40, note='random graphs and files, written and read back on 1 to 4 ranks')

# ---------------------------------------------------------------- checkpoints, logging, output files, parameters
PROPS['C01'] = Prop(py_units('ckpt', ['core', 'schedule', 'checkpoint'], 'UNITS'), [('ckpt.py', 0)],
                    trusted=SCHED_T + ['a one-shot iterator over one number used as the schedule\'s counter yields that number; dill writes and reads back the saved state faithfully'],
                    assumptions=['tick values and priorities are real numbers', 'callables in the metadata and event creators are functions without effects on the schedule; event processors do not touch the schedule',
                                 'saving and restoring find the schedule as S01 and S02 leave it: queue entries carry the tick and number of their event, and an event waits in one place; the event executing the save is not pending',
                                 'the schedule is not executing while it is restored'],
                    note='save_schedule, _to_evt_data, _schedule_evt and restore_schedule against contracts with ghost maps between events and their data; the scheduling methods of the runner are executed, not assumed')
PROPS['C02'] = Prop(lambda src: [], [('ckpt_mpi.py', 3)], level='bounded', budget=40, note='random simulations saved and restored on 1 to 3 ranks')
def both(*mks):
    return lambda src: [u for mk in mks for u in mk(src)]


IO_T = PYENGINE + ['assumed contract: MPI Reduce over the communicator leaves at rank 0 the element-wise reduction of the arrays all ranks sent; gather hands rank 0 the lists in rank order',
                   'files: a file object appends the text written to it; whether a path exists is a predicate of directory and name that does not change while the function runs; csv writerow(s) writes the rows given',
                   'numpy zeros / empty / concatenate and slices as modelled in dv/contracts/logs.py']
PROPS['L01'] = Prop(py_units('logs', ['util', 'logging'], 'UNITS_L01'), [('log_mpi.py', 3)], trusted=IO_T,
                    assumptions=['all ranks make the same sequence of log, write and close calls', 'the loggers of one data set are distinct objects', 'create_loggers and DCDataSource (field lookup by name) are covered by the executions',
                                 'the file is not changed by others'],
                    note='the loggers against their contracts: what is stored per log, what is handed to the reduction, the rows written as text, and that a write leaves nothing behind; every buffer size and number of logs')
PROPS['L02'] = Prop(both(py_units('logs', ['util', 'logging'], 'UNITS_L02'), py_units('params', ['util', 'random', 'parameters'], 'UNITS_L02')), [('util_mpi.py', 2)], trusted=IO_T,
                    assumptions=['no other process creates the file between the test and the open', 'pathlib joins, splits and suffixes are modelled by uninterpreted parts that concatenate to the name'],
                    note='the name search against its contract for every set of existing files; the loggers and the parameter dump open for writing only a name that contract gave (and later append to it)')
PROPS['P01'] = Prop(py_units('params', ['util', 'random', 'parameters'], 'UNITS_P01'), [('util_mpi.py', 1)], trusted=PYENGINE + ['yaml.load gives a dictionary (or None for an empty file), json.loads a dictionary, neither shared with anything; '
                    'default_rng(s) and torch.manual_seed(s) seed their generators with s'],
                    assumptions=['the file holds a mapping or nothing'],
                    note='init_params and random.init against their contracts, over arbitrary dictionaries for file and override; the published and returned dictionary, the seeds and the dump')

NOT_APPLICABLE = {}
