"""What every check runs."""
REAL = ['capnpy (all of it, built from /repo\'s working tree)', 'capnp compiler (schema compilation)']


def three(scenario, cy, pure, pypy, thorough=12, **kw):
    """the usual three platforms: compiled, pure CPython, PyPy"""
    res = []
    for pl, n in (('cy', cy), ('pure', pure), ('pypy', pypy)):
        if n:
            res.append(dict(scenario=scenario, platform=pl, quick=n, thorough=n * thorough, **kw))
    return res


CHECKS = {
    'C01': {
        'level': 'exploration',
        'entries': three('c01_streams', 28000, 14000, 7000),
        'real': REAL,
        'stub': ['network (ordered byte pipes with drawn fragmentation, delays and short reads)', 'clock'],
        'rule': 'a run is one stream of 1-9 records (messages of drawn types, values and layouts; lines; '
                'length-prefixed blobs) through one drawn source kind; runs with different event logs are distinct',
    },
    'C02': {
        'level': 'exploration',
        'entries': three('c02_cuts', 28000, 14000, 7000),
        'real': REAL,
        'stub': ['network', 'append-only file with torn tails', 'clock'],
        'rule': 'a run is one stream, log or string of messages cut at a drawn byte (biased to headers and boundaries)',
    },
    'C03': {
        'level': 'exploration',
        'entries': three('c03_reads', 28000, 14000, 7000),
        'real': REAL,
        'stub': ['network whose recv fails at drawn calls', 'clock'],
        'rule': 'a run is one drawn sequence of read/readline/read-all/load calls with drawn transport failures',
    },
    'C04': {
        'level': 'exploration',
        'entries': three('c04_writes', 18000, 9000, 3600),
        'real': REAL,
        'stub': ['network (sends that stall, fail, are accepted piecemeal)', 'clock', 'task scheduler'],
        'rule': 'a run is 1-4 cooperative writers (writes, dumps, flushes) and a reader over one buffered socket, '
                'under a drawn task schedule and drawn send stalls and failures',
    },
    'C07': {
        'level': 'exploration',
        'entries': three('c07_progress', 6000, 3000, 1200),
        'real': REAL,
        'stub': ['network (fragmentation, coalescing, delays)', 'clock', 'task scheduler'],
        'rule': 'a run is 1-3 clients exchanging pipelined requests and replies with servers, possibly through relays, '
                'over drawn kinds of sources, buffer sizes, delays and node speeds; or reads at the end of a stream',
    },
    'C15': {
        'level': 'exploration',
        'entries': three('c15_layouts', 42000, 21000, 10500),
        'real': REAL,
        'stub': ['the writing peer (reference encoder with drawn layouts)'],
        'rule': 'a run is one message of a drawn type and value in a drawn layout, read through every accessor',
    },
    'C16': {
        'level': 'exploration',
        'entries': three('c16_copies', 36000, 18000, 9000),
        'real': REAL,
        'stub': ['files (in memory)', 'the writing peer (reference encoder)'],
        'rule': 'a run is one drawn history of up to 16 dump/load/compact/pickle/raw/embed/extract steps',
    },
    'C17': {
        'level': 'exploration',
        'entries': three('c17_keys', 36000, 18000, 7200),
        'real': REAL,
        'stub': ['datagram network (loss, duplication, reordering, retransmission)', 'clock', 'storage (in memory log)',
                 'the writing peers (reference encoder with drawn layouts)'],
        'rule': 'a run is one table keyed by records of a drawn type, fed by a drawn delivery history with restarts; '
                'or all comparisons between drawn encodings of similar lists',
    },
    'C13': {
        'level': 'exploration',
        'entries': three('c13_versions', 18000, 9000, 3600),
        'real': REAL,
        'stub': ['cluster of nodes of drawn schema versions (message exchange, storage, upgrades and rollbacks)',
                 'the writing peers (reference encoder with drawn layouts)'],
        'rule': 'a run is a drawn history of up to 16 write/relay/compact/pickle/store/combine/extract/upgrade steps '
                'on 2-3 nodes of three versions of one schema',
    },
    'C05': {
        'level': 'exploration',
        'entries': [dict(scenario='c05_corrupt', platform='asan', quick=8000, thorough=60000),
                    dict(scenario='c05_corrupt', platform='cy', quick=8000, thorough=60000),
                    dict(scenario='c05_corrupt', platform='pure', quick=3000, thorough=15000),
                    dict(scenario='c05_corrupt', platform='pypy', quick=1000, thorough=5000)],
        'real': REAL,
        'stub': ['network and storage that corrupt (bit flips, garbage, lost words, truncation)', 'hostile peer'],
        'rule': 'a run is one corrupted or forged message and up to 10 drawn operations on the objects read from it, '
                'in the compiled build, with AddressSanitizer, and in pure Python',
    },
    'C06': {
        'level': 'exploration',
        'entries': [dict(scenario='c06_memory', platform='asan', quick=14000, thorough=30000),
                    dict(scenario='c06_memory', platform='cy', quick=21000, thorough=50000),
                    dict(scenario='c06_memory', platform='pure', quick=4200, thorough=8000)],
        'real': REAL,
        'stub': ['memory allocator of the interpreter (fails at drawn requests)'],
        'rule': 'a run is one operation on one drawn message, repeated with the first failing allocation moved forward until '
                'the operation is not hit any more; failing once, for a drawn while, or from then on',
    },
    'C18': {
        'level': 'exploration',
        'entries': three('c18_decode', 18000, 9000, 3600),
        'real': REAL,
        'stub': ['file (torn by writers that crashed; short reads; read errors)', 'terminal (broken pipe)'],
        'rule': 'a run is the decoding of one drawn file of 0-12 messages cut at a drawn byte, over a disk and a terminal '
                'which may fail at a drawn point',
    },
    'C10': {
        'level': 'exploration',
        'entries': [dict(scenario='c10_inputs', platform='asan', quick=10000, thorough=40000)] +
        three('c10_inputs', 16000, 12000, 3200),
        'real': REAL,
        'stub': ['task scheduler (pre-emption between any two bytecodes of the library, pure Python mode)',
                 'application callbacks (conversions, iteration, lengths) which mutate, raise, re-enter'],
        'rule': 'a run is one construction of a drawn record while drawn callbacks or other threads modify its inputs, '
                'raise, and build and use other messages',
    },
    'C08': {
        'level': 'exploration',
        'entries': [dict(scenario='c08_sharing', platform='asan', quick=1500, thorough=30000)] +
        three('c08_sharing', 2500, 2500, 600),
        'real': REAL,
        'stub': ['task scheduler (pre-emption between any two bytecodes of the library and of the generated modules; of '
                 'the generated modules only in the compiled build, whose C code holds the interpreter lock)',
                 'application callbacks inside operations (files, comparisons, sort keys)', 'the writing peers'],
        'rule': 'a run is 1-4 readers which do drawn operations on 1-12 shared objects of 1-3 messages, under a drawn '
                'schedule, with drawn re-entrant calls inside the operations',
    },
    'C09': {
        'level': 'exploration',
        'entries': [dict(scenario='c09_views', platform='asan', quick=5000, thorough=50000)] +
        three('c09_views', 6000, 4000, 1200),
        'real': REAL,
        'stub': ['sources (files, sockets and buffers that are closed, dropped and overwritten at drawn moments)',
                 'memory pressure (garbage of the sizes just freed)', 'the writing peers', 'the moments of garbage collection'],
        'rule': 'a run is one drawn history of taking views of 1-5 messages, dropping views and sources, collecting '
                'garbage, overwriting source buffers and reading the remaining views; AddressSanitizer in one entry',
    },
    'C14': {
        'level': 'exploration',
        'differential': True,
        'entries': three('c14_platforms', 15000, 15000, 15000),
        'real': REAL,
        'stub': ['connection (short reads, errors at drawn calls)', 'the writing peers, corruption in transit'],
        'rule': 'a run is one drawn program (constructions with valid and wrong arguments; conforming and corrupted messages '
                'read, printed, compared, copied, dumped; faulty streams; keys; lists; enums), executed by compiled, pure '
                'CPython and PyPy nodes with both flavours of the generated modules; their event logs must be equal',
    },
}
