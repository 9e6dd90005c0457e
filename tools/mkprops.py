"""Writes properties.jsonl (kept in one place so that wording stays in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'blocking_cache/'
C, D, U = B + 'BlockingCacheCtrlRTL.py', B + 'BlockingCacheDpathRTL.py', B + 'units/'
out = []


def P(id, title, st, over, q, why, files, mech, observe, state=()):
  out.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': n, 'where': files[0]} for n in state],
                          'observe_at': observe, 'hook_needed': None}})


IFC = ['processor request/response ports', 'memory request/response ports']
ARR = IFC + ['tag and data array ports']
SCHED = 'every reachable pipeline state, request class, memory delay and back-pressure pattern'
HIST = 'every prior history of the cache (arbitrary set contents and pipeline state), every legal request, every schedule'
WHY = 'The tests drive a few dozen fixed or random sequences with a handful of delays; they reach a vanishing share of the states, operands and stall patterns.'

P('P01', 'Valid only when ready; readiness never waits on an offer',
  'The cache raises a response or a memory request only in a cycle in which the receiver is ready. Its own request-ready never depends on what is offered in that cycle, and a memory response is always accepted.',
  ['schedules', 'inputs'], SCHED, WHY, [C, B + 'BlockingCacheRTL.py'],
  [('stall logic and handshake outputs', C), ('interface wiring', B + 'BlockingCacheRTL.py')], IFC, ['pipeline control registers'])
P('P02', 'Every accepted request gets exactly one response, in order',
  'Each accepted request is answered exactly once, responses come in the order of acceptance, and nothing is answered that was not asked.',
  ['schedules', 'histories'], SCHED + ', with any number of requests back to back',
  'A duplicated or dropped response needs a particular coincidence of stall, refill and a second request; tests with fixed delays rarely hit it.',
  [C, D], [('transaction state through the pipeline', C), ('outstanding-miss record', U + 'MSHR.py')], IFC, ['transaction registers', 'miss record'])
P('P03', 'A response echoes type, tag and length of its own request',
  'The response to a request carries the request\'s own type, opaque tag and length, whatever other traffic is in flight.',
  ['inputs', 'schedules'], HIST, 'Tests use few opaque values and lengths; only a comparison of the value itself, not a sample, excludes a swap under some stall.',
  [D, U + 'MSHR.py'], [('request registers and miss record', D)], IFC, ['pipelined request registers'])
P('P04', 'A load returns exactly the addressed bytes, zero-extended',
  'A load response carries the current bytes at its address, zero-extended to the data width, whether served from the cache, from memory or from a partially modified line. Responses to stores, invalidates and flushes carry zero data.',
  ['inputs', 'histories', 'schedules'], HIST + ', every offset, length and line content',
  'The value space (line content x offset x length x dirty pattern x way) cannot be sampled meaningfully.',
  [D, U + 'muxes.py', C], [('read data selection', U + 'muxes.py'), ('stage-two control table', C)], IFC, ['data array'])
P('P05', 'A store changes exactly the addressed bytes',
  'After a store the addressed bytes of the line hold the store data and every other byte of the line is what it was (or what memory supplied).',
  ['inputs', 'histories', 'schedules'], HIST + ', every offset, length and data',
  'Random tests compare later loads of few addresses; a mask that is wrong for one length/offset/miss combination escapes.',
  [D, U + 'arithmetics.py', C], [('byte-enable generation', U + 'arithmetics.py'), ('data replication', U + 'arithmetics.py')], ARR, ['data array'])
P('P06', 'Modified words are tracked exactly, so no store is lost',
  'The set of words a line is recorded to have modified grows by exactly the words each store covers, survives refills and invalidations, and is cleared only when they are written back. A write-back therefore never drops a modified word nor overwrites an unmodified one.',
  ['inputs', 'histories', 'schedules'], HIST, 'A lost or spurious mark is invisible until that very line is written back over memory that changed meanwhile.',
  [U + 'UpdateTagArrayUnit.py', U + 'arithmetics.py', D], [('tag entry update', U + 'UpdateTagArrayUnit.py'), ('modified-word test', U + 'arithmetics.py')], ARR, ['tag entries'])
P('P07', 'Hit exactly when a valid line with the same tag is present',
  'A request hits if and only if some way of its set is valid and holds the same tag; the hit indication in the response says so, and a fill leaves the line valid under its own tag.',
  ['inputs', 'histories'], HIST + ', every pair of tags', 'A comparison that ignores one tag bit or one state bit shows only for particular address pairs.',
  [U + 'arithmetics.py', D, C], [('tag comparison', U + 'arithmetics.py')], ARR, ['tag entries'])
P('P08', 'A dirty victim is written back before its line is reused',
  'When a miss displaces a line holding modified words, the first memory request is a full-line write to that line\'s own address with its own data and exactly its modified words enabled; when nothing is modified there is none.',
  ['inputs', 'histories', 'schedules'], HIST, 'Needs the right victim way, dirty pattern and stall; a wrong mask or address corrupts memory silently.',
  [C, D, U + 'MSHR.py'], [('eviction sequence', C), ('write-back address and mask', D)], IFC, ['tag entries', 'data array'])
P('P09', 'A refill replaces only unmodified words of the right line',
  'A refill writes the memory answer into the chosen way of the addressed set, keeps words that were already modified, and leaves the other ways untouched.',
  ['inputs', 'histories', 'schedules'], HIST, 'Partially modified lines arise only after invalidation of a dirty line followed by an access to it.',
  [D, C, U + 'arithmetics.py'], [('refill mask', U + 'arithmetics.py'), ('replay of the missed request', C)], ARR, ['data array', 'tag entries'])
P('P10', 'Memory traffic is exactly what the request needs',
  'A load or store miss sends one full-line read at the aligned line address, after at most one write-back; a hit sends nothing, and invalidates and write-inits send nothing.',
  ['inputs', 'histories', 'schedules'], HIST, 'Tests check data, not traffic: redundant, duplicated or misaligned requests go unnoticed with a simple memory.',
  [C, D], [('memory request control', C), ('memory request message', D)], IFC)
P('P11', 'Atomics are performed by memory on up-to-date data',
  'An atomic is forwarded to memory exactly once with its own type, address, length and operand, after any modified copy in the cache has been written back; the cached copy is dropped and the response carries the word memory returned.',
  ['inputs', 'histories', 'schedules'], HIST, 'The copy may be clean, dirty, invalid-but-dirty or absent, in either way, under any stall.',
  [C, D, U + 'StallEngine.py'], [('atomic sequence', C), ('hit record across the write-back', D)], ARR, ['tag entries', 'miss record'])
P('P12', 'Invalidation drops every line but loses no modified word',
  'After an invalidate request every line of every set is invalid, while words that were modified remain recorded and stored. No memory traffic is caused.',
  ['histories', 'schedules', 'configurations'], 'an arbitrary set in every history and schedule', 'Tests look at the few sets they touched.',
  [C, D], [('invalidation walk', C)], ARR, ['tag entries'])
P('P13', 'A flush writes back every dirty line exactly once, then answers',
  'A flush request writes each line with modified words back exactly once, with its own address, mask and data, marks it clean, and is answered only after memory has acknowledged every write.',
  ['histories', 'schedules', 'configurations'], 'an arbitrary set with arbitrary contents in every history and schedule', 'Tests look at the few sets they touched, with fixed acknowledgement delays.',
  [C, D], [('flush walk and acknowledgement wait', C)], ARR, ['tag entries', 'walk counter'])
P('P14', 'After reset no line is valid or modified when the first request is taken',
  'Whatever the arrays contain at power-up, when the cache first becomes ready after reset every line of every set is invalid and unmodified, and the cache has sent nothing.',
  ['histories', 'configurations'], 'every power-up content, every set, several cache shapes', 'The simulator powers up with zeros, so a missed set is invisible to tests.',
  [C, D], [('initialisation walk', C)], ARR, ['tag arrays', 'walk counter'])
P('P15', 'Two-way replacement evicts the least recently used way',
  'In a two-way cache a miss replaces the way used less recently; each access updates the state of its own set only, and a line dropped by an atomic is refilled first.',
  ['histories', 'schedules'], HIST, 'Only the victim choice shows it, for specific access orders with requests overlapping in the pipeline.',
  [U + 'ReplacementPolicy.py', U + 'registers.py', C], [('replacement bits', U + 'ReplacementPolicy.py')], ARR, ['replacement bits'])
P('P16', 'Stalls and memory delay change timing only',
  'Back-pressure from the processor, back-pressure from memory and memory delay never change any response, the memory traffic or the final contents.',
  ['schedules'], 'all patterns of stall on both interfaces and all memory delays', 'Tests use a few constant or random delays.',
  [C, D, U + 'StallEngine.py'], [('stall holding of array outputs', U + 'StallEngine.py'), ('pipeline enables', C)], ARR)
P('P22', 'Nothing undefined ever steers the cache',
  'No handshake, array strobe or control decision depends on an array output that was not read, an undriven wire or a latch.',
  ['inputs', 'schedules', 'histories'], HIST, 'The two-state simulator gives undefined bits a value, usually the harmless one.',
  [U + 'arithmetics.py', C, D], [('gating of stale array outputs', U + 'arithmetics.py')], ARR)
P('P23', 'Outputs never respond to offers of the same cycle',
  'No output of the cache in a cycle depends on the request or the memory response presented in that same cycle, so it can be composed without combinational loops.',
  ['inputs', 'schedules'], SCHED, 'A combinational path simulates identically with registered neighbours, which is all tests use.',
  [B + 'BlockingCacheRTL.py', D], [('input registering', D)], IFC)
P('P24', 'The cache always makes progress',
  'If memory answers and nothing is refused, every accepted request is answered and the cache becomes ready again after boundedly many cycles, from every reachable state.',
  ['schedules', 'histories'], SCHED, 'A deadlock or livelock needs a particular state; a test that does not reach it passes.',
  [C], [('state machine and stall logic', C)], IFC, ['state machine', 'walk counter'])
P('P27', 'At most one refill or atomic outstanding, and none is overtaken',
  'At most one line read or atomic is outstanding at memory, and no new request is accepted until it has been answered.',
  ['schedules'], SCHED, 'Overtaking needs a request offered in the exact window between miss and refill.',
  [U + 'MSHR.py', C], [('miss record occupancy', U + 'MSHR.py')], IFC, ['miss record'])
P('P20', 'An SRAM row reads back exactly what was last written to it',
  'One cycle after a read of an SRAM row the output is that row\'s content; a write changes exactly the enabled bits of exactly the addressed row; an idle or reading array changes nothing. This holds for every row count and width, including row counts that are not a power of two.',
  ['inputs', 'histories', 'configurations'], 'every row, every other row, every data and mask value, several shapes', 'Tests write and read a few rows in one shape.',
  ['sram/SramGenericPRTL.py', 'sram/SramPRTL.py'], [('read and write logic', 'sram/SramGenericPRTL.py'), ('port polarity', 'sram/SramPRTL.py')], ['SRAM port0'], ['ram', 'dout'])
P('P21', 'The Verilog SRAM wrapper behaves like the SRAM model',
  'The Verilog module that replaces the SRAM of a translated cache (sram/brg_gf14_sram_generic_synopsys.v) has the ports the cache connects, with the same directions and widths, for every word width and row count, and behaves as the SRAM model does: a selected read shows the addressed row on the output in the next cycle while the output is enabled (and 0 while it is not), a selected write changes exactly the masked bits of exactly the addressed row, and nothing else changes any row. This holds both where a hard macro is selected (with the macro of that very size) and for the generic branch.',
  ['inputs', 'histories', 'configurations'], 'every row, other row, data, mask and content; the four hard-macro shapes and a grid of generic ones', 'No test reads the Verilog wrapper at all: the suite simulates the Python model.',
  ['sram/brg_gf14_sram_generic_synopsys.v'], [('wrapper, macro selection, pin connections and behavioural models', 'sram/brg_gf14_sram_generic_synopsys.v')], ['SramGenericPRTL ports'], ['ram', 'q'])
P('P35', 'The translation script emits the cache the command line asks for',
  'blocking_cache/translate.py, for every combination of option values, translates exactly one cache whose size and associativity are --size and --asso and whose processor-side and memory-side messages have --obw opaque bits, --abw address bits, and --dbw respectively --clw data bits; caches that differ in size, line width, address width, data width or associativity go to different files. With --replace-sram, in exactly that file every instance of an SRAM of a hard-macro size becomes an instance of the wrapper with the same numbers of bits and words, no other line changes, and the wrapper is appended once after the replacement; without the option the file is left as translated.',
  ['inputs', 'configurations'], 'every option value; every class of line of the translated file', 'No test runs the script.',
  ['blocking_cache/translate.py'], [('option parsing, cache instantiation, SRAM replacement', 'blocking_cache/translate.py')], ['generated Verilog file'])
P('P25', 'Byte selection and byte enables are right for every width',
  'For every supported line width and data width: the load multiplexers return the addressed bytes zero-extended (the low word for an atomic, zero when disabled), store data is replicated so that the addressed bytes line up, and the write enables cover exactly the addressed bytes of a store, exactly the unmodified words of a refill, and nothing otherwise.',
  ['inputs', 'configurations'], 'every data value, offset, length and about a hundred cache shapes', 'Tests instantiate a handful of widths and sample operands.',
  [U + 'arithmetics.py', U + 'muxes.py'], [('load selection', U + 'muxes.py'), ('write enables, replication', U + 'arithmetics.py')], ['component ports'])
P('P26', 'Tag lookup and tag update are right for every shape',
  'For every supported shape the tag unit reports a hit (or a match with an invalid but modified line) and its way exactly when such an entry is present, reports lines and words as modified exactly when they are, and the update unit produces the documented new entry for each command. Distinct lines of the cache occupy distinct rows of the data array.',
  ['inputs', 'configurations'], 'every entry content, address, command and about a hundred cache shapes', 'Tests instantiate a handful of widths and sample operands.',
  [U + 'arithmetics.py', U + 'UpdateTagArrayUnit.py'], [('tag processing, row index', U + 'arithmetics.py'), ('entry update', U + 'UpdateTagArrayUnit.py')], ['component ports'])
P('P28', 'State-holding units keep exactly what they were given',
  'The miss record keeps the allocated request until it is replaced, and reports full and empty accordingly; the stall engine passes its input while enabled and then repeats the last value passed for as long as it is disabled; the walk counter moves by one or holds; the replacement bits of a set change only by a write to that set, and are cleared by reset.',
  ['histories', 'inputs', 'configurations'], 'every content, any number of held cycles, about a hundred cache shapes', 'Tests hold values for few cycles and few values.',
  [U + 'MSHR.py', U + 'StallEngine.py', U + 'registers.py', U + 'ReplacementPolicy.py', U + 'counters.py'],
  [('miss record', U + 'MSHR.py'), ('stall engine', U + 'StallEngine.py'), ('replacement state', U + 'registers.py')], ['component ports'], ['miss record', 'held value', 'replacement bits'])
P('P29', 'A request never modifies a line it does not address',
  'While a request is served the arrays are written only in the set, and the way, the request addresses; every other line of the cache keeps its contents.',
  ['inputs', 'histories', 'schedules'], HIST + ', every index', 'Corruption of another set shows only if exactly that set is read later.',
  [D, U + 'arithmetics.py', C], [('array index selection', U + 'arithmetics.py')], ARR, ['tag arrays', 'data array'])
P('P30', 'A write-init installs the written bytes in a valid line',
  'After a write-init request is answered, a valid line under the request\'s tag holds the written bytes, no word of a newly installed line is marked modified that the request did not write, and no memory request was sent.',
  ['inputs', 'histories', 'schedules'], HIST, 'Tests use write-init on direct-mapped or empty caches only.',
  [C, D], [('write-init transaction', C)], ARR, ['tag entries', 'data array'])
P('P31', 'Overlapped requests behave as if issued one at a time',
  'A request accepted while earlier ones are still in the pipeline, or followed by others, gives the same response, traffic and final contents as when it is alone.',
  ['schedules', 'histories'], 'every pipeline state at acceptance and every continuation', 'Hazards need two specific requests at a specific distance under a specific stall.',
  [C, D], [('pipeline hazards and bypasses', C)], ARR)

P('P32', 'Memory requests carry the tag of the request they serve',
  'Every refill, write-back of a displaced line and atomic that the cache sends to memory for a load, store or atomic carries that request\'s opaque tag.',
  ['inputs', 'schedules', 'histories'], HIST, 'Test memories answer in order and never look at the tag.',
  [D], [('memory request message', D)], IFC)
P('P33', 'Unstalled requests keep the documented cycle counts',
  'When nothing is refused, a load, store or write-init that hits is answered two cycles after it was accepted and a new request can be accepted in the next cycle (one cycle later after a store that hits an unmodified word); a load or store miss is answered four cycles, an atomic three cycles, after memory answered.',
  ['histories', 'inputs'], 'every prior history, every request, with nothing refused', 'Tests compare values, not cycles; a pipeline that loses throughput passes them.',
  [C], [('stall and readiness logic', C), ('documented cycle tables', 'blocking_cache/README.md')], IFC)

P('P17', 'A cache of n bytes and w ways really has them, and the address picks the set',
  'For every supported line width, data width, capacity, associativity and address width: the address is partitioned without gap or overlap into offset, index and tag; the tag entry holds the whole tag, a valid bit and one dirty bit per word; there is one tag array per way with a row per set, a data array with a row per line, and a request looks up every way at exactly the index bits of its address.',
  ['configurations', 'inputs'], 'every supported shape of a grid of several hundred, every address', 'Tests build a handful of shapes; a lost index bit only shows as extra misses.',
  ['blocking_cache/CacheDerivedParams.py', 'blocking_cache/cacheStructs.py', D], [('derived widths', 'blocking_cache/CacheDerivedParams.py'), ('address and tag-entry types', 'blocking_cache/cacheStructs.py'), ('arrays', D)], ARR)
P('P18', 'Message formats and type codes agree everywhere',
  'For every opaque, address and data width, request and response messages have exactly the documented fields with the documented widths (a write-mask bit per word when asked for), and every module that states a message type code, its name or its translated constant states the same one; no two command codes of one unit collide.',
  ['configurations'], 'a grid of 160 message shapes, all sixteen codes', 'Tests use two message shapes and compare a code with itself.',
  ['mem_ifcs/MemMsg.py', 'constants/constants.py', 'blocking_cache/cache_constants.py'], [('message types', 'mem_ifcs/MemMsg.py'), ('codes', 'constants/constants.py'), ('unit commands', 'blocking_cache/cache_constants.py')], IFC)

P('P34', 'Every supported shape builds, and no logic can fail or remember by accident',
  'For every supported line width, data width, capacity, associativity, address and tag width the cache can be built; every signal has exactly one driver; and whatever the inputs and the state, no assignment, slice or comparison in the design fails for a width or range, and no combinational signal keeps an old value because a path leaves it unassigned.',
  ['configurations', 'inputs'], 'about a hundred shapes, every path of every block', 'Tests build a handful of shapes and an error in a rarely taken branch only shows when that branch runs.',
  ['blocking_cache', 'sram', 'mem_ifcs/MemMsg.py'], [('shape parameters', 'blocking_cache/CacheDerivedParams.py'), ('every block', 'blocking_cache')], ['cache construction'])

P('P19', 'The functional model predicts exactly what a cache answers',
  'From any state of the functional model (any memory contents, tags, valid flags and replacement order) and for every legal request, the model records that request and one response with the same type, opaque and length; read and atomic responses carry the addressed bytes zero-extended, the hit flag is one exactly when a valid way of the set holds the tag; writes, write-inits and atomics change exactly the addressed bytes of the line the address names; a hit makes its way most recent, a miss fills the least recent way, an atomic frees its way, an invalidation clears every way, a flush changes nothing; no legal request makes it raise an exception.',
  ['inputs', 'histories'], 'any state, every operation, every length and atomic function, several geometries', 'The model is the oracle of the random tests: where it is wrong, tests are wrong with it, and they only see addresses below 2**31 and lines already loaded.',
  ['blocking_cache/BlockingCacheFL.py'], [('operations', 'blocking_cache/BlockingCacheFL.py')], ['ModelCache'])

if __name__ == '__main__':
  ids = [p['id'] for p in out]
  assert len(set(ids)) == len(ids)
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(out, key=lambda p: p['id']): f.write(json.dumps(p) + '\n')
  print(len(out))
