"""Per property: the bounds its harnesses decide, what lies outside, and what is assumed."""
SUB = ('Sub-parsers are scripted: each call answers with an arbitrary outcome (value or recoverable/fatal error, '
       'arbitrary payload byte, arbitrary advance 0..255 of an abstract position). Start position 0..255. ')
SEQ = 'the input type honours anchor/rewind/advance (C11, C12 decide that for the provided ones)'
META = {
    'C01': {
        'bounds': SUB + 'or: 2 calls; optional: 1; repeat, collect and their iterative forms: up to 4 sub-parser calls (thorough: 6).',
        'outside': 'longer repetitions; positions above 16 bits; binary expressions are decided under C07',
        'assumptions': [SEQ],
    },
    'C02': {
        'bounds': SUB + 'Every combinator and iterative adaptor, both forms: up to 4 sub-parser calls (thorough: 6 for the repeating ones).',
        'outside': 'longer repetitions; binary expressions are decided under C07',
        'assumptions': [SEQ],
    },
    'C03': {
        'bounds': SUB + 'join and or: 2 calls; the others 1 call. User functions are arbitrary on the value they get: '
                  'they XOR a constant or answer with a scripted outcome, and their calls are counted.',
        'outside': 'user functions that depend on more than their argument and call count',
        'assumptions': [SEQ],
    },
    'C04': {
        'bounds': SUB + 'Each parser run in its one-shot form, its reusable form and its reusable form again; up to 3 calls per run.',
        'outside': 'longer repetitions',
        'assumptions': [SEQ],
    },
    'C05': {
        'bounds': SUB + 'Up to 4 sub-parser calls (thorough: 6).',
        'outside': 'longer repetitions; Extend implementations other than the harness collection and Vec',
        'assumptions': [SEQ],
    },
    'C06': {
        'bounds': SUB + 'Up to 4 requested items per adaptor (take: limits 0..4, and requests after the end).',
        'outside': 'longer iterations',
        'assumptions': [SEQ],
    },
    'C07': {
        'bounds': SUB + 'Operators have an arbitrary precedence (0..254 and usize::MAX) and associativity, equal precedences an equal one. '
                  'Every outcome script with up to 4 operators (thorough: 6), every tree over up to 6 (thorough: 8); '
                  'with the inline vector itself in the loop: up to 2. The harnesses with more than 2 operators replace ShortVec::push/pop '
                  'by the same operations split on the length (C15 decides the originals).',
        'outside': 'longer expressions; different associativities within one precedence; recursive terms',
        'assumptions': [SEQ, 'ShortVec is a stack (C15)'],
    },
    'C08': {
        'bounds': 'Every valid UTF-8 text of up to 5 bytes (owned patterns: 4; thorough: 8) against every literal of up to 4 (3; 7) bytes and every character, as one piece of text.',
        'outside': 'longer texts and literals; texts in several segments are decided under C10',
        'assumptions': [],
    },
    'C09': {
        'bounds': 'Every byte slice of up to 5 items (Vec and array patterns: 4; thorough: 8) against every pattern of up to 4 (3; 7) items, and slices of up to 3 items '
                  'whose equality is coarser than identity against patterns of up to 2.',
        'outside': 'longer slices; item types with a partial equality',
        'assumptions': [],
    },
    'C10': {
        'bounds': 'Every text of up to 5 bytes and slice of up to 4 items (thorough: 7), cut into up to 3 (reusable form; items and thorough: 4) or 2 (one-shot form) consecutive segments at every '
                  'possible place (for text: character boundaries), empty segments and no segment at all included, with patterns of up to 4 (3; thorough 6).',
        'outside': 'longer inputs, more segments; segment streams that suspend (C24)',
        'assumptions': ['the segments of a sequence are consecutive pieces of its content; an advance within the input is exact (C11, C17, C21 decide that for the provided ones)'],
    },
    'C11': {
        'bounds': 'Every text of up to 5 bytes, every slice of up to 4 items of 1 and 2 bytes and of any number (up to isize::MAX) of zero-sized items; every history of 4 '
                  'operations (thorough: 5, up to 6 units) out of advance by any usize, anchor, and rewind to the start or to the last anchor, then a peeked copy that advances; '
                  'all segments compared after every step.',
        'outside': 'text advanced to the inside of a character; anchors of another sequence or from further on (documented panics)',
        'assumptions': [],
    },
    'C12': {
        'bounds': 'Every text of up to 4 bytes and slice of up to 4 items (thorough: 6), and any number of zero-sized items under the counting meter; every history of 4 (thorough: 5) '
                  'operations out of advance by any usize, anchor, rewind, and switching between a clone and the original. The meter records everything it is shown, '
                  'from the default or from an arbitrary start.',
        'outside': 'meters with interior effects; text advanced to the inside of a character',
        'assumptions': ['any meter is a function of what it is shown'],
    },
    'C13': {
        'bounds': 'Every text of up to 5 bytes (thorough: 8) in every cutting into three chunks (CR: two), for LF, CR and CRLF, the report compared after each chunk; '
                  'through a measured sequence: up to 4 bytes in two advances.',
        'outside': 'longer texts; meters resumed from a given location (LineColumnMeter::new), whose column continuation the code leaves open',
        'assumptions': [],
    },
    'C14': {
        'bounds': 'The order laws for every three locations (all usize fields); growth along a text: every two positions of every text of up to 4 bytes (thorough: 7).',
        'outside': 'longer texts',
        'assumptions': [],
    },
    'C15': {
        'bounds': 'Every history of 4 operations (thorough: 5) out of push, pop, reserve(0..4), reserve_exact(0..4) and writing through the slice, from every initial capacity 0..4 and '
                  'default(), for inline sizes 0, 1, 2, 3 and byte-sized elements with and without Drop and zero-sized elements with Drop; after each operation an arbitrary element and its drop '
                  'count compared. These harnesses replace alloc/realloc/dealloc and ptr::copy_nonoverlapping by constant-size stand-ins that check layouts, '
                  'overruns and leaks. On the real allocator: elements of 8 bytes through every growth of inline sizes 0, 1, 2, 6 (6 pushes, pops, reserve, push, arbitrary values), and boxes.',
        'outside': 'longer histories; capacities near isize::MAX; allocation failure; panicking element destructors',
        'assumptions': ['the allocator stand-ins behave as the allocator (the wide and boxes harnesses run on Kani\'s model of it)'],
    },
    'C16': {
        'bounds': 'Histories of 3 or 4 operations (thorough: 5) after the creation of a waiter, each any of: send, create a waiter, poll a waiter with a fresh waker; up to 2 waiters, 4 sends, 4 polls. '
                  'In one operation of the history (thorough: two) another party runs any one whole operation before any atomic or lock operation of it (thorough: that one is preempted again). '
                  'Callbacks: any waker, when woken, may create and poll a waiter of the same notifier on the spot.',
        'outside': 'schedules where two operations are each resumed half-way after the other (preemptions are nested); memory orderings weaker than sequential consistency; cloning wakers that call back',
        'assumptions': ['std Mutex and atomics are replaced by a hook of the same behaviour that lets other parties run before each access',
                        'the third-party slab is replaced by a fixed array of 4 slots with its interface'],
    },
    'C17': {
        'bounds': 'Every history of 3 loads with buffers of 4 items and up to 3 per write, and of 4 loads with buffers of 2 and up to 2 per write: at each load the source finishes, '
                  'fails, writes and commits, or writes and fails, with any requested room, number and values; every 2 loads where the source suspends up to once and '
                  'the pending items may be committed by force after each load (thorough: 4 and 5 loads, buffers of 4 and 5). After every load an arbitrary position of what is readable is '
                  'compared with what was written. A buffer that is advanced by any usize after each of 2 loads (thorough: 3), forced commits included. A reader that is asked again after each of 3 loads. The iterator source over 3 slices of up to 3 items (thorough: 4 of 4).',
        'outside': 'strategies other than constant capacities; items larger than a byte; loads dropped half-way; a writer given up without advance or cancel; freeing of the nodes',
        'assumptions': ['OnceLock runs its initialiser exactly once (its state machine is replaced by the uncontended case)',
                        'the strategy returns at least what it was asked for (C24)'],
    },
    'C18': {
        'bounds': 'The same histories as C17: after every load the report is compared with the change of what is readable, with what the source wrote and with whether it finished.',
        'outside': 'as C17; reports of loads after a failure count from the failure on',
        'assumptions': ['as C17'],
    },
    'C19': {
        'bounds': 'Every history of an earlier load of up to 3 items and then 3 steps (thorough: 5) on one writer out of pushing an item, writing into the spare room, shrinking to any '
                  'length and replacing any item, ended by advance or cancel, then completion; buffers of 4 items (thorough: 5), for bytes, elements with Drop and '
                  'zero-sized elements with Drop. After each step: capacity, length, an arbitrary item, and the place and size of the spare room; drop counts after every load. '
                  'The UTF-8 writer: 2 calls of up to 2 bytes pushed and taken back, over a sink that grants up to two items more than asked for.',
        'outside': 'writers given up without advance or cancel; room asked for beyond isize::MAX bytes; panicking element destructors; replacing items through the UTF-8 writer',
        'assumptions': ['as C17'],
    },
    'C20': {
        'bounds': 'Every history of 3 calls with up to 3 bytes per write, and of 2 calls with up to 2 bytes where the source suspends up to once (thorough: 4 calls of 3 bytes, 3 calls of 4): at each call '
                  'the source finishes, fails, or asks for any room, pushes any bytes, takes some back, and then commits or fails; the sink grants up to two items more than asked for, '
                  'over memory that holds anything.',
        'outside': 'longer chunks; calls after an invalid sequence or completion; loads dropped half-way',
        'assumptions': ['std::str::from_utf8 answers as Unicode\'s table of well-formed sequences says (it is replaced by that table; a counterexample is replayed with the real one)',
                        'the sink keeps the writer contract (C19 decides that for the provided one)'],
    },
    'C21': {
        'env': {'VH_SLAB': '1'},
        'bounds': 'A live sequence of 0..1 or 0..2 segments of 0..2 items each, read or advanced from any position, the other party being at any point of its program: append a segment, '
                  'signal, ..., mark the end, signal (any signal that is followed by another append may be left out). Before every access of the reader to the '
                  'appended segments, the end flag and the notifier, the other party may take up to two steps and send its signal. One segment is read (thorough: two), '
                  'any number of items is skipped; up to 6 polls (8 for two segments), each after a wake-up. '
                  'The real buffer, between its operations: one that is advanced after each of 2 loads, and a reader of it that is asked again after each of 3 loads.',
        'outside': 'more segments; several readers; the other party preempted in the middle of a signal (C16), or signalling while the reader holds the lock; '
                   'memory orderings weaker than sequential consistency; the real buffer\'s own atomics in the middle of an append',
        'assumptions': ['the live sequence\'s buffer is a stand-in that gives what was appended at the moment it is asked, segment by segment (the real one is checked on its own)',
                        'no driver exists at this commit: its program is the one the sequence is written for (append, then signal; mark the end, then signal)',
                        'std Mutex and atomics are replaced by a hook of the same behaviour that lets the other party run before each access',
                        'the third-party slab is replaced by a single slot with its interface'],
    },
    'C22': {
        'bounds': 'Every payload and classification, every alternative, references two deep, options two deep, and alternatives nested in alternatives; helpers for the impossible side '
                  'with Never, Result, arrays, and both kinds of alternatives of Never.',
        'outside': 'extraction of the absent side (a documented panic); classification of an alternative whose one side is uninhabited (Kani cannot compile it)',
        'assumptions': [],
    },
    'C23': {
        'bounds': 'Every predicate answer and value for 6 items (3 sent on subscription, 3 when it ends), one filter with one or two subscriptions, and two nested filters.',
        'outside': 'more items; predicates with effects on the observable',
        'assumptions': [],
    },
    'C24': {
        'bounds': SUB + 'Each step of a sub-parser, of advance and of rewind may suspend; in total up to 2 suspensions per run '
                  '(1 for repeat and collect), in every distribution; up to 2 sub-parser calls for repeating parsers. The primitive parsers on every text of up to 4 bytes in up to 2 segments and every slice of up to 3 items in up to 3, '
                  'where every segment request and advance may suspend, up to 2 times in all.',
        'outside': 'more suspensions in one run; wakers (C16, C21)',
        'assumptions': [SEQ],
    },
}
NOT_APPLICABLE = {
    'C25': 'DefaultRunner::parse and parse_iterative are todo!() at this commit: there is no behaviour to decide.',
}
