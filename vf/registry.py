# property -> (module, function, level)
CHECKS = {
    'C01': ('c_seq', 'c01', 'model_checking'),
    'C02': ('c_seq', 'c02', 'model_checking'),
    'C03': ('c_seq', 'c03', 'model_checking'),
    'C04': ('c_str', 'c04', 'model_checking'),
    'C05': ('c_str', 'c05', 'model_checking'),
    'C06': ('c_map', 'c06', 'model_checking'),
    'C07': ('c_map', 'c07', 'model_checking'),
    'C08': ('c_map', 'c08', 'model_checking'),
    'C09': ('c_map', 'c09', 'model_checking'),
    'C10': ('c_uptr', 'c10', 'model_checking'),
    'C11': ('c_uptr', 'c11', 'model_checking'),
    'C12': ('c_box', 'c12', 'model_checking'),
    'C13': ('c_box', 'c13', 'model_checking'),
    'C14': ('c_box', 'c14', 'model_checking'),
    'C15': ('c_box', 'c15', 'model_checking'),
    'C16': ('c_num', 'c16', 'model_checking'),
    'C17': ('c_num', 'c17', 'model_checking'),
    'C18': ('c_num', 'c18', 'model_checking'),
    'C19': ('c_fun', 'c19', 'model_checking'),
    'C20': ('c_fun', 'c20', 'model_checking'),
    'C21': ('c_fun', 'c21', 'model_checking'),
    'C22': ('c_math', 'c22', 'model_checking'),
    'C23': ('c_math', 'c23', 'model_checking'),
    'C24': ('c_math', 'c24', 'model_checking'),
    'C36': ('c_elem', 'c36', 'model_checking'),
    'C25': ('c_misc', 'c25', 'model_checking'),
    'C26': ('c_misc', 'c26', 'model_checking'),
    'C27': ('c_misc', 'c27', 'model_checking'),
    'C28': ('c_misc', 'c28', 'model_checking'),
    'C29': ('c_conc', 'c29', 'model_checking'),
    'C30': ('c_conc', 'c30', 'model_checking'),
    'C31': ('c_conc', 'c31', 'model_checking'),
    'C32': ('c_conc', 'c32', 'model_checking'),
    'C33': ('c_conc', 'c33', 'model_checking'),
    'C34': ('c_conc', 'c34', 'model_checking'),
    'C35': ('c_conc', 'c35', 'model_checking'),
    'C37': ('c_fun', 'c37', 'model_checking'),
    'C38': ('c_num', 'c38', 'model_checking'),
    'C39': ('c_misc', 'c39', 'model_checking'),
    'C40': ('c_misc', 'c40', 'model_checking'),
    'C41': ('c_misc', 'c41', 'model_checking'),
    'C42': ('c_misc', 'c42', 'model_checking'),
    'C43': ('c_misc', 'c43', 'model_checking'),
}

def _t(spec, note=None):
    return ('TLA+ spec %s checked exhaustively with TLC for small constants; every transition of its state graph replayed into the real code (result and projected state compared), and recorded random runs of the real code validated step by step by TLC' % spec,
            note or 'exhaustive for the model constants, every model transition (quick: up to a step limit) executed on the real code under ASan/UBSan; longer random histories accepted by TLC step by step. Trusts TLC, the harness projection, and the sampled histories beyond the model bounds.')


TECH = {
    'C01': _t('Vector.tla/VectorTrace.tla'), 'C02': _t('Vector.tla/VectorTrace.tla'), 'C03': _t('Vector.tla/VectorTrace.tla'),
    'C04': _t('String.tla/StringTrace.tla'), 'C05': _t('String.tla/StringOrder.tla'),
    'C06': _t('Map.tla/Treap.tla'), 'C07': _t('Map.tla/Treap.tla'), 'C08': _t('Map.tla/Treap.tla'),
    'C09': ('TLA+ spec Treap.tla model checked; comparison counts recorded from the real map validated by TLC against the bound stated in MapCostTrace.tla',
            'the bound is checked on measured insertion orders (sorted, zigzag, random, adversarial patterns) up to the size limit; it is not proved for all orders. Treap design model checked exhaustively for small key sets.'),
    'C10': _t('UniquePtr.tla/UniquePtrTrace.tla'), 'C11': _t('UniquePtr.tla/UniquePtrTrace.tla'),
    'C12': _t('Optional.tla/OptionalTrace.tla'),
    'C13': _t('Variant.tla/VariantTrace.tla'),
    'C14': _t('Any.tla/AnyTrace.tla'),
    'C15': _t('Expected.tla/ExpectedTrace.tla'),
}
def _f(spec, what):
    return ('TLA+ functional specification in exact integer arithmetic (%s), its own consistency model checked exhaustively with TLC on small formats; recorded request/answer events of the real code judged one by one by TLC' % spec,
            what + ' The specification is the only oracle; inputs outside the generated set are not covered.')


TECH.update({
    'C16': _f('Itoa.tla digit loop, Convert.tla/Big.tla', 'boundary values of every digit count and bit length plus random values, real buffers under ASan.'),
    'C17': _f('Decimal.tla/Convert.tla, RoundModel.tla', 'every exponent of float and double with structured and random fractions.'),
    'C18': _f('Decimal.tla/Convert.tla, RoundModel.tla', 'texts in all notations up to the supported digit count, exact halfway cases, limits, malformed texts, and round trips over every exponent.'),
})
TECH.update({
    'C19': _f('SipHash.tla/Word.tla, an absorbing state machine over 64-bit words; SipHashModel.tla checks it against the published vectors', 'all message lengths up to 72 and around every multiple of 256, all single-bit keys and messages, random ones, all alignments, exact-size buffers under ASan.'),
    'C20': _f('HashTrace.tla: the hash function as a growing table that must stay functional and injective', '8 and 16 bit types exhaustively, wider types on structured and random values.'),
    'C21': _t('Algo.tla/AlgoTrace.tla'),
    'C22': _f('Float.tla/Decimal.tla, FloatModel.tla', 'all 2^32 float patterns (run-length answers per sign and exponent judged by TLC) and every exponent of double.'),
    'C23': _f('Float.tla/Decimal.tla, FloatModel.tla', 'every exponent with structured and random fractions, integers of all sizes and their neighbours.'),
    'C24': _f('FloatTrace.tla/Decimal.tla', 'the whole table, in four build modes.'),
    'C36': _f('Elem.tla: fixed-point arithmetic of 20 digits, e^x, circle and error functions; logarithms, roots and powers judged through their inverses; ElemModel.tla checks the defining laws', 'every exponent of every function: the worst arguments a native scan finds, special and random ones, three build modes; bounds as stated in the property.'),
    'C37': _t('Mem.tla/MemTrace.tla (memory as runs of bytes)'),
})
def _c(spec, design, extra=''):
    return ('TLA+ object specification %s and generic linearizability-with-time checker Conc.tla: every distinct call/return history of the real code, obtained by exploring its thread schedules (depth-first up to a preemption bound, then at random) under a deterministic scheduler with virtual time, is decided by TLC%s' % (spec, design),
            'schedules are sequentially consistent, exhaustive up to the preemption bound for the listed small programs and sampled beyond; a vector clock detector reports data races.' + extra)


TECH.update({
    'C29': _c('Queue.tla', '; the algorithm itself (QueueImpl.tla) is model checked against Queue.tla for linearizability, lost wakeups and termination'),
    'C30': _c('Mutex.tla', ''),
    'C31': _c('Signal.tla', '; the algorithm itself (SignalImpl.tla) is model checked against Signal.tla for linearizability, lost wakeups and termination'),
    'C32': _c('Atomic.tla', ''),
    'C33': _c('Thread.tla', ''),
    'C34': _c('Tls.tla', ''),
    'C35': ('TLA+ TimerImpl.tla model checked (never early, never late, always returns under any interruptions); recorded waits of the real code under virtual time with injected interruptions judged by TLC (TimerTrace.tla)',
            'durations up to 3e18 ns, every number of interruptions up to 31; the clock and sleep calls are replaced by a POSIX model.'),
})
TECH.update({
    'C25': _t('Tuple.tla/TupleTrace.tla'),
    'C26': _t('StringStream.tla/StringStreamTrace.tla'),
    'C27': _t('Ratio.tla/RatioTrace.tla'),
    'C28': _t('Types.tla/TypePairs.tla/TypesTrace.tla'),
})
TECH.update({
    'C38': _f('FromChars.tla/Decimal.tla; FromCharsModel.tla proves the one-pass scanner equal to the longest-prefix definition on every short text', 'all short texts over the significant characters plus texts around the points where rounding is decided, in every format, from unterminated buffers under ASan.'),
    'C39': _t('IntSeq.tla/IntSeqModel.tla/MakeSeq.tla/IntSeqTrace.tla', 'the doubling construction of make_integer_sequence is model checked as a state machine; every operation on every short pair of sequences and random longer ones is instantiated in C++11, 14 and 17, and TLC judges the type, values and size the compiler produced.'),
    'C40': _t('Exceptions.tla/ExceptionsTrace.tla'),
    'C41': _t('OStream.tla/OStreamTrace.tla'),
    'C42': _t('Cost.tla/CostTrace.tla'),
    'C43': ('TLA+ spec Shared.tla (threads that follow the one-writer-or-many-readers rule between synchronisations, and the footprint the library promises) checked exhaustively with TLC to be free of races; its behaviours and random ones performed with the real library, the memory each call really touches recorded by compiler instrumentation and judged by TLC (SharedTrace.tla)',
            'every transition of the two-thread model on every kind of object (quick: a sample per kind), every pair of functions, random mixes of all objects; accesses are those of the sequential execution of each call, the races those of any schedule of it.'),
})
NA = {
}
