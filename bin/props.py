"""The jobs (symbolic executions) that decide each property."""
PAR = 6
ASSUME = [
 'clang 18 -O1 translates the C++ source to LLVM IR correctly; the executor follows the LLVM semantics (path witnesses are run through the g++ build of the real code to check both)',
 'threads are switched at synchronisation operations only; executions without a data race behave as if sequentially consistent, and data races (in g3log, its headers and the harness) are reported as violations by happens-before checking on every path',
 'libc, libstdc++ streams and std::thread/mutex/condition_variable/promise, files, clocks, signals and process exit behave as in model/ (see DESIGN.md, section Environment); everything in libstdc++ headers is the real code',
 'no allocation fails; operating system calls fail only where a harness says so',
]
# what a harness quantifies over ({N} etc. are the defines of the job)
OVER = {
 'h_two_threads': 'two threads, {N} entries each, one sink; every schedule; each entry has one arbitrary character',
 'h_two_sinks': 'two sinks, {N}+1 entries from one thread (two threads if SECOND); every schedule; one arbitrary character each',
 'h_order': 'two threads with {N} entries each between a first and a last entry, {SINKS} sink(s); every schedule',
 'h_drain': '1..{N} entries, one or two sinks, four ways to stop; every schedule',
 'h_drain_two': 'one entry and {N} of a second thread against removal or destruction; every schedule',
 'h_drain_held': '{N} entries while the sink is held by a shared pointer or by a call of another thread; three ways to stop; every schedule',
 'h_fatal_held': '{N} earlier entries and a fatal entry, failed check or signal while the sink is held by a shared pointer or by a call of another thread; every schedule',
 'h_fatal_file': '0..{N} entries of one arbitrary character, then a fatal entry, failed check or signal, the sink held by nobody or a shared pointer (one fair schedule) or, if CALL, by a call of another thread (every schedule)',
 'h_stuck': '{N} entries, a sink that never returns before or after a working one; logging from either thread; every schedule',
 'h_stuck_one': '{N}+2 entries while a call through the handle never returns; every schedule',
 'h_gone': '{N} entries of a second thread while the logger is destroyed; every schedule',
 'h_withdraw': '{N} entries of a second thread during shutdown; every schedule',
 'h_exclusive': 'one entry and handle calls from two threads (combination {HOW}); every schedule',
 'h_handle': 'six uses of a handle, any int and one-character texts; every schedule',
 'h_handle_race': 'a handle call from a second thread during removal; every schedule',
 'h_sequence': 'every sequence of {N} operations of add, remove one, remove all, log; one fair schedule (every schedule if SCHED)',
 'h_nosinks': 'no sink ever, all removed, or the only one removed; 1..3 equal texts of 0..2 arbitrary characters or two threads; every schedule',
 'h_queue_conc': 'two producers with {N} arbitrary items each, 1 or CONS consumers; every schedule',
 'h_queue_seq': 'every sequence of {N} operations, arbitrary items', 'h_queue_watch': 'a producer of {N} items and an observer that pops one; every schedule', 'h_queue_try': '{N} items, two non-waiting consumers; every schedule',
 'h_active': 'two senders with {N} jobs each; every schedule', 'h_active_nested': 'a job that sends a job; every schedule', 'h_task': 'value, exception, no worker, drain; any int results; every schedule', 'h_move': '1..4 transfers of four kinds, any int',
 'h_capture': 'text of up to {N} arbitrary bytes, one arbitrary byte in directory, file, function, level and expression; line 0..99999; any level value below fatal', 'h_copies': 'seven ways to copy, any value of every part (one byte texts)',
 'h_tostring': 'any level value, text up to {N} bytes, one byte names, line -999..999', 'h_filename': 'any path of up to {N} bytes without (', 'h_stamp': 'any clock increments', 'h_printf': 'lengths around the limit (2045..2050 for 2048; limits 1..6 where it can be set), arbitrary bytes there', 'h_printf_conv': '%d -999..999, %s 0..2 bytes, %c any, %x 16 bits',
 'h_wasfatal': 'any 32 bit level value', 'h_levels': 'every sequence of {N} of 8 operations over 6 levels (3 if FEW; one with an arbitrary value if SYMVAL), then any probe', 'h_level_query': 'any level value', 'h_levels_conc': 'pairs of operations from two threads; every schedule', 'h_macros': '{FORMS} uses of the macros (6: the plain forms; 9: conditions of other types and operators, statements inside an if), any condition and level value',
 'h_twice': 'two times, the second any second of three days around a change to summer time and at the epoch, or one of three seconds before the epoch, time zone {ZONE} of 4, formats of the same and of another length', 'h_fraction': 'nine arbitrary digits; nine seconds around the epoch and the ends of the range (any 32 bit second if WHOLE); four fields', 'h_expand': 'every format of up to {N} letters of "%f369qa", nine arbitrary digits', 'h_expand_any': 'up to 2 arbitrary bytes on either side of a field', 'h_puttime': 'any calendar fields of a month; literal lengths 1018..1026, expansions around the internal limit', 'h_format': 'six days, any second of the day, nine arbitrary digits, three formats', 'h_convert': 'any two time stamps of +-126 years, any clock offsets', 'h_convert_two': 'two threads, any seconds; every schedule',
 'h_fatal': 'six kinds of fatal entries, texts of 0..2 bytes and any int in -9..99 (KINDS, one schedule), or every schedule with {N} earlier entries and, if SECOND, another thread', 'h_two_fatal': 'two threads with a fatal entry; every schedule', 'h_signal': 'five signals, with or without handler of the application, blocked or not at the start (KINDS, one schedule), or every schedule', 'h_two_signals': 'two threads, different or equal signals; every schedule', 'h_fatal_and_signal': 'a fatal entry against a signal; every schedule', 'h_hook': 'plain hook, fatal entry in the hook, failed check', 'h_hook_race': 'two fatal entries; every schedule',
 'h_handlers': 'every sequence of {N} operations over 4 signals, three original handlings', 'h_nologger': 'seven kinds of event, never started or stopped', 'h_replaced': 'seven kinds of event, once or twice, any text of 0..2 bytes',
 'h_mixed': '{N} entries of five levels each, two sinks; one fair schedule', 'h_active_follow': 'a task that sends another, two senders; all schedules', 'h_capture_two': 'two entries of two threads at the same time, arbitrary texts, functions and lines; all schedules',
 'h_expand_words': 'all formats of {N} words out of seven; three fractions (t: every nanosecond)', 'h_start_race': 'two threads start a logger each, all schedules',
 'h_line': 'an arbitrary line of up to {N} bytes as first or last frame', 'h_forms': 'six forms of lines, four symbol names, arbitrary bytes', 'h_frames': '0..60 frames, no lines at all, supplied dump', 'h_reason': 'any signal number', 'h_raw': 'up to {N} arbitrary bytes and ten lengths up to 9000',
 'h_early': '0..2 early entries, one or two loggers after them', 'h_early_two': 'two threads early; every schedule', 'h_early_race': 'an entry during the start; every schedule', 'h_restart': 'every sequence of {N} operations over two loggers', 'h_two_loggers': 'which is active, three ways to stop the other, hook and handler (one schedule, every schedule if SCHED)',
 'h_file': '0..{N} entries, any flush interval but 0, three detail formats, arbitrary bytes', 'h_header': 'up to 2 arbitrary bytes', 'h_change': 'every sequence of {N} of: write, change to same or other directory, failed change, time passes; any flush interval but 0', 'h_stamped': 'four days, any second', 'h_prefix': 'any prefix of up to {N} bytes', 'h_directory': 'any directory text of up to {N} bytes, id of up to 1', 'h_renamed': 'ids of up to 1 byte', 'h_fallback': 'any flush interval but 0, 0..2 entries, id of up to 1 byte', 'h_default': 'two threads with {N} entries each; every schedule',
 'h_many': '{N} entries of each of two threads, two sinks; one fair schedule', 'h_stuck_many': '{N} entries against a sink that never returns; one fair schedule', 'h_drain_many': '{N} entries; one fair schedule', 'h_many_sinks': '12 sinks, any one removed; one fair schedule', 'h_long': '18 text lengths up to 70000, arbitrary bytes at five places', 'h_file_many': '{N} entries, ten flush intervals up to 300', 'h_queue_many': '{N} items and jobs, arbitrary values', 'h_texts': '11 texts, five front ends, three sinks; one fair schedule',
}
PROPS = {}
def J(name, file, entry, D=None, cfg='default', args=(), reach=('done',), tier='qt', time=(200, 900), bounds='', **kw):
    return dict(name=name, file=file, entry=entry, D={k: str(v) for k, v in (D or {}).items()}, cfg=cfg, args=list(map(str, args)), reach=list(reach), tier=tier, tm=time, bounds=bounds, **kw)
def jobs(pid, tier):
    r = []
    for j in PROPS[pid]['jobs']:
        if tier[0] in j['tier']:
            j = dict(j); j['time'] = j['tm'][0 if tier == 'quick' else 1]; r.append(j)
    return r
PROPS['C01'] = dict(jobs=[
  J('two_threads_n1', 'delivery.cpp', 'h_two_threads', {'N': 1}),
  J('two_threads_n2', 'delivery.cpp', 'h_two_threads', {'N': 2}),
  J('two_sinks_n1', 'delivery.cpp', 'h_two_sinks', {'N': 1}),
  J('two_sinks_n1s', 'delivery.cpp', 'h_two_sinks', {'N': 1, 'SECOND': 1}),
])

PROPS['C10'] = dict(jobs=[
  J('queue_two_prod_n1', 'conc.cpp', 'h_queue_conc', {'N': 1}),
  J('queue_two_prod_n2', 'conc.cpp', 'h_queue_conc', {'N': 2}),
  J('queue_two_cons_n2', 'conc.cpp', 'h_queue_conc', {'N': 2, 'CONS': 2}),
  J('queue_seq', 'conc.cpp', 'h_queue_seq', {'N': 6}),
  J('queue_watch', 'conc.cpp', 'h_queue_watch', {'N': 2}),
  J('queue_try', 'conc.cpp', 'h_queue_try', {'N': 3}),
])
PROPS['C11'] = dict(jobs=[
  J('active_n1', 'conc.cpp', 'h_active', {'N': 1}),
  J('active_n2', 'conc.cpp', 'h_active', {'N': 2}),
  J('nested', 'conc.cpp', 'h_active_nested'),
])
PROPS['C12'] = dict(jobs=[J('task', 'conc.cpp', 'h_task', reach=['done', 'value', 'throw', 'null', 'drain'])])
PROPS['C13'] = dict(jobs=[J('move', 'conc.cpp', 'h_move')])

PROPS['C50'] = dict(jobs=[J('capture', 'msg.cpp', 'h_capture'), J('filename', 'msg.cpp', 'h_filename', {'N': 5}), J('filename_full', 'msg.cpp', 'h_filename', {'N': 5}, cfg='fullname'), J('stamp', 'msg.cpp', 'h_stamp')])
PROPS['C51'] = dict(jobs=[J('copies', 'msg.cpp', 'h_copies')])
PROPS['C52'] = dict(jobs=[J('tostring', 'msg.cpp', 'h_tostring', reach=['done', 'normal', 'fatal', 'contract', 'signal', 'exception', 'other'])])
PROPS['C53'] = dict(jobs=[J('printf', 'msg.cpp', 'h_printf', reach=['done', 'fits', 'cut']), J('printf_dyn', 'msg.cpp', 'h_printf', {'N': 6}, cfg='dynmax', reach=['done', 'fits', 'cut']), J('printf_conv', 'msg.cpp', 'h_printf_conv')])
PROPS['C40'] = dict(jobs=[J('wasfatal', 'level.cpp', 'h_wasfatal')])
PROPS['C41'] = dict(jobs=[J('levels', 'level.cpp', 'h_levels', {'N': 2}, cfg='dynamic'), J('levels3', 'level.cpp', 'h_levels', {'N': 3, 'FEW': 1, 'NOTEXT': 1}, cfg='dynamic', tier='t'), J('levels_sym', 'level.cpp', 'h_levels', {'N': 1, 'SYMVAL': 1, 'NOTEXT': 1, 'FEW': 1}, cfg='dynamic'), J('levels_sym2', 'level.cpp', 'h_levels', {'N': 2, 'SYMVAL': 1, 'NOTEXT': 1, 'FEW': 1}, cfg='dynamic', tier='t'), J('query', 'level.cpp', 'h_level_query', cfg='dynamic'), J('conc', 'level.cpp', 'h_levels_conc', cfg='dynamic')])
PROPS['C42'] = dict(jobs=[J('macros', 'level.cpp', 'h_macros', reach=['done', 'entry', 'fatal']), J('macros_dyn', 'level.cpp', 'h_macros', cfg='dynamic', reach=['done', 'entry', 'fatal'])])

PROPS['C60'] = dict(jobs=[J('fraction', 'timeh.cpp', 'h_fraction'), J('fraction_far', 'timeh.cpp', 'h_fraction', {'WHOLE': 1})])
PROPS['C61'] = dict(jobs=[J('expand', 'timeh.cpp', 'h_expand', {'N': 4}), J('expand_any', 'timeh.cpp', 'h_expand_any'), J('expand_words', 'timeh.cpp', 'h_expand_words', {'N': 3}), J('expand_words_any', 'timeh.cpp', 'h_expand_words', {'N': 3, 'ANY': 1}, tier='t')])
PROPS['C62'] = dict(jobs=[J('puttime', 'timeh.cpp', 'h_puttime', reach=['done','fields','long','grow','empty']), J('format', 'timeh.cpp', 'h_format', {'FEWSEC': 1})])
PROPS['C63'] = dict(jobs=[J('convert', 'timeh.cpp', 'h_convert'), J('convert_two', 'timeh.cpp', 'h_convert_two')])
PROPS['C02'] = dict(jobs=[J('order', 'order.cpp', 'h_order', {'N': 1, 'SINKS': 1}), J('two_sinks', 'delivery.cpp', 'h_two_sinks', {'N': 1, 'SECOND': 1}), J('order_sinks', 'order.cpp', 'h_order', {'N': 1, 'SINKS': 2}, tier='t'), J('order_n2', 'order.cpp', 'h_order', {'N': 2, 'SINKS': 1})])
PROPS['C03'] = dict(jobs=[J('drain', 'order.cpp', 'h_drain', {'N': 2}, reach=['done', 'destroy', 'all', 'one', 'both']), J('drain_two', 'order.cpp', 'h_drain_two', {'N': 1}, reach=['done', 'all', 'destroy'])])
PROPS['C04'] = dict(jobs=[J('stuck', 'order.cpp', 'h_stuck', {'N': 2}, reach=['done', 'logged']), J('stuck_one', 'order.cpp', 'h_stuck_one', {'N': 2})])
PROPS['C05'] = dict(jobs=[J('withdraw', 'order.cpp', 'h_withdraw', {'N': 2})])
PROPS['C06'] = dict(jobs=[J('exclusive0', 'order.cpp', 'h_exclusive', {'HOW': 0}), J('exclusive1', 'order.cpp', 'h_exclusive', {'HOW': 1}), J('exclusive2', 'order.cpp', 'h_exclusive', {'HOW': 2}, tier='t')])
PROPS['C07'] = dict(jobs=[J('handle', 'order.cpp', 'h_handle', reach=['done', 'value', 'text', 'throw', 'removed', 'destroyed', 'after']), J('race', 'order.cpp', 'h_handle_race', reach=['done', 'refused', 'ran'])])
PROPS['C08'] = dict(jobs=[J('sequence', 'order.cpp', 'h_sequence', {'N': 4}), J('sequence_sched', 'order.cpp', 'h_sequence', {'N': 3, 'SCHED': 1})])
PROPS['C09'] = dict(jobs=[J('nosinks', 'order.cpp', 'h_nosinks')])
PROPS['C20'] = dict(jobs=[J('kinds', 'fatal.cpp', 'h_fatal', {'KINDS': 1, 'N': 1, 'SINKS': 2}, reach=['done', 'died']), J('fatal_n2', 'fatal.cpp', 'h_fatal', {'N': 2}, reach=['done', 'died']), J('fatal_two_sinks', 'fatal.cpp', 'h_fatal', {'N': 1, 'SINKS': 2}, reach=['done', 'died']), J('fatal_second', 'fatal.cpp', 'h_fatal', {'N': 1, 'SECOND': 1}, reach=['done', 'died']), J('two_fatal', 'fatal.cpp', 'h_two_fatal', {'N': 0}, reach=['done', 'first', 'second']), J('two_fatal_n1', 'fatal.cpp', 'h_two_fatal', {'N': 1}, tier='t', reach=['done', 'first', 'second'])])
PROPS['C21'] = dict(jobs=[J('kinds', 'fatal.cpp', 'h_signal', {'KINDS': 1, 'N': 1, 'SINKS': 2}, reach=['done', 'died', 'own']), J('signal', 'fatal.cpp', 'h_signal', {'N': 1}, reach=['done', 'died']), J('signal_second', 'fatal.cpp', 'h_signal', {'N': 1, 'SECOND': 1}, reach=['done', 'died'])])
PROPS['C22'] = dict(jobs=[J('two', 'fatal.cpp', 'h_two_signals', reach=['done', 'first', 'second']), J('mixed', 'fatal.cpp', 'h_fatal_and_signal', reach=['done', 'signal', 'entry'])])
PROPS['C23'] = dict(jobs=[J('hook', 'fatal.cpp', 'h_hook', reach=['done', 'plain', 'logs', 'recursive']), J('hook_race', 'fatal.cpp', 'h_hook_race')])
PROPS['C24'] = dict(jobs=[J('handlers', 'fatal.cpp', 'h_handlers', {'N': 3}), J('handlers_restored', 'fatal.cpp', 'h_handlers', {'N': 2, 'START': 1}), J('handlers_restored3', 'fatal.cpp', 'h_handlers', {'N': 3, 'START': 1}, tier='t')])
PROPS['C25'] = dict(jobs=[J('nologger', 'fatal.cpp', 'h_nologger')])
PROPS['C26'] = dict(jobs=[J('replaced', 'fatal.cpp', 'h_replaced')])
PROPS['C27'] = dict(jobs=[J('line', 'dump.cpp', 'h_line', {'N': 8}, reach=['done', 'decoded']), J('line11', 'dump.cpp', 'h_line', {'N': 11}, tier='t', reach=['done', 'decoded']), J('forms', 'dump.cpp', 'h_forms'), J('frames', 'dump.cpp', 'h_frames', reach=['done', 'raw'])])
PROPS['C28'] = dict(jobs=[J('reason', 'dump.cpp', 'h_reason', reach=['done', 'known', 'unknown']), J('raw', 'dump.cpp', 'h_raw', {'N': 6})])
PROPS['C30'] = dict(jobs=[J('early', 'init.cpp', 'h_early', reach=['done', 'again']), J('early_two', 'init.cpp', 'h_early_two'), J('early_race', 'init.cpp', 'h_early_race', reach=['done', 'delivered', 'dropped'])])
PROPS['C31'] = dict(jobs=[J('restart', 'init.cpp', 'h_restart', {'N': 3}, reach=['done', 'refused']), J('restart4', 'init.cpp', 'h_restart', {'N': 4}, tier='t', reach=['done', 'refused']), J('start_race', 'init.cpp', 'h_start_race')])
PROPS['C32'] = dict(jobs=[J('two_loggers', 'init.cpp', 'h_two_loggers'), J('two_loggers_sched', 'init.cpp', 'h_two_loggers', {'SCHED': 1}, tier='t')])
PROPS['C70'] = dict(jobs=[J('file5', 'filesink.cpp', 'h_file', {'N': 5}, reach=['done', 'flushed']), J('file7', 'filesink.cpp', 'h_file', {'N': 7}, tier='t', reach=['done', 'flushed']), J('header', 'filesink.cpp', 'h_header')])
PROPS['C71'] = dict(jobs=[J('change5', 'filesink.cpp', 'h_change', {'N': 5}, reach=['done', 'changed', 'failed', 'again']), J('change6', 'filesink.cpp', 'h_change', {'N': 6}, tier='t', reach=['done', 'changed', 'failed', 'again'])])
PROPS['C72'] = dict(jobs=[J('change5', 'filesink.cpp', 'h_change', {'N': 5}, reach=['done', 'changed', 'failed', 'again'])])
PROPS['C73'] = dict(jobs=[J('prefix', 'filesink.cpp', 'h_prefix', {'N': 2}, reach=['done', 'refused']), J('prefix3', 'filesink.cpp', 'h_prefix', {'N': 3}, tier='t', reach=['done', 'refused']), J('directory', 'filesink.cpp', 'h_directory', {'N': 3}, reach=['done', 'root', 'here']), J('renamed', 'filesink.cpp', 'h_renamed'), J('stamped', 'filesink.cpp', 'h_stamped')])
PROPS['C74'] = dict(jobs=[J('fallback', 'filesink.cpp', 'h_fallback', reach=['done', 'fallback'])])
PROPS['C75'] = dict(jobs=[J('default_n1', 'filesink.cpp', 'h_default', {'N': 1}), J('default_n2', 'filesink.cpp', 'h_default', {'N': 2}, tier='t')])
def more(pid, *js): PROPS[pid]['jobs'] += js
more('C01', J('texts', 'scale.cpp', 'h_texts'), J('many', 'scale.cpp', 'h_many', {'N': 300}), J('many_sinks', 'scale.cpp', 'h_many_sinks'), J('long', 'scale.cpp', 'h_long'))
more('C03', J('drain_many', 'scale.cpp', 'h_drain_many', {'N': 300}))
more('C04', J('stuck_many', 'scale.cpp', 'h_stuck_many', {'N': 2100}, reach=['logged', 'done']))
more('C10', J('queue_many', 'scale.cpp', 'h_queue_many', {'N': 2000}))
more('C70', J('file_many', 'scale.cpp', 'h_file_many', {'N': 600}))
more('C02', J('texts', 'scale.cpp', 'h_texts'), J('many', 'scale.cpp', 'h_many', {'N': 300}))
more('C75', J('file', 'filesink.cpp', 'h_file', {'N': 3}, reach=['done', 'flushed']), J('file_many', 'scale.cpp', 'h_file_many', {'N': 600}))
more('C10', J('queue_spurious', 'conc.cpp', 'h_queue_conc', {'N': 1}, args=('--spurious', '1')))
more('C11', J('active_spurious', 'conc.cpp', 'h_active', {'N': 1}, args=('--spurious', '1')))
more('C12', J('task_spurious', 'conc.cpp', 'h_task', args=('--spurious', '1'), tier='t', reach=['done', 'value', 'throw', 'null', 'drain']))
more('C03', J('drain_held', 'order.cpp', 'h_drain_held', {'N': 1}, reach=['done', 'destroy', 'all', 'one']), *[J('drain_call%d' % k, 'order.cpp', 'h_drain_held', {'N': 1, 'CALL': 1, 'HOW': k}, tier='t') for k in range(3)])
more('C20', J('fatal_held', 'fatal.cpp', 'h_fatal_held', {'N': 1}, reach=['done', 'died']), *[J('fatal_call%d' % k, 'fatal.cpp', 'h_fatal_held', {'N': k // 2, 'CALL': 1, 'KIND': k % 2}, tier='t' if k else 'qt', reach=['done', 'died']) for k in range(3)])
more('C01', J('two_threads_exact', 'delivery.cpp', 'h_two_threads', {'N': 1}, args=('--hash-vc',), tier='t'))
more('C10', J('queue_exact', 'conc.cpp', 'h_queue_conc', {'N': 2, 'CONS': 2}, args=('--hash-vc',), tier='t'))
more('C11', J('active_exact', 'conc.cpp', 'h_active', {'N': 2}, args=('--hash-vc',), tier='t'))
FF = [J('fatal_file', 'filesink.cpp', 'h_fatal_file', {'N': 3}, reach=['done', 'died']), J('fatal_file_call', 'filesink.cpp', 'h_fatal_file', {'N': 1, 'CALL': 1}, tier='t', reach=['done', 'died'])]
more('C20', *FF); more('C75', *FF)
# deeper bounds of the schedules
more('C01', J('two_threads_n3', 'delivery.cpp', 'h_two_threads', {'N': 3}, tier='t'), J('two_sinks_n2s', 'delivery.cpp', 'h_two_sinks', {'N': 2, 'SECOND': 1}, tier='t'), J('two_threads_spurious', 'delivery.cpp', 'h_two_threads', {'N': 1}, args=('--spurious', '1'), tier='qt'))
more('C02', J('order_n2_sinks', 'order.cpp', 'h_order', {'N': 2, 'SINKS': 2}, tier='t'))
more('C03', J('drain_n4', 'order.cpp', 'h_drain', {'N': 4}, tier='t', reach=['done', 'destroy', 'all', 'one', 'both']), J('drain_two_n2', 'order.cpp', 'h_drain_two', {'N': 2}, tier='qt', reach=['done', 'all', 'destroy']), J('drain_spurious', 'order.cpp', 'h_drain', {'N': 1}, args=('--spurious', '1'), tier='qt', reach=['done', 'destroy', 'all', 'one']))
more('C04', J('stuck_n4', 'order.cpp', 'h_stuck', {'N': 4}, tier='qt', reach=['done', 'logged']))
more('C05', J('withdraw_n3', 'order.cpp', 'h_withdraw', {'N': 3}, tier='t'), J('withdraw_exact', 'order.cpp', 'h_withdraw', {'N': 1}, args=('--hash-vc',), tier='t'))
more('C06', *[J('exclusive%d_exact' % k, 'order.cpp', 'h_exclusive', {'HOW': k}, args=('--hash-vc',), tier='t') for k in range(3)])
more('C08', J('sequence_sched4', 'order.cpp', 'h_sequence', {'N': 4, 'SCHED': 1}, tier='t'), J('sequence6', 'order.cpp', 'h_sequence', {'N': 6}, tier='t'))
more('C10', J('queue_two_cons_n3', 'conc.cpp', 'h_queue_conc', {'N': 3, 'CONS': 2}, tier='qt'), J('queue_spurious2', 'conc.cpp', 'h_queue_conc', {'N': 2, 'CONS': 2}, args=('--spurious', '2'), tier='t'))
more('C11', J('active_n4', 'conc.cpp', 'h_active', {'N': 4}, tier='qt'))
more('C22', J('two_exact', 'fatal.cpp', 'h_two_signals', args=('--hash-vc',), tier='t', reach=['done', 'first', 'second']))
more('C05', J('gone', 'order.cpp', 'h_gone', {'N': 2}, reach=['done', 'all', 'none']), J('gone_n4', 'order.cpp', 'h_gone', {'N': 4}, tier='t', reach=['done', 'all', 'none']))
for _c in ('default', 'dynamic'): more('C42', J('conditions' + '_dyn' * (_c == 'dynamic'), 'level.cpp', 'h_macros', {'FORMS': 9, 'BASE': 6}, cfg=_c, reach=['done', 'entry', 'fatal']))
for _p in ('C01', 'C02'): more(_p, J('mixed', 'scale.cpp', 'h_mixed', {'N': 3}))
more('C11', J('follow', 'conc.cpp', 'h_active_follow', reach=['done', 'ran']))
more('C50', J('capture_two', 'msg.cpp', 'h_capture_two'))
for _p in ('C62', 'C63'): more(_p, *[J('twice_zone%d' % z, 'timeh.cpp', 'h_twice', {'ZONE': z}) for z in range(4)])
for _p in PROPS.values():
    for _j in _p['jobs']:
        if not _j['bounds']:
            import re as _re
            _j['bounds'] = _re.sub(r'\{(\w+)\}', lambda m: _j['D'].get(m.group(1), {'SINKS': '2', 'N': '2', 'FORMS': '6', 'ZONE': '0', 'HOW': 'any'}.get(m.group(1), m.group(1))), OVER.get(_j['entry'], ''))
            assert _j['bounds'], _j['entry']
