#!/usr/bin/env python3
"""Property catalogue; writes properties.jsonl and MANIFEST.json (run: python3 bin/meta.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); sys.path.insert(0, HERE)
CAT = []
NA = {}
TESTS = {}
def P(id, title, statement, over, qtext, why, files, mech, note='', tech='symbolic execution of the real code (LLVM IR) + SMT'):
    CAT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note, _tech=tech))
S = 'src/'; H = 'src/g3log/'
CONC = 'symbolic execution of all schedules (LLVM IR, happens-before race detection) + SMT'
# ------------------------------------------------------------------ delivery
P('C01', 'Every logged message reaches every sink exactly once, unchanged',
  'Every message logged while a logger with sinks is running is handed exactly once to every sink that was added before, with the text, level and location it was logged with. Nothing is lost, duplicated or altered, whatever threads log at the same time.',
  ['schedules', 'inputs'], 'all interleavings of the logging threads, the worker and the sink threads, and all message texts',
  'Tests log from a few threads and look at what one scheduler run produced; a lost or duplicated entry needs a particular interleaving of queue, worker and sink.',
  [S + 'g3log.cpp', S + 'logworker.cpp', H + 'sink.hpp', H + 'shared_queue.hpp', H + 'active.hpp', H + 'moveoncopy.hpp'],
  [('hand-over to the worker', 'LogWorker::save, LogWorkerImpl::bgSave'), ('hand-over to each sink', 'Sink<T>::send'), ('queue', 'shared_queue')],
  note='two logging threads with up to 2 messages each and one sink, or one thread and two sinks; every interleaving at synchronisation operations (weak memory is covered by the happens-before race check: race-free executions are sequentially consistent); text bytes are solver variables', tech=CONC)
P('C02', 'Per-thread order is kept, and all sinks see one common order',
  'Messages logged by one thread reach every sink in the order in which that thread logged them. All sinks that see the same messages see them in the same order.',
  ['schedules'], 'all interleavings of logging threads, worker and sinks',
  'The tests compare the output of one run; a reordering needs a specific interleaving.',
  [S + 'logworker.cpp', H + 'active.hpp', H + 'sink.hpp', H + 'shared_queue.hpp'], [('single FIFO worker', 'LogWorkerImpl::_bg'), ('FIFO per sink', 'Sink<T>::_bg')],
  note='two logging threads and two sinks', tech=CONC)
P('C03', 'Removing sinks or stopping the logger first delivers all earlier messages',
  'When the logger is destroyed, or a sink or all sinks are removed, every message logged before that call has been delivered to the affected sinks and processed by them when the call returns. The sink object is destroyed only after it has processed its last message.',
  ['schedules', 'histories'], 'all interleavings and all orders of logging and removal within the bounds',
  'Tests see a handful of shutdowns; losing the tail of the log at shutdown depends on what is still queued at that moment.',
  [S + 'logworker.cpp', H + 'logworker.hpp', H + 'sink.hpp', H + 'active.hpp'], [('drain at shutdown', 'LogWorker::~LogWorker, removeAllSinks, removeSink'), ('join', 'Active::~Active')],
  note='one or two logging threads, up to 2 sinks, removal of one sink, all sinks or the logger', tech=CONC)
P('C04', 'A log call never waits for a sink',
  'A thread that logs a non-fatal message returns without waiting for any sink, even when a sink never finishes processing a message. Its messages are kept until the sink takes them.',
  ['schedules'], 'all interleavings with a sink that is stuck inside its receiving call',
  'A blocked producer only shows with a stuck sink and the right queue contents; tests use sinks that always finish.',
  [S + 'g3log.cpp', S + 'logworker.cpp', H + 'active.hpp', H + 'shared_queue.hpp'], [('asynchronous hand-over', 'Active::send, shared_queue::push'), ('sink thread', 'Sink<T>::send')],
  note='a sink blocked for ever, a second sink and up to 3 log calls', tech=CONC)
P('C05', 'Logging from several threads while the logger shuts down is safe',
  'Threads may keep logging while the active logger is shut down: no thread touches a logger pointer that has already been withdrawn, there is no data race, and a message is either delivered or handled as logged without a logger. The shutdown call itself always completes.',
  ['schedules'], 'all interleavings of logging threads with withdrawal of the active logger',
  'The failing window is a few instructions wide; no test hits it on purpose.',
  [S + 'g3log.cpp', S + 'logworker.cpp'], [('active logger pointer', 'g_logger_instance, pushMessageToLogger, shutDownLogging')],
  note='one or two logging threads against shutDownLogging / a fatal event; destruction of the logger object while another thread is inside a log call is outside the statement (the API requires the logger to outlive its users)', tech=CONC)
P('C06', 'One sink is never entered by two threads at the same time',
  'Calls into one sink object (log messages, calls through its handle, its destruction) never overlap and are ordered with respect to each other, so that a sink needs no locking of its own.',
  ['schedules'], 'all interleavings of logging threads, handle calls and removal',
  'Overlap is only visible under specific schedules.',
  [H + 'sink.hpp', H + 'sinkhandle.hpp', H + 'active.hpp'], [('one background thread per sink', 'Sink<T>::_bg, Sink<T>::async')],
  note='two threads (logging and calling through the handle) and removal; the sink state is checked by the race detector', tech=CONC)
P('C07', 'Calls through a sink handle return the call\'s own result',
  'A call made through a sink handle runs exactly once on the sink, after all messages that were logged before it and already handed to the sink, and its future yields the value returned or the exception thrown. On a sink that has been removed the future reports an error instead of crashing or never becoming ready.',
  ['schedules', 'histories', 'inputs'], 'all interleavings of calls, logging and removal; all argument values',
  'Tests call a handle in quiet situations; the race between a call and removal is not reached.',
  [H + 'sinkhandle.hpp', H + 'sink.hpp', H + 'future.hpp'], [('handle call', 'SinkHandle<T>::call'), ('task on the sink thread', 'g3::spawn_task')],
  note='one call racing with removal and with logging, symbolic argument', tech=CONC)
P('C08', 'Adding or removing a sink affects only that sink',
  'A sink receives exactly the messages logged between the return of the call that adds it and the call that removes it. Adding or removing a sink never changes what other sinks receive.',
  ['histories', 'schedules'], 'all sequences of up to the stated number of add, remove, remove-all and log operations, all schedules of the background threads',
  'Tests exercise a few fixed sequences.',
  [S + 'logworker.cpp', H + 'logworker.hpp'], [('sink list kept by the worker', 'addWrappedSink, removeSink, removeAllSinks')],
  note='sequences of 3 (quick) to 5 (thorough) operations chosen by solver variables over up to 3 sinks', tech='symbolic execution of all operation sequences (LLVM IR) + SMT')
P('C09', 'Without sinks messages are not lost silently and nothing crashes',
  'Logging to a running logger that has no sinks never crashes; each message goes to standard error once.',
  ['inputs', 'histories', 'schedules'], 'all message texts, before the first sink is added and after the last is removed',
  'Only one fixed text is tested.', [S + 'logworker.cpp'], [('no sinks branch', 'LogWorkerImpl::bgSave')], note='symbolic message text; before any sink and after removal', tech=CONC)
# ------------------------------------------------------------------ building blocks
P('C10', 'The message queue is first in first out and loses nothing',
  'Whatever threads push and pop concurrently, every pushed item is popped exactly once, items of one producer come out in the order they were pushed, a blocking pop returns as soon as an item is there, and a non-blocking pop fails only on an empty queue. The size and emptiness queries agree with the number of items not yet popped.',
  ['schedules', 'histories'], 'all interleavings of producers and consumers and all operation sequences within the bounds',
  'Missed wake-ups and double pops depend on the interleaving of the lock and the condition variable.',
  [H + 'shared_queue.hpp'], [('queue', 'shared_queue::push, try_and_pop, wait_and_pop, empty, size')],
  note='2 producers with up to 2 items and up to 2 consumers; sequential histories of 6 operations', tech=CONC)
P('C11', 'The background worker runs every submitted job once, in order, before it ends',
  'Every job submitted to a background worker runs exactly once, on the worker\'s own thread, in the order one thread submitted it. Destroying the worker waits until all jobs submitted before have run, and always completes.',
  ['schedules'], 'all interleavings of submitting threads, worker and destruction',
  'Tests run a few jobs under one schedule.',
  [H + 'active.hpp', H + 'shared_queue.hpp'], [('worker loop', 'Active::run, Active::send, Active::~Active')], note='two submitting threads with up to 2 jobs, jobs that submit jobs', tech=CONC)
P('C12', 'A task\'s future delivers its value or exception exactly once',
  'The future of a task given to a background worker becomes ready with the task\'s value or its exception after the task ran exactly once; with no worker it reports an error at once. A task that throws does not stop the worker from running later tasks.',
  ['schedules', 'inputs'], 'all interleavings, all values',
  'Exceptions and values are tested with constants and one schedule.',
  [H + 'future.hpp', H + 'active.hpp', H + 'moveoncopy.hpp'], [('task wrapper', 'g3::spawn_task')], note='value, exception, missing worker, tasks pending at destruction', tech=CONC)
P('C13', 'The move-through-copy wrapper hands its content over exactly once',
  'Copying or assigning the wrapper used to pass messages between threads transfers the content: the newest copy holds it intact, the source is left empty, and it is destroyed exactly once.',
  ['inputs', 'histories'], 'all contents, all sequences of construct, copy, assign and move up to the bound',
  'Only one fixed sequence is tested.', [H + 'moveoncopy.hpp'], [('wrapper', 'MoveOnCopy')], note='sequences of copy/assign/move chosen by solver variables')
# ------------------------------------------------------------------ fatal handling
P('C20', 'A fatal log entry is delivered after all earlier ones, to all sinks, before exit',
  'When a fatal entry is logged or a contract check fails, all messages the thread logged before and then the fatal message, with its text, level and stack trace, are processed by every sink before the process dies. The process then dies by the signal of the fatal event, with its original handling restored, and nothing is delivered after the fatal message.',
  ['schedules', 'crash_points'], 'all interleavings of other logging threads, the worker and the sinks with the fatal call',
  'The tests stub out the exit and check one run; whether a sink still holds messages when the process dies depends on the schedule.',
  [S + 'g3log.cpp', S + 'logworker.cpp', S + 'logcapture.cpp', S + 'crashhandler_unix.cpp'], [('fatal path', 'saveFatalMessage, pushFatalMessageToLogger, LogWorkerImpl::bgFatal'), ('exit', 'exitWithDefaultSignalHandler')],
  note='one fatal thread with earlier messages, two sinks, optionally another logging thread; the deadly raise() is modelled by the environment', tech=CONC)
P('C21', 'A fatal signal is logged and then re-raised with its original handling',
  'When one of the handled signals arrives, all earlier messages and then one fatal entry naming the signal, its number and the process reach every sink, and afterwards the same signal is raised again with the handling it had before the logger was installed. A handler the application had installed before is called with that signal.',
  ['crash_points', 'schedules', 'fault_sequences'], 'every handled signal, any pending messages, all schedules',
  'Tests raise some signals with stubbed exits.', [S + 'crashhandler_unix.cpp', S + 'logworker.cpp', S + 'logcapture.cpp'], [('handler', 'signalHandler'), ('restore and raise', 'exitWithDefaultSignalHandler, restoreSignalHandler')],
  note='signal chosen by a solver variable among the handled ones; signal delivery is modelled as a call of the installed handler', tech=CONC)
P('C22', 'Of several fatal signals only the first is logged; the others wait',
  'When several threads receive fatal signals at the same time exactly one fatal entry is delivered and the process exits once, with that entry\'s signal. The other threads wait and never run past the fatal point, and the entry does not claim a recursive crash.',
  ['schedules', 'fault_sequences'], 'all interleavings of two signalled threads', 'Needs two simultaneous crashes.',
  [S + 'crashhandler_unix.cpp'], [('first only', 'signalHandler, shouldDoExit')], note='two threads receiving signals concurrently', tech=CONC)
P('C23', 'The pre-fatal hook runs once, before the fatal message is sent',
  'A hook set to run before fatal handling runs exactly once, before the fatal message reaches a sink, and with several concurrent fatal events never more than once. A fatal event inside the hook does not run the hook again, and its message says that a recursive crash happened and includes the first stack trace.',
  ['schedules', 'fault_sequences'], 'all interleavings of two fatal threads; recursion from inside the hook', 'Concurrent fatal events are not tested.',
  [S + 'g3log.cpp'], [('hook', 'setFatalPreLoggingHook, saveFatalMessage')], note='two fatal threads; a hook that itself logs a fatal entry', tech=CONC)
P('C24', 'Signal handlers are installed, overridden and restored exactly',
  'After any sequence of installing, overriding and restoring, exactly the selected signals are handled by the logger and every other signal has the handling the application had given it. Restoring a signal brings back the handling from before the first installation.',
  ['histories', 'configurations'], 'all sequences of install, override, restore up to the bound and all sets of signals among those considered', 'A couple of fixed sequences are tested.',
  [S + 'crashhandler_unix.cpp'], [('saved actions', 'gSavedSigActions, installSignalHandler, restoreSignalHandler, overrideSetupSignals')], note='sequences of up to 3 operations chosen by solver variables over 3 signals plus the default set', tech='symbolic execution of all operation sequences (LLVM IR) + SMT')
P('C25', 'A fatal event without a running logger still reports and exits',
  'A fatal log entry, failed check or fatal signal when no logger is running writes the message and its cause to standard error and exits the process with the signal of the event.',
  ['inputs', 'configurations'], 'all message texts, all fatal kinds, before start and after shutdown', 'Not tested with the real exit.',
  [S + 'g3log.cpp', S + 'crashhandler_unix.cpp'], [('not initialised branch', 'pushFatalMessageToLogger')], note='symbolic text; fatal kind by solver choice')
P('C26', 'A replaced fatal handler gets each fatal message once instead of the exit',
  'With a user-supplied fatal handler, each fatal entry is handed to that handler exactly once with its text, level, location, expression and signal, and nothing is sent to the logger.',
  ['inputs', 'programs'], 'all texts, all fatal kinds', 'Fixed texts only.', [S + 'g3log.cpp', S + 'logcapture.cpp'], [('handler', 'setFatalExitHandler, fatalCall')], note='symbolic text and fatal kind')
P('C27', 'A stack dump is produced for any backtrace lines',
  'Whatever lines the system returns for a backtrace, building the stack dump neither fails nor reads outside the lines, lists every frame but the first in order, and never drops the text of a frame it cannot decode. A dump that was supplied by the caller is used unchanged.',
  ['inputs'], 'all line contents up to the bound, any number of frames', 'Tests only see the lines of the test program itself.', [S + 'crashhandler_unix.cpp'], [('stack dump', 'stackdump')], note='one symbolic line of up to 7 bytes over the structural characters and arbitrary bytes, in every frame position up to 3')
P('C28', 'Fatal reasons and raw error messages are rendered correctly',
  'Each handled signal is named correctly in fatal messages and an unknown number is shown with its value. The raw error writer writes exactly the given text and reports its length.',
  ['inputs'], 'all signal numbers, all texts up to the bound', 'Only sample values.', [S + 'crashhandler_unix.cpp', S + 'logmessage.cpp'], [('names', 'exitReasonName'), ('raw write', 'writeErrorMessage')], note='all 32-bit signal numbers for the decision, concretised text for unknown ones')
# ------------------------------------------------------------------ init
P('C30', 'The first message logged before start is kept and delivered first',
  'Messages logged before a logger is started never crash; the first one is written to standard error and delivered to the first started logger ahead of everything else, marked as logged too early. Later early messages are dropped and do not change it.',
  ['schedules', 'inputs', 'histories'], 'all texts, all interleavings of early logging threads', 'One fixed case is tested; concurrent early logging is not.', [S + 'g3log.cpp'], [('first message', 'pushMessageToLogger, initializeLogging')], note='two threads logging early, symbolic text', tech=CONC)
P('C31', 'Starting logging twice or without a logger is refused',
  'Starting logging with no logger, or while another logger is active, ends the process with an error message and failure status and never replaces the active logger. After a shutdown a new logger can be started and receives messages.',
  ['histories'], 'all sequences of start and shutdown up to the bound', 'Exit is only death-tested once.', [S + 'g3log.cpp'], [('initialisation', 'initializeLogging')], note='sequences of up to 4 operations chosen by solver variables')
P('C32', 'Destroying a logger that is not the active one leaves the active one running',
  'Destroying or shutting down a logger that is not the active one does not stop the active logger, which reports the attempt and keeps delivering messages. Destroying the active one stops logging.',
  ['histories'], 'both orders of creation and destruction, with and without messages in flight', 'One case is tested.', [S + 'g3log.cpp', S + 'logworker.cpp'], [('shutdown', 'shutDownLoggingForActiveOnly')], note='two loggers; operation order chosen by solver variables', tech=CONC)
# ------------------------------------------------------------------ levels
P('C40', 'Fatality of a level follows its value',
  'A level is treated as fatal exactly if its value is at least that of the built-in fatal level or it is the contract level, for every level value, including custom ones.',
  ['inputs'], 'all 32-bit level values', 'Tests try some values.', [S + 'loglevels.cpp', H + 'loglevels.hpp'], [('fatality', 'internal::wasFatal')], note='all 2^32 values, any text')
P('C41', 'Enabling and disabling levels changes exactly those levels',
  'With dynamic levels on, after any sequence of adding, enabling, disabling, highest-level selection, removing and resetting, a level logs exactly if the sequence says so, for built-in, custom and unknown levels. Asking never changes the set, and levels can be queried and switched from several threads without data races.',
  ['histories', 'schedules', 'inputs'], 'all operation sequences up to the bound, levels with symbolic values, all interleavings of switching and logging', 'Fixed sequences in one thread.', [S + 'loglevels.cpp', H + 'loglevels.hpp'], [('level table', 'g_log_levels, log_levels::*'), ('query', 'g3::logLevel')], note='sequences of 2 (quick) to 3 (thorough) operations; symbolic level values', tech='symbolic execution of all operation sequences and schedules (LLVM IR) + SMT')
P('C42', 'Log statements evaluate and emit exactly when they should',
  'A log statement whose level is enabled and whose condition holds produces exactly one entry, otherwise none, and its streamed expressions are evaluated exactly when an entry is produced. A contract check produces a fatal entry with its expression text exactly when the condition is false.',
  ['inputs', 'programs'], 'all conditions and level states for every logging macro', 'Fixed conditions.', [H + 'g3log.hpp', S + 'logcapture.cpp'], [('macros', 'LOG, LOG_IF, LOGF, LOGF_IF, CHECK, CHECKF')], note='every macro, symbolic condition and level state')
# ------------------------------------------------------------------ messages
P('C50', 'A captured entry carries its exact text, level, location and thread',
  'The message built from a log statement has exactly the streamed text, the level, line, function, file name without directories (or with them where so configured) and calling thread of the statement, and the time stamp at which it was made.',
  ['inputs', 'configurations'], 'all texts, line numbers, level values and file paths up to the bound', 'Sample values only.', [S + 'logcapture.cpp', S + 'logmessage.cpp'], [('capture', 'LogCapture::~LogCapture, saveMessage'), ('file name', 'LogMessage::splitFileName')], note='symbolic text of 4 bytes, any 32-bit line, paths of up to 5 symbolic bytes')
P('C51', 'Copying, moving and assigning messages keeps every part',
  'A copy, a moved-to message and an assigned message have every part of the original (text, time, level, file, path, line, function, expression, thread and rendering), and a copy leaves the original unchanged.',
  ['inputs'], 'all field contents up to the bound', 'Not all fields are compared in tests.', [S + 'logmessage.cpp', H + 'logmessage.hpp'], [('copying', 'LogMessage copy/move constructors, operator=, swap')], note='all fields symbolic (strings up to 3 bytes)')
P('C52', 'The rendered line has the documented parts for each kind of entry',
  'Rendering yields for ordinary entries the time stamp, level, file, function and line, then the text and a line end; for fatal entries, failed checks, signals and exceptions the documented banner with the same parts and the expression or cause. A replaced detail format is used in place of the default one.',
  ['inputs', 'configurations'], 'all texts, levels and locations', 'Only a few samples.', [S + 'logmessage.cpp'], [('rendering', 'LogMessage::toString, normalToString, fatalToString, ...')], note='symbolic text/level, all kinds of entry')
P('C53', 'Printf-style messages are complete or marked as truncated',
  'A printf-style message has exactly the text the C library would format if it fits the maximum size, and otherwise its longest prefix that fits followed by a truncation marker. No memory outside the buffer is touched.',
  ['inputs', 'configurations'], 'all argument texts around the size limit, several conversions, default and configurable limit', 'The limit itself is tested at one size.', [S + 'logcapture.cpp'], [('formatting', 'LogCapture::capturef, setMaxMessageSize')], note='argument lengths from empty to beyond the limit, symbolic bytes; the C library formatter is modelled')
# ------------------------------------------------------------------ time
P('C60', 'Sub-second digits of a time stamp are exact',
  'The millisecond, microsecond and nanosecond fields of a formatted time are exactly the truncated, zero padded sub-second part of the time, for every time point.',
  ['inputs'], 'all nanosecond values of a second, for any second (also before 1970)', 'A handful of values.', [S + 'time.cpp'], [('fraction', 'localtime_formatted_fractions')], note='')
P('C61', 'Only fraction fields of a time format are replaced',
  'Formatting a time replaces each fraction field by its digits and keeps every other part of the format, wherever fields stand and however many there are.',
  ['inputs'], 'all formats up to the bound', 'Two or three formats.', [S + 'time.cpp'], [('expansion', 'localtime_formatted')], note='')
P('C62', 'Formatted times agree with the calendar fields for any format',
  'For every calendar time the formatted text has the right year, month, day, hour, minute and second, and any format, however long its expansion, either yields the full text or a defined empty result without touching memory outside its buffer.',
  ['inputs'], 'all calendar fields, formats up to the bound', 'Sample dates.', [S + 'time.cpp'], [('formatting', 'put_time, localtime_formatted')], note='')
P('C63', 'Time conversion is thread safe and keeps the second',
  'Converting a log time stamp to calendar time keeps differences and order exactly, and a time formatted by one thread shows that time\'s own second and fraction even when other threads convert and format at the same moment.',
  ['inputs', 'schedules'], 'all times, two threads', 'Sample dates in one thread.', [S + 'time.cpp'], [('conversion', 'to_system_time, systemtime_now, localtime')], note='', tech=CONC)
# ------------------------------------------------------------------ file sink
P('C70', 'The log file contains every entry once, in order, for any flush interval',
  'The file written by the file sink consists of the header, every entry in order and once, and the closing line; with a flush interval of N at most N-1 entries are not yet in the file at any time, and closing the sink writes them all.',
  ['inputs', 'configurations', 'histories', 'crash_points'], 'all intervals and numbers of entries up to the bound, stopping after any of them', 'Two intervals are tested.', [S + 'filesink.cpp'], [('buffered write', 'FileSink::fileWrite, FileSink::~FileSink')], note='')
P('C71', 'Changing the log file moves later entries only, losing none',
  'When the log file is changed successfully, earlier entries are in the old file or follow in the new one, later entries are in the new file, none is lost or duplicated, and the returned name is the one in use.',
  ['histories', 'configurations'], 'all positions of the change relative to entries and flush interval', 'One change at one position.', [S + 'filesink.cpp'], [('change', 'FileSink::changeLogFile')], note='')
P('C72', 'A failed change of log file leaves logging as it was',
  'When the new log file cannot be opened the call returns an empty name and all entries, before and after, are in the old file, which stays in use.',
  ['fault_sequences', 'histories'], 'every position of the failing open', 'One failing path.', [S + 'filesink.cpp', S + 'filesinkhelper.ipp'], [('failure', 'FileSink::changeLogFile, createLogFile')], note='')
P('C73', 'Log file names are built from cleaned prefix, id, time and directory',
  'The log file lies in the requested directory (trailing separators and blanks of the name left aside) and is named by the cleaned prefix, the optional id and the time it was opened. White space and separators are removed from the prefix, and a prefix that is empty or has other forbidden characters is refused by aborting with a message.',
  ['inputs', 'configurations'], 'all prefixes, directories and ids up to the bound', 'A few samples.', [S + 'filesinkhelper.ipp', S + 'filesink.cpp'], [('names', 'prefixSanityFix, isValidFilename, pathSanityFix, createLogFileName')], note='')
P('C74', 'If the directory cannot be written the log goes to the current directory',
  'If the log file cannot be opened in the requested directory it is opened in the current directory under the same name, this is reported on standard error and by the sink\'s file name, and no entry is lost.',
  ['fault_sequences'], 'failure of the first open', 'One case.', [S + 'filesink.cpp'], [('fallback', 'FileSink::FileSink')], note='')
P('C75', 'The default logger writes each entry to its file end to end',
  'With the default file logger added, everything logged from any thread before the logger is destroyed is in the log file, once, in each thread\'s order, complete with time, level and location.',
  ['schedules', 'inputs'], 'all interleavings, all texts', 'One run per test.', [S + 'logworker.cpp', S + 'filesink.cpp'], [('default logger', 'LogWorker::addDefaultLogger')], note='', tech=CONC)

def main():
    import props
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in CAT:
            d = {k: v for k, v in p.items() if not k.startswith('_')}
            for l in d['statement'],: assert l.count('. ') <= 2, (p['id'], l)
            assert len(d['title']) <= 80, p['id']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in CAT:
        i = p['id']
        if i in NA or i not in props.PROPS: na.append(dict(property=i, reason=NA.get(i, 'the check for this property is not built yet'))); continue
        bounds = '; '.join(dict.fromkeys(j['bounds'] for j in props.PROPS[i]['jobs'] if j['bounds'] and 'q' in j['tier']))
        c = dict(property=i, quick_cmd='python3 bin/check.py %s --tier quick' % i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i, technique=p['_tech'], level='model_checking',
                 level_note=('Holds for every value/schedule within the bounds: ' + (bounds or p['_note']) + '. Environment (libc, libstdc++ streams, threads, signals, files, clock) is modelled, see DESIGN.md; path witnesses are run through the compiled code.'))
        checks.append(c)
    m = dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na, notes='One executor (engine/) and environment model (model/) decide all properties from the LLVM IR of /repo/src; see DESIGN.md.')
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(VERIF, 'properties.jsonl')): jsonschema.validate(json.loads(l), sch)
    except ImportError: print('(no jsonschema here)')
    print(len(CAT), 'properties,', len(checks), 'claimed')
if __name__ == '__main__': main()
