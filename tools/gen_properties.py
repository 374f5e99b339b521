#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
LS = 'launch/launch/launch_service.py'
LC = 'launch/launch/launch_context.py'
EL = 'launch/launch/actions/execute_local.py'
SM = 'launch/launch/utilities/signal_management.py'
TA = 'launch/launch/actions/timer_action.py'
OC = 'launch/launch/actions/opaque_coroutine.py'
EH = 'launch/launch/event_handler.py'
AC = 'launch/launch/action.py'
GA = 'launch/launch/actions/group_action.py'
INC = 'launch/launch/actions/include_launch_description.py'
LG = 'launch/launch/logging/__init__.py'
LT = 'launch_testing/launch_testing/'
LP = 'launch_pytest/launch_pytest/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


p('C01', 'Shutdown always ends the run and leaves no launched process behind',
  'Once shutdown is requested by any route (Ctrl-C, the service\'s shutdown call from the loop or from another '
  'thread, a shutdown event or action, an exception, or running out of work), the run returns within the '
  'configured escalation timeouts plus the time the operating system needs to reap a killed process. '
  'When it returns that way, every process it started has exited. '
  'This holds whatever the processes do (ignore signals, exit on their own, respawn, fail to start) and whenever the request arrives.',
  ['schedules', 'fault_sequences', 'programs'],
  'all launch descriptions mixing processes, timers, coroutines and handlers; all shutdown sources and arrival instants; all process reactions to signals',
  'Tests start one or two real processes and shut down at one convenient moment; the request can land in any start-up, exit or respawn window, and hangs show only in those.',
  [LS, EL], [('shutdown event emission and run-loop exit condition', LS + ' run_async/_shutdown/_is_idle'),
             ('per-process shutdown procedure, deferral while starting', EL + ' _shutdown_process')],
  ['return of run()/run_async()', 'simulated process table at return'])
p('C02', 'Shutdown escalates SIGINT, SIGTERM, SIGKILL at the configured times',
  'When shutdown (of everything, or of one process by request) reaches a running process it is sent SIGINT at once, SIGTERM when it has '
  'not exited after its terminate timeout, and SIGKILL when it has still not exited after its kill timeout on top of that; each is sent at most once, never early and '
  'never late. The SIGINT is omitted only when shutdown came from Ctrl-C of an interactive session, where the terminal already delivered it. '
  'No signal is sent after the process is known to have exited, and the timeouts are those set on the action or else the corresponding launch configurations.',
  ['schedules', 'fault_sequences', 'configurations'],
  'all timeouts, all reaction times and exit instants of each process relative to the timers, interactive and non-interactive, all shutdown routes',
  'Timing tests use one or two sleeps and wall-clock tolerance; the exit can race with each timer and with the queued signal events.',
  [EL], [('timers and signal events of the shutdown procedure', EL + ' __get_shutdown_timer_actions, __on_signal_process_event, __cleanup')],
  ['signals recorded by the simulated operating system with virtual timestamps'])
p('C03', 'Each process start yields one start event, then one exit event with its code',
  'For every process that the operating system actually started, observers see exactly one start event and, after it, exactly one exit event that carries the same action, '
  'name, command, working directory, environment, process id and the true return code; a start that fails yields neither and does not block the rest of the launch. '
  'The exit event comes after every output event of that process whose output was written before it exited. '
  'Handlers restricted to one process action see the events of that action only.',
  ['schedules', 'fault_sequences', 'inputs'],
  'all numbers of concurrent processes, output/exit interleavings, crashes, start failures (missing file, permission, out of memory, too many files) and slow starts',
  'Tests observe a few cooperative processes; the order of pipe data, exit notification and start completion is up to the OS scheduler.',
  [EL, 'launch/launch/event_handlers/on_process_start.py', 'launch/launch/event_handlers/on_process_exit.py',
   'launch/launch/event_handlers/on_action_event_base.py', 'launch/launch/events/process/'],
  [('process coroutine emitting start/exit', EL + ' __execute_process'), ('protocol callbacks', EL + ' __ProcessProtocol'),
   ('target matching', 'launch/launch/event_handlers/on_action_event_base.py')],
  ['events seen by handlers registered through the public API'])
p('C04', 'Process output is delivered and logged completely, in order, exactly once',
  'However the operating system splits it into chunks, the output events of one stream of a process concatenate to exactly the bytes the process wrote to it before exiting. '
  'Every line is logged exactly once, unmixed with other streams or processes and in order, to the destinations its output configuration names (screen, the main log file, its own files), '
  'prefixed as its output format says, and a final line without newline is logged when the process exits. '
  'With output caching on, the cached text of each stream is the full text so far.',
  ['schedules', 'inputs', 'fault_sequences'],
  'all chunkings of all byte sequences (empty lines, split lines, split multi-byte characters, missing final newline, invalid bytes) over interleaved streams and processes, respawns included',
  'Tests print a few short lines; chunk boundaries and interleavings are decided by the kernel and never land inside a line or character in a test.',
  [EL, LG], [('line buffering', EL + ' __on_process_output, __on_process_output_cached, __flush_buffers'),
             ('output loggers', LG + ' get_output_loggers')],
  ['output events', 'screen stream', 'log files', 'get_stdout/get_stderr'])
p('C05', 'Respawn restarts a process as configured and never after shutdown began',
  'A process configured to respawn is started again after each exit, no earlier than its respawn delay and promptly after it, at most its maximum number of retries (unlimited when negative), and is reported '
  'complete only after its last exit; without respawn it is never started twice. '
  'Once shutdown has begun, or a shutdown of that process was requested, no new instance is started, a pending respawn delay is cut short, and an instance being started at that moment is taken down with the full escalation.',
  ['schedules', 'histories', 'configurations'],
  'all exit/respawn/shutdown interleavings, all delays and retry limits, failing restarts',
  'One respawn test with a fixed delay exists; the windows between exit, delay and restart are milliseconds wide.',
  [EL], [('respawn decision and delay', EL + ' __execute_process')], ['spawn records of the simulated operating system'])
p('C06', 'A shutdown that races with a process start is neither lost nor ignored',
  'A process action that is visited after shutdown has begun never starts its process, and the run still completes. '
  'A process whose start was under way when shutdown (or a shutdown request for that process) arrived is shut down as soon as it has started, with the same signals and timeouts, however long the start takes or however many other processes start meanwhile. '
  'If the start then fails, the run still completes.',
  ['schedules', 'fault_sequences'],
  'all instants of the shutdown request relative to the stages of process start, slow and failing starts',
  'The start-up window is far too short for a test to hit on purpose.',
  [EL, LS], [('deferred shutdown', EL + ' _shutdown_process'), ('is_shutdown guard', EL + ' execute')],
  ['spawn and signal records'])
p('C07', 'The service shuts down by itself exactly when there is no work left',
  'With shutdown-when-idle, a run never shuts itself down while an event is queued, a process runs or is being (re)started, a timer is pending, or a coroutine or registered completion future is unfinished, and it does shut down, without further stimulus, as soon as none is left. '
  'Without shutdown-when-idle it keeps running and keeps accepting work until shutdown is requested. '
  'A run with nothing to do returns at once with code 0.',
  ['schedules', 'programs'],
  'all programs of actions and all orders in which their work completes, late arrivals from handlers and other threads included',
  'Premature idling needs the last completion to coincide with new work; tests never schedule that.',
  [LS, LC], [('idle test', LS + ' _is_idle and pruning'), ('futures', LC + ' add_completion_future')],
  ['reason and instant of the shutdown event', 'return of run'])
p('C08', 'Events are handled one at a time, in order, exactly once per matching handler',
  'Every event emitted while the service runs is handled exactly once by every handler that matches it and was registered when its processing started, strictly in the order of emission, one event after the other. '
  'Handlers run most recently registered first, except those registered to be appended, which run after all others in order of registration; all entities a handler yields are executed, in order, before the next handler sees the event. '
  'A handle-once handler runs for at most one event; a handler that was unregistered before an event is taken up never sees it, and registering or unregistering during an event does not disturb that event.',
  ['schedules', 'histories', 'programs'],
  'all sequences of emissions, registrations and unregistrations from handlers, actions, coroutines and other threads',
  'Tests check one handler and one or two events; ordering violations need several emitters and mutation while dispatching.',
  [LS, LC, EH], [('event loop and snapshot', LS + ' _process_one_event/__process_event'), ('handler deque', LC + ' register_event_handler'),
                 ('handle_once', EH)], ['order of handler invocations'])
p('C09', 'An error in any part is reported and turns into an orderly shutdown',
  'An exception raised by any entity, handler, substitution or coroutine is logged as an error and starts a normal shutdown of everything that is running; the run then ends with a non-zero return code, and every process still goes through its shutdown procedure. '
  'It never silently disappears, never hangs the run, and never stops later events (including the shutdown itself) from reaching the other handlers. '
  'A run without such an error returns zero, whatever exit codes the launched processes have.',
  ['fault_sequences', 'programs', 'schedules'],
  'all places where an exception can be raised (visiting, executing, handling any event including shutdown, awaiting), singly and repeatedly, at all times relative to other work',
  'Tests raise one exception from one place with nothing else going on.',
  [LS], [('exception branch of the run loop', LS + ' run_async'), ('propagation from entity futures', LS + ' run_async')],
  ['return code', 'log records', 'events and signals after the error'])
p('C10', 'Event-local values never leak from one handler or event to another',
  'While a handler or the entities it yields run, the context locals hold that event and what this handler added, on top of the globals, and nothing else; when the handler is finished, also by an exception, its additions are gone and the previous values are back. '
  'Locals captured by a timer are present when its actions run. '
  'Globals persist and are overridden by locals of the same name.',
  ['histories', 'schedules', 'fault_sequences'],
  'all nestings and sequences of events, handlers, extensions, timers and exceptions',
  'Needs the combination of an exception or nested dispatch with a later reader, which no test builds.',
  [LC, LS, TA], [('locals stack', LC + ' _push_locals/_pop_locals/extend_locals'), ('push/pop around handlers', LS + ' __process_event')],
  ['locals read by handlers'])
p('C11', 'Other threads can drive the service without loss, reordering or deadlock',
  'Emitting events, including launch descriptions and requesting shutdown from any number of threads, before, during and while ending a run, always returns within bounded time; no thread ever deadlocks and the run still ends. '
  'Events emitted by one thread are handled in that thread\'s order, each exactly once; those emitted before the run starts are kept and handled when it runs. '
  'Shutdown requested several times, by whomever, is carried out once; a second concurrent run is refused without disturbing the first, and running in a thread other than the main one is refused. '
  'A service that has ended can be run again, and its second run works like the first.',
  ['schedules', 'histories'],
  'all interleavings, down to single lines, of the run loop with concurrent callers',
  'Real threads hit the relevant windows (loop just starting, just stopping) once in millions of runs.',
  [LS], [('lock around the loop reference', LS + ' emit_event/shutdown/_prepare_run_loop')], ['returns of the calls', 'handled events'])
p('C12', 'Timers fire once, not early, not late, and not when cancelled',
  'A timer\'s actions run exactly once per execution, not before its period has elapsed and as soon after it as the service is free, with the context-local values captured where it was started. '
  'A timer cancelled before its period has elapsed (by its owner, or by shutdown unless it opted out) never runs its actions and does not keep the service alive; one that opted out still fires during shutdown, and the service waits for it. '
  'Cancelling is harmless at any time: before the start, twice, or after firing.',
  ['schedules', 'fault_sequences', 'programs'],
  'all sets of timers with all periods (equal ones included), cancellation instants, stalls of the host and clock steps',
  'Timer tests use sub-second real sleeps with slack; simultaneous expiries, stalls and cancellation races are not reachable.',
  [TA], [('wait-or-cancel coroutine', TA + ' _wait_to_fire_event'), ('cancel on shutdown', TA + ' execute')], ['virtual time of action execution'])
p('C13', 'Asynchronous actions are tracked to completion and reported exactly once',
  'A coroutine action runs on the service\'s loop with the given arguments and keeps the service alive until it finishes; on shutdown it is cancelled and its cleanup code completes, without this counting as an error or cutting the shutdown of other actions short. '
  'The completion event of any action is delivered exactly once per execution to a handler that was registered when the action was executed, and not before the action\'s asynchronous work is done. '
  'Futures registered for completion are waited for in the same way.',
  ['schedules', 'programs', 'fault_sequences'],
  'all mixes of coroutines finishing, failing or being cancelled, at all times relative to shutdown and process events',
  'The existing test cancels one coroutine in an otherwise empty launch.',
  [OC, AC, LS], [('task creation and cancellation', OC), ('completion event', AC + ' visit')], ['coroutine side effects', 'completion events'])
p('C14', 'Operating-system signals during a run act once, completely, and only during it',
  'SIGINT delivered at any time during a run starts exactly one orderly shutdown, marked as caused by Ctrl-C, and the run ends with code 0; further SIGINTs are ignored. '
  'SIGTERM or SIGQUIT ends the run promptly with a non-zero code even when processes ignore signals. '
  'No burst, repetition or timing of signals makes the run hang, fail with another error or lose one of these reactions, and after the run the process has the signal set-up it had before.',
  ['schedules', 'fault_sequences'],
  'all arrival times and bursts of SIGINT/SIGTERM/SIGQUIT relative to the loop, interrupted system calls included',
  'Tests send one signal after a fixed sleep.',
  [LS, SM], [('signal callbacks', LS + ' _prepare_run_loop'), ('wakeup fd plumbing', SM)], ['return code, shutdown events, wakeup fd, handlers'])
p('C15', 'Nested asynchronous signal managers each see every signal and restore the chain',
  'Within any nesting of asynchronous signal managers, each delivered signal invokes, exactly once and in delivery order, the handler registered for it in every active manager that has one, and reaches the wake-up descriptor that was set before, whatever the bursts, interruptions and handler changes. '
  'Leaving managers in order, by exception too, restores the previous wake-up descriptor and the original interpreter hook, and closes what was opened. '
  'Handlers run on the event loop of their manager, never inside the interrupted code.',
  ['schedules', 'fault_sequences', 'histories'],
  'all sequences of enter, exit, handler registration, signal bursts, short reads and interrupted or blocked descriptor calls',
  'Tests use at most two managers and one signal at a time.',
  [SM], [('chain of wake-up descriptors', SM + ' __chain_wakeup_handle/__handle_signal')], ['handler invocations', 'bytes on the outer descriptor'])
p('C16', 'Launch configurations and inclusion order follow the described program',
  'The actions of a launch description, its groups and its includes run depth-first in the order written, conditions evaluated when reached, and each sees exactly the launch configurations that setting, unsetting, declaring, scoping groups and include arguments before it imply. '
  'A scoped group restores the outer configurations afterwards whatever happened inside; an unscoped one does not; a non-forwarding one starts from the named ones only. '
  'This also holds when other events, timers and threads are active between and after the actions.',
  ['programs', 'histories', 'schedules'],
  'all programs of configuration actions, groups, includes, conditions and event-triggered actions, with any interleaving of events',
  'Tests check single constructs; the combinations and their interleaving with events are unbounded.',
  [LC, GA, INC, 'launch/launch/actions/set_launch_configuration.py', 'launch/launch/actions/declare_launch_argument.py',
   'launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py'],
  [('configuration stack', LC + ' _push_launch_configurations'), ('group expansion', GA + ' get_sub_entities'), ('include arguments', INC + ' execute')],
  ['configuration values observed by actions'])
p('C17', 'Environment changes apply to exactly the processes and scopes they cover',
  'Setting, unsetting, appending or resetting environment variables affects every process started and every action run after it within its scope, and nothing else; leaving a scoped group restores the environment exactly. '
  'A process sees the environment in force when its action was executed combined with its own additions (or exactly its own environment when one was given), also when it starts or respawns later, and its own additions never leak out.',
  ['programs', 'histories', 'schedules'],
  'all programs of environment actions and process starts (respawn and delayed starts included) under any interleaving',
  'Tests check one variable at a time in a flat description.',
  [LC, GA, 'launch/launch/descriptions/executable.py', 'launch/launch/actions/set_environment_variable.py', 'launch/launch/actions/append_environment_variable.py'],
  [('environment stack', LC + ' _push_environment/_pop_environment'), ('environment of executables', 'launch/launch/descriptions/executable.py prepare')],
  ['environment recorded at spawn'])
p('C18', 'Signal and shutdown requests reach exactly the matching live processes',
  'A request to signal processes delivers that signal once to every matching process that is running, and to no other process; a request to shut processes down runs the shutdown procedure of exactly the matching ones while the rest keep running. '
  'Requests that match a process which has already exited have no effect and are not errors, even if the process exits while the request is pending.',
  ['schedules', 'histories', 'fault_sequences'],
  'all sets of processes and matchers (by action, name, pid, executable), and all instants relative to start and exit',
  'Tests signal one process that is known to be alive.',
  [EL, 'launch/launch/events/process/', 'launch/launch/events/matchers.py'],
  [('request handlers', EL + ' __on_signal_process_event/__on_shutdown_process_event'), ('matchers', 'launch/launch/events/process/process_targeted_event.py')],
  ['signals recorded by the simulated operating system'])
p('C19', 'Log directories are unique and logging problems never lose a run\'s log',
  'Each launch gets a log directory of its own, created before use, even when several launches start at the same instant on one host or the obvious name is taken; a link named latest points at one of them. '
  'Failure to create or replace that link, in every interleaving with other launches, is only a warning. '
  'Log lines written by several loggers or threads to one file or the screen are each written whole and once.',
  ['schedules', 'fault_sequences'],
  'all interleavings of concurrent launches on one log root, all file-system errors on the link, existing files and directories in the way',
  'Concurrent creation and failing symlink calls are not exercised by any test.',
  [LG, 'launch/launch/logging/handlers.py'], [('directory creation', LG + ' _make_unique_log_dir, _renew_latest_log_dir')],
  ['resulting directories and links', 'log file contents'])
p('C20', 'Waiting on live process information never misses what it waits for',
  'A test thread waiting for a process to start, to exit, or for output succeeds if what it waits for has already happened or happens before the timeout, however many threads wait at once, and fails when the timeout passes without it; it returns promptly in the first case and neither early nor much late in the second. '
  'Reading or iterating what has been recorded, at any time and from any thread, yields a consistent snapshot and never an error. '
  'What is recorded is every output and the latest start or exit of every process, in order.',
  ['schedules', 'histories'],
  'all interleavings of recording and any number of waiting or iterating threads, all timeouts',
  'Tests use a single waiter and let the event happen well before or after.',
  [LT + 'io_handler.py', LT + 'proc_info_handler.py', LT + 'tools/process.py'],
  [('condition variables', LT + 'io_handler.py ActiveIoHandler, ' + LT + 'proc_info_handler.py ActiveProcInfoHandler')], ['results and return times of waits'])
p('C21', 'A launch test runs its phases in order and always ends with the right verdict',
  'The active tests of a launch test start only after it was declared ready (at once when it waits for several declarations and the last one came, and never twice), run while the processes are alive, and are followed by shutdown; the post-shutdown tests start only after all processes have exited and see the complete output and exit codes. '
  'If readiness is not declared in time, or the launch ends before the active tests finish, the run is reported as failed and no post-shutdown test runs. '
  'In every case the runner terminates.',
  ['schedules', 'fault_sequences'],
  'all interleavings of the test thread, the launch and the processes: early deaths, crashes, late readiness, Ctrl-C, tests that finish immediately',
  'Tests run the runner on cooperative examples.',
  [LT + 'test_runner.py', LT + 'ready_aggregator.py', LT + 'loader.py', LT + 'actions/ready.py'],
  [('runner threads', LT + 'test_runner.py _RunnerWorker'), ('aggregation', LT + 'ready_aggregator.py')], ['order of test phases and events, results'])
p('C22', 'A test process that exceeds its timeout is shut down; others are left alone',
  'A test action with a timeout whose process is still running when it expires is shut down with the usual escalation, at that time; if the process exits first, nothing is sent and the timer does not keep the launch alive. '
  'Without a timeout the process is never touched.',
  ['schedules', 'fault_sequences'],
  'all timeouts and exit instants, including exits at the instant of expiry',
  'No test covers the race between expiry and exit.',
  [LT + 'actions/test.py'], [('timer', LT + 'actions/test.py execute')], ['signals with virtual timestamps'])
p('C23', 'Waiting helpers for pytest-based launch tests return the truth in time',
  'The helpers of launch_pytest that wait for the start, the exit or the output of a process, as coroutine or from a thread, report success if the next such event after the call (for output: the condition on the output so far) comes before the timeout, promptly after it, and failure once the timeout has passed; without a timeout they wait as long as needed. '
  'They never miss an event that happens after the call, pass on what a condition raises, and leave no handler behind, also when cancelled.',
  ['schedules', 'histories'],
  'all instants of the awaited event relative to the call and the timeout, many helpers at once, from the loop and from threads',
  'Examples wait for one event that comes well within the timeout.',
  [LP + 'tools/process.py'], [('event handler plus condition', LP + 'tools/process.py _wait_for_event*')], ['result and virtual time of each wait'])
p('C24', 'Process names and execution are unique: no action or name is run twice',
  'Every started process has its own name, composed of the given or derived base name and a suffix that no other process of the same interpreter run has, and every event and log line about it carries that name. '
  'Executing the same process action a second time is refused with an error and starts nothing.',
  ['programs', 'histories'],
  'all mixes of names, respawns, repeated visits and orders of execution',
  'Tests create one or two processes with fixed names.',
  ['launch/launch/descriptions/executable.py', EL], [('name counter', 'launch/launch/descriptions/executable.py prepare'), ('executed flag', EL + ' execute')],
  ['spawn records and events'])

p('C25', 'Test verdicts about output and exit codes do not depend on timing',
  'What tests assert about the recorded output and exit codes of a process, and readiness by output, depends on what the processes wrote and how they ended only: text is found although it was received in several pieces, split anywhere, and not found where it was not written; every exit code is counted, also of processes that died by a signal.',
  ['schedules', 'histories'],
  'all ways the output can be cut into pieces and interleaved, all orders of start, output and exit',
  'Tests use output that arrives in one piece.',
  [LT + 'asserts/assert_output.py', LT + 'asserts/assert_sequential_output.py', LT + 'asserts/assert_exit_codes.py', LT + 'event_handlers/stdout_ready_listener.py'],
  [('matching over received pieces', LT + 'asserts'), ('readiness', LT + 'event_handlers/stdout_ready_listener.py')],
  ['verdicts compared with the bytes the simulated processes wrote'])

p('C26', 'Launch tests in pytest run against a live, ready launch, verdicts are truthful',
  'Every test function marked as a launch test is run exactly once, only after its launch description said that it is ready to test, and while that launch is alive; its part after the shutdown (or a shutdown test) runs only after the launch was shut down and every process of it has ended. '
  'Its verdict is the one of the function; when the launch fails, never gets ready or ends too early, that is reported and nothing is reported as passed that did not run. '
  'The session always ends, and leaves no process behind.',
  ['schedules', 'histories', 'fault_sequences'],
  'all kinds of tests (functions, coroutines, generators), both scopes of fixtures, all instants at which processes and launches start, get ready, fail and end relative to the tests',
  'Tests run one example of each kind, on processes that behave.',
  [LP + 'plugin.py', LP + 'fixture.py'], [('order of items and event loop use', LP + 'plugin.py pytest_pyfunc_call'), ('readiness and shutdown', LP + 'fixture.py')],
  ['calls of the test functions', 'spawns and ends of processes', 'reports of pytest'])

p('C27', 'A launch that judges itself (legacy test service) gives the right verdict',
  'A launch run by the legacy launch test service succeeds exactly if the launch does, no fixture process dies with an exit code that is not allowed before the shutdown, every test process is started and exits with 0, every test coroutine ends without an exception, and all expected output of every output test was written; otherwise the result is the exit code of the first process that failed, or 1. '
  'The launch is shut down as soon as all tests are done, one has failed, a fixture has died or a test asks for it, and not before, unless it is idle or interrupted. '
  'How the output was cut into pieces makes no difference, with and without filters.',
  ['schedules', 'histories', 'fault_sequences'],
  'all orders and instants at which processes start, write, fail and end and coroutines end, all ways the output can be cut into pieces',
  'The repository tests the service on one process that writes everything at once.',
  [LT + 'legacy/__init__.py', LT + 'legacy/output.py'], [('test states', LT + 'legacy/__init__.py LaunchTestService'), ('matching', LT + 'legacy/output.py')],
  ['return code of run', 'time of the shutdown', 'bytes the simulated processes wrote'])

p('C28', 'References to the own launch file stay right across includes and timers',
  'Inside a launch file, the substitutions for this launch file and its directory, and includes relative to them, resolve to that very file for every action written in it, however it is executed: after the includes of other files, in nested includes, groups and functions, and in the actions of its timers which run later, whatever else runs in between.',
  ['histories', 'schedules'],
  'all nestings and orders of includes, groups, functions and timers, all failures and events between them',
  'The repository tests one include of one file that does nothing afterwards.',
  ['launch/launch/actions/include_launch_description.py', 'launch/launch/substitutions/this_launch_file_dir.py', 'launch/launch/substitutions/this_launch_file.py', 'launch/launch/actions/timer_action.py'],
  [('location of the current file', 'launch/launch/actions/include_launch_description.py IncludeLaunchDescription.execute')],
  ['value of the substitutions at every step', 'reference model of the includes'])

p('C29', 'Processes are started with exactly the command their action describes',
  'Each process is started with exactly the argument list, working directory and use of a shell that its action describes at the moment of its execution (substitutions evaluated then, text concatenated and split only where written so, the prefix applied only where its filter matches), and on respawn with the same again; its name is unique, and its events announce what was started.',
  ['histories', 'inputs'],
  'all commands, prefixes, filters, configurations and orders of execution, and all respawns',
  'The repository tests single commands with fixed words and no changes of the configuration between executions.',
  ['launch/launch/descriptions/executable.py', 'launch/launch/actions/execute_process.py', 'launch/launch/actions/execute_local.py'],
  [('preparation', 'launch/launch/descriptions/executable.py Executable.prepare'), ('start', 'launch/launch/actions/execute_local.py ExecuteLocal.__execute_process')],
  ['arguments of every start of a simulated process', 'attributes of the process events'])

p('C30', 'XML and YAML launch files behave like the same description in Python',
  'A launch description written as an XML or YAML file, with any legal quoting, escaping, spelling of types and file extension, behaves exactly like the description in Python with the same content: the same actions with the same attributes and conditions, scopes, includes, timers and processes in the same order, and substitution strings whose value, evaluated when and where the action is executed, is the concatenation of their text and the values of their nested substitutions. '
  'A file that is not well-formed, misses what is required or contains what does not exist is rejected with an error when it is included.',
  ['histories', 'inputs', 'schedules'],
  'all launch files over the native tags and substitutions, all nestings of files of different formats, and all events and failures while they run',
  'The repository tests one file per tag, mostly parses it without running it, and one string per substitution.',
  ['launch/launch/frontend/parser.py', 'launch/launch/frontend/expose.py', 'launch/launch/frontend/parse_substitution.py', 'launch_xml/launch_xml', 'launch_yaml/launch_yaml', 'launch/launch/substitutions', 'launch/launch/utilities/type_utils.py'],
  [('parsers', 'launch/launch/frontend/parser.py'), ('grammar', 'launch/share/launch/frontend/grammar.lark'), ('parse methods', 'launch/launch/actions, parse()')],
  ['values and order of everything the actions of the file do', 'reference model of the program that the file was written from'])

# properties that this technique family does not address here
p('N03', 'Values are coerced between strings and typed attributes consistently',
  'Coercing a string to a declared attribute type accepts exactly the values of that type, never guesses ambiguously, and fails with an error otherwise.',
  ['inputs'], 'all strings and types', 'Unbounded string inputs.', ['launch/launch/utilities/type_utils.py'], [('coercion', 'launch/launch/utilities/type_utils.py')])
p('N04', 'Declared arguments of a launch description are discovered completely',
  'Listing the arguments of a launch description reports every argument reachable through groups, includes and handlers, each once, with its condition status.',
  ['inputs', 'programs'], 'all launch descriptions', 'Unbounded structure; tests hold a few shapes.', ['launch/launch/launch_description.py'], [('traversal', 'launch/launch/launch_description.py')])
p('N05', 'Output assertions match text exactly as specified',
  'Comparing recorded output with an expectation (text, regular expression, sequence, with ANSI escapes stripped) succeeds if and only if the output contains it.',
  ['inputs'], 'all outputs and expectations', 'Unbounded string inputs.', ['launch_testing/launch_testing/asserts', 'launch_testing/launch_testing/tools/text.py'], [('matchers', 'launch_testing/launch_testing/tools/text.py')])
p('N06', 'Introspection prints a faithful description without executing anything',
  'Formatting a launch description lists all its entities and handlers without executing or evaluating them.',
  ['programs'], 'all launch descriptions', 'Unbounded structure.', ['launch/launch/launch_introspector.py'], [('formatter', 'launch/launch/launch_introspector.py')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
