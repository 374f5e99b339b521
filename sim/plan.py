"""Which scenario families decide which property, and how many runs each gets."""

# property -> [(family, profile, runs of the quick tier)]
PLAN = {
    'C01': [('procs', 'mix', 3000), ('procs', 'start', 1500), ('procs', 'escalate', 1000),
            ('procs', 'respawn', 1000)],
    'C02': [('procs', 'escalate', 4000), ('procs', 'target', 1500), ('procs', 'mix', 1500)],
    'C03': [('procs', 'events', 3500), ('procs', 'mix', 1500), ('procs', 'respawn', 1500), ('output', 'mix', 1500)],
    'C04': [('output', 'mix', 5000), ('procs', 'events', 1000)],
    'C05': [('procs', 'respawn', 6000)],
    'C06': [('procs', 'start', 6000)],
    'C07': [('procs', 'idle', 3500), ('prog', 'async', 2000), ('prog', 'timers', 1500)],
    'C08': [('prog', 'order', 5000), ('prog', 'timers', 1500), ('prog', 'async', 1500)],
    'C09': [('prog', 'errors', 6000), ('prog', 'async', 1000), ('procs', 'mix', 1500)],
    'C10': [('prog', 'locals', 5000), ('prog', 'order', 2000), ('prog', 'errors', 1000)],
    'C11': [('threads', 'mix', 8000), ('signals', 'mix', 500)],
    'C12': [('prog', 'timers', 6000), ('prog', 'async', 1500)],
    'C13': [('prog', 'async', 6000), ('prog', 'errors', 1500)],
    'C14': [('signals', 'mix', 8000)],
    'C15': [('sigman', 'mix', 14000), ('signals', 'mix', 2000)],
    'C16': [('prog', 'config', 6000), ('prog', 'env', 1000)],
    'C17': [('prog', 'env', 6000), ('prog', 'config', 1000)],
    'C18': [('procs', 'target', 5000)],
    'C19': [('logging', 'dirs', 2500), ('logging', 'lines', 1800)],
    'C20': [('ltwait', 'mix', 7000)],
    'C21': [('lttest', 'mix', 5000)],
    'C22': [('ltrun', 'mix', 7000)],
    'C23': [('pytestwait', 'mix', 1800)],
    'C24': [('procs', 'mix', 4000), ('procs', 'start', 2000)],
    'C25': [('lttest', 'output', 5000)],
    'C26': [('pytestplugin', 'mix', 1500)],
    'C27': [('ltlegacy', 'mix', 6000)],
    'C28': [('prog', 'files', 6000)],
    'C29': [('prog', 'cmd', 6000), ('prog', 'env', 1000), ('prog', 'front', 1500)],
    'C30': [('prog', 'front', 4500)],
}

# seconds of wall clock after which a check stops starting runs
BUDGET = {'quick': 300, 'thorough': 780}
# how many times the runs of the quick tier the thorough tier does (if the budget lasts)
THOROUGH = 25

REAL = {
    'ltlegacy': ['launch_testing.legacy', 'launch', 'asyncio selector event loop and subprocess '
                 'transports', 'osrf_pycommon'],
    'pytestplugin': ['launch_pytest (plugin, fixtures, actions)', 'pytest (with an adapter to the '
                     'older interface that the plugin uses)', 'launch', 'asyncio selector event '
                     'loop', 'osrf_pycommon'],
    'lttest': ['launch_testing (test runner, readiness, markers, live information, assertions)',
               'unittest', 'launch', 'asyncio selector event loop', 'osrf_pycommon',
               'threading.Thread, Event and Condition'],
    'ltrun': ['launch_testing test actions', 'launch', 'asyncio selector event loop and '
              'subprocess transports', 'osrf_pycommon'],
    'pytestwait': ['launch_pytest.tools', 'launch', 'asyncio selector event loop', 'osrf_pycommon',
                   'threading.Thread and Event'],
    'ltwait': ['launch_testing (live process information, output, process proxies, assertions)',
               'launch (service, process actions, events)', 'asyncio selector event loop',
               'osrf_pycommon', 'threading.Thread and Condition'],
    'threads': ['launch (service, context, events, process and timer actions)', 'asyncio selector '
                'event loop', 'osrf_pycommon', 'threading.Thread'],
    'signals': ['launch (service, process actions, signal manager)', 'asyncio selector event loop '
                'and subprocess transports', 'real signals, signal handlers and wake-up descriptors'],
    'sigman': ['launch.utilities.AsyncSafeSignalManager', 'asyncio selector event loop',
               'real signals, socket pairs and wake-up descriptors'],
    'logging': ['launch.logging', "python's logging, its handlers and locks",
                'real files (scratch directory)'],
    'procs': ['launch (all of it: service, context, actions, events, handlers, logging)',
              'asyncio selector event loop and subprocess transports', 'osrf_pycommon',
              'real pipes and files (scratch directory)'],
    'prog': ['launch (all of it; the front ends, launch_xml and launch_yaml '
             'where files are included)', 'asyncio selector event loop',
             'subprocess transports and osrf_pycommon (processes for their environment only)'],
    'output': ['launch (process actions, events, logging)', 'asyncio selector event loop and '
               'subprocess transports', 'osrf_pycommon', 'real pipes and log files'],
}
STUB = {
    'ltlegacy': ['operating-system processes (simulated process table)', 'clocks, timers',
                 'readiness order of descriptors', 'ament_index_python (not installed here)'],
    'pytestplugin': ['operating-system processes (simulated process table)', 'clocks, timers, '
                     'sleep', 'thread scheduling (baton), locks', 'ament_index_python (not '
                     'installed here)'],
    'lttest': ['operating-system processes (simulated process table)', 'clocks, timers, sleep',
               'thread scheduling (baton, preemption at source lines), locks',
               'ament_index_python (not installed here)'],
    'ltrun': ['operating-system processes (simulated process table)', 'clocks, timers',
              'readiness order of descriptors', 'ament_index_python (not installed here)'],
    'pytestwait': ['operating-system processes (simulated process table)', 'clocks, timers, sleep',
                   'thread scheduling (baton, preemption at source lines), locks',
                   'ament_index_python (not installed here)'],
    'ltwait': ['operating-system processes (simulated process table)', 'clocks, timers, sleep',
               'thread scheduling (baton, preemption at source lines), locks',
               'ament_index_python (not installed here)'],
    'threads': ['clocks, timers, sleep', 'thread scheduling (baton, preemption at source lines), '
                'locks and conditions', 'operating-system processes (simulated process table)',
                'ament_index_python (not installed here)'],
    'signals': ['operating-system processes (simulated process table)', 'clocks, timers, sleep',
                'moments of delivery (event loop waiting for I/O)',
                'ament_index_python (not installed here)'],
    'sigman': ['clocks, timers', 'interrupted and short reads, exhausted descriptors'],
    'logging': ['other launches: threads with a copy of the module, process id and host name of '
                'their own', 'clocks', 'thread scheduling (baton, preemption at source lines), locks',
                'errors and competing programs at file system calls'],
    'procs': ['operating-system processes, kill(2), waitpid, pty (simulated process table)',
              'clocks, timers, sleep', 'thread scheduling (baton)', 'readiness order of descriptors',
              'ament_index_python (not installed here)'],
    'prog': ['operating-system processes, those of the command substitution too (simulated '
             'process table)', 'clocks, timers, sleep',
             'thread scheduling (baton)', 'readiness order of descriptors',
             'ament_index_python (not installed here)'],
    'output': ['operating-system processes (simulated process table; a tty is a pipe with CR LF)',
               'clocks, timers, sleep', 'readiness order of descriptors',
               'ament_index_python (not installed here)'],
}
RULE = {
    'ltlegacy': 'A seeded generator draws 1-3 processes (fixture, test or neither; output cut at '
                'any byte, life time, exit code, start failure), test coroutines that end, fail or '
                'never end, output tests (lines, regular expressions, filters, side effects), '
                'Ctrl-C and host stalls. Non-trivial: a test and a process.',
    'pytestplugin': 'A seeded generator draws a test module: 1-2 launch fixtures (scope, '
                    'parameters, processes with all kinds of life, readiness, failures) and tests '
                    '(functions, coroutines, generators of both kinds, shutdown tests) that wait, '
                    'fail, skip or raise, plus host stalls. Non-trivial: a test and a process ran.',
    'lttest': 'A seeded generator draws launch tests: processes (start, output split at any byte, '
              'life time, crash, start failure), where and how readiness is declared, tests before '
              'and after shutdown (pass, fail, error, skip, wait, emit), early ends, Ctrl-C, '
              'failing launches and stalls, with preemption at source lines. output: the same with '
              'assertions about text and exit codes. Non-trivial: a test or a process was run.',
    'ltrun': 'A seeded generator draws 1-3 test actions (kind, time-out and how it is given, '
             'escalation times, life times around the time-out, reactions to signals, slow and '
             'failing starts, way of execution) plus shutdown, Ctrl-C or a request to stop one, and '
             'host stalls. Non-trivial: a process with a time-out.',
    'pytestwait': 'A seeded generator draws 1-2 processes (start, output split at any byte, life '
                  'time, start failure) and 1-5 clients, coroutines or threads, each with 1-4 '
                  'calls of the helpers with every kind of time-out, cancellation and failing '
                  'condition; stalls and preemption at source lines. Non-trivial: a wait and an '
                  'event.',
    'ltwait': 'A seeded generator draws 1-3 processes (start time, outputs split at any byte, life '
              'time, exit code, start failure) and 1-5 test threads that wait for start, end and '
              'output with various timeouts, iterate, read and launch processes of their own; host '
              'stalls and preemption at source lines. Non-trivial: a wait and an event.',
    'threads': 'A seeded generator draws 1-3 runs of one service and 1-4 client threads, each with '
               '1-6 timed calls (emit, include, shutdown, refused run, bursts, properties) before, '
               'during and while ending a run, plus calls and signals in the loop; the scheduler '
               'preempts at any source line of launch. Non-trivial: more than 4 thread switches.',
    'signals': 'A seeded generator draws a run (0-3 processes that die, are slow to or refuse, '
               'timers, coroutines, busy handlers, failures) and 1-20 timed signals, from a '
               'terminal or to the launch only, repeated and mixed, coinciding with the start and '
               'the end, with an outer signal manager or wake-up descriptor, and a second run. '
               'Non-trivial: a signal was delivered.',
    'sigman': 'A seeded script of entering, leaving (by exception too), handler changes, signals '
              'and bursts (directly, in callbacks, in handlers, while the loop waits), third-party '
              'wake-up descriptors, asyncio signal handlers, other threads, and 1-2 loops over 1-3 '
              'managers; a small reference model says which handler sees which signal. Non-trivial: '
              'a handler was called or two signals were raised.',
    'logging': 'dirs: 2-5 simulated launches with 1-3 threads each choose their log directory at '
               'once, with equal process ids, coarse and jumping clocks, names taken just before, '
               'every kind of existing latest, failing calls and crashes at file system calls. '
               'lines: 2-5 threads write lines of up to 70 kB through shared and own loggers with '
               'log rotation, full disks and format changes. Non-trivial: thread switches.',
    'procs': 'A seeded generator draws 1-4 process actions (timeouts, name, shell, tty, respawn, '
             'start route), a plan per process instance (outputs, life time, exit or crash, reaction '
             'to every signal, start failure and duration), shutdown and request stimuli on a time '
             'grid that makes coincidences common, other work, and host stalls; the scheduler draws '
             'readiness order and interleavings. Non-trivial: at least one process was started.',
    'prog': 'A seeded generator draws a launch program: nested groups, includes, launch '
            'descriptions, opaque functions, timers, coroutines, futures, conditions, configuration '
            'and environment actions, event handlers of every kind, emissions, errors, process '
            'environments and commands, files in Python, XML and YAML with nested substitutions, plus '
            'stimuli from outside (emissions, registrations, cancellations, '
            'includes, SIGINT, shutdown calls) on a coincidence-prone time grid and host stalls. An '
            'executable reference model replays the recorded history step by step. Non-trivial: '
            'some event beyond the start was handled or an error raised.',
    'output': 'A seeded generator draws 1-3 processes with random text on both streams (odd '
              'characters, invalid UTF-8, huge lines, missing newlines), split at random byte '
              'positions and times, every output configuration and format, caching, tty, respawn, '
              'shutdown, log rotation, full disks and stalls. Events, caches, screen and every log '
              'file are compared with what was written. Non-trivial: some output event.',
}
ASSUMPTIONS = [
    'Simulated operating-system calls behave as documented; a child does nothing observable in '
    'the first 0.5 ms after its start.',
    'Signals are delivered to the interpreter where the event loop waits for I/O.',
    'Search is seeded sampling: a quiet check is evidence, not proof.',
]
TECHNIQUE = {
    'ltlegacy': 'the real legacy test service on simulated processes and time; verdict and time of '
                'the shutdown are compared with a model that reads the history',
    'pytestplugin': 'real pytest sessions with the real plugin on simulated processes, threads and '
                    'time; order, liveness and verdict checks over the history',
    'lttest': 'the real test runner with its threads on simulated processes and time under a '
              'seeded thread scheduler; order, liveness and verdict checks over the history',
    'ltrun': 'real test actions on a simulated process table in virtual time; signals and the end '
             'of the launch are compared with what the time-outs demand',
    'pytestwait': 'coroutine and thread clients wait on a real launch under a seeded scheduler, '
                  'simulated processes and time; every answer is compared with the history',
    'ltwait': 'test threads wait on live process information of a real launch under a seeded '
              'thread scheduler, simulated processes and time; every answer is compared with the '
              'recorded history',
    'threads': 'client threads and the real launch service under a seeded thread scheduler that '
               'preempts at any source line; exactly-once, order and liveness checks over the '
               'recorded calls',
    'signals': 'real signals injected at seeded moments into the real launch service on simulated '
               'processes and time; checks of shutdown, return code and signal set-up',
    'sigman': 'seeded scripts with real signals on real signal managers, faults at their '
              'descriptors; comparison with a reference model of the handler chain',
    'logging': 'several simulated launches under a seeded scheduler with preemption, file system '
               'faults, competing programs and crashes; uniqueness and exactly-once checks over '
               'the files left behind',
    'procs': 'the real launch service on a simulated process table, virtual time and seeded '
             'schedules; history oracles over kernel-level records',
    'prog': 'seeded launch programs run by the real launch service under simulated time and '
            'schedules; the history is replayed by an executable reference model',
    'output': 'the real launch service with simulated writers, log rotation and full disks; byte '
              'for byte comparison of events, caches and log files with what was written',
}
_PURE = 'A pure function of its input: no schedule, clock, fault or interleaving can change it, ' \
        'so simulation would only be input generation. '
NOT_APPLICABLE = {
    'N03': _PURE + 'Type coercion depends on the value only.',
    'N04': _PURE + 'Listing arguments walks a static description.',
    'N05': _PURE + 'The comparison works on recorded text.',
    'N06': _PURE + 'Formatting walks a static description.',
}
