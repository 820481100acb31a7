"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': ['src/hypershell/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'src/hypershell/' + w} for n, w in mech]}})

NOTESTS = 'The existing tests only construct database URLs; no server, client or submitter is ever run. '

p('P01', 'Every submitted task runs exactly once and its true result is recorded',
  'In a run with no failed processes, every line given to the server as a task is executed exactly once by exactly one '
  'client, and when the server has finished, the database holds exactly one record per line with the argument text given, '
  'the command that was run, the true exit status, client, server, submitter (identity and host of each), start and completion time, time waited and duration. This holds for every bundle size, number of executors and '
  'clients, and however the threads of the programs are interleaved or delayed.',
  ['schedules', 'configurations'],
  'all interleavings of submitter, scheduler, confirmation, receiver, heartbeat and client threads; all bundle sizes, executor and client counts',
  NOTESTS + 'Loss needs a particular interleaving or a full queue at shutdown.',
  ['server.py', 'client.py', 'submit.py', 'data/model.py', 'core/queue.py'],
  [('scheduling loop', 'server.py:Scheduler'), ('result collection', 'server.py:Receiver'), ('client task flow', 'client.py:ClientThread')])

p('P02', 'A finite run always ends: server and every client shut down by themselves',
  'Once the input has ended and every task has finished, the server and every client that connected to it while it was running terminate on their own '
  'without an error, and they do not terminate while there are still tasks to be read, run or retried. This holds however slowly the input '
  'arrives, whichever clients join late, leave early or die, and however the threads are interleaved.',
  ['schedules', 'histories', 'fault_sequences'],
  'all interleavings of the shutdown handshake; clients joining/leaving/dying at any moment; inputs arriving at any pace',
  NOTESTS + 'Deadlock and premature exit only show for particular interleavings of the shutdown handshake.',
  ['server.py', 'client.py', 'core/thread.py', 'core/fsm.py'],
  [('shutdown sequence', 'server.py:ServerThread.run_with_exceptions'), ('client disconnect', 'server.py:HeartMonitor'), ('client shutdown', 'client.py:ClientThread.run_with_exceptions')])

p('P03', 'A killed server can be restarted on its database and finishes the work',
  'If the server is killed at any moment and started again in restart mode on the same database, every task that had been committed eventually completes, '
  'no task whose completion had been recorded is executed again or has its recorded result changed, and no task is duplicated or dropped. '
  'Retry limits and the links between attempts also hold across the crash.',
  ['crash_points', 'schedules', 'histories'],
  'every database statement and queue operation of the server as a crash point, including repeated crashes',
  NOTESTS + 'There are unboundedly many crash points between a statement and its commit.',
  ['server.py', 'data/model.py', 'submit.py'],
  [('revert of interrupted tasks', 'data/model.py:Task.revert_interrupted'), ('restart', 'server.py:Scheduler.start'), ('retry creation', 'data/model.py:Task.next')])

p('P04', 'Tasks confirmed by a client that dies are given to another client',
  'If a client dies at any moment, each task it had confirmed receiving and not returned is scheduled again once that client has been silent for the eviction period, '
  'runs on a surviving client and gets that run\'s result, and the server still finishes. Results already recorded from the dead client stand, and no task held by a client that keeps heartbeating is taken from it. '
  'A client given up on by mistake (suspended for longer than the eviction period) does no harm when it goes on: every record still is that of one actual run, the result recorded first stands, attempts form right chains, and everything ends.',
  ['fault_sequences', 'crash_points', 'schedules'],
  'client death, or suspension, at every operation of the client; any number of surviving clients',
  NOTESTS + 'Needs a process death at a chosen point and minutes of waiting.',
  ['server.py', 'client.py', 'data/model.py', 'core/heartbeat.py'],
  [('eviction', 'server.py:HeartMonitor.check_clients'), ('orphan recovery', 'data/model.py:Task.revert_orphaned'), ('confirmation', 'server.py:Confirm')])

p('P05', 'A failed task is retried until it succeeds or its retry limit is reached',
  'A task that exits non-zero is attempted again until one attempt succeeds or the number of attempts reaches the configured retries plus one, and never after a success or beyond the limit. '
  'Attempts of one task form a single chain: each is numbered one higher, points to its predecessor and is pointed to by it, exactly the superseded ones are marked retried, and arguments and tags are unchanged. '
  'This holds for both scheduling modes and for every interleaving of results coming back with scheduling decisions.',
  ['schedules', 'histories', 'configurations'],
  'all failure/success histories per task, retry limits, bundle sizes, eager and non-eager mode, all interleavings',
  NOTESTS + 'The last attempt and the end of scheduling race with each other.',
  ['server.py', 'data/model.py'],
  [('retry selection', 'data/model.py:Task.select_failed'), ('retry scheduling', 'data/model.py:Task.next'), ('end of scheduling', 'server.py:Scheduler.load_bundle')])

p('P06', 'Tasks are handed out in submission order, in bounded bundles, retries by mode',
  'Tasks not yet scheduled are always handed out oldest submission first, and a bundle never holds more than the configured number of tasks nor fewer than available work allows. '
  'With the eager option, tasks awaiting a retry fill a bundle before any new task; without it, they are only used when new tasks do not fill the bundle, oldest failure first. '
  'No task is handed out twice without being reverted.',
  ['histories', 'configurations'],
  'all database histories up to a depth (submit, schedule, succeed, fail, cancel, revert, delete) for all bundle sizes, retry limits and modes',
  NOTESTS + 'The order must hold for every history of the task table.',
  ['data/model.py', 'server.py'],
  [('selection', 'data/model.py:Task.next'), ('order', 'data/model.py:Task.select_new')])

p('P07', 'Cancel, revert, delete and edit take effect safely while a server is running',
  'When a user cancels, reverts, deletes or edits tasks while a server is working on them: a task cancelled before it was scheduled never runs (then or after a restart or as a retry), a reverted finished task runs again, a deleted unscheduled task never runs, and an edit of tags '
  'or arguments of a task that is not finished is still there when it has finished. The server keeps running through all of these and still finishes.',
  ['schedules', 'histories'],
  'every moment of a server run at which the user command can take effect',
  NOTESTS + 'Two programs work on one table at the same time.',
  ['task.py', 'server.py', 'data/model.py'],
  [('cancellation', 'data/model.py:Task.cancel_all'), ('revert', 'data/model.py:Task.revert_all'), ('result update', 'server.py:Receiver.update_tasks')])

p('P08', 'Task text and data survive every hop unchanged',
  'Whatever text a task line contains, the command run on the client is that line (with surrounding blanks removed) under the template, and the arguments, tags and other fields read back from the database, before and after the run, equal the ones submitted in value and type. '
  'This includes text that looks like a date, number, boolean or JSON, quotes, non-ASCII characters and very short text.',
  ['inputs'],
  'all task lines and tag values up to a bounded length over an alphabet of critical pieces, through submission, wire, execution and database',
  NOTESTS + 'Corruption depends on the value.',
  ['data/model.py', 'server.py', 'client.py', 'submit.py'],
  [('serialisation', 'data/model.py:Entity.pack/unpack'), ('type conversion', 'data/model.py:from_json_type')])

p('P09', 'Submission stores every input line once, in order, promptly and in whole bundles',
  'Submitting a source stores exactly one task per input line, in input order, with the template and tags applied; tasks are stored in bundles of at most the configured size, and a task that has been read is stored within the configured wait (plus polling delay) even if the source then stays idle. '
  'If the submitting program dies, the stored tasks are exactly a prefix of the input; if storing fails, the submission ends with an error instead of hanging or reporting success.',
  ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
  'all arrival patterns of the source, bundle sizes and waits, all interleavings of reading and storing, all crash points and database failures',
  NOTESTS + 'Buffering errors show only for particular arrival patterns.',
  ['submit.py', 'data/model.py'],
  [('reading', 'submit.py:Loader'), ('storing', 'submit.py:DatabaseCommitter'), ('thread', 'submit.py:SubmitThread')])

p('P10', 'A client returns every finished task exactly once, promptly, and before leaving',
  'Each task a client receives is confirmed once, run once and returned once, in bundles of at most the configured size, and a finished task is returned within the configured wait (plus polling delay) even if nothing else finishes. Except at the end, an incomplete bundle is not returned before that wait has passed since the previous one. '
  'When the client leaves for any orderly reason, all tasks it received have been returned before it announces that it is finished, even if the server is slow to accept results.',
  ['schedules', 'configurations'],
  'all interleavings of receiving, executing, collecting and leaving; all bundle sizes, waits and executor counts; results queue full for any time',
  NOTESTS + 'Loss happens only when leaving coincides with a partial bundle or a full queue.',
  ['client.py'],
  [('collector', 'client.py:ClientCollector'), ('shutdown', 'client.py:ClientThread'), ('executor', 'client.py:TaskExecutor')])

p('P11', 'Walltime limits are enforced by interrupt, terminate, kill, in that order',
  'A task running longer than its walltime limit is sent an interrupt, then, each after a further signal-wait period if it is still running, terminate and kill; no signal is sent before the limit, none twice, and none to a task that ended in time or to any other task. '
  'However the task reacts (unless it survives even the kill), its executor reports it once with its real exit status and goes on to run further tasks.',
  ['schedules', 'inputs', 'configurations'],
  'all task durations and reactions to each signal over a grid of limits and wait periods, several executors',
  NOTESTS + 'Depends on timing relations of three timers.',
  ['client.py'],
  [('limit check', 'client.py:TaskExecutor.check_task'), ('escalation', 'client.py:TaskExecutor.wait_signal')])

p('P12', 'User signals drain the client or server without losing work',
  'After USR1 a client takes no further tasks, lets running and already received ones finish, returns all results and leaves; after USR2 it also interrupts running tasks, with the usual escalation, and returns them. '
  'After either signal a server schedules nothing more, collects what was handed out, dismisses its clients and ends, leaving the other tasks unfinished for a later restart (server with a database).',
  ['schedules'],
  'arrival of the signal at every point of the run, with running, queued and finished tasks in every mixture',
  NOTESTS + 'The signal may arrive between any two operations.',
  ['client.py', 'server.py', 'core/signal.py'],
  [('client', 'client.py:ClientScheduler.get_remote'), ('executor', 'client.py:TaskExecutor.check_task'), ('server', 'server.py:Scheduler.load_bundle')])

p('P13', 'A task that cannot be started is reported as failed and harms no other task',
  'If a task cannot be expanded or started (bad template for its text, unusable command text, missing working directory, unwritable capture file), it is returned with a non-zero exit status and a start and completion time, and every other task, the executor and the shutdown are unaffected. '
  'A task that fails in any way never changes the result or the output of another task.',
  ['inputs', 'schedules', 'fault_sequences'],
  'every kind of start failure at every position among other tasks, all executor and bundle settings',
  NOTESTS + 'Needs a failing operating system call inside one executor.',
  ['client.py', 'core/template.py'],
  [('creation', 'client.py:TaskExecutor.create_task'), ('start', 'client.py:TaskExecutor.start_task')])

p('P14', 'Each task sees its own environment and its output goes to its own files',
  'Every task process starts with the client\'s environment plus the exported variables and its own task variables (including id, arguments, attempt, tags, working directory and output paths), never another task\'s. '
  'With capture enabled, its output and errors land completely in the files recorded for that task and nowhere else; with redirection, output of all tasks of the client lands in the given files for as long as any task runs.',
  ['schedules', 'inputs', 'configurations'],
  'all interleavings of several executors, including shutdown while others still start tasks; all tag types',
  NOTESTS + 'Mixing happens only with concurrent executors.',
  ['client.py', 'core/config.py'],
  [('environment', 'client.py:task_env'), ('capture', 'client.py:TaskExecutor.start_task'), ('closing', 'client.py:TaskExecutor.finalize')])

p('P15', 'An idle client leaves after its timeout, never earlier and never with work',
  'A client with an idle timeout leaves when it has received no task bundle for that long, and not before; each received bundle restarts the period. '
  'A client without a timeout leaves only when dismissed by the server or signalled, and a client that leaves has returned everything it received. '
  'A start delay postpones its first connection by exactly that time; a negative one by a random time evenly spread over zero to its magnitude.',
  ['schedules', 'inputs', 'configurations'],
  'all arrival patterns of bundles and task durations relative to the timeout',
  NOTESTS + 'Only visible for particular arrival gaps.',
  ['client.py'],
  [('timeout', 'client.py:ClientScheduler.get_remote')])

p('P16', 'The client register is accurate: heartbeats, disconnects, evictions, returns',
  'Every client that connects gets one record; the record shows it connected from its first heartbeat until it says it is finished or is evicted, shows eviction exactly for clients that have been silent longer than the eviction period, and shows a falsely evicted client that sends another heartbeat as connected again. '
  'A client that heartbeats at the configured rate is never evicted, and a silent one is evicted within the eviction period plus two checking periods and the polling delay.',
  ['schedules', 'histories'],
  'all sequences of heartbeats, silences and goodbyes of several clients up to a depth, for all orders of arrival',
  NOTESTS + 'Depends on the history of messages and their times.',
  ['server.py', 'core/heartbeat.py', 'data/model.py', 'client.py'],
  [('monitor', 'server.py:HeartMonitor'), ('sender', 'client.py:ClientHeartbeat')])

p('P17', 'Without a database every task still runs exactly once and the run ends',
  'In the no-database mode, whether requested or because none is configured, every input line is executed exactly once, failed lines are reported to the failure stream, server and clients then end, and no database is read or written. '
  'This holds for all bundle sizes and interleavings, including slow clients at the end of the input.',
  ['schedules', 'configurations'],
  'all interleavings and queue-full periods for all bundle sizes, executor and client counts',
  NOTESTS + 'Loss needs a full queue when the input ends.',
  ['server.py', 'submit.py', 'client.py'],
  [('direct submission', 'submit.py:QueueCommitter'), ('mode', 'server.py:ServerThread')])

p('P18', 'The failure stream receives exactly the failed attempts',
  'When failed tasks are redirected, the stream receives one line with the argument text for every attempt that was returned with a non-zero exit status and nothing else, in the order of return. '
  'The stream is complete when the server has ended, and standard output is still usable when it was the stream.',
  ['schedules', 'inputs'],
  'all success/failure patterns, bundle sizes, retry limits, with and without a database',
  NOTESTS + 'No test runs the server.',
  ['server.py'],
  [('receiver', 'server.py:Receiver.update_tasks'), ('stream', 'server.py:ServerApp.failure_stream')])

p('P19', 'Template patterns expand exactly as documented',
  'For every template and argument text, each documented pattern (expressions and commands contain no closing brace: the whole text, path parts and extensions, word slices, shell and lambda expressions) is replaced by exactly the documented value and the literal text around it is kept verbatim. '
  'A template with an unknown or failing pattern raises an error and never yields a command, and expanding one task never influences another.',
  ['inputs'],
  'all templates of up to three pieces over all patterns, all arguments over an alphabet of critical path and word pieces',
  'No test covers templates; a sample cannot cover the product of patterns and paths.',
  ['core/template.py'],
  [('expansion', 'core/template.py:Template.expand')])

p('P20', 'Task search returns exactly the matching tasks, in order, in every format',
  'A search returns exactly the tasks satisfying every given condition (comparison, pattern, tag, completed, failed, remaining and other state filters), each once, in the requested order and direction and up to the requested limit, and the count equals the number of rows. '
  'The fields shown in every output format are the stored values. As in SQL, a comparison with a field that is not set is not satisfied; this is decided for SQLite databases.',
  ['inputs', 'histories'],
  'all combinations of up to three conditions over a task table containing every task state',
  'No test runs a search; conditions interact.',
  ['task.py'],
  [('search', 'task.py:TaskSearchApp'), ('filters', 'task.py:WhereClause')])

p('P21', 'Update, cancel, revert and delete change exactly the selected tasks',
  'A task update applies every requested change (fields, added and removed tags, cancel, revert, delete) to exactly the tasks that matched the conditions when the command started, limited and ordered as requested, and leaves all other tasks and fields untouched (a revert clears the scheduling, execution and result fields; assignments come first, then cancel or revert, then removed tags). '
  'A refused or invalid command changes nothing.',
  ['inputs', 'histories'],
  'all combinations of up to two changes with up to two conditions, limit and order, over a table containing every task state',
  'No test runs an update; changes can alter which tasks match.',
  ['task.py', 'data/model.py'],
  [('update', 'task.py:TaskUpdateApp')])

p('P22', 'Tags are validated, stored, and matched the same way everywhere',
  'A tag given anywhere (submission, update, search) is parsed to the same key and typed value; one with an invalid value (characters other than letters, digits and _ . + -, or longer than 120) is rejected regardless of its position among others; and a search by key or by key and value finds exactly the tasks carrying it.',
  ['inputs'],
  'all tag lists of up to three tags over valid and invalid keys and values of every type',
  'No test uses tags.',
  ['data/model.py', 'task.py', 'submit.py'],
  [('validation', 'data/model.py:Task.ensure_valid_tag'), ('parsing', 'task.py:Tag')])

p('P23', 'Configuration: precedence, lookup and edits are exact and never lose settings',
  'The effective value of every single setting is the one from the highest-precedence place that defines it (environment, then local, user, system, then default), and the command that reports where it comes from names that place. '
  'Setting a value changes that setting in that file only, keeps every other setting and comment, reads back with the same value and type, and at no moment of the edit, even if the program is killed, is the previous content unrecoverable.',
  ['inputs', 'configurations', 'crash_points', 'histories'],
  'all combinations of places defining a setting; all sequences of up to three edits; interruption at every file operation',
  'No test covers configuration.',
  ['core/config.py', 'config.py'],
  [('load', 'core/config.py:partial_load'), ('edit', 'core/config.py:update'), ('commands', 'config.py')])

p('P24', 'Autoscaling keeps the number of clients within its bounds and follows its policy',
  'With autoscaling, the initial number of clients is launched at the start; afterwards one client per period is launched while fewer than the minimum are running, or none is running and tasks remain, or, under the dynamic policy, fewer than the maximum are running and the task pressure exceeds one; and none is launched otherwise. '
  'Exited clients are no longer counted. A signal ends the cluster: no client is launched any more, the running ones are dismissed and the program ends; it ends with an error if a client cannot be launched or the server fails.',
  ['histories', 'configurations'],
  'all histories of client exits, task counts and pressures up to a depth, for all policies and size settings',
  'No test covers autoscaling.',
  ['cluster/remote.py', 'data/model.py'],
  [('autoscaler', 'cluster/remote.py:AutoScaler'), ('metrics', 'data/model.py:Task.task_pressure')])

p('P25', 'Every cluster mode starts its clients with the requested settings',
  'For every combination of options, the local, launcher, MPI, SSH and autoscaling clusters start a server and clients that both use the requested bundle size and wait, executors, template, timeouts, signal wait, confirmation, capture, delay, port and one common secret, and a server with the requested retries and modes (an autoscaling cluster always confirms and never stops by itself). '
  'A host list pattern expands to exactly the hosts it denotes, in order, each getting one client. '
  'Contradictory options, and modes that need a database when none is configured, are refused before anything is started or written; with --no-db the database is left alone.',
  ['inputs', 'configurations'],
  'all pairs of option values for every mode; all host patterns up to a bounded size',
  'No test builds a cluster command.',
  ['cluster/__init__.py', 'cluster/remote.py', 'cluster/ssh.py', 'cluster/local.py', 'client.py'],
  [('options', 'cluster/__init__.py:ClusterApp'), ('hosts', 'cluster/ssh.py:NodeList')])

p('P26', 'A database URL denotes exactly the configured connection',
  'For every valid combination of connection settings, the URL built from them, when parsed by the database library, yields exactly the same provider, user, password, host, port, database and parameters, whatever characters these contain. '
  'Invalid combinations are rejected, and the printed representation never reveals the password.',
  ['inputs', 'configurations'],
  'all combinations of present/absent settings with values over an alphabet including every reserved character',
  'The tests check a handful of URLs without special characters.',
  ['data/core.py'],
  [('encoding', 'data/core.py:DatabaseURL')])

p('P27', 'Server, client and submit options given on the command line take effect',
  'Every documented option of the server, client and submit commands takes effect as documented, overrides the configured value, and has the configured value of its own section as default; contradictory options are refused before anything is started or written. '
  'Options that exclude the database leave the database untouched.',
  ['inputs', 'configurations'],
  'all pairs of options with representative values for each command, with and without configured values',
  'No test runs a command.',
  ['server.py', 'client.py', 'submit.py', 'data/__init__.py'],
  [('server', 'server.py:ServerApp'), ('client', 'client.py:ClientApp'), ('submit', 'submit.py:SubmitApp')])

p('P28', 'Waiting for a task returns exactly when it has finished, with its result',
  'Waiting for a task (or running one and waiting) returns only when the task has completed, no later than one polling interval after, reports its exit status when asked to, and shows exactly its own captured output. '
  'A task that is cancelled or deleted while being waited for does not make the command wait forever.',
  ['schedules', 'histories'],
  'all histories of the waited-for task up to a depth at every polling offset',
  'No test covers waiting.',
  ['task.py'],
  [('wait', 'task.py:TaskWaitApp'), ('run', 'task.py:TaskRunApp'), ('info', 'task.py:TaskInfoApp')])

p('P29', 'Initialising keeps all data; truncating happens only when confirmed',
  'Initialising the database, by command, by option or automatically with SQLite, creates the tables that are missing and changes nothing that is stored. Truncating removes all tasks and clients and nothing else, only when confirmed by option or by an affirmative answer on a terminal; any other answer, or none, leaves everything as it was. '
  'Without SQLite and unless asked to initialise, no program creates tables: it is refused before it starts anything.',
  ['inputs', 'histories'],
  'all sequences of initialisations and truncations with every kind of answer on every kind of database; every program on every kind of database',
  'No test initialises or truncates a database.',
  ['data/__init__.py', 'server.py', 'submit.py', 'task.py', 'cluster/__init__.py'],
  [('initdb', 'data/__init__.py:InitDBApp'), ('truncate', 'data/__init__.py:truncatedb'), ('ensure', 'data/__init__.py:ensuredb')])

p('P30', 'A lost server or failing database ends every program with an error, not a hang',
  'When the server is killed, at any moment, every client that was connected to it ends by itself with an error: within a heartbeat period and the polling of its threads if idle, or as soon as the tasks it is running are done. When a database operation of the server fails, or writing a failed task to the failure stream, the server ends with an error promptly (not at the end of its input), and so do its clients. '
  'The same holds for a cluster. Restarting on the same database then completes every task and changes no result recorded before.',
  ['crash points', 'faults', 'interleavings'],
  'the server killed at every step of every explored execution, every single database operation failing, every write to the failure stream failing, with clients busy and idle, more tasks than they can hold, schedules up to the bound',
  'The tests run healthy programs only.',
  ['server.py', 'client.py', 'core/thread.py', 'cluster/local.py'],
  [('threads', 'core/thread.py:Thread.join_with'), ('server', 'server.py:ServerThread'), ('client', 'client.py:ClientThread')])

p('P31', 'The captured output of a task is shown exactly as its recorded run wrote it',
  'Asking for the captured output or errors of a task prints, byte for byte, what the run recorded for it wrote, on the stream asked for and nothing else, whether it ran on this machine, in another site or on another host (reached as configured for SSH), and also after it was run again elsewhere. '
  'If that cannot be had (it never ran, the host or file is gone, the transfer breaks at any point), the program ends with an error and prints nothing wrong, and asking again later gives the complete output. Two programs asking at the same time do not disturb each other.',
  ['histories', 'crash points', 'inputs', 'interleavings'],
  'all histories of runs, reverts, requests, broken requests and lost files up to a depth; a transfer broken or the program killed at every chunk',
  'No test asks for captured output.',
  ['task.py', 'core/remote.py'],
  [('output', 'task.py:TaskInfoApp.print_file'), ('fetch', 'core/remote.py:SSHConnection.get_file')])

p('P32', 'Only programs given the same key work together',
  'A client works with a server exactly if both were given the same authentication key, character by character, whichever way each was given it (option, environment variable, configuration file), including keys that look like a number or a truth value. '
  'A client with any other key ends promptly with an error: it never uses a queue, runs a task or is registered, and whenever it tries, the server and the clients with the right key carry on and complete every task. The queue interface made from the configuration has the configured address and key.',
  ['inputs', 'configurations', 'interleavings'],
  'all pairs of ways of giving the key x keys that are equal, differ in one character or read as the same number, with and without database; wrong-key clients arriving before, during and after others at every schedule within the bound',
  'The tests never start a server.',
  ['core/queue.py', 'core/config.py', 'server.py', 'client.py'],
  [('key', 'core/queue.py:QueueInterface.__init__'), ('settings', 'core/config.py:reload_env'), ('server', 'server.py:ServerApp'), ('client', 'client.py:ClientApp')])

p('P33', 'Messages tell what happened as configured, or the program ends with an error',
  'Every client says at level INFO exactly once for each task it starts, and when it starts it, which task that is, and nothing else; the server warns exactly once of each task that failed, naming it and its exit status, and of no other; a task that cannot be started or expanded is an ERROR; a program of the cluster ends with an error exactly if it has said why at CRITICAL. '
  'Exactly the messages at least as grave as the configured level are shown, each in the configured style, format and date format. '
  'A level, style or format that cannot be right ends every program at its start with status 3, a message and the traceback in a file. If a message cannot be formatted or written (a format with an unknown attribute, a standard error that breaks at any message, for ever or once), the program ends promptly with an error, never a hang; the others go on as when a program dies, and a restart completes every task.',
  ['interleavings', 'faults', 'configurations'],
  'every single message as the point where standard error breaks, all schedules up to the bound, all levels x styles x formats x sources of the setting',
  'The tests never run a program with its messages on.',
  ['core/logging.py', 'core/thread.py', 'core/exceptions.py', 'core/config.py', 'client.py', 'server.py'],
  [('threads', 'core/thread.py:Thread.run'), ('handler', 'core/logging.py:StreamHandler.handleError'), ('style', 'core/config.py:get_logging_style'), ('task start', 'client.py:TaskExecutor.start_task')])

p('P34', 'Ctrl-C ends a program at once with status 4 and loses nothing',
  'A server, client, cluster (local, remote, autoscaling), submitting or waiting program whose user presses Ctrl-C at any moment (an interrupt of that program alone) ends at once, without waiting for its tasks or threads, says so at CRITICAL and has exit status 4; embedded, the KeyboardInterrupt reaches the caller. '
  'The other programs go on as when a program dies: the clients of an interrupted server end promptly, the server and the other clients of an interrupted client are not harmed. What is stored is a prefix of the input, recorded results stay as they are, and a restart completes every task, executing none again whose result had been recorded. A task submitted by an interrupted `hs task run` is still completed.',
  ['crash points', 'interleavings'],
  'the interrupt at every single step of any thread of the program, for every kind of program, under all base schedules',
  'No test runs or interrupts a program.',
  ['core/thread.py', 'core/queue.py', 'server.py', 'client.py', 'submit.py', 'cluster/local.py', 'cluster/remote.py', 'task.py', '__init__.py'],
  [('threads', 'core/thread.py:Thread.__init__'), ('server', 'server.py:serve_from'), ('client', 'client.py:run_client'), ('submit', 'submit.py:submit_from'), ('message', '__init__.py:Application')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
