"""Which harnesses and replay programs decide which property."""
NOOVER = 'the number of tokens stays below the limit of the system (SEM_VALUE_MAX)'
COUNT = 'containers hold fewer than 2^31 elements'
ASK = [('sched.cpp', 'H_wait_[0-9]+|H_ask', 'H_inl_[0-9]+')]
PROPS = {
    'C01': dict(harness=[('partitioners.cpp', ['H_C01_.*'])], replay=['partitioners.cpp'],
                assumptions=['the ticket does not overflow (fewer than 2^31 calls on one partitioner)', 'maxBatches >= 1', 'last-first fits in int32_t']),
    'C02': dict(harness=[('partitioners.cpp', ['H_C02_.*'])], replay=['partitioners.cpp'],
                assumptions=['grain >= 1', 'last-first fits in int32_t']),
    'C19': dict(harness=[('sync.cpp', ['H_C19_.*'])], assumptions=[NOOVER]),
    'C20': dict(harness=[('sync.cpp', ['H_C20_.*'])], assumptions=[NOOVER, 'the window between the take and the re-post of a manual-reset event is not observed (known finding)']),
    'C21': dict(harness=[('sync.cpp', ['H_C21_.*'])], assumptions=[NOOVER]),
    'C22': dict(harness=[('sync.cpp', ['H_C22_.*'])], assumptions=['one process per creation step: a name is not removed and created by others between two steps of one constructor where stated']),
    'C23': dict(harness=[('sync.cpp', ['H_C23_.*'])], assumptions=['the deadline is representable by the system (time_t seconds)', 'the real-time clock is not set back during the call']),
    'C04': dict(harness=[('tasks.cpp', ['H_C04_.*']), ('groups.cpp', ['H_par_execute.*', 'H_par_activeWait', 'H_seq_execute.*', 'H_st_.*'])]),
    'C05': dict(harness=[('tasks.cpp', ['H_C05_.*'])]),
    'C06': dict(harness=[('tasks.cpp', ['H_C06_.*'])]),
    'C26': dict(harness=[('tasks.cpp', ['H_C26_.*'])]),
    'C29': dict(harness=[('tasks.cpp', ['H_C29_.*'])]),
    'C07': dict(harness=[('groups.cpp', ['H_par_.*'])], assumptions=[COUNT, 'nobody adds a task to a group that is being executed']),
    'C08': dict(harness=[('groups.cpp', ['H_par_execute_limited', 'H_par_done_limited.*', 'H_par_execute', 'H_par_execute_ff', 'H_add_parallel_first'])],
                assumptions=[COUNT, 'the limit statement is for groups nobody actively waits on, as documented']),
    'C09': dict(harness=[('groups.cpp', ['H_seq_.*'])], assumptions=[COUNT, 'the tasks of a sequence are run through the sequence only']),
    'C10': dict(harness=[('groups.cpp', ['H_add_.*'])], assumptions=[COUNT]),
    'C16': dict(harness=[('contexts.cpp', ['H_C16_.*']), ('groups.cpp', ['H_par_execute.*', 'H_seq_execute.*'])],
                assumptions=['context lists of length 0, 1, 2, 3 and 5 are instantiated (template recursion: each length is separate code)']),
    'C18': dict(harness=[('queue.cpp', ['H_C18_.*'])], native_flags=['-DVF_NATIVE_MUTEX'], assumptions=['the lock is a std::mutex; std::mutex and std::queue are trusted', 'fewer than 2^40 elements pass through a queue']),
    'C27': dict(harness=[('groups.cpp', ['H_st_.*'])], assumptions=[COUNT]),
    'C11': dict(alternatives=ASK, harness=[('sched.cpp', ['H_wait_[0-9]+', 'H_ask'])], assumptions=['the queues are linearizable (C18)']),
    'C12': dict(harness=[('sched.cpp', ['H_add.*'])], assumptions=['the task is not finished, and so not taken out of its group, by an active waiter while add looks for its priority (known finding)', COUNT]),
    'C13': dict(alternatives=ASK, harness=[('sched.cpp', ['H_add', 'H_wait_[0-9]+', 'H_ask']), ('worker.cpp', ['H_worker_wake'])], assumptions=['the queues are linearizable (C18)', COUNT]),
    'C14': dict(alternatives=ASK, harness=[('sched.cpp', ['H_start', 'H_stop', 'H_destroy', 'H_wait_[0-9]+', 'H_ask']), ('worker.cpp', ['H_run', 'H_worker_start', 'H_worker_stop', 'H_worker_join', 'H_worker_delete'])], assumptions=[COUNT]),
    'C15': dict(harness=[('worker.cpp', ['H_run', 'H_worker_start'])], assumptions=['the scheduler behaves as its contract says (shown under C11/C13/C14)']),
    'C17': dict(harness=[('worker.cpp', ['H_C17_.*', 'H_worker_start'])], assumptions=['a configuration asks for at least one worker', 'fewer than 10^9 workers per configuration']),
    'C24': dict(harness=[('threads.cpp', ['H_C24_.*'])], assumptions=['the pthread functions behave as POSIX says', 'the new thread runs as a whole either within pthread_create or after it (its steps and those of its creator touch nothing in common, which is checked)']),
    'C25': dict(harness=[('threads.cpp', ['H_C25_.*'])], assumptions=['the real-time priorities of the system are 1 to 99 (Linux)', 'a mask names processors that exist, or all', 'at most 1024 processors']),
    'C03': dict(harness=[('helpers.cpp', ['H_C03_.*', 'H_C28_for_.*', 'H_C28_each.*'])], assumptions=['the ranges are those of the partitioner (C01, C02); all tasks of the group have run when the active wait of the group returns (C04, C05, C07)', 'the functor lets itself be copied']),
    'C28': dict(harness=[('helpers.cpp', ['H_C28_.*'])], assumptions=['groups of 1 to 4 tasks are instantiated (template recursion: each number is separate code)', COUNT]),
    'C30': dict(harness=[('sched.cpp', ['H_idle', 'H_wait_idle_.*'])], assumptions=[COUNT, 'periods and maximum times are representable in nanoseconds'],
                note='waitUntilIdle is proved for nanoseconds and milliseconds/seconds with the looks of isIdle over the queues; the worker part of a look is proved for isIdle itself'),
}
for _c in PROPS.values():
    _c.setdefault('replay', ['api.cpp'])    # scenarios over the public interface, when a contract fails or no longer fits
