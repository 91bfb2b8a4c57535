#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable in one place)."""
import json, os
I = 'include/oqpi/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],
            state=[dict(name=a, meaning=b, where=I+c) for a, b, c in state],
            mechanism=[dict(name=a, where=I+b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p('C01', 'Fixed partitioner: the batches are an exact, balanced cover of the range',
  'For every first <= last (last-first representable) and every maxBatches >= 1, the ranges a simple_partitioner hands out to all its callers together are min(last-first, maxBatches) non-empty consecutive ranges that are pairwise disjoint and whose union is exactly [first,last). Their sizes differ by at most one. Each range is handed to exactly one caller however the callers interleave, after which every call answers false, and a copy goes on from where the original is.',
  ['inputs', 'schedules'], 'all 32-bit first/last/maxBatches with a representable count, any number of concurrent callers, any interleaving (up to 2^31 calls in total)',
  'The tests run a handful of fixed sizes through one thread-pool schedule and only look at a final sum; arithmetic corner cases (remainders, non-zero first index, extreme counts) and interleavings are not reached.',
  ['parallel_algorithms/simple_partitioner.hpp', 'parallel_algorithms/base_partitioner.hpp'],
  [('atomic batch ticket + closed-form batch bounds', 'parallel_algorithms/simple_partitioner.hpp'), ('clamped batch count', 'parallel_algorithms/base_partitioner.hpp')],
  [('batchIndex_', 'next ticket', 'parallel_algorithms/simple_partitioner.hpp')], ['getNextValidRange results'])

p('C02', 'Dynamic partitioner: grabbed ranges are an exact cover within the grain',
  'For every first <= last (last-first representable) and grain >= 1, the ranges an atomic_partitioner hands out to all its callers together are non-empty, never longer than the grain, pairwise disjoint and cover exactly [first,last), whatever first is. A call answers false only when no index is left, and no index is handed to two callers however they interleave. A copy goes on from where the original is.',
  ['inputs', 'schedules'], 'all 32-bit first/last/grain with a representable count, any number of concurrent callers and any interleaving',
  'The existing tests only start at index 0 and compare one total; they cannot reach the CAS interleavings nor a non-zero first index.',
  ['parallel_algorithms/atomic_partitioner.hpp', 'parallel_algorithms/base_partitioner.hpp'],
  [('compare-exchange on the shared index', 'parallel_algorithms/atomic_partitioner.hpp')],
  [('sharedIndex_', 'first index not handed out yet', 'parallel_algorithms/atomic_partitioner.hpp')], ['getNextValidRange results'])

p('C03', 'parallel_for calls the functor exactly once per index, then returns',
  'parallel_for over a valid partitioner makes one task per batch, all bound to one group and all drawing from one shared copy of the partitioner; a batch task calls the functor once for every index of every range it draws, with its own batch number when the functor takes one, and stops when the partitioner is exhausted. parallel_for submits that group exactly once and then actively waits for it, so that it returns only after all calls were made; with an invalid (empty) partitioner nothing is created, submitted or called.',
  ['inputs', 'schedules'], 'all batch counts, all ranges a partitioner may hand out, any functor with or without batch index',
  'Tests compare a total for one size; a duplicated plus a missed index, a wrong batch number or an early return can cancel out or not show on a given schedule.',
  ['parallel_algorithms/parallel_for.hpp', 'scheduling_helpers.hpp'],
  [('batch task body', 'parallel_algorithms/parallel_for.hpp'), ('group creation loop', 'parallel_algorithms/parallel_for.hpp')], (), ['functor calls', 'scheduler add', 'active wait'])

p('C04', 'A task is run by at most one thread: the claim is exclusive',
  'A task can be claimed (tryGrab) successfully at most once in its life, by exactly one of any number of concurrent claimers, and a claim is never given back. Whoever runs a task (a worker, an active waiter, a group running its own tasks, single-threaded execution) has claimed it first, so the function of a task runs at most once.',
  ['schedules', 'histories'], 'any number of threads claiming, submitting, actively waiting and executing the same task in any order',
  'A double run needs two threads inside the claim window at once; the tests never race two claimers on one task on purpose.',
  ['scheduling/task_base.hpp', 'scheduling/task.hpp', 'scheduling/task_handle.hpp', 'scheduling/parallel_group.hpp', 'scheduling/sequence_group.hpp', 'scheduling/scheduler.hpp'],
  [('compare-exchange false->true on the claim token', 'scheduling/task_base.hpp'), ('claim before execute at every call site', 'scheduling/task.hpp')],
  [('grabbed_', 'claim token', 'scheduling/task_base.hpp')], ['tryGrab result', 'executions of the task function'])

p('C05', 'Executing a task: hook, function, result, done, hook, notify, parent - in order',
  'Executing a claimed task calls its context pre-execute hook, then its function exactly once with the arguments bound when it was made, stores the result, only then becomes done, then calls the post-execute hook, then wakes the waiters, and finally tells its parent group (if any) exactly once that it finished and drops its reference to it. Single-threaded execution does the same without telling the parent and does nothing when the task was already claimed.',
  ['schedules', 'inputs'], 'every claimed task, with and without parent, void or value result, waitable or fire-and-forget, and observers at any point',
  'The order is only visible to a thread looking between two steps; tests look after everything is over.',
  ['scheduling/task.hpp', 'scheduling/task_base.hpp', 'scheduling/task_result.hpp', 'scheduling/task_group_base.hpp'],
  [('invoke()', 'scheduling/task.hpp'), ('notifyParent()', 'scheduling/task_group_base.hpp')],
  [('done_', 'set after the result is stored', 'scheduling/task_base.hpp')], ['hook / function / event / parent calls in order'])

p('C06', 'Waiting on a task returns only after it is done and yields its result',
  'wait, activeWait and waitForResult on a waitable task return only once the task is done, even when the underlying wait is interrupted by a signal; activeWait runs the task itself exactly when it obtains the claim and waits otherwise. getResult/waitForResult return the value the function returned, including after the finished task object was moved.',
  ['schedules', 'fault_sequences'], 'waiters arriving before, during or after execution; any number of spurious interruptions of the wait',
  'Interrupted waits and waiters racing with completion are never produced by the tests.',
  ['scheduling/task.hpp', 'scheduling/task_notifier.hpp', 'scheduling/task_result.hpp', 'synchronization/posix/posix_event.hpp', 'synchronization/posix/posix_semaphore_wrapper.hpp'],
  [('wait -> notifier -> event', 'scheduling/task_notifier.hpp'), ('interrupted waits resume', 'synchronization/posix/posix_semaphore_wrapper.hpp')], (), ['return of wait/activeWait/waitForResult'])

p('C07', 'Fork-join: a group finishes exactly once, when its last task has finished',
  'Executing a parallel group submits or runs every one of its tasks that nobody claimed yet; the first one is run by the executing thread itself if it can claim it. The group becomes done exactly once, on the completion of its last remaining task and not earlier, and then in this order: is marked done, post-execute hook, waiters woken, parent group told. Active waiting on it runs only tasks it claimed and returns only after the group is done.',
  ['schedules', 'inputs'], 'any number of tasks, completions in any order from any threads, helpers actively waiting',
  'Premature or double completion needs two completions to race; tests only see that a wait eventually returns.',
  ['scheduling/parallel_group.hpp', 'scheduling/task_group.hpp'],
  [('atomic remaining-task counter', 'scheduling/parallel_group.hpp'), ('notifyGroupDone()', 'scheduling/task_group.hpp')],
  [('activeTasksCount_', 'tasks not finished yet', 'scheduling/parallel_group.hpp')], ['group done notifications', 'tasks submitted/run'])

p('C08', 'A fork with a concurrency limit keeps to it and strands no task',
  'When a parallel group was made with a positive limit and nobody actively waits on it or on its tasks, at most that many of its tasks are submitted or running at any time, for every limit including 1. Every completion that leaves tasks unsubmitted submits one more task that nobody has claimed, each task is considered once, and none is left behind; without a limit all tasks are submitted at once.',
  ['schedules', 'inputs'], 'any limit >= 1, any number of tasks, completions in any order from any threads',
  'The tests never measure how many tasks are in flight and use one limit with one schedule.',
  ['scheduling/parallel_group.hpp'],
  [('atomic next-task index + budget in executeImpl', 'scheduling/parallel_group.hpp'), ('one replacement per completion in oneTaskDone', 'scheduling/parallel_group.hpp')],
  [('currentTaskIndex_', 'next task to submit', 'scheduling/parallel_group.hpp')], ['submissions per execute / completion'])

p('C09', 'A sequence runs its tasks one at a time in the order they were added',
  'A sequence group releases its first added task when it is executed, and each further task, in the order of addition, only on the completion of the one before it; each task is released exactly once. The completion of the last one makes the group done exactly once (marked done, post-execute hook, waiters woken, parent told, in this order).',
  ['histories', 'schedules'], 'any number of tasks added before execution, any thread completing each of them',
  'An order swap of independent tasks, or a task released before its predecessor ended, is rarely visible in a final result.',
  ['scheduling/sequence_group.hpp', 'scheduling/task_group.hpp'],
  [('FIFO of pending tasks, popped on execute and on each completion', 'scheduling/sequence_group.hpp')],
  [('tasks_', 'tasks not released yet', 'scheduling/sequence_group.hpp')], ['order of submissions'])

p('C10', 'Adding to a group binds the task exactly once and ignores invalid handles',
  'Adding a valid unbound task to a sequence or parallel group sets its parent to that group and tells the task context, then stores it as the last task of the group and accounts for it, then tells the group context with that task; each happens exactly once and no other task of the group changes. Adding an invalid handle changes nothing and calls no hook.',
  ['inputs', 'histories'], 'groups of any size, any valid unbound or invalid handle',
  'Tests add tasks from one code path only and never look at the binding, the accounting or the hooks.',
  ['scheduling/task_group.hpp', 'scheduling/parallel_group.hpp', 'scheduling/sequence_group.hpp', 'scheduling/task_base.hpp'],
  [('addTask()', 'scheduling/task_group.hpp')], (), ['hooks', 'group content', 'parent of the task'])

p('C11', 'Dispatch: highest eligible priority first, only claimed unfinished tasks',
  'A worker asking for work is given only a task taken from a queue whose priority it is registered for, that this worker itself has claimed and that is not done. During that scan it looks at the queues from the highest to the lowest priority and takes from one only after finding every higher one it is eligible for empty; a task it pops is either taken or dropped because somebody else claimed or finished it - never lost.',
  ['schedules', 'inputs', 'histories'], 'all worker priority masks, all queue contents, any interleaving with submitters, other workers and active waiters',
  'Priority inversions and lost tasks need a specific content of several queues and a race with other workers; the tests use one priority for nearly everything.',
  ['scheduling/scheduler.hpp', 'scheduling/worker_base.hpp'],
  [('waitForNextTask / signalAvailableWorker', 'scheduling/scheduler.hpp'), ('can_work_on_priority', 'scheduling/worker_base.hpp')],
  [('pendingTasks_', 'one queue per priority', 'scheduling/scheduler.hpp')], ['task assigned to the worker'])

p('C12', 'Submitting queues a task exactly once at its resolved priority',
  'Adding a task to the scheduler puts it exactly once into the queue of its own priority - or, when it inherits, of the nearest enclosing group that has a priority - if the handle is valid and the task is neither claimed nor done, and into no other queue; otherwise nothing is queued and nobody is woken. In every case a handle to the same task is returned.',
  ['inputs', 'schedules'], 'all priorities, group nestings of any depth, valid/invalid handles, tasks claimed or finished concurrently',
  'Tests do not inspect queues and use no deep priority inheritance.',
  ['scheduling/scheduler.hpp'],
  [('add() and resolveTaskPriority()', 'scheduling/scheduler.hpp')], (), ['queue pushes', 'returned handle'])

p('C13', 'No lost wake-up between submitting a task and a worker going to sleep',
  'After a task was queued every worker eligible for its priority is notified, and no notification precedes the queueing. A worker blocks only if, after the last wake-up token it consumed, it saw the scheduler running and found every queue it is eligible for empty; so a task submitted at any moment cannot be slept over by an eligible worker.',
  ['schedules'], 'any interleaving of one submission with the going-to-sleep of any worker, any number of workers, any eligibility masks',
  'A lost wake-up needs a submission inside a window of a few instructions and then shows as a hang, not a wrong value.',
  ['scheduling/scheduler.hpp', 'scheduling/worker.hpp'],
  [('push before notify', 'scheduling/scheduler.hpp'), ('drain tokens, then scan, then block', 'scheduling/scheduler.hpp')], (), ['order of queue and notifier operations'])

p('C14', 'Stopping joins every worker and abandons no claimed task',
  'Starting marks the scheduler running before it starts every worker exactly once. Stopping asks every worker to stop, then marks the scheduler stopped, then wakes every worker, then joins every worker, and the destructor stops a scheduler that still runs. However a stop interleaves with dispatch, a worker that already claimed a task runs it before it leaves, and a worker never tries to run a task it does not have.',
  ['schedules', 'histories'], 'any number of workers; a stop arriving at any point of the dispatch and execution of any worker',
  'A stop arriving between the claim and the execution of a task has a window of a few instructions; the tests stop an idle scheduler.',
  ['scheduling/scheduler.hpp', 'scheduling/worker.hpp'],
  [('start()/stop()/~scheduler()', 'scheduling/scheduler.hpp'), ('worker main loop', 'scheduling/worker.hpp')],
  [('running_', 'run flags of scheduler and worker', 'scheduling/worker.hpp')], ['worker start/stop/notify/join calls', 'executions of claimed tasks'])

p('C15', 'Worker life cycle hooks follow the documented protocol',
  'Each worker thread calls its context start hook once before anything else and its stop hook once after everything else; in between it repeats: idle hook, wait for work, active hook, and when it got a task: pre-execute hook, the task run exactly once, post-execute hook, all with that task, whose handle is released before the worker asks for work again. It goes on like that until it was asked to stop.',
  ['schedules', 'histories'], 'any number of iterations, tasks and stop requests',
  'The tests use contexts for timing only and never check the protocol over a whole worker life.',
  ['scheduling/worker.hpp', 'scheduling/worker_context.hpp'],
  [('run()', 'scheduling/worker.hpp')], (), ['hook calls'])

p('C16', 'Context containers call every hook of every context once, in declaration order',
  'For every task, group and worker event a context container forwards the event exactly once to each of its contexts, in the order they were declared, with the arguments unchanged, and forwards no other event; each context is constructed with the owner and arguments given to the container. An executed group calls its pre-execute hook before any of its tasks is released.',
  ['configurations', 'inputs'], 'any list of contexts and every hook',
  'The forwarding is generated per hook by templates; the tests check none of the forwarded calls or their order.',
  ['scheduling/context_container.hpp', 'scheduling/task_context.hpp', 'scheduling/group_context.hpp', 'scheduling/worker_context.hpp', 'scheduling/task_group.hpp'],
  [('recursive forwarding templates', 'scheduling/context_container.hpp')], (), ['hook calls'])

p('C17', 'Registering workers: counts, ids, names and eligibility match the configuration',
  'Registering a configuration of n workers makes exactly n workers carrying that configuration and raises by n the worker count of exactly the priorities contained in its mask and the total count by n. A worker is eligible for a priority exactly if its mask contains it; workers of a shared configuration are numbered 0..n-1 and named configuration name + number, a single worker keeps the plain name and has no number.',
  ['inputs', 'histories'], 'all masks and counts, any sequence of registrations',
  'The tests register the default configuration only.',
  ['scheduling/scheduler.hpp', 'scheduling/worker_base.hpp', 'scheduling/worker.hpp'],
  [('registerWorker', 'scheduling/scheduler.hpp'), ('can_work_on_priority, getName', 'scheduling/worker_base.hpp')], (), ['workersCount, workersTotalCount, getName, canWorkOnPriority'])

p('C18', 'The task queue is a linearizable FIFO protected by its lock',
  'Every operation of concurrent_queue takes effect atomically: a push appends exactly the given element, tryPop on a non-empty queue removes and returns the oldest one, on an empty one it answers false and leaves its argument alone, and empty() answers for one moment within the call. Every access to the underlying container happens with the lock held and the lock is free again on return.',
  ['schedules', 'histories'], 'any number of threads and operations, any element type movable and copyable',
  'No test accesses the queue from two threads on purpose; a missing lock mostly works on x86.',
  ['concurrent_queue.hpp'],
  [('lock_guard around each container operation', 'concurrent_queue.hpp')],
  [('queue_', 'elements, guarded by mutex_', 'concurrent_queue.hpp')], ['push / tryPop / empty'])

p('C19', 'Semaphore: tokens are conserved',
  'notify(n) adds exactly n tokens for n >= 0, notifyOne adds one, notifyAll adds the configured maximum; wait, tryWait and waitFor return true exactly when they consumed one token and false exactly when they consumed none. tryWait never blocks, wait on a valid semaphore returns only with a token whatever interruptions occur, and a new semaphore starts with its initial count.',
  ['schedules', 'inputs', 'fault_sequences'], 'all counts, any interleaving of waiters and notifiers, any interruptions and failures of the system calls',
  'The tests use counts of one and two and never produce an interruption or failure.',
  ['synchronization/posix/posix_semaphore.hpp', 'synchronization/posix/posix_semaphore_wrapper.hpp', 'synchronization/interface/interface_semaphore.hpp'],
  [('forwarding to sem_*', 'synchronization/posix/posix_semaphore_wrapper.hpp')], (), ['return values', 'token count'])

p('C20', 'Events: auto-reset releases one waiter per signal, manual-reset releases all',
  'wait/waitFor on an event return true only if it was signalled. An auto-reset event is un-signalled by the one wait it releases, and signalling an already signalled one does not accumulate; a manual-reset event stays signalled for all waiters until reset, which leaves it un-signalled and never blocks. A new event is not signalled.',
  ['schedules', 'histories'], 'any order of notify, wait, waitFor and reset by any threads',
  'Accumulated signals and blocking resets need specific orders of calls from several threads; the tests use one waiter.',
  ['synchronization/posix/posix_event.hpp', 'synchronization/interface/interface_event.hpp'],
  [('binary use of a counting semaphore', 'synchronization/posix/posix_event.hpp')], (), ['return values of wait/waitFor', 'signalled state'])

p('C21', 'Mutex: mutual exclusion, and unlocking twice does not create a second owner',
  'lock, tryLock, tryLockFor and their standard-library aliases answer true exactly when the caller became the owner, and at most one owner exists at any time; unlock by the owner frees the mutex, and unlocking a free mutex leaves it free for exactly one owner. A mutex made locked is owned at creation, one made unlocked is free.',
  ['schedules', 'histories'], 'any number of threads and any order of operations in which only the owner unlocks a held mutex',
  'The tests lock and unlock in one fixed order with two threads.',
  ['synchronization/posix/posix_mutex.hpp', 'synchronization/interface/interface_mutex.hpp'],
  [('binary semaphore and guarded post', 'synchronization/posix/posix_mutex.hpp')], (), ['return values', 'number of owners'])

p('C22', 'Sync objects: creation modes, ownership and naming of the OS object',
  'create_if_nonexistent succeeds only by creating the object, open_existing only by opening one that exists and never creates one, open_or_create does either; an object made by its name alone is opened if it exists and created otherwise; an initial count is applied only on creation; a failed creation leaves an invalid object that owns nothing. Each OS object is released exactly once by its last owner through moves and move-assignments (the overwritten object is released, the source becomes invalid), and the name is removed only by the object that created it.',
  ['inputs', 'histories', 'fault_sequences'], 'all creation modes, names, prior states of the name, failures of each system call, any sequence of moves',
  'The tests do not cover failures, other owners of the same name, or moving onto a valid object.',
  ['synchronization/posix/posix_semaphore_wrapper.hpp', 'synchronization/sync_common.hpp', 'synchronization/posix/posix_semaphore.hpp', 'synchronization/posix/posix_mutex.hpp', 'synchronization/posix/posix_event.hpp'],
  [('initLocal/initGlobalSemaphore, release, moves', 'synchronization/posix/posix_semaphore_wrapper.hpp')], (), ['system calls', 'isValid'])

p('C23', 'Timed waits: valid deadline, true exactly on acquisition',
  'waitFor on semaphores and events and tryLockFor on mutexes hand the system an absolute deadline equal to now plus the given duration, with a nanosecond part in [0,10^9), for every representable duration including negative ones; they resume after interruptions with the same deadline, return true exactly if a token was acquired and false on time-out or error. waitUntil/tryLockUntil wait for the remaining time.',
  ['inputs', 'fault_sequences'], 'all durations and current times whose sum is representable, all results of the system calls',
  'Whether the nanosecond sum carries depends on the clock at the time of the call; tests hit the carry by luck and do not check the deadline.',
  ['synchronization/posix/posix_semaphore_wrapper.hpp', 'synchronization/posix/posix_semaphore.hpp', 'synchronization/posix/posix_event.hpp', 'synchronization/posix/posix_mutex.hpp'],
  [('deadline computation', 'synchronization/posix/posix_semaphore_wrapper.hpp')], (), ['deadline handed to the system', 'return value'])

p('C24', 'Threads: function run once, launcher freed once, join and detach are safe',
  'A successfully created thread sets its name, then calls the given function exactly once with the given arguments, and the memory carrying them is freed exactly once, by the new thread on success and by the creator on failure; after a failed creation the object is not joinable. join and detach make a joinable thread non-joinable on success, joining a non-joinable thread or oneself has no effect, a moved-from thread is not joinable, and a thread object still joinable at destruction or when assigned to terminates the program.',
  ['inputs', 'fault_sequences', 'histories'], 'any function and arguments, failure of any system call, any sequence of thread operations',
  'Failures of thread creation or joining, and misuse, are not produced by the tests.',
  ['threading/interface_thread.hpp', 'threading/posix_thread.hpp'],
  [('launch()/launcher', 'threading/interface_thread.hpp'), ('create/join/detach/move', 'threading/posix_thread.hpp')],
  [('handle_', 'non-zero while joinable', 'threading/posix_thread.hpp')], ['calls of the function', 'pthread calls', 'joinable'])

p('C25', 'Thread attributes reach the operating system unchanged',
  'The stack size (when non-zero), the core affinity mask and, where the process is permitted real-time priorities, the priority requested for a thread are the ones handed to the operating system, however many processors the machine has, and the affinity and the priority read back are the ones that were set. The mapping of priorities to the system range is strictly monotone, reaches both ends of it and stays inside it, so distinct priorities stay distinct; setting an affinity to core n selects exactly core n.',
  ['inputs', 'configurations'], 'all attribute values, all system results',
  'The tests set one affinity and no priority; priority ranges are not observable without privileges.',
  ['threading/posix_thread.hpp', 'threading/interface_thread.hpp', 'threading/this_thread.hpp', 'threading/thread_attributes.hpp'],
  [('create(), set/get_core_affinity_mask, posix_thread_priority', 'threading/posix_thread.hpp')], (), ['pthread_attr_* / affinity / priority calls'])

p('C26', 'Task ids are unique and non-zero',
  'Every task and group gets an id that is not zero and differs from that of every other task or group made by any thread; creating a task leaves it unclaimed, not done and without parent. Moving a task transfers its id, priority, parent, claim and completion state, function, context, result and event unchanged.',
  ['schedules', 'histories'], 'any number (below 2^64) of tasks created by any threads in any interleaving',
  'A duplicated id needs two creations inside the increment; tests do not compare ids.',
  ['scheduling/task_base.hpp'],
  [('atomic id counter', 'scheduling/task_base.hpp')], [('uid_generator', 'next id', 'scheduling/task_base.hpp')], ['getUID'])

p('C27', 'Single-threaded execution runs a whole group once, in order, on the caller',
  'executeSingleThreaded on an unclaimed group claims it, calls its pre-execute hook, runs every task of the group single-threaded exactly once in order of addition on the calling thread, empties the group, calls the post-execute hook, marks it done and wakes its waiters; nothing is submitted to the scheduler. On a group that was already claimed it does nothing at all.',
  ['inputs', 'schedules'], 'groups of any size and kind, claimed or not',
  'No existing test calls it.',
  ['scheduling/task_group.hpp', 'scheduling/parallel_group.hpp', 'scheduling/sequence_group.hpp'],
  [('executeSingleThreaded / executeSingleThreadedImpl', 'scheduling/task_group.hpp')], (), ['task runs', 'hooks'])

p('C28', 'The scheduling helpers pass on type, name, priority, order and every task',
  'Every helper that makes or schedules tasks, forks, sequences or parallel loops creates them with the requested (or documented default: waitable, normal) type, context and priority, adds all given tasks to the group in argument order, submits exactly the object it returns exactly once, and the make_ helpers submit nothing. The index loops run over exactly the given range with one batch per eligible worker, and parallel_for_each hands the element of the container itself to the functor. start_default_scheduler registers the requested number of workers, for all priorities, on all cores and with the requested context, and then starts; stop_scheduler stops.',
  ['inputs', 'configurations'], 'all overloads and argument values',
  'The tests use a few overloads and cannot see priorities or the order of addition.',
  ['scheduling_helpers.hpp'],
  [('helpers<>', 'scheduling_helpers.hpp')], (), ['scheduler / group calls made by each overload'])

p('C29', 'Task handles share one task and forward every operation to it',
  'A handle is valid exactly if it refers to a task; copies refer to the same task, a moved-from or reset handle is invalid, and assigning a handle to itself changes nothing. Every operation on a valid handle is the same operation on its task, called once and with its result returned, and the task stays alive while any handle refers to it and is released when the last one goes.',
  ['histories', 'inputs'], 'any sequence of copies, moves, assignments, resets and operations',
  'Self-assignment, reference counts and the forwarding of each operation are not looked at by the tests.',
  ['scheduling/task_handle.hpp'],
  [('shared ownership and forwarding', 'scheduling/task_handle.hpp')], (), ['isValid, use count, calls on the task'])

p('C30', 'Idle detection answers idle only when nothing is queued or running',
  'isIdle answers true exactly if every priority queue is empty and every registered worker has no task, when the scheduler state does not change during the call. waitUntilIdle returns only after seeing the scheduler idle or after the maximum time has passed, sleeping for the requested period between looks.',
  ['inputs', 'histories'], 'any number of workers, any queue contents, any clock readings',
  'The tests do not call it (it could not even be compiled on this platform).',
  ['scheduling/scheduler.hpp', 'threading/posix_thread.hpp'],
  [('isIdle / waitUntilIdle', 'scheduling/scheduler.hpp')], (), ['return of isIdle/waitUntilIdle'])

p('C31', 'Liveness: every submitted task eventually runs',
  'If a scheduler with an eligible running worker is not stopped and all task functions terminate, then every submitted unclaimed task eventually runs, every group eventually finishes and every wait on it returns.',
  ['schedules', 'histories'], 'all fair schedules',
  'A liveness statement over infinite schedules cannot be sampled.',
  ['scheduling/scheduler.hpp', 'scheduling/worker.hpp', 'scheduling/parallel_group.hpp', 'scheduling/sequence_group.hpp'],
  [('whole scheduling subsystem', 'scheduling/scheduler.hpp')], (), ['completion'])

p('C32', 'Windows back ends give the same guarantees',
  'The semaphore, event, mutex and thread guarantees hold on Windows as on POSIX, with the same observable results for the same calls.',
  ['inputs', 'schedules', 'configurations'], 'all operations of the win_* implementations',
  'The tests only build the back end of the platform they run on.',
  ['synchronization/win/win_semaphore.hpp', 'synchronization/win/win_event.hpp', 'synchronization/win/win_mutex.hpp', 'threading/win_thread.hpp'],
  [('win_* classes', 'synchronization/win/win_semaphore.hpp')], (), ['Win32 calls'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
for x in P:
    if len(x['title']) > 80: print('LONG', x['id'], len(x['title']))
import re
for x in P:
    n = len(re.findall(r'\.(?:\s|$)', x['statement']))
    if n > 3: print(x['id'], 'sentences', n)
