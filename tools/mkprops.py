import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":hook}})
Q="aj_core/src/queue.rs"; A="aj_core/src/aj.rs"; J="aj_core/src/job/mod.rs"; R="aj_core/src/job/retry.rs"; M="aj_core/src/backend/mem.rs"; RD="aj_core/src/backend/redis.rs"; T="aj_core/src/backend/types.rs"; PL="aj_core/src/plugin/mod.rs"; PJ="aj_core/src/plugin/job_plugin.rs"; L="aj_core/src/lib.rs"; MC="aj_macro/src/lib.rs"; JC="aj_core/src/job/job_context.rs"; EX="aj_core/src/job/executable.rs"
p("C01","Every accepted job runs exactly once",
 "While the backend works, every job whose submission was acknowledged, and that nobody cancels, updates or resubmits, is executed exactly once (pre-execution, body and post-execution step, in that order and on the same value), with exactly the data it was submitted with, and is afterwards recorded as finished (as failed if its output counts as failed). The same holds for fire-and-forget submissions made to a running engine; a job whose data cannot be serialized is refused, not acknowledged.",
 ["schedules","inputs","configurations"],"every interleaving of any number of submitters, job types, queue ticks and job bodies; every job payload; every tick length and concurrency limit; stalled threads; backlogs larger than one fetch batch",
 "The existing tests never start a queue and execute a job through it: they cover the list primitives, single-job methods and one doc example. None samples an interleaving of submitters with the queue's tick.",
 [Q,A,J,L,M],[("enqueue / pick / execute pipeline","queue.rs run_with_config, try_pick_specific_ready_jobs, execute_job"),("single actor per queue serialises list updates","queue.rs WorkQueue"),("fire and forget","lib.rs Job::just_run, aj.rs JustRunJob")],
 observe=["Job::run / just_run result","Executable::execute calls","AJ::get_job"])
p("C02","Concurrent first use of a job type is safe",
 "Any number of callers may concurrently submit the first jobs of a type, waiting or fire-and-forget: every submission is accepted and its job executed, all of them are governed by one and the same queue and its settings, and the engine goes on accepting further jobs and further job types.",
 ["schedules"],"every interleaving of concurrent first submissions (of one or several types, waiting and fire-and-forget) with the engine's handling of them",
 "No test submits a job through the engine at all, let alone two racing first submissions; the race needs two callers to look for the queue before either has created it.",
 [A,Q],[("lazy queue registration","aj.rs AJ::enqueue_job, InitWorkQueue handler, AJ::register")],
 state=[{"name":"queue registry","meaning":"job type -> queue address","where":"aj.rs QUEUE_REGISTRY"}],observe=["Job::run result","Executable::execute calls","in-flight executions after AJ::update_work_queue"])
p("C03","The concurrency limit is never exceeded",
 "At no instant are more jobs of one type executing than the queue's configured maximum. After a change of the maximum has been acknowledged no job is started beyond the new value, and a failing backend read never lifts the limit.",
 ["schedules","configurations","fault_sequences"],"every interleaving of submissions, completions, retries, cron re-runs and configuration changes; every limit (including 0 and 1) and backlog size; transient backend read errors",
 "No test runs more than one job, and none sets the limit; exceeding it needs completions, re-queues and ticks to line up, or a failing read at a tick.",
 [Q],[("processing list length gates picking","queue.rs pick_jobs_to_process"),("batch cut-off while picking","queue.rs try_pick_specific_ready_jobs"),("live configuration","queue.rs UpdateWorkQueue")],
 state=[{"name":"processing list","meaning":"ids of picked, not completed jobs","where":"backend list of status Running"}],observe=["Executable::execute start/end"])
p("C04","Scheduled jobs never start early",
 "A job submitted with a delay or a start time does not start executing before that time has been reached by the wall clock (to the microsecond precision of the stored time), whatever the clock does in between and however often it is looked at, stored and reloaded.",
 ["schedules","inputs","fault_sequences"],"every schedule time (past, present, sub-millisecond, far future), tick phase, backlog, interleaving, and every forward or backward jump of the wall clock",
 "The one test builds a job one second ahead and asks once whether it is ready; it never runs a queue, crosses the boundary, reloads the job or moves the clock.",
 [J,JC,Q],[("due check at pick time","job/mod.rs Job::is_ready"),("persisted schedule","job_context.rs JobType serialisation")],observe=["Executable::execute start vs. wall clock"])
p("C05","Due jobs start within a bounded time",
 "Whenever a queue has spare capacity and holds a due job, some due job is started within a few ticks (of the length the queue is configured to), so a finite backlog always drains; jobs that are not due yet, however many and wherever they sit in the queue, do not delay those that are due, and under a continuing stream of new jobs no due job is passed over for ever. The queue keeps doing so for as long as the process lives.",
 ["schedules","configurations","inputs"],"every mix and order of due and not-yet-due jobs, backlog sizes below, at and above the fetch batch, limits, tick lengths, live configuration changes and thread stalls (bounds are taken after the last stall)",
 "No test drives the picking loop; a starvation needs a particular mix of not-due and due jobs around the batch boundary.",
 [Q],[("scan of the whole waiting list per tick","queue.rs try_pick_specific_ready_jobs"),("self re-arming tick","queue.rs process_jobs")],observe=["Executable::execute start times"])
p("C06","Automatic retry follows the declared policy",
 "A job with a retry policy whose output counts as failed is executed again until it succeeds or its maximum number of retries is used up, never more and never fewer times, and is then recorded as finished or failed respectively; without a maximum it is retried for ever (a job type that decides about retries itself is run again exactly when it asks for it, no sooner than it asks). Retry number k starts no sooner than the interval (interval policy) or the initial backoff times 2^k, capped at 2^31 (exponential policy) after the failed execution ended, and within a few ticks of that.",
 ["inputs","schedules","configurations"],"every policy, limit (0, n, none), interval, sequence of outcomes, and interleaving with other jobs and callers, over arbitrarily long retry histories",
 "Tests call the policy arithmetic for three steps on an isolated object; no retry is ever stored, reloaded, scheduled and executed, and long histories (where the exponent overflows) are never reached.",
 [R,EX,Q,J],[("retry decision and backoff","retry.rs should_retry, retry_at; executable.rs retry_at"),("re-queue as scheduled job","queue.rs execute_job, re_enqueue")],observe=["Executable::execute start/end","AJ::get_job status and run count"])
p("C07","Cron jobs run on their schedule and within their limits",
 "A cron job whose expression has a future instant starts (automatic retries of a failed run aside) only after a matching instant has passed since it was submitted or last completed, at most once per such instant and never overlapping itself, and within a few ticks of that instant. It keeps running for as long as the expression has future instants, also across failed or retried runs, but never more often than its maximum number of repeats and never after its end time. The run after which these limits or the expression allow no other leaves it recorded as completed.",
 ["inputs","schedules","configurations"],"every cron expression (including ones that run out), repeat limit, end time, run duration (shorter or longer than the period), failure and retry sequence, and interleaving",
 "The single cron test only constructs a job and checks that it is not ready; no tick, repeat, limit or failure of a cron job is ever executed.",
 [J,JC,Q],[("slot check","job/mod.rs Job::is_ready"),("next slot","job/mod.rs Job::next_tick, job_context.rs JobType::new_cron"),("re-queue","queue.rs execute_job")],observe=["Executable::execute starts vs. wall clock","AJ::get_job status"])
p("C08","A cancelled job does not run",
 "Cancelling a job that is waiting (new, delayed, between cron runs or waiting for a retry) takes effect at once: when the call returns the job is recorded as cancelled, and it never executes again unless somebody submits, updates or retries it afterwards. Cancelling a job that is executing, completed or unknown changes nothing.",
 ["schedules","histories"],"every interleaving of cancellations with ticks, executions, completions and other callers, for every job kind",
 "No test cancels a job.",
 [Q,J,A],[("cancel only queued jobs, then drop the id","queue.rs WorkQueue::cancel_job"),("single actor orders cancel against picking","queue.rs CancelJob handler")],observe=["AJ::cancel_job","AJ::get_job","Executable::execute calls"])
p("C09","An update is atomic and keeps the job's history",
 "When an update of a waiting job returns, every later execution uses the new data, and unless a new context was given (which then applies, but never to another job, and whose status is ignored) the job's schedule, retry budget, repeat count and run count are untouched; an update never makes a waiting job run an extra time or lose a run. An update that meets a running job leaves that run and the stored job alone, one that meets a completed job runs it again once with the new data, and readers and executions only ever see one submitted version as a whole.",
 ["schedules","histories"],"every interleaving of updates with ticks, executions, cron re-runs, retries and other updates of the same job",
 "No test updates a job; the dangerous interleavings are those where the job is picked, retried or re-queued while the update is in flight.",
 [A,Q],[("read-modify-write of the stored job","aj.rs AJ::update_job, queue.rs run_with_config")],observe=["AJ::update_job","AJ::get_job","data seen by Executable::execute","number of executions"])
p("C10","Resubmission and manual retry act once, on completed jobs only",
 "A manual retry reports success exactly if the job is completed (finished, failed or cancelled), and then the job is executed exactly once more (plus automatic retries); otherwise it reports false and changes nothing. Submitting an id again while it waits leaves one pending execution with the newest data, while it runs is ignored, and once it is completed executes it exactly once more with the new data; a submission that asks not to re-run completed jobs or not to override stored data does exactly that and never leaves a job recorded as waiting that will not run.",
 ["schedules","histories"],"every interleaving of manual retries and submissions of the same id by several callers with ticks, executions and completions",
 "No test resubmits or manually retries a job; double or lost executions need two callers or a tick to interleave.",
 [Q,A],[("status-guarded re-enqueue","queue.rs retry_job, run_with_config, re_enqueue")],observe=["AJ::retry_job result","Job::run result","number of executions and their data"])
p("C11","The reported state of a job is truthful",
 "What a query returns always matches what happened: an accepted job is found at once and never disappears, its data and context are those last stored, its timestamps tell when it was created, enqueued, started, completed or cancelled, it is reported running whenever it executes, completed only after its execution ended and with the status its outcome calls for, and its run count equals the number of executions. Statuses move only along queued to running, running to finished, failed or (retry, cron) queued, queued to cancelled, and completed to queued.",
 ["schedules","histories","inputs"],"every query at every point of every interleaving of submissions, executions, retries, cron runs and cancellations; every job payload and context",
 "No test queries a job through the engine; single-job methods are tested outside a queue.",
 [J,Q,T,JC],[("persist on every transition","job/mod.rs enqueue, process, finish, fail, cancel"),("serialised storage","backend/types.rs upsert_to_storage, get_from_storage")],observe=["AJ::get_job","backend storage","Executable::execute start/end"])
p("C12","Plugin hooks fire exactly once around every execution",
 "For every registered plugin each execution (its pre- and post-execution steps included) of a job registered after it is preceded by exactly one completed before-run call and followed by exactly one after-run call for that job, and every status change of the job is announced exactly once with the new status. Slow or panicking hooks, panicking jobs, several plugins and concurrent jobs do not change that (the engine running within an actix runtime, which plugins require).",
 ["schedules","inputs"],"every interleaving of concurrently executing jobs, retries, several plugins, slow and panicking hooks",
 "The hook tests call one plugin object directly (and two of the three call the wrong hook); none observes hooks of an executed job.",
 [PL,PJ,J],[("hook messages around execute","job/mod.rs Job::execute; plugin/mod.rs PluginCenter::before, after, change_status"),("fan-out to plugins","plugin/mod.rs RunHook and ChangeStatus handlers")],observe=["JobPlugin callbacks","Executable::execute start/end"])
p("C13","Concurrent starts yield one engine",
 "However many threads start the engine concurrently, with or without a running actix runtime, exactly one engine results: every call returns its address, it is the one every later call uses, and a job submitted from any thread after any start has returned is accepted by it, found by queries and executed once (also after the runtime that started the engine has ended).",
 ["schedules"],"every interleaving, at the level of individual atomic operations, of concurrent start, look-up and first submission calls on several threads, each with no runtime, an actix or a tokio runtime",
 "The start tests are only reliable with a single test thread (they race otherwise), so concurrent starts are precisely what they avoid.",
 [A],[("global engine address","aj.rs AJ::start, get_aj_address")],state=[{"name":"engine address","meaning":"the one engine of the process","where":"aj.rs AJ_ADDR"}],observe=["AJ::start result","get_aj_address"])
p("C14","The in-memory backend is linearizable",
 "Operations of the in-memory backend called concurrently from several threads behave as if executed one at a time in some order consistent with their real-time order, each having exactly the effect of the corresponding list or map operation: nothing is lost, duplicated, reordered or visible half-done, and a move is a single atomic step.",
 ["schedules","histories"],"every interleaving, at the level of individual atomic operations, of concurrent pushes, moves, removals, reads, counts, upserts and gets",
 "The tests are single-threaded and touch each operation with one or two items.",
 [M,T],[("one mutex around all lists, one around all maps","mem.rs InMemory")],observe=["Backend trait results"])
p("C15","The Redis backend honours the same contract under network faults",
 "Every operation of the Redis backend that reports success has exactly the effect and result of the corresponding list or map operation of the backend contract, whatever connections were refused, cut, slowed or fragmented before. An operation that reports an error has taken effect completely or not at all (a multi-item move: for a prefix of its items), and the next operation on a healthy network works.",
 ["fault_sequences","histories","inputs"],"every sequence of operations, items, counts and directions, and every placement of refused connections, resets before or after the server applied a command, short reads and writes and interrupted calls",
 "All Redis tests are ignored (they need a server), and none injects a fault.",
 [RD,T],[("connection per operation, errors propagated","redis.rs"),("direction mapping","redis.rs From<QueueDirection>, lrange")],observe=["Backend trait results","server-side lists and hashes"])
p("C16","Backend errors neither lose nor duplicate jobs",
 "If backend calls fail without effect for a while, the engine and its queues keep running; every submission acknowledged meanwhile is executed once the faults stop, no one-shot job is executed twice, and a submission, cancellation, update or retry that could not reach the backend reports an error rather than success. Errors while jobs are being picked only delay them: no picked job is dropped, none waits for ever and no capacity is lost.",
 ["fault_sequences","schedules"],"every placement of failing backend calls (reads, list updates, stores) over submissions, ticks and queries, in every interleaving",
 "The in-memory backend never fails and no test supplies a failing one.",
 [Q,T,J],[("error propagation","queue.rs try_pick_specific_ready_jobs, enqueue, re_enqueue; types.rs get_from_storage"),("tick re-armed after errors","queue.rs process_jobs")],observe=["API results","Executable::execute calls","AJ::get_job"])
p("C17","Accepted jobs survive a crash of the process",
 "With a durable backend, after the process dies at any point and is started again, every job that had been acknowledged and was still waiting is executed exactly once, with its data, schedule, retry budget and repeat count intact, as soon as its queue is in use again. Jobs recorded as completed or cancelled before the crash are not executed again. An update or cancel of a waiting job made after the restart, before its queue is in use again, either takes effect or reports an error.",
 ["crash_points","schedules","fault_sequences"],"every crash point (between any two backend calls and between any two scheduling steps), repeated crashes, every job kind, both with a custom durable backend and with Redis",
 "No test restarts anything, and the tested backend is not durable.",
 [Q,T,J,RD],[("all state in the backend","queue.rs, types.rs"),("id pushed and job stored before the submission is acknowledged","queue.rs enqueue")],observe=["Executable::execute calls across incarnations","AJ::get_job after restart"])
p("C18","Jobs and job types do not interfere",
 "A job that fails, panics or never returns affects only itself: a panicking job is recorded as failed and frees its slot, and other jobs of its type go on being accepted, executed and queryable; nor does a stored record that cannot be read as a job of its type (an older program's, say) hold up any other job. Queues of different types have independent backlogs, limits and settings; a job is only ever executed by the queue of its own type.",
 ["schedules","inputs"],"every mix of failing, panicking, hanging and well-behaved jobs over several types, in every interleaving",
 "No test runs two jobs, two types, or a panicking job.",
 [Q,A],[("one actor and arbiter per job type","queue.rs start_with_name"),("task per execution","queue.rs execute_job_task")],observe=["Executable::execute calls","API results"])
p("C19","Macro-declared jobs deliver their arguments",
 "Calling the run, just_run, run_with_context or just_run_with_context function generated for a declared job function executes that function exactly once with exactly the given arguments, each in its own position, after storage and reload; the context given is the one stored and honoured.",
 ["inputs","schedules"],"every argument value, sync and async functions of several arities and types, concurrent callers",
 "The only test is a doc example that prints.",
 [MC,L],[("generated struct, constructor and call","aj_macro/src/lib.rs job")],observe=["calls of the declared function","AJ::get_job"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
