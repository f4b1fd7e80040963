"""What each check runs: scenario groups (one executable each) and, per property, its scenarios and accepted verdicts.

A scenario reports a violation with the tag of the property that is broken.  A check accepts, in the scenarios written for
its property ("own"), every verdict about the component that the property describes; in further scenarios of the component
("more") only verdicts about the property itself.  Verdicts about every program (data race, deadlock, use after free,
crash, uncaught exception, livelock, leaked thread: tag "generic") are accepted everywhere.
"""

DT = ["datetime/date", "datetime/datetime", "datetime/time", "datetime/timedelta"]

# group: scenario source files, library sources linked with them
GROUPS = {
    "queue": (["queue"], []),
    "pool": (["pool"], ["thread_pool"]),
    "events": (["dispatcher"], ["event_dispatcher", "thread_pool"]),
    "sched": (["sched"], ["task_scheduler", "thread_pool"]),
    "timer": (["timer"], ["high_precision_timer"]),
    "observable": (["observable"], []),
    "clocks": (["clocks"], ["rate_limiter"] + DT),
    "wall": (["wall"], ["task_scheduler", "thread_pool", "high_precision_timer", "rate_limiter"]),
    "quit": (["quit"], ["signal_handler"]),
    "identity": (["identity"], ["uuid", "uuid_generator", "service_locator"]),
    "values": (["values"], ["uuid", "uuid_generator"] + DT),
    "args": (["args"], ["argparse/argument_parser"]),
    "long": (["longrun"], ["event_dispatcher", "high_precision_timer", "rate_limiter", "service_locator", "signal_handler",
                           "task_scheduler", "thread_pool", "uuid", "uuid_generator"]),
    "age": (["age"], ["event_dispatcher", "high_precision_timer", "rate_limiter", "signal_handler", "task_scheduler", "thread_pool"]),
    "own": (["own"], ["event_dispatcher", "high_precision_timer", "service_locator", "signal_handler", "task_scheduler", "thread_pool", "argparse/argument_parser"]),
    "memory": (["memory"], ["event_dispatcher", "high_precision_timer", "signal_handler", "task_scheduler", "thread_pool"]),
    "streams": (["streams"], ["argparse/argument_parser", "uuid", "uuid_generator"] + DT),
    "idle": (["idle"], ["event_dispatcher", "high_precision_timer", "rate_limiter", "signal_handler", "task_scheduler", "thread_pool"]),
    "many": (["many"], ["event_dispatcher", "high_precision_timer", "rate_limiter", "task_scheduler", "thread_pool"]),
    "nest": (["nest"], ["event_dispatcher", "high_precision_timer", "task_scheduler", "thread_pool"]),
    "mixed": (["mixed"], ["event_dispatcher", "high_precision_timer", "rate_limiter", "service_locator", "signal_handler",
                          "task_scheduler", "thread_pool", "uuid", "uuid_generator"] + DT),
}

QUEUE = ["C01", "C02", "C03"]
POOL = ["C04", "C05", "C06"]
EVENTS = ["C08", "C09", "C10", "C11"]
SCHED = ["C12", "C13", "C14", "C15", "C16"]
TIMER = ["C17", "C18", "C19"]
OBS = ["C20", "C21"]

# property: (component verdicts accepted in own scenarios, {own scenario: weight}, {further scenario: weight})
CHECKS = {
    "C01": (QUEUE, {"queue.lin.int": 3, "queue.lin.string": 2, "queue.lin.big": 2, "queue.stream.int": 1, "queue.stream.string": 1},
            {"queue.fault.risky": 1, "queue.backlog": 1, "long.queue": 1}),
    "C02": (QUEUE, {"queue.stream.int": 3, "queue.stream.string": 2, "queue.lin.int": 2}, {"queue.fault.string": 1, "queue.backlog": 1, "long.queue": 1}),
    "C03": (QUEUE, {"queue.fault.risky": 3, "queue.fault.string": 2}, {"queue.lin.string": 1}),
    "C04": (POOL + ["C30"], {"pool.tasks": 3, "pool.allocfail": 2, "pool.reentrant": 1}, {"pool.lifecycle": 1, "pool.held": 1, "pool.stop": 1, "pool.fifo": 1, "pool.backlog": 1, "long.pool": 1, "age.pool": 1}),
    "C05": (POOL, {"pool.rendezvous": 2, "pool.stranded": 2, "pool.fifo": 2}, {"pool.tasks": 1, "pool.lifecycle": 1, "pool.backlog": 1, "long.pool": 1, "age.pool": 1}),
    "C06": (POOL + ["C30"], {"pool.lifecycle": 3, "pool.held": 2, "pool.stop": 2, "pool.busystop": 1}, {"pool.tasks": 1, "pool.reentrant": 1, "pool.backlog": 1, "long.pool": 1, "age.pool": 1}),
    "C07": (POOL + EVENTS + SCHED + TIMER, {"pool.createfail": 1, "events.createfail": 1, "sched.createfail": 1, "timer.createfail": 1}, {}),
    "C08": (EVENTS, {"events.lin": 3, "events.storm": 2, "events.multi": 1}, {"events.names": 1, "events.lifecycle": 1, "events.order": 1, "events.backlog": 1, "long.events": 1, "age.events": 1}),
    "C09": (EVENTS, {"events.names": 3, "events.multi": 2, "events.lin": 2}, {"events.storm": 1, "events.lifecycle": 1, "events.backlog": 1, "long.events": 1}),
    "C10": (EVENTS, {"events.order": 3}, {"events.storm": 1, "events.lin": 1, "events.backlog": 1, "age.events": 1}),
    "C11": (EVENTS + ["C30"], {"events.stop": 3, "events.lifecycle": 3, "events.stoplin": 3, "events.busystop": 1}, {"events.lin": 1, "long.events": 1, "age.events": 1}),
    "C12": (SCHED, {"sched.once": 3}, {"sched.model": 1, "sched.stop": 1, "sched.contain": 1, "sched.backlog": 1, "long.sched": 1, "age.sched": 1}),
    "C13": (SCHED, {"sched.periodic": 3, "sched.exact": 2}, {"sched.model": 1, "sched.contain": 1, "sched.backlog": 1, "long.sched": 1, "age.sched": 1}),
    "C14": (SCHED, {"sched.control": 2, "sched.model": 3, "sched.remove": 2}, {"sched.periodic": 1, "sched.backlog": 1, "long.sched": 1, "age.sched": 1}),
    "C15": (SCHED + ["C30"], {"sched.stop": 3, "sched.lifecycle": 2, "sched.remove": 1, "sched.busystop": 1}, {"sched.model": 1, "sched.once": 1, "sched.control": 1, "sched.backlog": 1, "long.sched": 1, "age.sched": 1}),
    "C16": (SCHED, {"sched.contain": 3, "sched.exact": 1}, {"sched.periodic": 1, "sched.once": 1}),
    "C17": (TIMER, {"timer.ticks": 3, "timer.counters": 2, "timer.exact": 2}, {"timer.replace": 1, "timer.lifecycle": 1, "long.timer": 1, "age.timer": 1}),
    "C18": (TIMER + ["C30"], {"timer.lifecycle": 3, "timer.restart": 2, "timer.busystop": 1}, {"timer.ticks": 1, "timer.counters": 1, "long.timer": 1, "age.timer": 1}),
    "C19": (TIMER + ["C30"], {"timer.replace": 3}, {"timer.lifecycle": 1, "long.timer": 1}),
    "C20": (OBS, {"observable.lin.int": 2, "observable.lin.string": 2, "observable.lin.wide": 1, "observable.lin.loose": 1, "observable.stream": 2},
            {"observable.toggle.int": 1, "observable.fault.risky": 1, "long.observable": 1}),
    "C21": (OBS + ["C30"], {"observable.toggle.int": 2, "observable.toggle.string": 1, "observable.fault.risky": 2, "observable.fault.string": 1}, {"long.observable": 1}),
    "C22": (["C22"], {"rate.cadence": 3}, {"long.rate": 1, "age.rate": 1}),
    "C23": (["C23"], {"wall.stopwatch": 1, "wall.scheduler": 2, "wall.timer": 2, "wall.rate": 1}, {"mixed.pipeline": 1, "age.stopwatch": 1}),
    "C24": (["C24"], {"now.consistent": 1}, {}),
    "C25": (["C25", "C26"], {"quit.handoff": 3, "quit.many": 2}, {"quit.signals": 1, "long.quit": 1, "age.quit": 1}),
    "C26": (["C25", "C26"], {"quit.signals": 3, "quit.handoff": 1}, {"mixed.pipeline": 1, "long.quit": 1}),
    "C27": (["C27"], {"uuid.unique": 1}, {"long.uuid": 1}),
    "C28": (["C28"], {"singleton.first": 3}, {"mixed.pipeline": 1}),
    "C29": (["C29"], {"locator.model": 2, "locator.many": 1}, {"long.locator": 1}),
    "C30": (["C30"], {"pool.tasks": 1, "pool.lifecycle": 1, "pool.held": 1, "pool.allocfail": 1, "pool.stop": 1, "events.stop": 1, "events.lifecycle": 1, "events.stoplin": 1,
                      "sched.stop": 1, "sched.model": 1, "sched.remove": 1, "timer.lifecycle": 1, "timer.replace": 1,
                      "observable.fault.risky": 1, "queue.fault.risky": 1, "mixed.pipeline": 1}, {}),
    "C31": (["C31", "C20", "C23", "C26", "C28", "C30"], {"mixed.pipeline": 4},
            {"pool.tasks": 1, "events.storm": 1, "sched.control": 1, "timer.replace": 1, "observable.stream": 1, "queue.stream.int": 1, "pool.backlog": 1, "events.backlog": 1, "sched.backlog": 1, "queue.backlog": 1}),
    "C32": (["C32"] + POOL + EVENTS + SCHED + TIMER + ["C30"], {"pool.reentrant": 1, "events.reentrant": 1, "sched.reentrant": 1, "timer.reentrant": 1, "nest.chains": 2,
             "pool.busystop": 1, "events.busystop": 1, "sched.busystop": 1, "timer.busystop": 1}, {}),
    "C33": (["C33"], {"values.threads": 1, "values.memory": 1}, {}),
    "C34": (["C34"], {"args.faults": 1}, {}),
    "C35": (["C35", "C30"] + POOL + EVENTS + SCHED + TIMER + OBS + ["C26", "C29"], {"own.task": 1, "own.pool": 2, "own.sched": 3, "own.timer": 2, "own.events": 2, "own.values": 1, "own.names": 1, "own.services": 1}, {}),
    "C36": (["C36", "C30", "C04", "C08", "C09", "C12", "C18", "C19", "C26"], {"memory.events": 2, "memory.sched": 3, "memory.timer": 1, "memory.start": 2, "memory.signals": 1, "pool.allocfail": 1}, {}),
    "C37": (["C37"], {"streams.values": 2, "streams.help": 1}, {}),
    "C38": (["C38", "C01", "C04", "C30"], {"many.pools": 2, "many.scheds": 2, "many.timers": 1, "many.dispatchers": 2, "many.values": 1}, {"events.multi": 1}),
    "C39": (["C39", "C01"], {"idle.pool": 2, "idle.events": 1, "idle.sched": 2, "idle.timer": 1, "idle.waits": 1}, {}),
}

# scenario -> group, by prefix of the scenario name
PREFIX = [("queue.", "queue"), ("pool.", "pool"), ("events.", "events"), ("sched.", "sched"), ("timer.", "timer"), ("observable.", "observable"),
          ("rate.", "clocks"), ("wall.stopwatch", "clocks"), ("now.", "clocks"), ("wall.", "wall"), ("quit.", "quit"), ("uuid.", "identity"),
          ("singleton.", "identity"), ("locator.", "identity"), ("values.", "values"), ("args.", "args"), ("mixed.", "mixed"), ("long.", "long"), ("age.", "age"), ("own.", "own"), ("memory.", "memory"), ("streams.", "streams"),
          ("idle.", "idle"), ("many.", "many"), ("nest.", "nest")]


def group_of(scenario):
    for p, g in PREFIX:
        if scenario.startswith(p):
            return g
    raise KeyError(scenario)


# what a scenario puts under simulation and what it replaces
STUBS = ["threads: pthread_create/join and thread-local storage (fibers chosen by the seeded scheduler)",
         "mutexes, condition variables, semaphores, futexes, once and static-initialisation guards",
         "clocks and sleeps (simulated monotonic and wall time)",
         "signal installation, masks and delivery",
         "heap (malloc/operator new: deterministic addresses, red zones, injected failures)",
         "std::random_device, getenv, get_nprocs"]
