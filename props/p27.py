"""P27 worker threads: generated init/main/exit functions, failures, callers and schedules, judged on the log of calls"""
from hypothesis import strategies as st

from pbt import engine, sched

ID = "P27"
RULE = ("a case is a worker with generated arguments, with or without init and exit function, failing in init or in the n-th call of "
        "main (Exception or SystemExit) or not at all, 1-3 calling threads (start, wait for n calls, stop, stop again) and a schedule "
        "of up to 8 preemptions; non-trivial = a stop overlapped the work of the thread or init or main failed")
EXAMPLES = {"quick": 3500, "thorough": 80000}
CASE_TIMEOUT = 60
ASSUMPTIONS = ["switch points are source lines or bytecodes of modbus_tk and operations on locks, events and threads"]
ARG = st.one_of(st.integers(-3, 3), st.text(max_size=3), st.none(), st.lists(st.integers(0, 3), max_size=2))


@st.composite
def _case(draw):
    init = draw(st.sampled_from(["none", "ok", "ok", "ok", "Exception", "SystemExit"]))
    exit_ = draw(st.sampled_from(["none", "ok", "ok", "ok", "ok", "Exception"]))
    main = draw(st.sampled_from(["ok", "ok", "ok", "Exception", "SystemExit", "stop"]))
    ops = draw(st.lists(st.sampled_from(["wait", "wait", "stop", "tick"]), max_size=4))
    pre = draw(st.sampled_from([[], [], [], ["stop"]]))
    return {"args": draw(st.lists(ARG, max_size=3)), "init": init, "exit": exit_, "main": [main, draw(st.integers(1, 4))],
            "ops": pre + ["start"] + ops + ["stop"], "others": draw(st.lists(st.lists(st.sampled_from(["stop", "stop", "tick"]),
                                                                                 min_size=1, max_size=2), max_size=2)),
            "schedule": draw(sched.schedules(8, 60)), "fine": draw(st.integers(0, 4)) == 0}


def strategy(tier):
    return _case()


def run_case(case, ctx):
    sched.load()
    from modbus_tk import utils
    s = sched.Scheduler(case["schedule"], case["fine"])
    log = []            # (what, args)
    args = tuple(case["args"])
    mk, mn = case["main"]
    stops = []          # [call, return]
    state = {"t0": 0, "n": 0, "started": False, "overlap": False, "ended": False, "asked": False}
    errors = {"Exception": ValueError("failed"), "SystemExit": SystemExit("failed")}

    def init(*a):
        s.point()
        log.append(("init", a, s.tick()))
        if case["init"] in errors:
            raise errors[case["init"]]
        s.point()

    def main(*a):
        log.append(("main", a, s.tick()))
        state["n"] += 1
        if state["n"] == mn:
            if mk in errors:
                raise errors[mk]
            if mk == "stop":
                try:
                    worker.stop()
                except RuntimeError:
                    pass        # a thread cannot wait for itself
        s.idle()
        log.append(("main end", a, s.tick()))

    def leave(*a):
        s.point()
        log.append(("exit", a, s.tick()))
        s.point()
        state["ended"] = True
        if case["exit"] in errors:
            raise errors[case["exit"]]
    worker = utils.WorkerThread(main, args, init if case["init"] != "none" else None, leave if case["exit"] != "none" else None)
    ensure = engine.ensure
    mine = []

    def stop(who):
        t0 = s.tick()
        state["asked"] = True
        begun = state["started"]
        busy = any(x[0] in ("init", "main") for x in log) and not any(x[0] == "exit" for x in log)
        worker.stop()
        t1 = s.tick()
        if begun:
            left = [m.name for m in s.threads if m not in mine and not m.done]
            ensure(not left, "stop returned and the thread still runs")
            ensure(case["exit"] == "none" or state["ended"], "stop returned and the exit function has not run: %r", log[-3:])
            stops.append((t0, t1))
            state["overlap"] |= busy

    def caller():
        for op in case["ops"]:
            if op == "start":
                worker.start()
                state["started"] = True
            elif op == "wait":
                n = state["n"]
                s.block(lambda: state["n"] <= n and not over(), "a call of main")
                if state["n"] <= n and not state["asked"] and mk == "ok" and case["init"] not in errors:
                    raise engine.Violation("the worker ended and nobody stopped it: %r" % log[-3:])
            elif op == "stop":
                stop("caller")
            else:
                s.idle()

    def over():
        return any(m.done for m in s.threads if m not in mine)

    def second(ops):
        def go():
            for op in ops:
                if op == "stop":
                    stop("other")
                else:
                    s.idle()
        return go
    mine.append(s.spawn(caller, "caller"))
    for ops in case["others"]:
        mine.append(s.spawn(second(ops), "other"))
    try:
        s.run()
    except (sched.Deadlock, sched.StepLimit) as e:
        raise engine.Violation(str(e))
    names = [x[0] for x in log]
    for x in log:
        ensure(x[1] == args, "%s was called with %r, expected %r", x[0], x[1], args)
    calls = [x for x in names if x != "main end"]
    want = []
    if case["init"] != "none":
        want.append("init")
    ensure(calls[:len(want)] == want and calls.count("init") == len(want), "calls: %r", calls[:6])
    rest = calls[len(want):]
    if case["exit"] != "none":
        ensure(calls.count("exit") == 1 and calls[-1] == "exit", "the exit function was called %d times: %r", calls.count("exit"),
               calls[-4:])
        rest = rest[:-1]
    ensure(set(rest) <= {"main"}, "calls: %r", calls[:6])
    if case["init"] in errors:
        ensure(not rest, "main was called after init failed")
    if mk in errors:
        ensure(len(rest) <= mn, "main was called again after it failed")
    if mk == "stop":
        ensure(len(rest) <= mn, "main was called again after the worker stopped itself")
    last = max([x[2] for x in log] or [0])
    if stops and min(x[1] for x in stops) < last:
        raise engine.Violation("%s after stop returned" % max(log, key=lambda x: x[2])[0])
    # a worker which nobody stops goes on: every wait of the caller ended, otherwise the run is a deadlock
    ctx.label("init " + case["init"])
    ctx.label("main " + mk)
    ctx.label("exit " + case["exit"])
    ctx.label("preemptions", s.switches)
    if state["overlap"] or case["init"] in errors or (mk in errors and len(rest) == mn):
        ctx.nontrivial()
