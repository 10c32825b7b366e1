from common import *
from translate import Clo, VarIt, idx_of, inner
PROP = "C21"
TU = drv("pool.cpp")
D = "gapp::detail::"
TARGETS = []
def s_curexc(tr, vs, n): return T("true", BOOL)
def s_rethrow(tr, vs, n):
    tr.check("only a stored exception is thrown again", par(tr.term(vs[0])))
    tr.throw()
    return UNIT
def s_nop(tr, vs, n): return UNIT
# ---------------------------------------------------------------- execute_loop
PRE = """
val constant nworkers_ : int
axiom nworkers_range : 0 <= nworkers_ < 4294967296
predicate all_between (c: seq_i) (lo hi v: int) = forall k. lo <= k < hi -> get_i c k = v
"""
OM = {"workers_": lambda tr, v: Obj("workers"), "task_queue": lambda tr, v: Obj("queue"), "turn_": lambda tr, v: Obj("turn")}
def o_size(tr, o, vs): return T("nworkers_", SZ)
def o_empty(tr, o, vs):
    if o.name == "workers":
        return T("(nworkers_ = 0)", BOOL)
    return T(tr.any(BOOL), BOOL)
def c_sched(tr, fn, o, vs, n):
    tr.check("a task needs a worker", "nworkers_ > 0")
    return Obj("queue")
def c_qempty(tr, fn, o, vs, n):
    r = tr.any(BOOL)
    tr.blk.add("raw", "pending <- not %s;" % r)
    return T(r, BOOL)
def c_qtake(tr, fn, o, vs, n):
    """a task of the own queue: only this thread takes from it"""
    tr.check("take does not block: the queue was not empty", "pending")
    tr.blk.add("raw", "pending <- false;")
    return Obj("opt_task")
def c_local(tr, fn, o, vs, n):
    return Obj("localptr")
def c_emplace(tr, fn, o, vs, n):
    tr.models.use(tr, "a task given to the queue of a worker runs exactly once, some time before its latch count reaches 0 (concurrent_queue, worker_main); the tasks touch disjoint elements, so the time does not matter")
    task = vs[0]
    assert isinstance(task, Clo)
    # what the task uses by reference has to outlive it and is not changed meanwhile: objects and closures only
    bad = by_ref(tr, task)
    tr.check("tasks share no variables of the loop", "false" if bad else "true")
    old, b = tr.sub()
    tr.invoke(task, [])
    tr.blk = old
    tr.merge_writes(b)
    tr.cpp_exc()
    tr.blk.effect = True
    tr.blk.add("raw", "try begin\n%s\nend with Cpp_exc -> begin\nassert { [@expl:no exception leaves a task] false }\nend end;" % tr.render(b, "()"))
    return T("true", BOOL)
def by_ref(tr, task):
    """names of plain variables the task refers to without owning a copy"""
    own, bad = set(), []
    def decls(x):
        if x.get("kind") in ("VarDecl", "ParmVarDecl"): own.add(x["id"])
        for y in inner(x): decls(y)
    decls(task.node)
    copies = getattr(task, "copies", set())
    def walk(x):
        if x.get("kind") == "DeclRefExpr":
            i = x["referencedDecl"]["id"]
            v = task.env.get(i)
            if i not in own and i not in copies and isinstance(v, (L, It, VarIt)) and x["referencedDecl"].get("name") not in SHARED:
                bad.append(x["referencedDecl"].get("name"))
        for y in inner(x): walk(y)
    walk(task.node)
    return bad
SHARED = ("exception", "has_exception", "remaining_tasks")
def c_op(tr, c, vs):
    """the user's function: counted, may throw"""
    e = vs[0]
    i = e.path[-1][1]
    tr.check("the function gets an element of the range", "first_0 <= %s < last_0" % i)
    tr.blk.add("raw", "cnt <- set_i cnt %s (get_i cnt %s + 1);" % (par(i), par(i)))
    r = tr.any(BOOL)
    tr.cpp_exc()
    tr.blk.effect = True
    tr.blk.add("raw", "if %s then begin thrown <- true; raise Cpp_exc end;" % r)
    return UNIT
def c_wait(tr, fn, o, vs, n):
    tr.check("every task counts down exactly once", "%s.latch_count_ = 0" % par(tr.term(o)))
    tr.blk.add("raw", "waited <- true;")
    return UNIT
def c_trywait(tr, fn, o, vs, n):
    tr.check("every task counts down exactly once", "%s.latch_count_ = 0" % par(tr.term(o)))
    r = tr.any(BOOL)
    tr.blk.add("raw", "waited <- %s;" % r)
    return T(r, BOOL)
def m_fsub(tr, o, vs):
    old = tr.snap(o)
    tr.check("the latch does not pass 0", "%s >= %s" % (par(tr.term(old)), par(tr.term(vs[0]))))
    tr.assign(o, T("(%s - %s)" % (par(tr.term(old)), par(tr.term(vs[0]))), SZ))
    return old
def m_xchg(tr, o, vs):
    old = tr.snap(o)
    tr.assign(o, vs[0])
    return old
NLIN = "assert { [@expl:block sizes] 1 <= step_size /\\ 0 <= remainder < task_count /\\ last - first = step_size * task_count + remainder };"
BODY = "assert { [@expl:this block is within the range] i * step_size + step_size <= step_size * task_count - step_size };"
CNT = lambda f: ("one call for every element so far, unless a call threw", "not thrown -> forall k. 0 <= k < len_i cnt -> get_i cnt k = if first_0 <= k < %s then 1 else 0" % f)
EXC = ("exceptions are stored", "has_exception = thrown /\\ exception_ = thrown")
GA = ["(ref cnt: seq_i)", "(ref thrown: bool)", "(ref waited: bool)", "(ref pending: bool)"]
DONE = "(forall k. 0 <= k < len_i cnt -> get_i cnt k = if first_0 <= k < last_0 then 1 else 0)"
LOOP = dict(name="execute_loop", tu=TU, qname=D + "thread_pool::execute_loop", match=lambda f: "verif::op" in f.type, iter_params={"first": ("items", True), "last": ("items", True)},
    obj_members=OM, obj_methods={"size": o_size, "empty": o_empty, "fetch_sub": m_fsub, "exchange": m_xchg, "operator bool": lambda tr, o, vs: T(tr.any(BOOL), BOOL)},
    contracts={D + "thread_pool::scheduled_worker_queue": c_sched, D + "thread_pool::local_worker_queue": c_local, D + "concurrent_queue::emplace": c_emplace, D + "concurrent_queue::empty": c_qempty, D + "concurrent_queue::take": c_qtake, D + "latch::wait": c_wait, D + "latch::try_wait": c_trywait},
    obj_operators={"*": lambda tr, a, vs: Obj("task") if a.name == "opt_task" else a}, obj_calls={"task": lambda tr, c, vs: UNIT, "param:unary_op": c_op}, std={"current_exception": s_curexc, "rethrow_exception": s_rethrow, "yield": s_nop}, prelude=PRE, ghost_params=GA, use_types=[Ty("seq", SZ)], types={"exception_ptr": BOOL}, diverges=True, globals={k: (lambda tr: T("0", SZ)) for k in ("memory_order_relaxed", "memory_order_release", "memory_order_acquire")},
    ghost={"decl:remainder": NLIN, "loop1.body": BODY},
    loops={1: dict(inv=[("blocks", "first = first_0 + i * step_size + (if i < remainder then i else remainder) /\\ first_0 <= first /\\ last = last_0 /\\ len_i cnt = len_i items /\\ first <= last"), ("the latch counts the tasks that are not started", "remaining_tasks.latch_count_ = task_count - 1 - i"), CNT("first"), EXC], variant=None),
           2: dict(inv=[("in the block", "(block_first__2 at L2) <= block_first__2 <= block_last__2 /\\ len_i cnt = len_i items"), CNT("block_first__2"), ("no exception in this task so far", "has_exception = thrown /\\ exception_ = thrown")]), 3: dict(inv=[("the last block", "first_0 <= first <= last /\\ last = last_0 /\\ len_i cnt = len_i items"), CNT("first"), EXC])},
    requires=[("a range", "0 <= first_0 <= last_0 <= len_i items /\\ len_i cnt = len_i items"), ("no calls so far", "all_between cnt 0 (len_i cnt) 0 /\\ not thrown /\\ not waited"), ("a positive block size", "0 < block_size_0"), ("the size is a size of a container", "len_i items < 9223372036854775807")],
    ensures=[("one call for every element of the range", DONE), ("no exception is lost", "not thrown")],
    raises=[("every task is finished", "thrown /\\ waited")])
TARGETS.append(LOOP)
# ---------------------------------------------------------------- concurrent_queue
ULS = Ty("seq", SZ)
CQ = D + "concurrent_queue::"
QPRE = """
predicate same_q (a b: seq_i) = len_i a = len_i b /\\ forall k. 0 <= k < len_i b -> get_i a k = get_i b k
"""
HELD = "the state of the queue is only used while its lock is held"
def q_state(tr, v):
    tr.check(HELD, "held")
    return L("que", [], ULS, ULS)
def c_state(tr, v):
    tr.check(HELD, "held")
    return L("closed", [], BOOL, BOOL)
OTHERS = "que <- any seq_i; let was_ = closed in closed <- any bool; assume { was_ -> closed }; que0 <- que; closed0 <- closed;"
def lock(tr, vs):
    tr.models.use(tr, "std::mutex: the state it protects is only changed while it is held, and may have been changed arbitrarily before it is acquired, but a closed queue stays closed")
    if not (vs and isinstance(vs[0], Obj) and vs[0].name == "queue_lock"): raise Unsupported("another lock")
    tr.check("the lock is not held by this thread already", "not held")
    tr.blk.add("raw", "held <- true;" + OTHERS)
    return Obj("guard")
def unlock(tr):
    tr.check("a closed queue stays closed", "held /\\ (closed0 -> closed)")
    tr.check("waiting threads are told about a new element and about the end", "(len_i que > len_i que0 -> notified || notified_all) /\\ (closed && not closed0 -> notified_all)")
    tr.blk.add("raw", "held <- false;")
def q_notify(all_):
    def f(tr, o, vs):
        if o.name != "queue_cv": raise Unsupported("notify")
        tr.blk.add("raw", "%s <- true;" % ("notified_all" if all_ else "notified"))
        return UNIT
    return f
def q_wait(tr, o, vs):
    tr.models.use(tr, "condition_variable::wait(lock, pred): returns with the lock held and the predicate true; other threads may have run meanwhile")
    if o.name != "queue_cv" or not (isinstance(vs[0], Obj) and vs[0].name == "guard"): raise Unsupported("wait")
    tr.check("wait() with the lock held", "held")
    tr.blk.add("raw", OTHERS)
    p = tr.invoke(vs[1], [])
    tr.check("nobody waits at a queue that has an element or is closed", "0 < len_i que || closed -> %s" % par(tr.term(p)))
    tr.assume(par(tr.term(p)))
    tr.blk.add("raw", "waited <- true;")
    return UNIT
QGP = ["(ref que: seq_i)", "(ref closed: bool)", "(ref que0: seq_i)", "(ref closed0: bool)", "(ref held: bool)", "(ref notified: bool)", "(ref notified_all: bool)", "(ref waited: bool)"]
def of_ulong(f): return any(a.get("kind") == "TemplateArgument" and a.get("type", {}).get("qualType") == "unsigned long" for a in inner(f.cls))
def queue(name, m, ens, **kw):
    TARGETS.append(dict(dict(name=name, tu=TU, qname=CQ + m, match=of_ulong, prelude=QPRE, ghost_params=QGP, use_types=[ULS],
        obj_members={"queue_": q_state, "is_closed_": c_state, "queue_lock_": lambda tr, v: Obj("queue_lock"), "queue_cv_": lambda tr, v: Obj("queue_cv")},
        obj_methods={"notify_one": q_notify(False), "notify_all": q_notify(True), "wait": q_wait},
        guards={"scoped_lock": (lock, unlock), "unique_lock": (lock, unlock), "lock_guard": (lock, unlock)},
        requires=[("no lock held", "not held /\\ not notified /\\ not notified_all")],
        ensures=[("the lock is released", "not held")] + ens), **kw))
queue("q_emplace", "emplace", [("a closed queue refuses the element and does not change", "closed0 -> result = false /\\ same_q que que0"),
    ("otherwise it is added at the end", "not closed0 -> result = true /\\ len_i que = len_i que0 + 1 /\\ get_i que (len_i que0) = args /\\ forall k. 0 <= k < len_i que0 -> get_i que k = get_i que0 k"), ("not closed by this", "closed = closed0")])
queue("q_take", "take", [("nothing only from a closed and empty queue", "if result.has then 0 < len_i que0 /\\ result.val_ = get_i que0 0 /\\ len_i que = len_i que0 - 1 /\\ (forall k. 0 <= k < len_i que -> get_i que k = get_i que0 (k + 1)) else closed0 /\\ len_i que0 = 0 /\\ same_q que que0"), ("not closed by this", "closed = closed0")])
queue("q_close", "close", [("closed, the elements stay", "closed /\\ same_q que que0 /\\ notified_all")])
queue("q_closed", "closed", [("whether it is closed", "result = closed0 /\\ closed = closed0 /\\ same_q que que0")])
queue("q_empty", "empty", [("whether it is empty", "result = (len_i que0 = 0) /\\ closed = closed0 /\\ same_q que que0")])
# ---------------------------------------------------------------- latch
def l_load(tr, o, vs):
    tr.models.use(tr, "latch: other threads only count down, and not below 0")
    r = tr.any(SZ)
    tr.assume("0 <= %s <= %s" % (r, tr.term(o)))
    tr.assign(o, T(r, SZ))
    return tr.snap(o)
FENCE = lambda tr, vs, n: UNIT
MO = {k: (lambda tr: T("0", SZ)) for k in ("memory_order_relaxed", "memory_order_release", "memory_order_acquire")}
CNTF = "cnt"
LA = dict(tu=TU, obj_members={"count_": lambda tr, v: L("cnt", [], SZ, SZ)}, ghost_params=["(ref cnt: int)"],  obj_methods={"load": l_load, "fetch_sub": m_fsub}, std={"yield": FENCE, "atomic_thread_fence": FENCE}, globals=MO)
TARGETS.append(dict(LA, name="latch_count_down", qname=D + "latch::count_down", requires=[("not counted too far", "n_0 <= " + CNTF)], ensures=[("counted", "%s = old %s - n_0" % (CNTF, CNTF))]))
TARGETS.append(dict(LA, name="latch_wait", diverges=True, qname=D + "latch::wait", loops={1: dict(inv=[("latch", "0 <= " + CNTF)], variant=None)}, requires=[("latch", "0 <= " + CNTF)], ensures=[("returns only once every task is finished", CNTF + " = 0")]))
TARGETS.append(dict(LA, name="latch_try_wait", qname=D + "latch::try_wait", requires=[("latch", "0 <= " + CNTF)], ensures=[("true only once every task is finished", "result = (%s = 0)" % CNTF)]))
# ---------------------------------------------------------------- the workers
def w_take(tr, fn, o, vs, n):
    tr.check("no task is dropped", "not pending")
    tr.blk.add("raw", "pending <- any bool; if not pending then ended <- true;")
    return Obj("opt_task")
def w_run(tr, c, vs):
    tr.check("a task runs once", "pending")
    tr.blk.add("raw", "pending <- false;")
    return UNIT
TARGETS.append(dict(name="worker_main", tu=TU, qname=D + "thread_pool::worker_t::worker_main", contracts={D + "concurrent_queue::take": w_take}, obj_methods={"has_value": lambda tr, o, vs: T("pending", BOOL), "operator bool": lambda tr, o, vs: T("pending", BOOL)},
    obj_operators={"*": lambda tr, a, vs: Obj("task")}, obj_calls={"task": w_run}, diverges=True, ghost_params=["(ref pending: bool)", "(ref ended: bool)"],
    loops={1: dict(inv=[("no task is dropped", "not pending /\\ not ended")], variant=None)}, requires=[("start", "not pending /\\ not ended")], ensures=[("a worker stops only at the end of its queue, and runs every task it took", "ended /\\ not pending")]))
def p_loop(tr, fn, o, vs, n):
    a, b, k, f = vs
    if not (isinstance(a, (It, VarIt)) and isinstance(b, (It, VarIt)) and f is not None): raise Unsupported("execute_loop")
    tr.check("the whole range", "%s = first_0 /\\ %s = last_0" % (idx_of(a), idx_of(b)))
    tr.check("a positive block size", "0 < %s" % par(tr.term(k)))
    tr.blk.add("raw", "calls <- calls + 1;")
    return UNIT
for i, (nm, sel) in enumerate([("parallel_for", lambda f: "unsigned long, const" not in f.type and "size_t" not in f.type), ("parallel_for_block", lambda f: "size_t" in f.type)]):
    TARGETS.append(dict(name=nm, tu=TU, qname=D + "parallel_for", match=lambda f, sel=sel: "verif::op" in f.type and sel(f), iter_params={"first": ("items", True), "last": ("items", True)}, globals={"execution_context::global_thread_pool": lambda tr: Obj("pool"), "global_thread_pool": lambda tr: Obj("pool")},
        contracts={D + "thread_pool::execute_loop": p_loop}, ghost_params=["(ref calls: int)"], requires=[("a range", "0 <= first_0 <= last_0 <= len_i items"), ("none yet", "calls = 0")] + ([("a positive block size", "0 < block_size_0")] if i else []), ensures=[("one loop", "calls = 1")]))
def w_at(tr, a, vs):
    tr.check("a worker of the pool", "0 <= %s < nworkers_" % par(tr.term(vs[-1])))
    return Obj("worker")
def q_of(tr, v):
    if not (isinstance(v, Obj) and v.name == "queue"): raise Unsupported("the queue of a worker")
    return T("0", SZ)
TP = dict(tu=TU, prelude=PRE, use_types=[ULS], obj_members=OM, obj_methods={"size": o_size, "empty": o_empty, "fetch_add": lambda tr, o, vs: T(tr.any(SZ), SZ)}, obj_operators={"[]": w_at}, globals=MO)
TARGETS.append(dict(TP, name="thread_count", qname=D + "thread_pool::thread_count", match=lambda f: "const" in f.type, ensures=[("the workers and the calling thread", "result = nworkers_ + 1")]))
TARGETS.append(dict(TP, name="scheduled_worker_queue", qname=D + "thread_pool::scheduled_worker_queue", requires=[("there is a worker", "0 < nworkers_")], ret_type="void", ret_model=q_of, ret_wty="int"))
def e_count(tr, fn, o, vs, n):
    if not vs: return T("nworkers_ + 1", SZ)
    tr.check("at least one thread", "1 <= %s" % par(tr.term(vs[0])))
    tr.blk.add("raw", "set_to <- %s;" % par(tr.term(vs[0])))
    return UNIT
TARGETS.append(dict(TP, name="execution_threads_set", qname="gapp::execution_threads", match=lambda f: "void" in f.type, globals={"global_thread_pool": lambda tr: Obj("pool")}, contracts={D + "thread_pool::thread_count": e_count}, ghost_params=["(ref set_to: int)"], ensures=[("the requested number, at least 1", "set_to = if count_0 < 1 then 1 else count_0")]))
TARGETS.append(dict(TP, name="execution_threads_get", qname="gapp::execution_threads", match=lambda f: "void" not in f.type, globals={"global_thread_pool": lambda tr: Obj("pool")}, contracts={D + "thread_pool::thread_count": e_count}, ensures=[("the number in use", "result = nworkers_ + 1")]))
HARNESS = dict(src=["c21.cpp"], lib=False, asan=True, secs=12, secs_thorough=120, flags=["-pthread"])
