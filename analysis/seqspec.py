"""Abstract behaviour of List, Stack and Queue."""
from eng import *
from spec import *


def e(v):
    return (("e", v),)


def opt_first(c, back=False):
    r = c.back() if back else c.front()
    return ("none",) if r is None else ("some", ("elem", r[0]))


def list_specs(H):
    L_ = "rpds::list::List::"
    H.spec(L_ + "new_with_ptr_kind", lambda c: dict(ret=("view", ())))
    H.spec(L_ + "new", lambda c: dict(ret=("view", ())))
    H.spec(L_ + "new_sync", lambda c: dict(ret=("view", ())))
    H.spec("<rpds::list::List as core::default::Default>::default", lambda c: dict(ret=("view", ())))
    H.spec(L_ + "first", lambda c: dict(ret=opt_first(c)), observer=True)
    H.spec(L_ + "last", lambda c: dict(ret=opt_first(c, True)), observer=True)
    H.spec(L_ + "len", lambda c: dict(ret=("int", c.length())), observer=True)
    H.spec(L_ + "is_empty", lambda c: dict(ret=("bool", mkle(c.length()))), observer=True)

    def drop_first(c):
        r = c.front()
        return dict(ret=("none",) if r is None else ("some", ("view", r[1])), self=c.view)
    H.spec(L_ + "drop_first", drop_first)

    def drop_first_mut(c):
        r = c.front()
        return dict(ret=("bool", r is not None), self=() if r is None else r[1])
    H.spec(L_ + "drop_first_mut", drop_first_mut)
    H.spec(L_ + "push_front", lambda c: dict(ret=("view", e(c.args[1]) + c.view), self=c.view))
    H.spec(L_ + "push_front_mut", lambda c: dict(self=e(c.args[1]) + c.view))
    H.spec(L_ + "reverse", lambda c: dict(ret=("view", rev(c.view)), self=c.view))
    H.spec(L_ + "reverse_mut", lambda c: dict(self=rev(c.view)))
    H.spec("<rpds::list::List as core::clone::Clone>::clone", lambda c: dict(ret=("view", c.view), self=c.view))
    H.spec("<rpds::list::List as core::iter::traits::collect::FromIterator>::from_iter", lambda c: dict(ret=("view", (("s", "U"),))))


def stack_specs(H):
    S = "rpds::stack::Stack::"
    for n in ("new_with_ptr_kind", "new", "new_sync"):
        H.spec(S + n, lambda c: dict(ret=("view", ())))
    H.spec("<rpds::stack::Stack as core::default::Default>::default", lambda c: dict(ret=("view", ())))
    H.spec(S + "peek", lambda c: dict(ret=opt_first(c)), observer=True)
    H.spec(S + "size", lambda c: dict(ret=("int", c.length())), observer=True)
    H.spec(S + "is_empty", lambda c: dict(ret=("bool", mkle(c.length()))), observer=True)

    def pop(c):
        r = c.front()
        return dict(ret=("none",) if r is None else ("some", ("view", r[1])), self=c.view)
    H.spec(S + "pop", pop)

    def pop_mut(c):
        r = c.front()
        return dict(ret=("bool", r is not None), self=() if r is None else r[1])
    H.spec(S + "pop_mut", pop_mut)
    H.spec(S + "push", lambda c: dict(ret=("view", e(c.args[1]) + c.view), self=c.view))
    H.spec(S + "push_mut", lambda c: dict(self=e(c.args[1]) + c.view))
    H.spec("<rpds::stack::Stack as core::clone::Clone>::clone", lambda c: dict(ret=("view", c.view), self=c.view))
    # a collected stack iterates (from the top) in the given order
    H.spec("<rpds::stack::Stack as core::iter::traits::collect::FromIterator>::from_iter", lambda c: dict(ret=("view", (("s", "U"),))))


def queue_specs(H):
    S = "rpds::queue::Queue::"
    for n in ("new_with_ptr_kind", "new", "new_sync"):
        H.spec(S + n, lambda c: dict(ret=("view", ())))
    H.spec("<rpds::queue::Queue as core::default::Default>::default", lambda c: dict(ret=("view", ())))
    H.spec(S + "peek", lambda c: dict(ret=opt_first(c)), observer=True)
    H.spec(S + "len", lambda c: dict(ret=("int", c.length())), observer=True)
    H.spec(S + "is_empty", lambda c: dict(ret=("bool", mkle(c.length()))), observer=True)

    def deq(c):
        r = c.front()
        return dict(ret=("none",) if r is None else ("some", ("view", r[1])), self=c.view)
    H.spec(S + "dequeue", deq)

    def deq_mut(c):
        r = c.front()
        return dict(ret=("bool", r is not None), self=() if r is None else r[1])
    H.spec(S + "dequeue_mut", deq_mut)
    H.spec(S + "enqueue", lambda c: dict(ret=("view", c.view + e(c.args[1])), self=c.view))
    H.spec(S + "enqueue_mut", lambda c: dict(self=c.view + e(c.args[1])))
    H.spec("<rpds::queue::Queue as core::clone::Clone>::clone", lambda c: dict(ret=("view", c.view), self=c.view))
    H.spec("<rpds::queue::Queue as core::iter::traits::collect::FromIterator>::from_iter", lambda c: dict(ret=("view", (("s", "U"),))))


def list_iters(H):
    for n in ("rpds::list::List::iter", "<&rpds::list::List as core::iter::traits::collect::IntoIterator>::into_iter"):
        H.iteration(n, lambda v: v)


def stack_iters(H):
    for n in ("rpds::stack::Stack::iter", "<&rpds::stack::Stack as core::iter::traits::collect::IntoIterator>::into_iter"):
        H.iteration(n, lambda v: v)


def queue_iters(H):
    for n in ("rpds::queue::Queue::iter", "<&rpds::queue::Queue as core::iter::traits::collect::IntoIterator>::into_iter"):
        H.iteration(n, lambda v: v)


if __name__ == "__main__":
    import sys, common, mir
    P = mir.Prog(common.dump("all"))
    for f in (list_specs, stack_specs, queue_specs):
        for o in ((0, 1) if f is queue_specs else (0,)):
            t = time.time()
            H = Harness(P, queue_order=o)
            f(H)
            dict(list_specs=list_iters, stack_specs=stack_iters, queue_specs=queue_iters)[f.__name__](H)
            H.run((lambda n: sys.argv[1] in n) if len(sys.argv) > 1 else None)
            print(f.__name__, o, time.time() - t, H.missing, {k: (len(v) if isinstance(v, set) else v) for k, v in H.stats.items()})
            cnt = {}
            for r in H.results:
                cnt[r.verdict] = cnt.get(r.verdict, 0) + 1
                if r.verdict != "ok":
                    print("  ", r)
            print(cnt)
