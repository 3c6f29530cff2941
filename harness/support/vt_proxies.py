"""Stand-in executors used as the "use" target of generated call functions.

They follow the documented proxy contract and record every call."""
CALLS = []
RESPOND = None          # fn(operation, serialized variables) -> response data
EVENTS = 1


class Client:
    pass


def wire(operation, variables):
    return operation.Arguments(**variables).model_dump(by_alias=True, exclude_unset=True)


def _run(kind, operation, variables, args, kwargs):
    CALLS.append({"kind": kind, "operation": operation, "variables": variables, "args": args, "kwargs": kwargs})
    w = wire(operation, variables)
    CALLS[-1]["wire"] = w
    return w


def _split(args):
    return args[:-2], args[-2], args[-1]


def execute(*args, **kwargs):
    extra, op, v = _split(args)
    w = _run("execute", op, v, extra, kwargs)
    out = op(**RESPOND(op, w))
    CALLS[-1]["result"] = out
    return out


async def aexecute(*args, **kwargs):
    extra, op, v = _split(args)
    w = _run("aexecute", op, v, extra, kwargs)
    out = op(**RESPOND(op, w))
    CALLS[-1]["result"] = out
    return out


def subscribe(*args, **kwargs):
    extra, op, v = _split(args)
    w = _run("subscribe", op, v, extra, kwargs)
    CALLS[-1]["result"] = []
    for _ in range(EVENTS):
        out = op(**RESPOND(op, w))
        CALLS[-1]["result"].append(out)
        yield out


async def asubscribe(*args, **kwargs):
    extra, op, v = _split(args)
    w = _run("asubscribe", op, v, extra, kwargs)
    CALLS[-1]["result"] = []
    for _ in range(EVENTS):
        out = op(**RESPOND(op, w))
        CALLS[-1]["result"].append(out)
        yield out
