from functools import wraps

def coroutine(func):
    @wraps(func)
    def start(*args, **kwargs):
        cr = func(*args, **kwargs)
        next(cr)
        return cr
    return start

@coroutine
def broadcast(targets):
    while True:
        stuff = (yield)
        for target in targets:
            target.send(stuff)
        del stuff
