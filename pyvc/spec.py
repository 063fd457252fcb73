"""How a contract file describes its obligations."""


class H:
    """One contract harness: quantifies over the inputs, calls the real function, states the contract.

    kind 'proof'   : every path, every loop covered (unbounded, or a finite domain covered completely)
    kind 'bounded' : complete only up to the stated bound (never counted as proved)
    """

    def __init__(
        self,
        fn,
        functions,
        kind="proof",
        bound=None,
        samples=300,
        budget=100.0,
        expect=None,
        symbolic=True,
        unroll=6,
        np_object=False,
        private=False,
        fallback_only=False,
        max_seconds=20.0,
    ):
        self.fn = fn
        self.name = fn.__name__
        self.functions = list(functions)
        self.kind = kind
        self.bound = bound
        self.samples = samples
        self.budget = budget
        self.expect = expect
        self.symbolic = symbolic
        self.unroll = unroll
        self.np_object = np_object
        self.max_seconds = max_seconds


def harness(functions, **k):
    def deco(fn):
        mod = fn.__globals__
        mod.setdefault("HARNESSES", []).append(H(fn, functions, **k))
        return fn

    return deco
