"""Linearizability of a history of a register, after Wing and Gong."""


def explain(ops, initial):
    """Whether the history is linearizable.

    ops: list of (start, end, kind, value, sure): kind 'w' or 'r'; value written or read;
    end is None for an operation that never ended; `sure` tells that it took effect.
    """
    n = len(ops)
    seen = set()

    def go(done, value):
        if all(done >> i & 1 or not ops[i][4] for i in range(n)):
            return True
        if (done, value) in seen:
            return False
        seen.add((done, value))
        first = min((ops[i][1] for i in range(n) if not done >> i & 1 and ops[i][1] is not None and ops[i][4]), default=None)
        for i in range(n):
            if done >> i & 1:
                continue
            start, end, kind, v, sure = ops[i]
            if first is not None and start > first:
                continue
            if kind == "w":
                if go(done | 1 << i, v):
                    return True
            elif v == value and go(done | 1 << i, value):
                return True
        return False

    return go(0, initial)
