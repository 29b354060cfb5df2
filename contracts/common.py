"""Shared helpers of the contract modules."""


class Broken(Exception):
    """The contract does not hold on this input."""


class NotApplicable(Exception):
    """The input (or the shape of the code) is outside of what this case can judge."""


def require(cond, msg):
    if not cond:
        raise Broken(msg if isinstance(msg, str) else msg())
