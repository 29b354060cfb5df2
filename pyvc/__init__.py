"""pyvc: a small contract-based deductive verifier for Python.

It parses the functions of /repo/src on every run, executes their real ASTs symbolically,
and hands every proof obligation (postconditions, callee preconditions, loop-step and
loop-exit conditions, lemma statements) to Z3.
"""
