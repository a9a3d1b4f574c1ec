"""I04: the trace document. No contract yet: the campaign decides."""
PROOFS = []
LEVEL = 'exploration'
TECHNIQUE = 'randomised histories of the real instrumentation API against a strict JSON parser and a reference (bounded stand-in; no proof)'
REPLAY = [dict(src='instr.cpp', repo=['rtl/src/instrumentation.cpp'], so=['fakepapi.c'], libs=['-ldl'])]
