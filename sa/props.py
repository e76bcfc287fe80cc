"""The properties, how each is decided, and the text the generated files (properties.jsonl, MANIFEST.json) take."""
import glob, importlib, os, sys

PROPS = {}


class Spec:
    def __init__(self, pid, **kw):
        self.pid = pid
        self.title = kw.pop('title')
        self.statement = kw.pop('statement')
        self.over = kw.pop('over', ['inputs'])
        self.quantifier = kw.pop('quantifier')
        self.why = kw.pop('why')
        self.files = kw.pop('files')
        self.mechanism = kw.pop('mechanism')
        self.jobs = kw.pop('jobs', [])
        self.min_obligations = kw.pop('min_obligations', 1)
        self.technique = kw.pop('technique', '')
        self.note = kw.pop('note', '')
        self.explanation = kw.pop('explanation', '')
        self.rule = kw.pop('rule', '')
        self.assumptions = kw.pop('assumptions', [])
        self.not_applicable = kw.pop('not_applicable', None)
        assert not kw, kw
        if any('probe' in j for j in self.jobs):
            self.technique = self.technique or PROBE_TECH
            self.explanation = self.explanation or PROBE_EXPL
            self.rule = self.rule or PROBE_RULE
            self.assumptions = self.assumptions + PROBE_ASSUME
        PROPS[pid] = self

    def needs_engine(self):
        return True


PROBE_TECH = 'abstract interpretation / SSA dataflow over LLVM IR: obligations on open entry points discharged by fixpoint analyses'
PROBE_EXPL = ('Static analysis of the LLVM IR that clang emits for the current sources. Entry points ("probes") call the '
              'library with unconstrained arguments; claims written in them, and obligations the engine adds itself (every '
              'memory access inside its object, no undefined arithmetic or shift, no failed library precondition, no abort, '
              'no escaping exception), count as discharged only when dataflow analyses reduce them to true on every path. '
              'Nothing is executed and no solver is used.')
PROBE_RULE = ('an obligation is a claim, a memory access to an object of known extent, a reachability marker (non-vacuity), or an '
              'undefined-behaviour / abort / uncaught-exception site; counts are per compilation configuration')
PROBE_ASSUME = [
    'the IR clang 18 emits for x86-64 Linux with libstdc++ 13 represents the program; LLVM analyses and the engine (sa/) are trusted',
    'memory allocation does not fail; functions outside of the analysed code do not throw unless they are known to',
    'bodies of standard stream functions are opaque: they touch only what they are given',
]


def probe(name, lib=(), **kw):
    lib = list(lib)
    if 'debug' not in lib:
        lib.append('debug')
    return dict(probe=name, lib=lib, **kw)


def witness(name, **kw):
    return dict(witness=name, **kw)


def rule(fn, **kw):
    return dict(rule=fn, **kw)


import prop_defs  # noqa: E402,F401
