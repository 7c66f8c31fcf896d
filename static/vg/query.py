"""Structural queries over the syntax tree and the call graph."""
import ast
import os


class Query:
    """a named query: fn(root) -> (list of (label, detail, file, lines) violations, number of sites inspected, functions)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def decide(self, root):
        bad, sites, funcs = self.fn(root)
        return dict(name=self.name, code="", spec="query", functions=sorted(funcs), loops=0, notes=[],
                    stats=dict(obligations=sites, identical=sites - len(bad), fingerprint=0, unknown=0, valuations=0),
                    sites=sites,
                    results=[dict(label=l, status="DIFF", detail="%s (%s)" % (d, f), witness=None, lines=list(n)) for l, d, f, n in bad])


def sources(root, package="reliabilityassessment"):
    for dp, dn, fn in sorted(os.walk(os.path.join(root, package))):
        dn[:] = [d for d in dn if d not in ("tests", "integration_test", "__pycache__")]
        for f in sorted(fn):
            if f.endswith(".py") and not f.startswith("test_"):
                p = os.path.join(dp, f)
                yield p, ast.parse(open(p).read())
