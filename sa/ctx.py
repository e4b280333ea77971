"""Programs shared by the checks of one process."""
import atexit

from . import build
from .ir import Program

SIMPLE = "function(sroa,early-cse,simplifycfg)"


class Ctx:
    def __init__(self, tier="quick"):
        self.trees = {}
        self.progs = {}
        self.refs = {}
        self.tier = tier
        atexit.register(self.close)

    def close(self):
        for t in self.trees.values():
            t.__exit__()
        self.trees = {}

    def tree(self, config="release"):
        if config not in self.trees:
            build.build_tool()
            t = build.Tree(config)
            self.trees[config] = t
            t.configure()
            t.compile()
        return self.trees[config]

    def prog(self, tag="base", config="release", pipeline=None, **kw):
        key = (config, tag)
        if key not in self.progs:
            t = self.tree(config)
            p = pipeline or SIMPLE
            p = "always-inline," + p
            self.progs[key] = Program(t.extract(tag, p, **kw))
        return self.progs[key]
