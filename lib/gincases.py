"""Functions that the configurations of G01 configure."""
import gin


def _scope(): return '/'.join(gin.current_scope())


@gin.configurable
def gv_one(p='default-p', q=None, r=0): return ('gv_one', _scope(), p, q, r)


@gin.configurable
def gv_two(p='default-p', q=None, r=0): return ('gv_two', _scope(), p, q, r)


@gin.configurable
def gv_three(p='default-p', q=None, r=0): return ('gv_three', _scope(), p, q, r)


def plain(x): return x


def fv(p=None, q=None): return ('fv', p, q)


def holder(summarize=None, child=None, more=()): return dict(summarize=summarize, child=child, more=list(more))
