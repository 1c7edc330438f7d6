import re
from sa import facts, engine, models
from sa.term import *
from sa.models import TOP
from sa.decide import *
from sa.decide import natural, same, separate, prove, Norm, Ctx
from sa.engine import Engine, Undecided
from sa.models import Models
from sa.report import Report

UINTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize']
SINTS = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize']
INTS = UINTS + SINTS


def analyse(prog, body, models_=None, args=None, opaque=None, hooks=None, **kw):
    """value-flow summary of one function, or the reason there is none"""
    e = Engine(prog, models_ or Models(), opaque=opaque, **kw)
    if hooks:
        e.hooks.update(hooks)
    try:
        r = e.run(body, args)
        r.engine = e
        if r.unknown:
            return None, 'outside the analysed fragment: %s' % r.unknown[0]
        return r, None
    except Undecided as u:
        return None, 'outside the analysed fragment: %s' % u
    except RecursionError:
        return None, 'recursion'
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError) as ex:
        if __import__('os').environ.get('SA_DEBUG'):
            raise
        return None, 'analysis gave up: %s %r' % (type(ex).__name__, ex)


def panic_cond(r, kinds=None):
    c = FALSE
    for (pc_, k, w) in r.panics:
        if kinds is None or any(k.startswith(x) for x in kinds):
            c = OR(c, pc_)
    return c


def where(body):
    return '%s %s' % (body.path, facts.short_span(body.span))


def trait_methods(prog, tr, name):
    """implementations (roots) of method `name` of the trait with path suffix `tr`"""
    out = []
    for b in prog.roots:
        if b.name == name and (b.j.get('itrait') or '').split('<')[0].endswith(tr):
            out.append(b)
    return out


def targs(prog, b):
    return [prog.tys(x) if isinstance(x, int) else str(x[1]) for x in (b.j.get('itargs') or [])]


def selfs(prog, b):
    return prog.tys(b.j['iself']) if 'iself' in b.j else None


def check_value(rep, key, prog, body, spec, rule, pre=TRUE, panics=None, models_=None, uf_ok=None, args=None, opaque=None, post=None):
    """returned value == spec(args) for every input with pre; optional exact panic condition"""
    rep.saw(body.path)
    r, err = analyse(prog, body, models_, args=args, opaque=opaque)
    if r is None:
        rep.ob(key, UNDECIDED, where(body), rule, err)
        return None
    ret = r.ret if post is None else post(r)
    if r.cond is FALSE:
        rep.ob(key, VIOLATED, where(body), rule, 'never returns')
        return r
    try:
        v, d = same(ret, spec, pre, uf_ok=uf_ok)
    except Exception as ex:
        if __import__('os').environ.get('SA_DEBUG'):
            raise
        v, d = UNDECIDED, repr(ex)
    rep.ob(key, v, where(body), rule, d if v != VIOLATED else {'witness': d, 'value': show(ret, 8)[:600], 'required': show(spec, 8)[:600]})
    if panics is not None:
        pcnd = panic_cond(r)
        v, d = same(pcnd, panics, uf_ok=uf_ok)
        rep.ob(key + ':panics', v, where(body), rule + ' (panics exactly when stated)',
               d if v != VIOLATED else {'witness': d, 'panics when': show(pcnd, 8)[:500], 'required': show(panics, 8)[:300]})
    return r
