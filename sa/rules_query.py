""" Rules about equality, queries and the absence of side effects """
from .rules_data import *
from .rules_data import same
from .rules_write import canon, unwrap
from .scen import method_run, write_run, program
from .view import _cache

ME, OTHER = mk('sym', 'self'), mk('sym', 'other')
NOTIMPL = mk('ext', 'builtins.NotImplemented')


def mrun(cls, meth, *args, **kw):
    key = ('mrun', cls, meth, args)
    if key not in _cache:
        r = method_run('pyulog.core', cls, meth, list(args), {}, name='self')
        r.val = r.it.freeze(r.st, r.ret) if isinstance(r.ret, T) else None
        r.where = 'pyulog/core.py (%s.%s)' % (cls, meth)
        _cache[key] = r
    r = _cache[key]
    if r.val is None:
        raise Und('%s.%s returns nothing recognisable' % (cls, meth))
    return r


def ctor_attrs(cls):
    """ attributes that the constructor of a class of the log sets """
    import ast
    tree = program().trees['pyulog.core'] if hasattr(program(), 'trees') else None
    node = tree
    for part in cls.split('.'):
        node = next((n for n in node.body if isinstance(n, ast.ClassDef) and n.name == part), None)
        if node is None:
            return None
    out = set()
    for m in node.body:
        if isinstance(m, ast.FunctionDef) and m.name != '__eq__':
            me = m.args.args[0].arg if m.args.args else None
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                    out.add(x.attr)
    return out


EQ_CLASSES = ['ULog.Data', 'ULog.MessageFormat', 'ULog.MessageLogging', 'ULog.MessageLoggingTagged', 'ULog.MessageDropout',
              'ULog._FieldData']


def eq_leaves(t):
    return [x for x in walk(t) if x.op == 'eq']


LOSSY = {'sorted': 'the contents in any order', 'toset': 'the set of entries', 'set': 'the set of entries', 'len': 'the length',
         'lower': 'the lower-case form', 'upper': 'the upper-case form', 'strip': 'the stripped form', 'rstrip': 'the stripped form',
         'lstrip': 'the stripped form', 'int': 'the whole part', 'round': 'the rounded value', 'abs': 'the absolute value',
         'slice': 'a part', 'sub': 'an entry', 'first': 'an entry', 'last': 'an entry', 'keys': 'the keys', 'truthy': 'the presence'}


def coarse(t):
    """ (what, of which attribute) for a function of an attribute that different values share """
    what = None
    while isinstance(t, T) and t.op != 'attr':
        op = t.op
        if op == 'mcall' and isinstance(t.args[1], str):
            op = t.args[1]
        if op in LOSSY:
            what = what or LOSSY[op]
        elif op not in ('list', 'tuple', 'str', 'bytes', 'copy', 'enc'):
            return None
        t = t.args[0] if t.args else None
    return (what, t) if what and isinstance(t, T) else None


@guard
def equality_parts(R):
    """ two parts of a log are equal exactly if everything they hold is equal """
    for cls in EQ_CLASSES:
        attrs = ctor_attrs(cls)
        if attrs is None:
            R.und('equality', 'class %s not found' % cls)
            continue
        r = mrun(cls, '__eq__', OTHER)
        isin = [x for x in walk(r.val) if x.op == 'isinstance' and x.args[0] is OTHER]
        if not isin:
            R.und('equality.type', '%s: no type test recognised' % cls, r.where)
        v = same_methods(subst(r.val, {x: TRUE for x in isin}), cls)
        n = subst(r.val, {x: FALSE for x in isin})
        if isin:
            R.decide(True if n is NOTIMPL or n is FALSE else None, 'equality.type', '%s never equals another kind of object' % cls, r.where)
        pairs = {}
        for x in walk(v):
            for a in sorted(attrs):
                if x is mk('attr', ME, a):
                    pairs.setdefault(a, x)
        for a in sorted(attrs):
            R.saw('attributes', '%s.%s' % (cls, a))
            if a == 'data':
                continue
            lits = [x for x in walk(v) if x.op == 'eq' and mk('attr', ME, a) in x.args and mk('attr', OTHER, a) in x.args]
            if not lits:
                from .rules_tools import told_apart
                mine, its = mk('attr', ME, a), mk('attr', OTHER, a)
                known = [w for x in walk(v) if x.op == 'eq' for w in [collision(x, mine, its)] if w]
                if told_apart(cls, a) is True and not any(told_apart(cls, a, w) is not True for w in known):
                    R.ok('equality.all', '%s: objects that differ in %s are not equal' % (cls, a), r.where)
                    continue
                if any(x.op == 'objdict' for x in walk(v)):
                    R.und('equality.all', '%s: %s is compared' % (cls, a), r.where)
                    continue
                if a not in pairs:
                    if not opaque(v) or all(x.op != 'callv' for x in walk(v)):
                        R.bad('equality.all', '%s: %s is not compared' % (cls, a), r.where, 'equality:%s.%s' % (cls, a))
                    else:
                        R.und('equality.all', '%s.__eq__ not understood' % cls, r.where)
                else:
                    crossed = [x for x in walk(v) if x.op == 'eq' and mk('attr', ME, a) in x.args]
                    lossy = [x for x in walk(v) if x.op == 'eq' and all(coarse(y) for y in x.args) and
                             {coarse(y)[1] for y in x.args} == {mk('attr', ME, a), mk('attr', OTHER, a)}]
                    mine, its = mk('attr', ME, a), mk('attr', OTHER, a)
                    if any(x.op == 'zip' and set(x.args) == {mine, its} for x in walk(v)) and \
                            not any(x.op == 'len' and x.args[0] in (mine, its) for x in walk(v)):
                        R.bad('equality.all', '%s: %s is only compared up to the end of the shorter one' % (cls, a), r.where,
                              'equality:%s.%s' % (cls, a))
                        continue
                    twice = [(x, w) for x in walk(v) if x.op == 'eq' for w in [collision(x, mine, its)] if w and told_apart(cls, a, w) is not True]
                    if twice and not any(mine in y.args for y in walk(v) if y.op == 'eq'):
                        R.bad('equality.all', '%s: objects with %s %r and %r can be equal' % ((cls, a) + twice[0][1]), r.where,
                              'equality:%s.%s' % (cls, a))
                        continue
                    if lossy:
                        R.bad('equality.all', '%s: only %s of %s is compared' % (cls, coarse(lossy[0].args[0])[0], a), r.where,
                              'equality:%s.%s' % (cls, a))
                        continue
                    R.decide(False if crossed and all(any(y.op == 'attr' and y.args[0] is OTHER for y in x.args) for x in crossed)
                             else None, 'equality.all', '%s: %s is compared' % (cls, a), r.where,
                             '%s: %s is compared with something else' % (cls, a), 'equality:%s.%s' % (cls, a))
                continue
            f = subst(v, {x: FALSE for x in lits})
            ok = settle_false(f)
            R.decide(ok, 'equality.all', '%s: objects that differ in %s are not equal' % (cls, a), r.where,
                     '%s: objects that differ in %s can be equal' % (cls, a), 'equality:%s.%s' % (cls, a))
        t = subst(v, {x: TRUE for x in eq_leaves(v) if any(mk('attr', ME, a) in x.args and mk('attr', OTHER, a) in x.args for a in attrs) or
                      x.args[0].op == 'keys'})
        if 'data' not in attrs:
            if t is not TRUE:
                from .rules_tools import are_equal, pairs_of_parts
                bases = [b if not callable(b) else b() for c, b, _ in pairs_of_parts() if c == cls]
                if bases and not attrs - set(bases[0]) and [are_equal(cls, b, dict(b)) for b in bases] == [('value', True)]:
                    t = TRUE
            R.decide(True if t is TRUE else (None if opaque(t) or t.op not in ('const',) else False), 'equality.same',
                     '%s: objects with equal contents are equal' % cls, r.where,
                     '%s: objects with equal contents are not equal' % cls, 'equality.same:%s' % cls)


def same_methods(v, cls):
    """ methods called on the other object are those of this class """
    env = {}
    for x in walk(v):
        if x.op == 'mcall' and x.args[0] is OTHER and isinstance(x.args[1], str) and not x.args[2]:
            try:
                m = mrun(cls, x.args[1])
            except (Und, AnalysisError, KeyError):
                continue
            env[x] = subst(m.val, {ME: OTHER})
    return subst(v, env) if env else v


GRID = list(range(128)) + [255, '', 'a', 'A', ' a', 'a ', 'b']


def collision(x, mine, its):
    """ two values that a comparison of a function of an attribute does not tell apart """
    a, b = x.args
    if its in set(walk(a)):
        a, b = b, a
    if mine not in set(walk(a)) or its not in set(walk(b)) or subst(a, {mine: its}) is not b or a is mine:
        return None
    seen = {}
    for g in GRID:
        try:
            k = folded(subst(a, {mine: C(g)}))
        except (TypeError, ValueError, AttributeError, IndexError, KeyError):
            continue
        if not is_const(k):
            continue
        k = (type(cval(k)), cval(k))
        if k in seen and type(seen[k]) is type(g):
            return seen[k], g
        seen.setdefault(k, g)
    return None


def folded(t):
    if t.op == 'dget' and t.args[0].op == 'dict' and is_const(t.args[1]):
        for p in t.args[0].args:
            if p.op != 'p_kv' or not is_const(p.args[0]):
                return t
            if cval(p.args[0]) == cval(t.args[1]):
                return p.args[1]
        return t.args[2]
    return t


def boolify(f):
    """ the truth of a value as a condition """
    if f.op == 'ite':
        c, x, y = boolify(f.args[0]), boolify(f.args[1]), boolify(f.args[2])
        return lor(land(c, x), land(lnot(c), y))
    if f.op in ('and', 'or'):
        return (land if f.op == 'and' else lor)(*[boolify(x) for x in f.args])
    if f.op == 'not':
        return lnot(boolify(f.args[0]))
    return C(bool(cval(f))) if is_const(f) else f


def settle_false(f):
    """ is this never true """
    b = tautology(boolify(f), 12)
    if is_const(b):
        return b is FALSE
    if len(cond_atoms(b)) > 12 or any(y.op in ('lv', 'callv', 'top') for y in walk(b)):
        return None
    return False


@guard
def equality_data(R):
    """ datasets are equal exactly if they have the same columns with the same samples, NaN included """
    r = mrun('ULog.Data', '__eq__', OTHER)
    D1, D2 = mk('attr', ME, 'data'), mk('attr', OTHER, 'data')
    seen = [x for e in r.trace for a in e.args if isinstance(a, T) for x in walk(a)]
    seen += list(walk(r.val))
    for i in r.it.loopinfo.values():
        for src in (i['end'], i['init']):
            for a in (src.values() if hasattr(src, 'values') else ()):
                if isinstance(a, T):
                    seen += list(walk(a))
        if isinstance(i['iter'], T):
            seen += list(walk(i['iter']))
        for c, _ in (i['pc'] or ()):
            seen += list(walk(c))
    seen = set(seen)
    R.decide(any(x is D1 for x in seen) and any(x is D2 for x in seen), 'equality.data', 'the samples of both datasets are compared',
             r.where, 'the samples are not compared', 'equality:data')
    calls = [x for x in seen if x.op == 'call' and str(x.args[0]).startswith('numpy.')]
    ae = [x for x in calls if x.args[0] == 'numpy.array_equal']
    if not ae:
        R.und('equality.samples', 'comparison of the samples not understood', r.where)
    for x in ae:
        kw = dict(x.args[2]) if len(x.args) > 2 and x.args[2] else {}
        kv = kw.get('equal_nan')
        pos = x.args[1][2] if len(x.args[1]) > 2 else None
        val = kv if kv is not None else pos
        R.decide(val is TRUE or (None if val is not None and not is_const(val) else False), 'equality.nan',
                 'a dataset with NaN samples equals itself', r.where, 'a dataset with NaN samples does not equal itself', 'equality:nan')
        a, b = x.args[1][:2]
        roots = [{y for y in (data_root(z),) if y in (D1, D2)} for z in (a, b)]
        R.decide(True if roots == [{D1}, {D2}] or roots == [{D2}, {D1}] else (False if len(roots[0] | roots[1]) == 1 else None),
                 'equality.samples', 'samples of one dataset are compared with those of the other', r.where,
                 'samples are compared with themselves', 'equality:samples')
    ks = [x for x in seen if x.op == 'eq' and {canon_cont(y) for y in x.args} == {D1, D2} or
          x.op == 'eq' and {y.args[0].args[0] if y.op == 'len' and y.args[0].op == 'keys' else y for y in x.args} == {D1, D2}]
    names = [x for x in seen if x.op in ('keys', 'items', 'in', 'dget') and canon_cont(x.args[-1] if x.op == 'in' else x.args[0]) in (D1, D2) or
             x.op == 'sub' and x.args[0] in (D1, D2) or x.op == 'eq' and D1 in x.args and D2 in x.args]
    def over(x, d):
        """ is this one of the names of the columns """
        return x.op in ('elem', 'sub') and any(canon_cont(y) is d for y in x.args if isinstance(y, T)) or \
            x.op == 'sub' and over(x.args[0], d) or x.op == 'p_each' and canon_cont(x.args[1]) is d
    tests = [x for x in seen if x.op == 'in']
    oneway = None
    if not ks:
        for d, o in ((D1, D2), (D2, D1)):
            if any(canon_cont(x.args[1]) is o for x in tests) and not any(over(x, o) for x in seen) and \
                    not any(x.op == 'len' and canon_cont(x.args[0]) is o for x in seen) and any(over(x, d) for x in seen) and \
                    not any(canon_cont(i['iter']) is o for i in r.it.loopinfo.values() if i and isinstance(i['iter'], T)):
                oneway = d
    R.decide(True if ks else (None if names and not oneway else False), 'equality.columns', 'the column names are compared', r.where,
             'the column names are not compared' if not oneway else 'only the columns of one of the datasets are looked for in the other',
             'equality:columns')
    for x in ks:
        v = subst(r.val, {x: FALSE})
        isin = {y: TRUE for y in walk(v) if y.op == 'isinstance'}
        v = subst(v, isin)
        R.decide(settle_false_under(v), 'equality.columns', 'datasets with different columns are not equal', r.where,
                 'datasets with different columns can be equal', 'equality:columns')


def data_root(z):
    while z not in (mk('attr', ME, 'data'), mk('attr', OTHER, 'data')):
        if z.op in ('sub', 'values', 'items', 'dget', 'V', 'E'):
            z = z.args[0]
        elif z.op == 'elem':
            z = z.args[1]
        elif z.op == 'zip' and False:
            pass
        else:
            return z
    return z


def canon_cont(y):
    y = unwrap(y)
    while y.op in ('keys', 'set', 'sorted', 'list') and y.args and isinstance(y.args[0], T):
        y = y.args[0]
    return y


def settle_false_under(v):
    return True if tautology(boolify(v), 12) is FALSE else None


@guard
def equality_log(R):
    """ logs are compared over everything they hold """
    r = mrun('ULog', '__eq__', OTHER)
    isin = [x for x in walk(r.val) if x.op == 'isinstance' and x.args[0] is OTHER]
    n = subst(r.val, {x: FALSE for x in isin})
    v = subst(r.val, {x: TRUE for x in isin})
    R.decide(True if isin and (n is NOTIMPL or n is FALSE) else None, 'equality.type', 'a log never equals another kind of object', r.where)
    od = [x for x in walk(v) if x.op == 'items' and x.args[0].op == 'objdict' and x.args[0].args[0] is ME or
          x.op == 'objdict' and x.args[0] is ME]
    R.saw('comparison', show(v, 6))
    if not od:
        attrs = ctor_attrs('ULog') or set()
        pubs = {p[0] for p in pubmap().values() if p[0]}
        for a in sorted(pubs):
            used = [x for x in walk(v) if x is mk('attr', ME, a)]
            R.decide(True if used else (None if any(x.op in ('callv', 'top', 'lv') for x in walk(v)) else False), 'equality.log',
                     'logs are compared over %s' % a, r.where, 'logs that differ in %s can be equal' % a, 'equality:log.%s' % a)
        return
    w = v
    neg = False
    while w.op == 'not':
        neg, w = not neg, w.args[0]
    if w.op not in ('any', 'all'):
        R.und('equality.log', 'comparison not understood', r.where)
        return
    body = [x for x in walk(w) if x.op == 'p_each']
    conds = [x for x in walk(w) if x.op == 'p_cond']
    if conds:
        left = [c.args[0] for c in conds]
        R.decide(False if not any(opaque(c) for c in left) else None, 'equality.log', 'all attributes are compared', r.where,
                 'attributes are compared only if %s' % ', '.join(show(c, 5) for c in left), 'equality:log.part')
        return
    if len(body) != 1:
        R.und('equality.log', 'comparison not understood', r.where)
        return
    lid, src = body[0].args[:2]
    k, val = mk('elem', lid, mk('keys', mk('objdict', ME))), mk('elem', lid, mk('values', mk('objdict', ME)))
    it = [x for x in walk(body[0]) if x.op == 'p_item']
    t = it[0].args[0] if it else None
    if t is None:
        R.und('equality.log', 'comparison not understood', r.where)
        return
    inv = False
    while t.op == 'not':
        inv, t = not inv, t.args[0]
    e2 = {mk('attrdyn', OTHER, k)}
    ok = t.op == 'eq' and val in t.args and any(x in e2 or x.op == 'call' and OTHER in walk(x) for x in t.args)
    if (w.op, neg, inv) not in (('any', True, True), ('all', False, False)):
        R.decide(False if ok else None, 'equality.log', 'all attributes must be equal', r.where,
                 'logs are compared as %s' % show(v, 4), 'equality:log.any')
        return
    R.decide(True if ok else (None if opaque(t, e2) else False), 'equality.log', 'every attribute must equal that of the other log', r.where,
             'attributes are compared as %s' % show(t, 5), 'equality:log')


# ------------------------------------------------------------------ side effects

MUTATORS = {'setattr', 'setattrdyn', 'setitem', 'setslice', 'append', 'extend', 'insert', 'delitem', 'delattr', 'pop', 'popitem',
            'clear', 'dupdate', 'remove', 'sort', 'reverse', 'discard', 'setglobal', 'pack_into', 'add', 'setdefault', 'update'}
MUT_METHODS = {'append', 'extend', 'insert', 'pop', 'popitem', 'clear', 'update', 'remove', 'sort', 'reverse', 'discard', 'add',
               'setdefault', 'fill', 'resize', 'byteswap', 'put', 'itemset', 'partition', '__setitem__', 'setflags'}


def root_of(t):
    while True:
        if t.op in ('sub', 'attr', 'attrdyn', 'K', 'V', 'E', 'values', 'keys', 'items', 'dget', 'slice'):
            t = t.args[0]
        elif t.op == 'elem':
            t = t.args[1]
        elif t.op in ('sorted', 'list', 'tuple') and len(t.args) >= 1 and isinstance(t.args[0], T) and t.op == 'sorted':
            t = t.args[0]
        else:
            return t


def mutations(r, of):
    """ events that change an object reachable from one of `of` """
    out = []
    for e in r.trace:
        if e.kind in MUTATORS and e.args and isinstance(e.args[0], T):
            x = e.args[0]
            if root_of(x) in of:
                out.append((e, show(x, 4)))
        elif e.kind == 'mcall' and len(e.args) > 1:
            x, name = e.args[0], e.args[1]
            name = name if isinstance(name, str) else cval(name) if is_const(name) else ''
            if isinstance(x, T) and name in MUT_METHODS and root_of(x) in of:
                out.append((e, '%s.%s()' % (show(x, 4), name)))
    return out


QUERIES = [('ULog', 'get_dataset', ['name', 'instance']), ('ULog', 'get_version_info', ['key']),
           ('ULog', 'get_version_info_str', ['key']), ('ULog', 'get_default_parameters', ['type']), ('ULog', '__eq__', ['other']),
           ('ULog.Data', 'list_value_changes', ['field']), ('ULog.Data', '__eq__', ['other']),
           ('ULog.MessageLogging', 'log_level_str', []), ('ULog.MessageLoggingTagged', 'log_level_str', [])]


@guard
def pure(R):
    """ asking a log something, or writing it, does not change it """
    for cls, m, args in QUERIES:
        try:
            r = mrun(cls, m, *[mk('sym', a) for a in args])
        except (Und, AnalysisError) as e:
            R.und('pure', '%s.%s: %s' % (cls, m, e))
            continue
        bad = mutations(r, {ME} | {mk('sym', a) for a in args})
        R.saw('queries', '%s.%s' % (cls, m))
        for e, what in bad:
            R.bad('pure', '%s.%s changes %s' % (cls, m, what), where_ev(e), 'pure:%s' % m)
        if not bad:
            R.ok('pure', '%s.%s changes nothing' % (cls, m), r.where)
    for as_path in (False, True):
        r = write_run(as_path)
        bad = mutations(r, {r.self})
        for e, what in bad:
            R.bad('pure', 'writing a log changes %s' % what, where_ev(e), 'pure:write')
        if not bad:
            R.ok('pure', 'writing a log changes nothing (%d events)' % len(r.trace))


@guard
def properties_pure(R):
    """ the properties return what is stored and change nothing """
    from .scen import sym_instance, new_interp
    from .engine import Frame, Func
    import ast
    it, st = new_interp('pyulog.core')
    s = sym_instance(it, st, 'pyulog.core', 'ULog', 'self')
    fr = Frame(Func('<q>', '<q>', ast.parse('pass').body[0], 'pyulog.core', (), None, [], {}, 'func'), 'q', (), 'pyulog.core')
    it.frames.append(fr)
    for n in PUBLIC + ['has_data_appended', 'has_default_parameters']:
        k = len(it.trace)
        it.getattr_(s, n, st, ast.parse('x').body[0], fr)
        r = Section()
        r.trace = it.trace[k:]
        bad = mutations(r, {s})
        R.saw('properties', n)
        for e, what in bad:
            R.bad('pure', 'reading %s changes %s' % (n, what), where_ev(e), 'pure:%s' % n)
        if not bad:
            R.ok('pure', 'reading %s changes nothing' % n)
    it.frames.pop()


# ------------------------------------------------------------------ queries

@guard
def dataset(R):
    """ the first dataset with the name and the instance asked for """
    n, i = mk('sym', 'name'), mk('sym', 'instance')
    r = mrun('ULog', 'get_dataset', n, i)
    v = r.val
    dl = attr_of('data_list')
    cont = mk('attr', ME, dl)
    conds = [x for x in walk(v) if x.op == 'p_cond']
    R.saw('result', show(v, 6))
    eqs = [x for x in walk(v) if x.op == 'eq']
    en = [x for x in eqs if n in x.args]
    ei = [x for x in eqs if i in x.args]
    loop = None
    if not conds:
        cand = [(l, i) for l, i in r.it.loopinfo.items() if i['final'] and i.get('rets') and isinstance(i['iter'], T)]
        if len(cand) == 1 and len(cand[0][1]['rets']) == 1:
            lid, info = cand[0]
            pc, _, val = info['rets'][0]
            loop = (info, land(*[c if s else lnot(c) for c, s in pc[len(info['pc'] or ()):]]), val)
            eqs = [x for x in walk(loop[1]) if x.op == 'eq']
            en = [x for x in eqs if n in x.args]
            ei = [x for x in eqs if i in x.args]
    for what, es, at in (('name', en, 'name'), ('instance', ei, 'multi_id')):
        if not es and not conds and loop is None:
            R.und('dataset.%s' % what, 'no selection of a dataset recognised', r.where)
            continue
        if not es:
            other = [x for x in walk(v) if mk('sym', what) in x.args]
            weak = other and all(x.op in ('startswith', 'endswith', 'in', 'find', 'lt', 'lower', 'mcall') for x in other)
            R.decide(None if any(x.op in ('callv', 'lv', 'mu') for x in walk(v)) or other and not weak else False,
                     'dataset.%s' % what, 'the %s is compared' % what, r.where,
                     'the %s is not compared exactly' % what, 'dataset:%s' % what)
            continue
        for x in es:
            o = [y for y in x.args if y not in (n, i)]
            ok = len(o) == 1 and o[0].op == 'attr' and o[0].args[1] == at and root_of(o[0]) is ME
            R.decide(True if ok else (False if len(o) == 1 and o[0].op == 'attr' else None), 'dataset.%s' % what,
                     'the %s is compared with that of the dataset' % what, r.where, 'the %s is compared with %s' % (
                         what, show(x, 4)), 'dataset:%s' % what)
    if loop is not None or len(conds) == 1 and v.op == 'sub':
        if loop is not None:
            cond = loop[1]
        else:
            c = conds[0]
            inc = c.args[2] if c.args[1] == () or not c.args[1] else None
            cond = lnot(c.args[0]) if inc is not None else c.args[0]
        for a in (TRUE, FALSE):
            for b in (TRUE, FALSE):
                g = subst(cond, {**{x: a for x in en}, **{x: b for x in ei}})
                want = TRUE if a is TRUE and b is TRUE else FALSE
                R.decide(g is want if is_const(g) else None, 'dataset.select', 'a dataset is chosen exactly if both match', r.where,
                         'a dataset with %s name and %s instance is %s' % ('the' if a is TRUE else 'another', 'the' if b is TRUE else
                                                                          'another', 'chosen' if g is TRUE else 'not chosen'), 'dataset:select')
        if loop is not None:
            it = loop[0]['iter']
            back = any(x.op == 'reversed' for x in walk(it))
            R.decide(False if back else (True if loop[2].op == 'elem' and unwrap(it) is cont else None), 'dataset.first',
                     'the first match is returned', r.where, 'the last match is returned', 'dataset:first')
            R.decide(True if unwrap(it) is cont else None, 'dataset.all', 'all datasets are searched', r.where)
        else:
            R.decide(True if v.args[1] is C(0) else (False if is_num(v.args[1]) else None), 'dataset.first', 'the first match is returned',
                     r.where, 'match number %s is returned' % show(v.args[1], 3), 'dataset:first')
            src = [x for x in walk(v) if x.op == 'p_each']
            R.decide(True if src and unwrap(src[0].args[1]) is cont else None, 'dataset.all', 'all datasets are searched', r.where)
    else:
        R.und('dataset.select', 'no selection of a dataset recognised', r.where)
    kinds = {x[1] for x in r.escapes}
    R.decide(True if kinds & {'IndexError', 'KeyError', 'ValueError', 'StopIteration'} - {'StopIteration'} else (False if not kinds else None),
             'dataset.missing', 'a missing dataset raises as documented', r.where, 'a missing dataset raises nothing of what is documented',
             'dataset:missing')


def version_key(R, name, r, d, k):
    """ every look-up is of the key that is asked for, the software version if none is given """
    for lab, run, want in (('given', r, k), ('not given', mrun('ULog', name), C('ver_sw_release'))):
        keys = {x.args[1] for x in walk(run.val) if x.op in ('sub', 'dget') and x.args[0] is d} | {x.args[0] for x in walk(run.val) if x.op == 'in' and x.args[1] is d}
        other = [x for x in keys if x is not want]
        R.decide(True if keys and not other else (False if any(is_const(x) or x is k for x in other) else None), 'version.key', '%s, key %s: the key asked for is used' % (name, lab), r.where,
                 '%s, key %s: %s is looked up' % (name, lab, ', '.join(show(x, 3) for x in other)), 'version:key')


@guard
def version_info(R):
    """ the version is unpacked from the 32 bit value """
    k = mk('sym', 'key')
    r = mrun('ULog', 'get_version_info', k)
    d = mk('attr', ME, attr_of('msg_info_dict'))
    vals = [x for x in walk(r.val) if x.op in ('sub', 'dget') and x.args[0] is d]
    ins = [x for x in walk(r.val) if x.op == 'in' and x.args[1] is d]
    if not vals:
        raise Und('value not recognised')
    x = vals[0]
    version_key(R, 'get_version_info', r, d, k)
    none = subst(r.val, {c: FALSE for c in ins})
    if ins:
        R.decide(True if none is NONE else (False if is_const(none) else None), 'version.none', 'without the entry the answer is None', r.where,
                 'without the entry the answer is %s' % show(none, 3), 'version:none')
    elif x.op == 'dget':
        none = subst(r.val, {y: y.args[2] if len(y.args) > 2 else NONE for y in vals})
        R.decide(True if none is NONE else (False if is_const(none) else None), 'version.none', 'without the entry the answer is None', r.where,
                 'without the entry the answer is %s' % show(none, 3), 'version:none')
    full = subst(r.val, {c: TRUE for c in ins})
    SAMPLES = [0x01020304, 0xFFFEFDFC, 0, 0xFFFFFFFF, 0x010AE240, 0x00FF00FF, 0x80000000, 0x01090040, 0x0B0C807F, 0x010DC0FE, -1, -0x80000000, 0x7FFFFFFF, -0x01F5C040]
    for n in SAMPLES:
        res = subst(full, {y: C(n) for y in vals})
        got = numbers(res)
        if got is None and is_const(res):
            got = cval(res) or []
        want = [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255]
        R.saw('versions', hex(n))
        R.decide(got == want if got is not None else None, 'version.parts', '%#x is unpacked' % n, r.where,
                 '%#x is unpacked to %s' % (n, got), 'version:parts')


def numbers(t):
    xs = items_of(t) if t.op != 'tuple' else list(t.args)
    if xs is None:
        return None
    out = []
    for x in xs:
        try:
            out.append(cval(x) if is_const(x) else numeval(x, {}))
        except Exception:  # pylint: disable=broad-except
            return None
    return out


@guard
def version_str(R):
    """ the printed version names the release type, development versions have none """
    k = mk('sym', 'key')
    r = mrun('ULog', 'get_version_info_str', k)
    d = mk('attr', ME, attr_of('msg_info_dict'))
    vals = [x for x in walk(r.val) if x.op in ('sub', 'dget') and x.args[0] is d]
    ins = [x for x in walk(r.val) if x.op == 'in' and x.args[1] is d]
    if not vals:
        raise Und('value not recognised')
    version_key(R, 'get_version_info_str', r, d, k)
    none = subst(r.val, {**{c: FALSE for c in ins}, **{y: y.args[2] if len(y.args) > 2 else NONE for y in vals if y.op == 'dget'}})
    R.decide(True if none is NONE else None, 'version_str.none', 'without the entry the answer is None', r.where)
    for base, typ in [(0x01092A00, t) for t in range(256)] + [(b << 8, t) for b in (0, 1, 0x100, 0x10000, 0xFFFFFF, 0x0A0B0C, 0x010000, 0x00FF00)
                                                              for t in (0, 63, 64, 127, 128, 191, 192, 254, 255)] + [(-0x100, t) for t in (0, 63, 64, 127, 192, 255)]:
        n = base | typ
        got = subst(r.val, {**{c: TRUE for c in ins}, **{y: C(n) for y in vals}})
        want = None if typ < 64 else 'v%d.%d.%d' % ((n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255) + (' (alpha)' if typ < 128 else ' (beta)' if typ < 192 else ' (RC)' if typ < 255 else '')
        R.saw('types', str(typ))
        R.decide(cval(got) == want if is_const(got) else None, 'version_str', 'release type %d' % typ, r.where,
                 'release type %d gives %s, not %s' % (typ, show(got, 4), want), 'version_str')


LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']


@guard
def levels(R):
    """ log levels '0' to '7' have their syslog names """
    for cls in ('ULog.MessageLogging', 'ULog.MessageLoggingTagged'):
        r = mrun(cls, 'log_level_str')
        a = mk('attr', ME, 'log_level')
        for n in range(256):
            got = table(subst(r.val, {a: C(n)}))
            want = LEVELS[n - 48] if 48 <= n < 56 else 'UNKNOWN'
            R.saw('levels', str(n))
            R.decide(got == want if got is not None else None, 'levels', '%s level %d' % (cls, n), r.where,
                     '%s level %d is called %r, not %s' % (cls, n, got, want), 'levels')


def table(t):
    """ look up in a constant table """
    if is_const(t):
        return cval(t)
    if t.op in ('dget', 'sub') and t.args[0].op in ('dict', 'list', 'tuple') and is_const(t.args[1]):
        if t.args[0].op == 'dict':
            for p in reversed(t.args[0].args):
                if p.op != 'p_kv' or not is_const(p.args[0]):
                    return None
                if p.args[0] is t.args[1]:
                    return table(p.args[1])
            return table(t.args[2]) if t.op == 'dget' and len(t.args) > 2 else None
        xs = items_of(t.args[0])
        k = cval(t.args[1])
        if not xs or not isinstance(k, int):
            return None
        return table(xs[k]) if -len(xs) <= k < len(xs) else 'IndexError'
    return None


def change_mask(v, t, x):
    """ (first is kept, neighbours are compared, comparison) when the samples are picked by a mask  True, x[1:] != x[:-1] """
    for y in walk(v):
        if y.op == 'sub' and y.args[0] is t and isinstance(y.args[1], T):
            parts = None
            m = y.args[1]
            if m.op == 'call' and m.args[0] in ('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.insert'):
                xs = [items_of(a) if items_of(a) is not None else [a] for a in m.args[1]]
                parts = [q for p in xs for q in (p if isinstance(p, (list, tuple)) else [p])]
                flat = []
                for p in parts:
                    ys = items_of(p)
                    flat += list(ys) if ys is not None else [p]
                if m.args[0] == 'numpy.insert':
                    if len(flat) != 3 or flat[1] is not C(0):
                        continue
                    flat = [flat[2], flat[0]]
                parts = [q.args[0] if q.op == 'p_item' else q for q in flat]
            if not parts or len(parts) != 2:
                continue
            first, d = parts
            first = TRUE if first is C(1) else FALSE if first is C(0) else first
            if first not in (TRUE, FALSE) or mk('sub', x, m) not in set(walk(v)):
                continue
            good = {lnot(eq(mkslice(x, a, C(-1)), mkslice(x, C(1), NONE))) for a in (C(0), NONE)}
            return first is TRUE, True if d in good else (None if opaque(d) else False), d
    return None


@guard
def value_changes(R):
    """ the first sample and each later one that differs from its predecessor, without those at time 0 """
    f = mk('sym', 'field')
    r = mrun('ULog.Data', 'list_value_changes', f)
    D = mk('attr', ME, 'data')
    T0, X0 = mk('sub', D, C('timestamp')), mk('sub', D, f)
    v = r.val
    mask = lnot(eq(C(0), T0))
    alt = [mask, lt(C(0), T0)]
    m = next((x for x in alt if mk('sub', T0, x) in set(walk(v))), None)
    if m is None:
        any_mask = [x for x in walk(v) if x.op == 'sub' and x.args[0] is T0 and isinstance(x.args[1], T) and not is_const(x.args[1])]
        simple = [x for x in any_mask if x.args[1].op in ('eq', 'lt', 'not')]
        R.decide(False if simple else None, 'changes.zero', 'samples at time 0 are left out', r.where,
                 'samples are chosen by %s' % (show(simple[0].args[1], 4) if simple else ''), 'changes:zero')
        return
    R.ok('changes.zero', 'samples at time 0 are left out', r.where)
    t, x = mk('sub', T0, m), mk('sub', X0, m)
    masked = change_mask(v, t, x)
    if masked is not None:
        R.decide(masked[0], 'changes.first', 'the first sample is listed', r.where, 'the first sample is listed only if it changes', 'changes:first')
        R.decide(masked[1], 'changes.diff', 'each sample is compared with its predecessor', r.where, 'samples are compared as %s' % show(masked[2], 4),
                 'changes:diff')
        return
    items = [y for y in walk(v) if y.op == 'p_item' and y.args[0].op == 'tuple']
    first = mk('tuple', mk('sub', t, C(0)), mk('sub', x, C(0)))
    R.decide(True if any(y.args[0] is first for y in items) else (None if not items else False if all(not opaque(y) for y in items) else None),
             'changes.first', 'the first sample is listed', r.where, 'the first entry is %s' % (show(items[0], 4) if items else ''), 'changes:first')
    # not depending on its value
    has = lambda p: any(z is first for z in (walk(p) if isinstance(p, T) else [w for q in p for w in walk(q)]))
    for y in walk(v):
        if y.op == 'p_cond' and has(y.args[1]) != has(y.args[2]) or y.op == 'ite' and has(y.args[1]) != has(y.args[2]):
            on = [z for z in walk(y.args[0]) if z.op == 'sub' and z.args[0] in (x, t) and is_num(z.args[1])]
            if on:
                R.bad('changes.first', 'the first sample is listed only if %s' % show(y.args[0], 5), r.where, 'changes:first')
    def absent(it, st, s):
        it.nan = lambda a: a.op == 'sub' and a.args[0] is x and is_num(a.args[1])
    w = method_run('pyulog.core', 'ULog.Data', 'list_value_changes', [f], {}, name='self', prep=absent)
    w = w.it.freeze(w.st, w.ret) if isinstance(w.ret, T) else None
    if w is not None and any(y.args[0] is first for y in items):
        R.decide(any(y is first for y in walk(w)), 'changes.first', 'the first sample is listed if it is not a number', r.where,
                 'a first sample that is not a number is not listed', 'changes:first')
    slices = [y for y in walk(v) if y.op == 'eq' and all(z.op == 'slice' and z.args[0] is x for z in y.args)]
    inexact = {'numpy.diff': 'inf - inf is not 0', 'numpy.subtract': 'inf - inf is not 0', 'numpy.isclose': 'small changes are left out',
               'numpy.sign': 'changes of the size are left out', 'numpy.round': 'small changes are left out'}
    used = [y for y in walk(v) if y.op == 'call' and y.args[0] in inexact and any(z is x or z is X0 for z in walk(y))]
    if not slices and used:
        R.bad('changes.diff', 'samples are compared by %s: %s' % (used[0].args[0], inexact[used[0].args[0]]), r.where, 'changes:diff')
        return
    if not slices:
        R.und('changes.diff', 'comparison of neighbours not recognised', r.where)
        return
    good = {eq(mkslice(x, a, C(-1)), mkslice(x, C(1), NONE)) for a in (C(0), NONE)}
    R.decide(any(y in good for y in slices), 'changes.diff', 'each sample is compared with its predecessor', r.where,
             'samples are compared as %s' % show(slices[0], 4), 'changes:diff')
    pos = [y for y in walk(v) if y.op == 'sub' and y.args[0] in (t, x) and isinstance(y.args[1], T) and not is_num(y.args[1])]
    offs = set()
    for y in pos:
        i = y.args[1]
        ws = [z for z in walk(i) if z.op == 'sub' and z.args[0].op == 'call' and 'numpy.' in str(z.args[0].args[0])] or \
            [z for z in walk(i) if z.op == 'call' and str(z.args[0]) in ('numpy.flatnonzero',)]
        if ws:
            o = sub(i, ws[0])
            offs.add((y.args[0], o))
            w = ws[0].args[0] if ws[0].op == 'sub' else ws[0]
            c = w.args[1][0]
            R.decide(True if c.op == 'not' and c.args[0] in slices else (False if c in slices else None), 'changes.where',
                     'positions where it differs', r.where, 'positions where the value stays the same are listed', 'changes:where')
    if not offs:
        R.und('changes.offset', 'positions of the changes not recognised', r.where)
    for a, o in offs:
        R.decide(True if o is C(1) else (False if is_num(o) else None), 'changes.offset', 'the sample after the change is listed', r.where,
                 'the sample %s places after the position is listed' % show(o, 3), 'changes:offset')
