"""Selection of updatable parameters"""
import numpy as np

from .. import hvtree as hv
from ..core import Clause, fail, raises, require, same

KINDS = ['mark', 'mark', 'mark', 'mark container', 'all', 'all shallow', 'fix', 'fix shallow', 'sub all', 'sub fix',
         'unmark', 'write', 'write', 'write names', 'write names', 'set', 'copy', 'reject']


def all_flags(obj, where='', recurse=True):
    """Flags set by marking everything in an object"""
    out = set()
    for key in obj.model_fields:
        field = getattr(obj, key)
        if isinstance(field, np.ndarray) or hasattr(field, 'model_fields') or isinstance(field, (list, tuple, dict)):
            out.add((where, key))
        if not recurse:
            continue
        if hasattr(field, 'model_fields'):
            out |= all_flags(field, f'{where}{key}.')
        elif isinstance(field, (list, tuple, dict)):
            for k, sub in (field.items() if isinstance(field, dict) else enumerate(field)):
                out |= all_flags(sub, f'{where}{key}.{k}.')
    return out


def containers(model):
    """Positions of all submodels, by the prefix of the names of their parameters"""
    return sorted({where for n in model.names for where, _ in hv.chain(n)})


def submodel(obj, where):
    return obj if where == '' else hv.locate(obj, where + '_')[-1][0]


def check(case, note):
    obj, model, count = hv.make(case)
    others = []
    partial = rejections = writes = 0
    hv.agree_names(obj, model, 'after creation')
    for t, (kind, i, j, k, flag) in enumerate(case['ops']):
        names = hv.subset(model.names, i, j, k)
        what = f'operation {t} ({kind})'
        rows = case['batch'] if flag else 1
        subs = containers(model)
        if kind == 'mark':
            obj.mark_updatable(names[0])
            model.flags |= set(hv.chain(names[0]))
        elif kind == 'mark container':
            # The attribute of the root alone: its members stay as they were
            key = names[0].split('.')[0]
            obj.mark_updatable(key)
            model.flags.add(('', key))
        elif kind in ('all', 'all shallow'):
            obj.mark_all_updatable(**({} if kind == 'all' and k % 2 else {'recurse': kind == 'all'}))
            model.flags |= all_flags(obj, recurse=kind == 'all')
        elif kind == 'fix':
            obj.mark_all_fixed()
            model.flags.clear()
        elif kind == 'fix shallow':
            obj.mark_all_fixed(recurse=False)
            model.flags = {f for f in model.flags if f[0] != ''}
        elif kind in ('sub all', 'sub fix'):
            where = subs[i % len(subs)]
            sub = submodel(obj, where)
            if kind == 'sub all':
                sub.mark_all_updatable()
                model.flags |= all_flags(sub, where)
            else:
                sub.mark_all_fixed()
                model.flags = {f for f in model.flags if not f[0].startswith(where)}
        elif kind == 'unmark':
            where, key = hv.chain(names[0])[k % len(hv.chain(names[0]))]
            submodel(obj, where).updatable.discard(key)
            model.flags.discard((where, key))
        elif kind == 'set':
            value = count.rows(rows, model.values[names[0]].shape[1])
            given = value.copy()
            obj.set_value(names[0], given)
            hv.spoil(given)
            model.values[names[0]] = value
        elif kind in ('write', 'write names', 'copy'):
            up = model.updatable()
            if kind == 'write names' and up:
                up = hv.subset(up, i, j, k)
            if up or kind == 'write':
                value = count.rows(rows, sum(model.values[n].shape[1] for n in up))
                given = value.copy() if rows > 1 or j % 2 else value[0].copy()
                kwargs = {'names': up} if kind == 'write names' else {}
                if kind == 'copy':
                    others.append((obj, model))
                    model = model.clone()
                    obj = obj.make_copy(given, **kwargs)
                else:
                    obj.update_parameters(given, **kwargs)
                hv.spoil(given)  # The caller is free to use its array for something else
                pos = 0
                for n in up:
                    w = model.values[n].shape[1]
                    model.values[n] = value[:, pos:pos + w]
                    pos += w
                writes += 1
                partial += 0 < len(model.updatable()) < len(model.names)
        elif kind == 'reject':
            rejections += check_rejections(obj, model, count, i, j, k, rows)
        hv.agree(obj, model, what)
        hv.agree_names(obj, model, what)
        for o, m in others:
            hv.agree(o, m, f'original of a copy after {what}')
            hv.agree_names(o, m, f'original of a copy after {what}')
    note('partly updatable write' if partial else 'no partly updatable write', 'rejections' if rejections else
         'no rejections', nontrivial=bool(partial))


def check_rejections(obj, model, count, i, j, k, rows):
    """Wrong writes, made to a copy"""
    up = model.updatable()
    fixed = [n for n in model.names if n not in up]

    def attempt(names, width, what, explicit=True):
        trial = obj.model_copy(deep=True)
        value = count.rows(rows, width)
        raises(lambda: trial.update_parameters(value, names if explicit else None), what, ValueError)
        for n in model.names:
            o, key = hv.locate(trial, n)[-1]
            same(getattr(o, key), model.values[n], f'{what}: {"fixed" if n in fixed else "updatable"} parameter {n}')
        raises(lambda: obj.make_copy(value, names if explicit else None), what + ' (copy)', ValueError)

    def width(names):
        return sum(model.values[n].shape[1] for n in names)

    n = 0
    if fixed:
        bad = fixed[i % len(fixed)]
        names = (up[:k % 3] + [bad]) if k % 2 else [bad]
        attempt(names, width(names), f'write to {bad}, which is fixed')
        n += 1
    if up:
        some = hv.subset(up, i, j, k)
        attempt(some, width(some) + 1 + k % 2, 'too many values')
        attempt(some, width(some) - 1, 'too few values')
        attempt(None, width(up) + 1, 'too many values for all updatable parameters', explicit=False)
        attempt(None, width(up) - 1, 'too few values for all updatable parameters', explicit=False)
        n += 1
    else:
        attempt(None, 1, 'values although nothing is updatable', explicit=False)
    return n


def check_all(case, note):
    """Marking each parameter alone selects just that one"""
    obj, model, count = hv.make(case)
    for n in model.names:
        obj.mark_all_fixed()
        obj.mark_updatable(n)
        if list(obj.updatable_names) != [n]:
            fail(f'marking {n} selects {obj.updatable_names}')
        value = count.rows(1, model.values[n].shape[1])
        given = value[0].copy()
        obj.update_parameters(given)
        hv.spoil(given)
        model.values[n] = value
        hv.agree(obj, model, f'after writing to {n}')
        # Take away any one of the flags along the path
        for where, key in hv.chain(n):
            sub = submodel(obj, where)
            sub.updatable.discard(key)
            require(list(obj.updatable_names) == [], f'{n} is selected though {where}{key} is fixed')
            require(obj.num_updatable == 0, f'a value is selected though {where}{key} is fixed')
            raises(lambda: obj.update_parameters(value, [n]), f'write to {n} though {where}{key} is fixed', ValueError)
            sub.updatable.add(key)
    note(nontrivial=len(model.names) > 3)


CLAUSES = [
    Clause('selection', hv.tree_cases(KINDS), check, 'a bulk write while only some parameters are updatable', 1600, 60000),
    Clause('selection in a circuit', hv.circuit_cases(KINDS), check,
           'a bulk write while only some parameters are updatable', 400, 15000),
    Clause('each parameter', hv.tree_cases(['mark']), check_all, 'the tree has submodels', 120, 5000),
    Clause('each parameter of a circuit', hv.circuit_cases(['mark']), check_all, 'any', 40, 1000),
]
ASSUMPTIONS = ['Whether a rejected write leaves parameters which are updatable unchanged is not specified']
