"""Health parameters as a map from names to values"""
import numpy as np
from hypothesis import strategies as st

from .. import hvtree as hv
from ..core import Clause, raises, require, same

KINDS = ['set', 'set', 'update', 'update', 'update all', 'copy', 'copy all', 'deep copy', 'read']


def check(case, note):
    obj, model, count = hv.make(case)
    obj.mark_all_updatable()
    batch = case['batch']
    hv.agree(obj, model, 'after creation')
    others = []  # Objects which must not change any more
    kinds = set()
    for t, (kind, i, j, k, flag) in enumerate(case['ops']):
        names = hv.subset(model.names, i, j, k)
        what = f'operation {t} ({kind} {names if kind not in ("update all", "copy all") else ""})'
        rows = batch if flag else 1
        kinds.add(kind)
        if kind == 'set':
            n = names[0]
            w = model.values[n].shape[1]
            if w > 1 and 'tree' in case and k > 6:
                w = 2 + k % 2  # Vectors may change length
            value = count.rows(rows, w)
            given = hv.forms(value, k)
            obj.set_value(n, given)
            hv.spoil(given)
            model.values[n] = value
        elif kind in ('update', 'update all', 'copy', 'copy all'):
            if kind.endswith('all'):
                names = model.names
            value = count.rows(rows, sum(model.values[n].shape[1] for n in names))
            given = value.copy() if k % 3 else (value.tolist() if rows > 1 or k % 2 else value[0].tolist())
            kwargs = {} if kind.endswith('all') and k % 2 else {'names': names if k % 4 else tuple(names)}
            if kind.startswith('copy'):
                before = model.clone()
                new = obj.make_copy(given, **kwargs)
                others.append((obj, before, f'original of the copy made by {what}'))
                obj = new
            else:
                obj.update_parameters(given, **kwargs)
            hv.spoil(given)
            pos = 0
            for n in names:
                w = model.values[n].shape[1]
                model.values[n] = value[:, pos:pos + w]
                pos += w
        elif kind == 'deep copy':
            new = obj.model_copy(deep=True)
            if flag:
                others.append((obj, model.clone(), 'original of a deep copy'))
                obj = new
            else:
                others.append((new, model.clone(), 'deep copy'))
        found = obj.get_parameters(names)
        same(found, model.read(names), f'{what}: values read together')
        hv.spoil(found)
        same(obj.get_parameters(names[:1]), model.read(names[:1]), f'{what}: value of {names[0]}')
        found = obj.get_parameters(names[:1])
        hv.spoil(found)
        hv.agree(obj, model, what)
        for o, m, w in others:
            hv.agree(o, m, f'{w}, after {what}')

    # In-place changes of one object must not show in others
    snapshot = [(o, m) for o, m, _ in others]
    for n in model.names:
        o, key = hv.locate(obj, n)[-1]
        arr = getattr(o, key)
        require(not any(np.shares_memory(arr, getattr(*hv.locate(other, n)[-1])) for other, _ in snapshot),
                f'{n} is shared between a copy and its original')
    listed = list(obj.iter_parameters(updatable_only=False))
    require([n for n, _ in listed] == model.names, f'names are {[n for n, _ in listed]}, expected {model.names}')
    for n, v in listed:
        same(v, model.values[n], f'value listed for {n}')
    note(*kinds, 'batch' if model.batch > 1 else 'single',
         nontrivial=len(kinds & {'set', 'update', 'update all', 'copy', 'copy all'}) > 1 and len(model.names) > 3)


# --- One write, of one parameter, in every spelling, and nothing else changes
def check_one(case, note):
    obj, model, count = hv.make(case)
    obj.mark_all_updatable()
    for n in model.names:
        for write in ('set_value', 'update_parameters', 'make_copy'):
            for rows in {1, case['batch']}:
                value = count.rows(rows, model.values[n].shape[1])
                if write == 'set_value':
                    obj.set_value(n, value)
                elif write == 'update_parameters':
                    obj.update_parameters(value, [n])
                else:
                    obj = obj.make_copy(value, [n])
                model.values[n] = value
                hv.agree(obj, model, f'{write} of {n}')
                same(obj.get_parameters([n]), model.read([n]), f'{n} after {write}')
    note(nontrivial=len(model.names) > 3)


# --- Names which do not exist
def wrong_names(model, i):
    """Spellings which are close to names that exist"""
    out = ['', 'zz', model.names[0] + '.zz', 'zz.' + model.names[0]]
    nested = [n for n in model.names if '.' in n]
    for n in nested[i % 3::3] or model.names:
        parts = n.split('.')
        out += ['.'.join(parts[:-1] + ['zz']), '.'.join(parts[:-1] + [parts[-1] + '_']), '.'.join(['zz'] + parts[1:]),
                '.'.join(parts[1:]) + '.zz', n + '.0', '.'.join(parts[:-1]) + '..' + parts[-1]]
        for k in range(1, len(parts) - 1):
            if parts[k - 1] in ('kids', 'table', 'rc_elements'):
                out += ['.'.join(parts[:k] + [other] + parts[k + 1:]) for other in ('99', 'second!', '')]
                out.append('.'.join(parts[:k] + parts[k + 1:]))
    return [n for n in dict.fromkeys(out) if n not in model.names]


def check_wrong(case, note):
    obj, model, count = hv.make(case)
    obj.mark_all_updatable()
    i = case['ops'][0][1]
    wrong = wrong_names(model, i)
    for n in wrong:
        value = count.rows(1, 1)
        raises(lambda: obj.get_parameters([n]), f'reading {n!r}, which does not exist')
        raises(lambda: obj.set_value(n, value), f'writing {n!r}, which does not exist')
        raises(lambda: obj.update_parameters(value, [n]), f'updating {n!r}, which does not exist')
        raises(lambda: obj.make_copy(value, [n]), f'copying with {n!r}, which does not exist')
        good = model.names[(i + len(n)) % len(model.names)]
        both = count.rows(1, model.values[good].shape[1] + 1)
        raises(lambda: obj.get_parameters([good, n]), f'reading {good!r} and {n!r}, which does not exist')
        raises(lambda: obj.update_parameters(both, [good, n]), f'updating {good!r} and {n!r}, which does not exist')
        raises(lambda: obj.mark_updatable(n), f'marking {n!r}, which does not exist')
    hv.agree(obj, model, 'after writes which were rejected')
    require(list(obj.updatable_names) == model.names, f'updatable names changed to {obj.updatable_names}')
    obj.mark_all_fixed()
    for n in wrong:
        raises(lambda: obj.mark_updatable(n), f'marking {n!r}, which does not exist')
    require(list(obj.updatable_names) == [], f'marking names which do not exist marked {obj.updatable_names}')
    for model_ in obj._iter_over_submodels():
        require(not model_.updatable, f'marking names which do not exist marked {model_.updatable}')
    require(list(obj.all_names) == model.names, f'names changed to {obj.all_names}')
    note('circuit' if 'asoh' in case else 'tree', nontrivial=len(wrong) > 8)


CLAUSES = [
    Clause('history', hv.tree_cases(KINDS), check, 'more than one kind of write to a tree with submodels', 1000, 40000),
    Clause('history of a circuit', hv.circuit_cases(KINDS), check, 'more than one kind of write', 250, 10000),
    Clause('each parameter', st.one_of(hv.tree_cases(['read']), hv.circuit_cases(['read'])), check_one,
           'the tree has submodels', 120, 4000),
    Clause('unknown names', st.one_of(hv.tree_cases(['read']), hv.circuit_cases(['read'])), check_wrong,
           'more than eight misspelled names', 150, 4000),
]
ASSUMPTIONS = ['Values written are finite; names are those of parameters; batch sizes of what is written are consistent']
