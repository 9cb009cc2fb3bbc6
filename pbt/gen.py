"""Strategies for specifications (plain dictionaries) of circuits, states, inputs and histories"""
from hypothesis import strategies as st


def sig(x, n=4):
    return float(f'{x:.{n}g}')


GRID = 4000


def num(lo, hi, n=4):
    """Floats spread evenly over a range, rounded so that they are readable when reported

    Made from integers, as those are spread more evenly than Hypothesis' floats
    """
    zero = round(-lo / (hi - lo) * GRID) if lo < 0 < hi else 0
    # Round numbers and ends of the range are where special treatment hides
    special = [x for x in (0., 1., -1., 0.5, 25., 20., 2., 10., 100., 298., 3., lo, hi) if lo <= x <= hi]
    extra = GRID // 15

    def conv(k):
        if k > GRID:
            return special[k % len(special)]
        return 0. if lo < 0 < hi and k == zero else min(max(sig(lo + (hi - lo) * k / GRID, n), lo), hi)
    return (st.integers(-zero, GRID + extra - zero).map(lambda k: conv(k + zero)) if zero else
            st.integers(0, GRID + extra).map(conv))


def lognum(lo, hi, n=4):
    """Positive floats spread evenly over the orders of magnitude"""
    special = [x for x in (1., 0.1, 10., 100., 1000., lo, hi) if lo <= x <= hi]

    def conv(k):
        return special[k % len(special)] if k > GRID else min(max(sig(lo * (hi / lo) ** (k / GRID), n), lo), hi)
    return st.integers(0, GRID + GRID // 15).map(conv)


def rows(draw, elem, batch, width=1, p_batch=True):
    """Rows of a leaf: either one or one per member of the batch"""
    n = batch if (batch > 1 and p_batch and draw(st.booleans())) else 1
    return [[draw(elem) for _ in range(width)] for _ in range(n)]


STYLES = ['linear', 'nearest', 'nearest-up', 'zero', 'slinear', 'quadratic', 'cubic', 'previous', 'next']
LOCAL_STYLES = ['linear', 'slinear', 'nearest', 'nearest-up', 'previous', 'next', 'zero']
MIN_POINTS = {'quadratic': 3, 'cubic': 4}


@st.composite
def pins_(draw, n, wide=False):
    """Strictly increasing pinpoints"""
    gaps = [draw(st.integers(1, 20)) for _ in range(n - 1)]
    total = sum(gaps)
    start = 0. if wide else draw(st.sampled_from([0., 0., 0.05, -0.1]))
    end = 1. if wide else draw(st.sampled_from([1., 1., 0.9, 1.2]))
    out, acc = [start], 0
    for g in gaps:
        acc += g
        out.append(sig(start + (end - start) * acc / total, 6))
    return out


@st.composite
def interp(draw, elem, batch=1, constant=None, max_points=6, styles=STYLES, local=False, allow_pins=True):
    """Values of a parameter as a function of SOC

    If ``local``, use only settings which do not overshoot the values in the table by much
    """
    if constant is None:
        constant = draw(st.integers(0, 2)) == 0
    style = draw(st.sampled_from(LOCAL_STYLES if local else styles))
    if constant:
        return {'vals': rows(draw, elem, batch, 1), 'pins': None, 'style': style}
    n = draw(st.integers(MIN_POINTS.get(style, 2), max(max_points, MIN_POINTS.get(style, 2))))
    if n == 6 and draw(st.integers(0, 3)) == 0:  # Longer than there are digits
        n = draw(st.sampled_from([10, 11, 12, 13, 14, 70]))
    # The "previous" and "next" values are undefined outside of the table
    pins = draw(pins_(n, wide=local or style in ('previous', 'next'))) if allow_pins and draw(st.booleans()) else None
    return {'vals': rows(draw, elem, batch, n), 'pins': pins, 'style': style}


def scaled(lo, hi):
    """Values within a factor of 4 of each other"""
    return num(lo, hi)


@st.composite
def resistance(draw, batch=1, constant=None, lo=0.002, hi=0.02, tdep=True):
    scale = draw(st.sampled_from([1., 1., 10.]))
    spec = draw(interp(num(lo * scale, hi * scale), batch, constant=constant, local=True))
    spec['tref'] = draw(st.sampled_from([25., 25., 20., -5., 40., 0.]))
    spec['tdep'] = rows(draw, st.one_of(num(-0.02, 0.05), st.just(0.), num(-0.02, 0.05)), batch) if tdep else [[0.]]
    return spec


@st.composite
def capacitance(draw, batch=1, constant=None, lo=200., hi=2000.):
    scale = draw(st.sampled_from([1., 1., 0.1, 20.]))
    return draw(interp(num(lo * scale, hi * scale), batch, constant=constant, local=True))


@st.composite
def capacities(draw, batch=1):
    base = draw(lognum(0.05, 20.))
    return [[sig(base * x[0], 5)] for x in rows(draw, num(1., 3., 3), batch)]


@st.composite
def circuit(draw, batch=1, constant=None, num_rc=None, has_c0=None, tdep=True, ocv_constant=None, max_rc=3,
            min_gamma=0., fast=False):
    """All parameters of an equivalent circuit. ``constant``: nothing depends on SOC or temperature"""
    if num_rc is None:
        num_rc = draw(st.sampled_from([0, 1, 1, 2, 2, 3][:3 + max_rc]))
        if num_rc == 3 and draw(st.integers(0, 2)) == 0:
            num_rc = draw(st.sampled_from([4, 5, 11]))
    if has_c0 is None:
        has_c0 = draw(st.booleans())
    spec = {
        'q_t': draw(capacities(batch)),
        'ce': rows(draw, st.one_of(num(0.7, 1.), st.just(1.), num(0.7, 1.)), batch),
        'ocv': {
            'ref': draw(interp(num(2.5, 4.2), batch, constant=ocv_constant)),
            'tref': rows(draw, st.sampled_from([25., 25., 20., 10., 30.5, 0.]), batch),
            'ent': draw(interp(st.one_of(num(-0.005, 0.01), st.just(0.), num(-0.005, 0.01)), batch,
                               constant=None if draw(st.booleans()) else True)),
        },
        'r0': draw(resistance(batch, constant=constant, tdep=tdep)),
        'c0': draw(capacitance(batch, constant=constant)) if has_c0 else None,
        'rc': [{'r': draw(resistance(batch, constant=constant, tdep=tdep)),
                'c': draw(capacitance(batch, constant=constant))} for _ in range(num_rc)],
        'h0': {**draw(interp(num(0., 0.2), batch, constant=constant, local=True)),
               'gamma': rows(draw, st.one_of(num(1., 60.), st.just(min_gamma), num(min_gamma, 1.), num(1., 60.),
                                             *[lognum(60., 1e6)] * fast), batch)},
    }
    return spec


@st.composite
def transient(draw, num_rc, has_c0, batch=1, soc=(0.02, 0.98)):
    return {
        'soc': rows(draw, num(*soc), batch),
        'hyst': rows(draw, st.one_of(num(-0.2, 0.2), st.just(0.), num(-0.2, 0.2), num(-0.2, 0.2)), batch),
        'q0': rows(draw, st.one_of(num(-500., 500.), st.just(0.), num(-500., 500.), num(-500., 500.)), batch) if has_c0 else None,
        'i_rc': rows(draw, st.one_of(num(-5., 5.), st.just(0.), num(-5., 5.), num(-5., 5.)), batch, num_rc),
    }


currents = st.one_of(num(-10., 10.), st.just(0.), num(0.1, 5.), num(-5., -0.1), num(0.1, 5.), num(-5., -0.1))
temperatures = st.one_of(st.just(25.), num(-10., 50.), num(-10., 50.), num(-40., 80.))
durations = st.one_of(st.just(1.), st.just(0.), num(0.01, 1.), num(1., 100.), num(100., 3600.), num(1., 600.),
                      lognum(3600., 5e6))
starts = st.sampled_from([0.] * 6 + [100.] * 2 + [12345.5] * 3 + [1.7e9])  # The last is what clocks say


@st.composite
def input_pair(draw, batch=1, temp=None, dt=durations):
    """Previous and new inputs"""
    if temp is None:
        temp = draw(st.booleans())
    t0 = rows(draw, num(0., 1e5, 6) if draw(st.integers(0, 9)) else num(1.6e9, 1.8e9, 10), batch)
    d = rows(draw, dt, batch)
    n = max(len(t0), len(d))
    prev = {'time': t0, 'current': rows(draw, currents, batch),
            'temperature': rows(draw, temperatures, batch) if temp else None}
    new = {'time': [[t0[b % len(t0)][0] + d[b % len(d)][0]] for b in range(n)],
           'current': rows(draw, currents, batch),
           'temperature': rows(draw, temperatures, batch) if temp else None}
    if temp and draw(st.integers(0, 7)) == 0:  # Only one of them is known
        draw(st.sampled_from([prev, new]))['temperature'] = None
    return prev, new


@st.composite
def history(draw, min_size=1, max_size=8, temp=None, dt=durations, current=currents):
    """Unbatched inputs as a list of records, the first one being the initial input"""
    if temp is None:
        temp = draw(st.booleans())
    t = draw(starts)
    out = [{'time': t, 'current': draw(current), 'temperature': draw(temperatures) if temp else None}]
    for _ in range(draw(st.integers(min_size, max_size))):
        t = t + draw(dt)
        out.append({'time': t, 'current': draw(current), 'temperature': draw(temperatures) if temp else None})
    return out


@st.composite
def drive(draw, q_t, min_size=1, max_size=8, temp=None, dt=None, budget=0.28, rest=True, batch=1, mixed=False,
          late=True):
    """Inputs which move the SOC of any cell by at most ``budget``, the first record being the initial input

    Args:
        q_t: Rows of capacities
        mixed: Whether the temperature may be missing in some records
        batch: If more than one, each field of each record may be given for each member of a batch
        late: Whether times may be those of a clock, which leave fewer digits for their differences
    """
    if temp is None:
        temp = draw(st.booleans())
    if dt is None:
        dt = st.one_of(st.just(0.), st.just(1.), num(0.05, 1.), num(1., 60.), num(60., 3600.), num(1., 600.))
    rate = st.one_of(*([st.just(0.)] if rest else []), num(-3., 3.), num(0.1, 2.), num(-2., -0.1))
    n = draw(st.integers(min_size, max_size))
    dts = [draw(dt) for _ in range(n)]
    cur = [rows(draw, rate, batch) for _ in range(n + 1)]
    qt = min(r[0] for r in q_t)
    total = sum(max(abs(x[0]) for x in a + b) * d / 3600 for a, b, d in zip(cur, cur[1:], dts))
    scale = qt * (min(1., budget / total) if total > 0 else 1.)
    t, out = draw(starts), []
    if not late:
        t = min(t, 12345.5)
    for k in range(n + 1):
        if k > 0:
            t = t + dts[k - 1]
        out.append({'time': [[t]], 'current': [[sig(x[0] * scale, 6)] for x in cur[k]],
                    'temperature': rows(draw, temperatures, batch) if temp else None})
    if temp and mixed and draw(st.integers(0, 3)) == 0:
        for k in draw(st.sets(st.integers(0, n), min_size=1, max_size=n)):
            out[k]['temperature'] = None
    return out


def tile(drive, times):
    """A longer drive: the same again, there and back

    Currents are smaller then, as the charge does not come back to where it was if some of it is lost (at most 0.3 of it)
    """
    if times > 1:
        scale = 0.75 * min(1., 4 / times)
        drive = [{**x, 'current': [[sig(scale * i[0], 6)] for i in x['current']]} for x in drive]

    def minus(i, sign):
        return [[sign * x[0]] for x in i] if isinstance(i, list) else sign * i

    def every(t):
        return [x[0] for x in t] if isinstance(t, list) else [t]
    out, first = list(drive), min(every(drive[0]['time']))
    for k in range(1, times):
        last = max(every(out[-1]['time']))  # Rounding must not bring times before this

        def later(t):
            return [[last + (x[0] - first)] for x in t] if isinstance(t, list) else last + (t - first)
        out += [{**x, 'time': later(x['time']), 'current': minus(x['current'], (-1) ** k)} for x in drive]
    return out


once_or_more = st.sampled_from([1] * 25 + [4] * 3)  # Parts of histories which are longer than usual
once_or_many = st.sampled_from([1] * 32 + [4] * 4 + [30] * 2)
batches = st.sampled_from([1, 2, 2, 3, 3, 4, 2, 3, 4, 1, 2, 2, 3, 3, 4, 2, 3, 4, 11, 19])
behaviors = st.sampled_from(['constant', 'linear'])
