"""Builders of moirae objects from specifications, and an independent scalar model of the circuit"""
import math

import numpy as np
from scipy.interpolate import CubicSpline, make_interp_spline

from moirae.models.ecm import EquivalentCircuitModel as ECM
from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.components import (Capacitance, EntropicOCV, HysteresisParameters, MaxTheoreticalCapacity,
                                          OpenCircuitVoltage, RCComponent, ReferenceOCV, Resistance)
from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement
from moirae.models.ecm.transient import ECMTransientVector


# --- Builders
def arr(rows):
    """Array of given rows, which is one of integers if all values are, as when users write 1 rather than 1."""
    out = np.array(rows, dtype=float)
    if out.size and np.all(out == np.round(out)) and np.max(np.abs(out)) < 1e6 and (out.size + int(out.flat[0])) % 3:
        return out.astype(int)
    return out


def _interp_kwargs(spec):
    out = {'base_values': arr(spec['vals']), 'interpolation_style': spec['style']}
    if spec['pins'] is not None:
        out['soc_pinpoints'] = np.array(spec['pins'])
    return out


def scalar(rows):
    """Value for a scalar parameter"""
    return arr(rows)


def build_resistance(spec):
    return Resistance(**_interp_kwargs(spec), reference_temperature=spec['tref'],
                      temperature_dependence_factor=scalar(spec['tdep']))


def build_asoh(spec):
    kwargs = {}
    if spec['c0'] is not None:
        kwargs['c0'] = Capacitance(**_interp_kwargs(spec['c0']))
    return ECMASOH(
        q_t=MaxTheoreticalCapacity(base_values=scalar(spec['q_t'])),
        ce=scalar(spec['ce']),
        ocv=OpenCircuitVoltage(
            ocv_ref=ReferenceOCV(**_interp_kwargs(spec['ocv']['ref']),
                                 reference_temperature=scalar(spec['ocv']['tref'])),
            ocv_ent=EntropicOCV(**_interp_kwargs(spec['ocv']['ent']))),
        r0=build_resistance(spec['r0']),
        rc_elements=tuple(RCComponent(r=build_resistance(x['r']), c=Capacitance(**_interp_kwargs(x['c'])))
                          for x in spec['rc']),
        h0=HysteresisParameters(**_interp_kwargs(spec['h0']), gamma=scalar(spec['h0']['gamma'])),
        **kwargs)


def build_transient(spec):
    i_rc = arr(spec['i_rc']).reshape(len(spec['i_rc']), -1)
    return ECMTransientVector(soc=scalar(spec['soc']), hyst=scalar(spec['hyst']), i_rc=i_rc,
                              q0=None if spec['q0'] is None else scalar(spec['q0']))


def build_input(spec):
    def conv(x):
        return x if not isinstance(x, list) else scalar(x)
    t = spec.get('temperature')
    return ECMInput(time=conv(spec['time']), current=conv(spec['current']), temperature=None if t is None else conv(t))


# --- Members of a batch
def member_rows(rows, b):
    return [rows[b % len(rows)]] if isinstance(rows, list) else rows


def member(spec, b):
    """Specification of a single member of a batch: every leaf "rows" value reduced to one row"""
    if isinstance(spec, dict):
        return {k: (member_rows(v, b) if _is_rows(k, v) else member(v, b)) for k, v in spec.items()}
    if isinstance(spec, list):
        return [member(x, b) for x in spec]
    return spec


_ROWS = {'vals', 'tref', 'tdep', 'q_t', 'ce', 'gamma', 'soc', 'hyst', 'q0', 'i_rc', 'time', 'current', 'temperature'}


def _is_rows(key, value):
    return key in _ROWS and isinstance(value, list)


def batch_of(*specs):
    """Largest number of rows in any leaf"""
    n = 1
    for spec in specs:
        if isinstance(spec, dict):
            for k, v in spec.items():
                n = max(n, len(v) if _is_rows(k, v) else batch_of(v))
        elif isinstance(spec, list):
            n = max([n] + [batch_of(v) for v in spec])
    return n


# --- Reference model: scalars only, one member at a time
def interpolate(vals, pins, style, s):
    """Value at one SOC of a table (one row)"""
    n = len(vals)
    if n == 1:
        return vals[0]
    if pins is None:
        pins = np.linspace(0, 1, n).tolist()
    if style == 'previous' and s < pins[0] or style == 'next' and s > pins[-1]:
        return math.nan  # Undefined
    if style in ('linear', 'slinear'):
        i = 0
        while i < n - 2 and s > pins[i + 1]:
            i += 1
        return vals[i] + (vals[i + 1] - vals[i]) * (s - pins[i]) / (pins[i + 1] - pins[i])
    if style in ('nearest', 'nearest-up'):
        i = 0
        while i < n - 1 and (s > pins[i] / 2 + pins[i + 1] / 2 or
                             (style == 'nearest-up' and s == pins[i] / 2 + pins[i + 1] / 2)):
            i += 1
        return vals[i]
    if style in ('previous', 'zero'):
        i = 0
        while i < n - 1 and s >= pins[i + 1]:
            i += 1
        return vals[i]
    if style == 'next':
        i = 0
        while i < n - 1 and s > pins[i]:
            i += 1
        return vals[i]
    if style == 'quadratic':
        return float(make_interp_spline(pins, vals, k=2)(s))
    if style == 'cubic':
        return float(CubicSpline(pins, vals, bc_type='not-a-knot', extrapolate=True)(s))
    raise NotImplementedError(style)


def table(spec, b, s):
    v = spec['vals']
    return interpolate(v[b % len(v)], spec['pins'], spec['style'], s)


def pick(rows, b):
    return rows if not isinstance(rows, list) else rows[b % len(rows)][0]


def ref_resistance(spec, b, s, temp):
    r = table(spec, b, s)
    if temp is None:
        return r
    return r * math.exp(-pick(spec['tdep'], b) * (temp - spec['tref']))


def ref_ocv(spec, b, s, temp):
    v = table(spec['ref'], b, s)
    if temp is None:
        return v
    return v + (temp - pick(spec['tref'], b)) * table(spec['ent'], b, s)


def relax(h, limit, rate):
    e = math.exp(-rate)
    return h * e - math.expm1(-rate) * limit


def sgn(x):
    return (x > 0) - (x < 0)


def ref_update(asoh, state, prev, new, behavior, b):
    """Transient state of member b after a step, and a measure of the conditioning of the RC currents"""
    soc, hyst = pick(state['soc'], b), pick(state['hyst'], b)
    i_rc = state['i_rc'][b % len(state['i_rc'])]
    i0, i1 = pick(prev['current'], b), pick(new['current'], b)
    dt = pick(new['time'], b) - pick(prev['time'], b)
    temp = pick(prev['temperature'], b)
    qt = 3600. * pick(asoh['q_t'], b)
    ce = pick(asoh['ce'], b)

    # Portions of the step during which current has one direction: (charge, direction)
    if behavior == 'constant':
        parts = [(i0 * dt, sgn(i0))]
    elif i0 * i1 < 0:
        t_zero = dt * i0 / (i0 - i1)
        parts = [(i0 * t_zero / 2, sgn(i0)), (i1 * (dt - t_zero) / 2, sgn(i1))]
    else:
        parts = [((i0 + i1) / 2 * dt, sgn(i0) or sgn(i1))]

    limit = table(asoh['h0'], b, soc)
    gamma = pick(asoh['h0']['gamma'], b)
    new_soc, charge, new_hyst = soc, 0., hyst
    for q, direction in parts:
        eff = 1. if direction < 0 else ce
        new_soc += eff * q / qt
        charge += q
        new_hyst = relax(new_hyst, direction * limit, eff * gamma * abs(q) / qt)

    out_rc, cond = [], 0.
    slope = (i1 - i0) / dt if behavior == 'linear' and dt != 0 else 0.
    for rc, i in zip(asoh['rc'], i_rc):
        tau = ref_resistance(rc['r'], b, soc, temp) * table(rc['c'], b, soc)
        e = math.exp(-dt / tau)
        one_minus = -math.expm1(-dt / tau)
        if behavior == 'constant':
            out_rc.append(i * e + one_minus * i1)
        else:
            out_rc.append(i * e + one_minus * (i0 - slope * tau) + slope * dt)
            cond = max(cond, abs(slope * tau))
    return {'soc': new_soc, 'q0': None if state['q0'] is None else pick(state['q0'], b) + charge,
            'i_rc': out_rc, 'hyst': new_hyst, 'cond': cond}


def ref_voltage(asoh, state, inp, b):
    """Contributions to terminal voltage"""
    soc, temp, current = pick(state['soc'], b), pick(inp['temperature'], b), pick(inp['current'], b)
    parts = {'ocv': ref_ocv(asoh['ocv'], b, soc, temp),
             'r0': current * ref_resistance(asoh['r0'], b, soc, temp),
             'hyst': pick(state['hyst'], b)}
    if state['q0'] is not None:
        parts['c0'] = pick(state['q0'], b) / table(asoh['c0'], b, soc)
    i_rc = state['i_rc'][b % len(state['i_rc'])]
    for j, (rc, i) in enumerate(zip(asoh['rc'], i_rc)):
        parts[f'rc{j}'] = i * ref_resistance(rc['r'], b, soc, temp)
    return parts


def expand(values, n):
    """Repeat an unbatched result over the batch"""
    values = np.asarray(values, dtype=float)
    if values.shape[0] == 1 and n > 1:
        return np.repeat(values, n, axis=0)
    return values


def snapshot(*objs):
    """All values of containers or health parameters, to tell whether they changed"""
    out = []
    for x in objs:
        out.append(x.model_dump_json() if hasattr(x, 'model_dump_json') else np.array(x).tolist())
    return out
