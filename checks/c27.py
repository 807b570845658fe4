"""C27: pulse gates of a calibrated pulse."""
import copy
import itertools
import math

import numpy as np
import qiskit.pulse as pulse
from qiskit.pulse import library as pulse_lib
from qiskit.pulse import Schedule, Play, ShiftPhase, DriveChannel, ControlChannel
from qiskit.pulse.schedule import ParameterizedSchedule
from qiskit.test.mock import FakeOpenPulse2Q, FakeOpenPulse3Q
from qiskit.ignis.characterization.calibrations import update_u_gates, get_single_q_pulse

from vlib import qsim

ID = 'C27'
BOUNDS = {
    'quick': 'synthetic devices of 1..3 qubits (and of 12) in which a qubit shares its frame with 0..2 '
             'control channels, in both orders, and two mock devices; every ordered list of qubits; '
             'DRAG parameters or pi/2 schedules of one or two pulses; all angles of a grid of pi/4 '
             '(u2: all pairs, u3: all triples) and off-grid ones; parameter extraction on a grid of '
             'amplitudes, widths and DRAG coefficients, and the round trip',
    'thorough': 'angles in steps of pi/8, finer grid of DRAG parameters',
}
ASSUMPTIONS = ['a phase shift at time t holds for the pulses from t on (as in the existing schedules of '
               'the devices), a shift by -a is the Z rotation by a, the pi/2 pulse is an X rotation',
               'lists of parameters and schedules have one entry per qubit of the device (so that both '
               'readings of their index agree, except in lists of all qubits in order)']


def rz(ang):
    """Z rotation."""
    return np.diag([np.exp(-0.5j * ang), np.exp(0.5j * ang)])


X90 = np.array([[1, -1j], [-1j, 1]]) / math.sqrt(2)


def u3(theta, phi, lam):
    """Matrix of u3."""
    cos, sin = math.cos(theta / 2), math.sin(theta / 2)
    return np.array([[cos, -np.exp(1j * lam) * sin],
                     [np.exp(1j * phi) * sin, np.exp(1j * (phi + lam)) * cos]])


def same(mat, want):
    """Equal up to a global phase."""
    return abs(abs(np.trace(want.conj().T @ mat)) - 2) < 1e-9


def samples(play):
    """Samples of a Play instruction."""
    shape = play.pulse
    if isinstance(shape, pulse_lib.Waveform):
        return np.array(shape.samples)
    return np.array(shape.get_waveform().samples)


def reference(x90, drive):
    """The plays of the pi/2 schedule: (start, samples)."""
    return [(t, samples(i)) for t, i in x90.instructions
            if isinstance(i, Play) and i.channel == drive]


def check_gate(ctx, sched, drive, group, x90, repeats, want, what):
    """The schedule consists of the right pulses and is the right unitary on the drive."""
    plays = [(t, i) for t, i in sched.instructions if isinstance(i, Play)]
    shifts = [(t, i) for t, i in sched.instructions if isinstance(i, ShiftPhase)]
    ctx.equal('only', len(plays) + len(shifts), len(sched.instructions))
    ctx.check('channel', all(i.channel == drive for _, i in plays), what)
    ref = reference(x90, drive)
    dur = x90.duration
    expect = [(t + rep * dur, s) for rep in range(repeats) for t, s in ref]
    ctx.equal('pulse-times', sorted(t for t, _ in plays), sorted(t for t, _ in expect))
    for (t, inst), (_, smp) in zip(sorted(plays, key=lambda p: p[0]),
                                   sorted(expect, key=lambda p: p[0])):
        got = samples(inst)
        ctx.check('pulse', got.shape == smp.shape and np.allclose(got, smp, atol=1e-9),
                  '%s: pulse at %d' % (what, t))
    mat = np.eye(2)
    todo = sorted([(t, 0, i.phase) for t, i in shifts if i.channel == drive]
                  + [(rep * dur, 1, None) for rep in range(repeats)], key=lambda e: e[:2])
    for _, kind, phase in todo:
        mat = (rz(-float(phase)) if kind == 0 else X90) @ mat
    ctx.check('unitary', same(mat, want), what)
    # no phase shift within the pulses
    ctx.check('shift-times', all(t % dur == 0 for t, i in shifts), what)
    per = {}
    for t, inst in shifts:
        per.setdefault(inst.channel, {}).setdefault(t, 0)
        per[inst.channel][t] += float(inst.phase)
    ctx.equal('frames', sorted(ch.name for ch in per), sorted(ch.name for ch in group))
    for chan in group:
        ctx.close('frame', sorted(per[chan].items()), sorted(per[drive].items()), 1e-9, what)


def angles(tier):
    """Grid of angles."""
    num = 16 if tier == 'thorough' else 8
    return [2 * math.pi * k / num - math.pi for k in range(num + 1)] + [0.3, -2.2]


def check_qubit(ctx, imap, qubit, drive, group, x90):
    """u2 and u3 of a qubit, all angles."""
    grid = angles(ctx.tier)
    for phi, lam in itertools.product(grid, repeat=2):
        sched = imap.get('u2', qubit, P0=phi, P1=lam)
        check_gate(ctx, sched, drive, group, x90, 1, u3(math.pi / 2, phi, lam),
                   'u2(%g, %g) on %d' % (phi, lam, qubit))
        ctx.step()
    coarse = grid if ctx.tier == 'thorough' else grid[::2] + [-2.2]
    for theta, phi, lam in itertools.product(coarse, repeat=3):
        sched = imap.get('u3', qubit, P0=theta, P1=phi, P2=lam)
        check_gate(ctx, sched, drive, group, x90, 2, u3(theta, phi, lam),
                   'u3(%g, %g, %g) on %d' % (theta, phi, lam, qubit))
        ctx.step()


def shift(name, sign, chan, time):
    """Parametrised phase shift."""
    def make(**kwargs):
        return ShiftPhase(sign * kwargs[name], chan).shift(time)
    return make


def device(num, layout, params=None):
    """Instruction map; layout[q] = channels in the frame of q (the drive among them)."""
    imap = pulse.InstructionScheduleMap()
    for q in range(num):
        drive = DriveChannel(q)
        par = params[q] if params else dict(duration=12, amp=0.2 + 0.01 * q, sigma=3, beta=0.3)
        wave = pulse_lib.drag(**par).samples
        dur = par['duration']
        yp90 = Play(pulse_lib.Waveform(1j * wave), drive)
        xp90 = Play(pulse_lib.Waveform(wave), drive)
        xm90 = Play(pulse_lib.Waveform(-wave), drive)
        group = layout[q]
        u2_s = ParameterizedSchedule(
            *[shift('P1', -1, c, 0) for c in group], yp90.shift(0),
            *[shift('P0', -1, c, dur) for c in group], parameters=['P0', 'P1'], name='u2')
        u3_s = ParameterizedSchedule(
            *[shift('P2', -1, c, 0) for c in group], xp90.shift(0),
            *[shift('P0', -1, c, dur) for c in group], xm90.shift(dur),
            *[shift('P1', -1, c, 2 * dur) for c in group],
            parameters=['P0', 'P1', 'P2'], name='u3')
        u1_s = ParameterizedSchedule(*[shift('P0', -1, c, 0) for c in group], parameters=['P0'],
                                     name='u1')
        imap.add('u1', q, u1_s)
        imap.add('u2', q, u2_s)
        imap.add('u3', q, u3_s)
        imap.add('x', q, Schedule(Play(pulse_lib.Waveform(-0.9 * wave), drive)))
    return imap


def layouts(num, kind):
    """Channels in the frame of each qubit."""
    out = []
    for q in range(num):
        drive = DriveChannel(q)
        ctrl = [ControlChannel(2 * q), ControlChannel(2 * q + 1)]
        out.append({'none': [drive], 'one': [drive, ctrl[0]], 'before': [ctrl[1], drive],
                    'two': [ctrl[0], drive, ctrl[1]],
                    'mixed': [drive] + ctrl[:q % 3]}[kind])
    return out


def snapshot(imap, skip):
    """Everything in the map other than u2 and u3 of the qubits."""
    out = {}
    for name in imap.instructions:
        for qubits in imap.qubits_with_instruction(name):
            key = (qubits,) if isinstance(qubits, int) else tuple(qubits)
            if name in ('u2', 'u3') and len(key) == 1 and key[0] in skip:
                continue
            pars = imap.get_parameters(name, qubits)
            for val in (0.0, 0.7):
                sched = imap.get(name, qubits, **{p: val + i for i, p in enumerate(pars)})
                out[name, key, val] = [(t, str(i)) for t, i in sched.instructions]
    return out


def pi2(kind, num):
    """Parameters and pi/2 schedules per qubit of the device."""
    params = [dict(amp=0.05 + 0.04 * q, duration=10 + 2 * q, sigma=2 + 0.5 * q, beta=0.2 - 0.1 * q)
              for q in range(num)]
    scheds = []
    for q in range(num):
        drive = DriveChannel(q)
        wave = pulse_lib.drag(**params[q]).samples
        if kind == 'double':
            sched = Schedule((0, Play(pulse_lib.Waveform(wave / 2), drive)),
                             (params[q]['duration'], Play(pulse_lib.Waveform(wave / 2 + 0.01), drive)))
        else:
            sched = Schedule((0, Play(pulse_lib.Waveform(wave), drive)))
        scheds.append(sched)
    return params, scheds


def run_update(case, ctx):
    """Update some qubits of a device."""
    _, num, kind, qubits, how = case
    if kind == 'mock':
        back = {2: FakeOpenPulse2Q, 3: FakeOpenPulse3Q}[num]()
        imap = back.defaults().instruction_schedule_map
        layout = [[DriveChannel(q)] for q in range(num)]
    else:
        layout = layouts(num, kind)
        imap = device(num, layout)
    params, scheds = pi2(how, num)
    before = snapshot(imap, qubits)
    kept = copy.deepcopy(params)
    drives = [DriveChannel(q) for q in range(num)]
    if how == 'drag':
        update_u_gates(params, qubits=qubits, inst_map=imap, drives=drives)
    else:
        update_u_gates(params, pi2_pulse_schedules=scheds, qubits=qubits, inst_map=imap,
                       drives=drives)
    ctx.step()
    ctx.equal('params', params, kept)
    ctx.check('others', snapshot(imap, qubits) == before, 'other gates changed')
    for q in qubits if num < 4 else qubits[:1] + qubits[-1:]:
        check_qubit(ctx, imap, q, drives[q], layout[q], scheds[q])
    ctx.outcome(kind, how, len(qubits))


def run_twice(case, ctx):
    """Updating again replaces the pulses and keeps the frames."""
    _, num, kind = case
    layout = layouts(num, kind)
    imap = device(num, layout)
    drives = [DriveChannel(q) for q in range(num)]
    params, scheds = pi2('drag', num)
    _, other = pi2('double', num)
    update_u_gates(params, pi2_pulse_schedules=other, qubits=list(range(num)), inst_map=imap,
                   drives=drives)
    update_u_gates(params, qubits=list(range(num)), inst_map=imap, drives=drives)
    for q in range(num):
        check_qubit(ctx, imap, q, drives[q], layout[q], scheds[q])


def run_extract(case, ctx):
    """DRAG parameters of the devices' pulses, and updating with them."""
    _, num, qubits, base = case
    params = [dict(duration=base[0] + 4 * q, amp=base[1] * (1 + 0.3 * q),
                   sigma=(base[0] + 4 * q) / (base[2] + 0.2 * q), beta=base[3] + 0.2 * q)
              for q in range(num)]
    imap = device(num, layouts(num, 'mixed'), params)
    before = snapshot(imap, [])
    got = get_single_q_pulse(imap, qubits)
    ctx.step()
    ctx.equal('extract-number', len(got), len(qubits))
    ctx.check('extract-unmodified', snapshot(imap, []) == before, 'the map changed')
    for found, q in zip(got, qubits):
        ctx.equal('extract-duration', found['duration'], params[q]['duration'])
        smp = pulse_lib.drag(**found).samples
        ctx.close('extract-pulse', [smp.real, smp.imag],
                  [pulse_lib.drag(**params[q]).samples.real,
                   pulse_lib.drag(**params[q]).samples.imag], 1e-4, 'pulse of qubit %d' % q)
        ctx.close('extract-values', [found['amp'], found['sigma'], found['beta']],
                  [params[q][k] for k in ('amp', 'sigma', 'beta')], 2e-2, 'qubit %d' % q)
    if qubits == list(range(num)):
        drives = [DriveChannel(q) for q in range(num)]
        update_u_gates(got, qubits=qubits, inst_map=imap, drives=drives)
        for q in qubits:
            sched = imap.get('u2', q, P0=0.0, P1=0.0)
            phase, out = 0.0, None
            for _, inst in sorted(sched.instructions,
                                  key=lambda e: (e[0], isinstance(e[1], Play))):
                if isinstance(inst, ShiftPhase) and inst.channel == drives[q] and out is None:
                    phase += float(inst.phase)
                elif isinstance(inst, Play):
                    out = samples(inst) * np.exp(1j * phase)
            want = 1j * pulse_lib.drag(**params[q]).samples
            ctx.close('round-trip', [out.real, out.imag], [want.real, want.imag], 1e-4,
                      'pulse of u2(0, 0) on %d' % q)
    ctx.outcome(num, tuple(qubits))


def cases(tier):
    """Enumerate."""
    full = tier == 'thorough'
    for num in (1, 2, 3):
        for kind in ('none', 'one', 'before', 'two', 'mixed') + (('mock',) if num > 1 else ()):
            for qubits in qsim.ordered_subsets(range(num), range(1, num + 1)):
                for how in ('drag', 'single', 'double'):
                    yield ['update', num, kind, list(qubits), how]
            if kind != 'mock':
                yield ['twice', num, kind]
    for qubits in ([11], [10, 2, 1], list(range(12))):
        yield ['update', 12, 'mixed', qubits, 'single']
    durs = (12, 20, 41) if not full else (8, 12, 16, 20, 28, 41)
    for base in itertools.product(durs, (0.1, 0.4) if not full else (0.05, 0.1, 0.2, 0.4),
                                  (3.5, 4.0, 4.5), (-0.5, 0.0, 0.7)):
        for num in (1, 2, 3):
            for qubits in qsim.ordered_subsets(range(num), range(1, num + 1)):
                if full or num < 3 or base[1] == 0.1:
                    yield ['extract', num, list(qubits), list(base)]


def run(case, ctx):
    """Dispatch."""
    ctx.kind(case[0])
    ctx.state(case)
    globals()['run_' + case[0]](case, ctx)
