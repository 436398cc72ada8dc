#!/usr/bin/env python3
"""Stand-in for cbmc inside Kani's bin directory: rewrites the goto binary, then runs the real cbmc.

Kani encodes the state of an async function as a C union: `direct_fields` (captures and state tag)
overlapping one struct per suspension point.  CBMC does not propagate constants through unions, so
it explores resume points that the state tag excludes, once per nested async layer.  rustc places
every local that lives across an await in exactly one (variant, field) slot (the first variant that
stores it), and captures and tag only in `direct_fields`; no two slots that are ever used together
overlap.  Turning the union into a struct with the same components therefore keeps every execution
and lets the tag propagate.  See DESIGN.md, "Coroutines".
"""
import ctypes
import json
import os
import re
import signal
import subprocess
import sys

sys.setrecursionlimit(1000000)
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from gbf import Irep, dump, load  # noqa: E402
from layout import relayout  # noqa: E402


def node(id_, subs=(), named=()):
    r = Irep()
    r.id, r.subs, r.named = id_, list(subs), list(named)
    return r


def get(r, key):
    for k, v in r.named:
        if k == key:
            return v
    return None


def rewrite(path):
    ver, syms, funs, rest, reader = load(path)
    cor = {}
    for s in syms:
        if s[0].id == b'union' and s[3].startswith(b'tag-'):
            comps = [(get(c, b'name').id, get(c, b'type')) for c in get(s[0], b'components').subs]
            if comps and comps[0][0] == b'direct_fields':
                cor[s[3]] = (s[0], comps)
    nil = node(b'nil')
    funs = [(n, relayout(ins, nil) or ins) for n, ins in funs]

    def tag(t):
        return get(t, b'identifier').id if t is not None and t.id == b'union_tag' else None

    nodes = list(reader.ireps.values())
    exprs = [(x, tag(get(x, b'type'))) for x in nodes if x.id == b'union' and get(x, b'component_name') is not None]
    exprs = [(x, t) for x, t in exprs if t in cor]
    nondet = node(b'nondet')
    for x, t in exprs:
        name = get(x, b'component_name').id
        val = x.subs[0]
        x.subs = [val if n == name else node(b'side_effect', [], [(b'statement', nondet), (b'type', ty)])
                  for n, ty in cor[t][1]]
        x.id = b'struct'
        x.named = [(k, v) for k, v in x.named if k != b'component_name']
    for x in nodes:
        if x.id == b'union_tag' and tag(x) in cor:
            x.id = b'struct_tag'
    for ty, _ in cor.values():
        ty.id = b'struct'
    dump(path, ver, syms, funs, rest)
    return syms, len(cor)


def loc(s):
    l = s[2]
    f, n, w = get(l, b'file'), get(l, b'line'), get(l, b'working_directory')
    return (f.id.decode() if f else '', n.id.decode() if n else '')


def sidecar(path, syms, coroutines, args):
    """What was encoded, for the evidence; and the command, for extracting counterexamples."""
    funs = []
    for s in syms:
        if s[0].id != b'code' or s[1].id == b'nil':
            continue
        f, n = loc(s)
        if f.startswith('/repo/'):
            name = (s[7] or s[3]).decode()
            funs.append([name, f, n])
    return {'functions': funs, 'coroutines': coroutines, 'args': args}


STATUS = re.compile(r'^(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', re.S)


def die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def unwindset(syms):
    """`array::from_fn` loops run N times for a constant N, which needs no bound from the harness."""
    loops = [s[3].decode() + '.0' for s in syms if s[0].id == b'code' and b'core5array18try_from_fn_erased' in s[3]]
    return ['--unwindset', ','.join(x + ':40' for x in loops)] if loops else []


def verdicts(real, plain, props):
    """Runs cbmc; the return code, a verdict per property, the other output and the solver time."""
    msgs, res, solver = [], [], 0.0
    p = subprocess.Popen([real] + plain, stdout=subprocess.PIPE, text=True, errors='replace', preexec_fn=die_with_parent)
    where, pending = ('', ''), None
    for line in p.stdout:
        line = line.rstrip('\n')
        if pending is not None:
            pending += '\n' + line
        elif line.startswith('['):
            pending = line
        else:
            m = re.match(r'^(.*) function (.*)$', line)
            if m and not line.startswith(('aborting path', 'Unwinding', 'Not unwinding')):
                where = m.groups()
            m = re.match(r'^Runtime Solver: ([0-9.e+-]+)s', line)
            if m:
                solver += float(m.group(1))
            msgs.append(line)
            continue
        m = STATUS.match(pending)
        if not m:
            continue
        body, status = m.groups()
        pending = None
        name = next((body[1:k] for k in (x.start() for x in re.finditer(r'\]', body))
                     if body[1:k] in props or re.search(r'\.(unwind|recursion)(\.\d+)?$', body[1:k])), None)
        if name is None:
            msgs.append(body)
            continue
        if name in props:
            q = props[name]
            res.append({'description': q['description'], 'property': name, 'sourceLocation': q['sourceLocation'], 'status': status})
        else:
            m = re.match(r' (?:line (\d+) )?(.*)$', body[len(name) + 2:], re.S)
            loc = {'file': where[0], 'function': where[1]}
            if m.group(1):
                loc['line'] = m.group(1)
            res.append({'description': m.group(2), 'property': name, 'sourceLocation': loc, 'status': status})
    return p.wait(), res, msgs, solver


def convert(real, args, side):
    """Runs cbmc with plain output and prints Kani's JSON.

    With --json-ui cbmc builds and prints a trace for every satisfied cover and reachability goal,
    which costs more than everything else together; Kani reads none of them.
    """
    plain = [a for a in args if a != '--json-ui']
    shown = subprocess.run([real] + plain + ['--show-properties', '--json-ui'], stdout=subprocess.PIPE, preexec_fn=die_with_parent).stdout
    props = {}
    for e in json.loads(shown):
        for p in e.get('properties', []):
            props[p['name']] = p
    out, (rc, res, msgs, solver) = [], verdicts(real, plain, props)
    # Behind a failed pointer validity check cbmc leaves verdicts open, also where Kani ignores that
    # check (comparing dangling pointers to zero-sized items is fine): decide these on their own.
    for _ in range(3):
        again = [r['property'] for r in res if r['status'] == 'UNKNOWN' and r['property'] in props]
        if rc != 10 or not again:
            break
        rc2, res2, _, solver2 = verdicts(real, plain + [x for n in again for x in ('--property', n)], props)
        solver += solver2
        if rc2 not in (0, 10):
            break
        st = {r['property']: r['status'] for r in res2}
        for r in res:
            if r['status'] == 'UNKNOWN':
                r['status'] = st.get(r['property'], 'UNKNOWN')
    lost = set(props) - {r['property'] for r in res}
    if rc in (0, 10) and lost:
        msgs.append('no verdict for: ' + '; '.join(sorted(lost)[:5]))
        rc = 6
    if side is not None:
        side['solver_s'] = round(solver, 3)
        side['rc'] = rc
    out.append({'program': 'CBMC'})
    out += [{'messageText': m, 'messageType': 'STATUS-MESSAGE'} for m in msgs if m]
    if rc in (0, 10):
        out.append({'result': res})
        out.append({'cProverStatus': 'success' if rc == 0 else 'failure'})
    # one top-level element per line group, as Kani's parser of cbmc's output expects
    print('[\n' + ',\n'.join(json.dumps(e, indent=2).replace('\n', '\n  ').join(['  ', '']) for e in out) + '\n]')
    return rc


if __name__ == '__main__':
    args, real = sys.argv[1:], os.environ['VH_CBMC']
    goto = next((a for a in args if a.endswith('.out') and os.path.isfile(a)), None)
    if goto is None or os.environ.get('VH_RAW') or '--json-ui' not in args:
        os.execv(real, [real] + args)
    syms, n = rewrite(goto)
    args += unwindset(syms)
    side = sidecar(goto, syms, n, args)
    rc = convert(real, args, side)
    with open(goto + '.vh.json', 'w') as h:
        json.dump(side, h)
    sys.stdout.flush()
    if rc < 0:
        os.kill(os.getpid(), -rc)
    sys.exit(rc)
