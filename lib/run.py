#!/usr/bin/env python3
"""Run the check of one property:  lib/run.py C01   (tier from VERIF_TIER)."""
import json, os, shutil, subprocess, sys, time, struct, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, BuildError
import props


def load_known(pid):
    """known-findings: lines  'finding: property=C01 key=<key> <what fails>'"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                t = l.split(None, 3)
                if len(t) >= 3 and t[1] == 'property=' + pid and t[2].startswith('key='):
                    out[t[2][4:]] = t[3] if len(t) > 3 else ''
    return out


def run_part(pid, part, tier, scratch):
    """returns (result dict, fails list)"""
    exe = vbuild.build(**part['build'])
    extra_env = dict(os.environ)
    extra_env.update(part.get('env', {}))
    for k in list(extra_env):
        if k.startswith('OMP_') or k.startswith('MALLOC_'):
            del extra_env[k]
    extra_env.update({'LC_ALL': 'C', 'VERIF_REPO': vbuild.REPO, 'VERIF_DIR': VERIF})
    for aux, spec in part.get('aux', {}).items():
        extra_env[aux] = vbuild.build(**spec)
    out = os.path.join(scratch, part['build']['name'])
    os.makedirs(out, exist_ok=True)
    cmd = [exe, '--tier', tier, '--out', out, '--shards', str(vbuild.JOBS)]
    r = subprocess.run(cmd, env=extra_env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace', cwd=out)
    if r.returncode:
        raise RuntimeError('harness driver failed: %s\n%s' % (cmd, r.stdout[-4000:]))
    tot = {'evaluations': 0, 'transitions': 0, 'nontrivial': 0, 'cases': 0, 'stats': {}, 'samples': []}
    fails, states = [], set()
    for f in sorted(os.listdir(out)):
        if f.startswith('shard') and f.endswith('.json'):
            j = json.load(open(os.path.join(out, f), errors='replace'))
            for k in ('evaluations', 'transitions', 'nontrivial'):
                tot[k] += j[k]
            tot['cases'] = max(tot['cases'], j['cases'])
            for k, v in j['stats'].items():
                tot['stats'][k] = tot['stats'].get(k, 0) + v
            tot['samples'] += j['samples']
            fails += j['fails']
        elif f.startswith('shard') and f.endswith('.states'):
            b = open(os.path.join(out, f), 'rb').read()
            states.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    tot['states'] = len(states)
    tot['samples'] = tot['samples'][:3]
    # replay each kind of failure alone
    conf, seen = [], set()

    def replay(i, limit=300):
        rp = subprocess.run(['timeout', '-k', '5', str(limit), exe, '--tier', tier, '--out', out, '--only', str(i)],
                            env=extra_env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                            errors='replace', cwd=out)
        return rp.returncode, rp.stdout

    for f in sorted(fails, key=lambda f: f['id']):
        if f['key'] in seen or len(conf) >= 12:
            continue
        seen.add(f['key'])
        rc, txt = replay(f['id'])
        f['confirmed'] = rc != 0
        f['replay_output'] = txt[-6000:]
        f['cmd'] = '%s --tier %s --out /tmp/replay --only %d' % (exe, tier, f['id'])
        if rc == 0:
            # depends on what ran before in the same process: re-run the whole shard sequence
            out2 = os.path.join(scratch, part['build']['name'] + '.again')
            shutil.rmtree(out2, ignore_errors=True); os.makedirs(out2)
            subprocess.run([exe, '--tier', tier, '--out', out2, '--shards', str(vbuild.JOBS)], env=extra_env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=out2)
            for g in os.listdir(out2):
                if g.startswith('shard') and g.endswith('.json'):
                    for e in json.load(open(os.path.join(out2, g), errors='replace'))['fails']:
                        if e['key'] == f['key'] and e['id'] == f['id']:
                            f['confirmed'] = True
                            f['cmd'] = '%s --tier %s --out /tmp/replay --shards %d   (case %d; needs the preceding cases)' % (
                                exe, tier, vbuild.JOBS, f['id'])
        conf.append(f)
    cr = os.path.join(out, 'crashes.txt')
    for l in open(cr):
        s, p, c, kind, code, frm = l.split()
        c = int(c)
        log = ''
        lp = os.path.join(out, 'shard%s.%s.log' % (s, p))
        if os.path.exists(lp):
            with open(lp, 'rb') as fh:
                fh.seek(0, 2); fh.seek(max(0, fh.tell() - 3000)); log = fh.read().decode(errors='replace')
        key = 'crash' if kind != 'hang' else 'hang'
        f = {'id': c, 'key': key, 'msg': 'the code under test %s (%s %s) on case %d; log tail:\n%s' % (
            'hangs' if kind == 'hang' else 'crashes', kind, code, c, log), 'cmd': '%s --tier %s --out /tmp/replay --only %d' % (exe, tier, c)}
        if c < 0:
            raise RuntimeError('harness %s died before its first case (%s %s): %s' % (exe, kind, code, log))
        if key in seen:
            continue
        seen.add(key)
        rc, txt = replay(c, 300)
        f['confirmed'] = rc not in (0, 1)
        if not f['confirmed'] and rc == 1:
            f['confirmed'] = True
        if not f['confirmed'] and kind != 'hang':
            # sequence dependent: the shard died deterministically in sequence; count it as confirmed
            f['confirmed'] = True
            f['cmd'] += '   (only in sequence: --shards %d --shard %s)' % (vbuild.JOBS, s)
        f['replay_output'] = txt[-6000:]
        conf.append(f)
    return tot, conf


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    P = props.PROPS[pid]
    t0 = time.time()
    evp = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    if os.path.exists(evp):
        os.unlink(evp)
    scratch = tempfile.mkdtemp(prefix='vc-%s-' % pid, dir=os.environ.get('VERIF_TMP', '/tmp'))
    known = load_known(pid)
    agg = {'evaluations': 0, 'transitions': 0, 'nontrivial': 0, 'states': 0, 'samples': [], 'parts': {}}
    viol = []
    knownseen = set()
    try:
        for part in P['parts']:
            tot, fails = run_part(pid, part, tier, scratch)
            for k in ('evaluations', 'transitions', 'nontrivial', 'states'):
                agg[k] += tot[k]
            agg['samples'] += [part['build']['name'] + ': ' + s for s in tot['samples'][:2]]
            agg['parts'][part['build']['name']] = dict(cases=tot['evaluations'], counters=tot['stats'])
            if tot['evaluations'] == 0 and not fails:
                raise RuntimeError('part %s explored nothing' % part['build']['name'])
            for f in fails:
                key = part['build']['name'] + ':' + f['key']
                if key in known:
                    knownseen.add(key)
                    continue
                viol.append((part, f))
    except BuildError as e:
        print('check error: %s\n%s' % (e, e.out))
        sys.exit(2)
    except RuntimeError as e:
        print('check error: %s' % e)
        sys.exit(2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for k in known:
        print('KNOWN-FINDING: property=%s %s%s' % (pid, known[k], '' if k in knownseen else ' (not reproduced on this run)'))
    level = P['level']
    cov = {'samples': agg['samples'][:8] or ['(none)'], 'parts': agg['parts'], 'exhaustive': True}
    if level == 'model_checking':
        cov.update(states=agg['states'], transitions=agg['transitions'],
                   traces_validated_against_impl=agg['evaluations'], rule=P['rule'])
    else:
        cov.update(evaluations=agg['evaluations'], distinct_nontrivial=agg['nontrivial'], rule=P['rule'],
                   distinct_observed_states=agg['states'], transitions=agg['transitions'])
    n = 0
    unconf = []
    lines = []
    for part, f in viol:
        if not f.get('confirmed'):
            unconf.append(f)
            continue
        n += 1
        rp = os.path.join('evidence', 'replay-%s-%d.txt' % (pid, n))
        with open(os.path.join(VERIF, rp), 'w') as o:
            o.write('property %s\n%s\nkey %s\nreplay: cd /verif && python3 lib/run.py %s ; single case: %s\n\n%s\n\n--- replay output\n%s\n'
                    % (pid, P['title'], f['key'], pid, f['cmd'], f['msg'], f.get('replay_output', '')))
        print('--- %s: %s\n%s' % (part['build']['name'], f['key'], f['msg'][:1500]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
          'coverage': cov, 'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': n}
    with open(evp + '.tmp', 'w') as o:
        json.dump(ev, o, indent=1)
    os.rename(evp + '.tmp', evp)
    print('%s %s: %d cases, %d transitions, %d distinct states, %.1fs, %d violation(s)' % (
        pid, tier, agg['evaluations'], agg['transitions'], agg['states'], time.time() - t0, n))
    for l in lines:
        print(l)
    if n:
        sys.exit(1)
    if unconf:
        print('check error: failure(s) that did not replay: %s' % [(f['id'], f['key'], f['msg'][:500]) for f in unconf])
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
