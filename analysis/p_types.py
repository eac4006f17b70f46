"""The API's soundness contract, decided by the type checker on witness programs (witness/)."""
import glob
import json
import os
import re
import shutil
import subprocess

import extract
from interp import Bug

CRATE = os.path.join(extract.VERIF, 'witness')
CONFIGS = ('epoll', 'poll')


def witnesses(config):
    out = {}
    for f in sorted(glob.glob(os.path.join(CRATE, 'src', 'bin', '*.rs'))):
        head = open(f).readline()
        m = re.match(r'//@ (pass|fail)(-\S+)?(?: (\S+))?: (.*)', head)
        if not m:
            raise Bug('%s: no header' % f)
        if m.group(2) and m.group(2)[1:] != config:
            continue
        out[os.path.basename(f)[:-3]] = (m.group(1), set((m.group(3) or '').split('|')) - {''}, m.group(4))
    return out


def check(config):
    """{witness: [(error code, message, line)]} as reported by the compiler"""
    target, cfgs = extract.CONFIGS[config]
    e = extract.env()
    tdir = os.path.join(extract.BUILD, 'witness', config)
    wit = witnesses(config)
    with extract.lock('wit-' + config):
        for pat in ('.fingerprint/polling-*', '.fingerprint/vwitness-*'):
            for p in glob.glob(tdir + '/debug/' + pat):
                shutil.rmtree(p, ignore_errors=True)
        e.update(CARGO_TARGET_DIR=tdir, RUSTFLAGS=' '.join(['-Awarnings'] + ['--cfg ' + c for c in cfgs]))
        cmd = ['cargo', '+' + extract.TOOLCHAIN, 'check', '--offline', '--locked', '--keep-going', '--manifest-path',
               os.path.join(CRATE, 'Cargo.toml'), '--message-format=json']
        for w in wit:
            cmd += ['--bin', w]
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = {w: [] for w in wit}
    done = set()
    for line in r.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('reason') == 'compiler-artifact' and d['target']['name'] in out and 'bin' in d['target']['kind']:
            done.add(d['target']['name'])
        if d.get('reason') == 'compiler-message' and d['message']['level'] == 'error':
            nm = d['target']['name']
            if nm not in out:
                raise Bug('%s does not compile: %s' % (nm, d['message']['message']))
            if not d['message']['spans']:
                continue
            done.add(nm)
            out[nm].append(((d['message']['code'] or {}).get('code'), d['message']['message'],
                            d['message']['spans'][0]['line_start']))
    if set(out) - done:
        raise Bug('the compiler did not examine %s: %s' % (', '.join(sorted(set(out) - done)), r.stderr[-1500:]))
    return wit, out


def p26(rep, tier):
    for config in CONFIGS:
        wit, res = check(config)
        for w, (kind, codes, text) in sorted(wit.items()):
            errs = res[w]
            rep.functions.add('witness ' + w)
            if kind == 'pass':
                rep.ob('programs that must compile')
                for code, msg, line in errs:
                    rep.bad(config, w, 'rejected', code, 'a program that keeps the contract is rejected (%s): %s: %s' % (text, code, msg),
                            ['witness/src/bin/%s.rs:%d' % (w, line)])
            else:
                rep.ob('programs that must be rejected')
                if not errs:
                    rep.bad(config, w, 'accepted', w, 'a program that breaks the contract compiles: ' + text,
                            ['witness/src/bin/%s.rs' % w])
                elif {c for c, _, _ in errs} - codes:
                    raise Bug('%s: rejected for another reason than expected: %s' % (w, errs))
    rep.require('programs that must compile', 3)
    rep.require('programs that must be rejected', 10)
