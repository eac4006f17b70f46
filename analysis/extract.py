"""Builds the MIR extractor and runs it on the harness for one build configuration.

Everything is rebuilt from /repo's current source: the fingerprints of the two crates that
depend on it are removed first, so cargo can never reuse an older analysis.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLCHAIN = 'nightly'

# name -> (target triple or None for the host, extra cfg flags)
CONFIGS = {
    'epoll': (None, []),
    'epoll-pipe': (None, ['polling_test_epoll_pipe']),
    'poll': (None, ['polling_test_poll_backend']),
    'kqueue-freebsd': ('x86_64-unknown-freebsd', []),
    'kqueue-netbsd': ('x86_64-unknown-netbsd', []),
    'kqueue-apple': ('aarch64-apple-darwin', []),
    'port-illumos': ('x86_64-unknown-illumos', []),
    'iocp-windows': ('x86_64-pc-windows-msvc', []),
    'epoll-redox': ('x86_64-unknown-redox', []),
    'poll-haiku': ('x86_64-unknown-haiku', []),
    'poll-fuchsia': ('x86_64-unknown-fuchsia', []),
}
HOST = ['epoll', 'epoll-pipe', 'poll']
CROSS = [c for c in CONFIGS if c not in HOST]


class ExtractError(Exception):
    pass


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(
            ['rustc', '+' + TOOLCHAIN, '--print', 'sysroot'], text=True).strip()
    return _sysroot


def env():
    e = dict(os.environ)
    lib = os.path.join(sysroot(), 'lib')
    e['LD_LIBRARY_PATH'] = lib + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
    for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET',
              'CARGO_BUILD_RUSTFLAGS', 'RUSTC', 'RUSTDOCFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read() + sysroot().encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'mirx-' + h)
    with lock('driver'):
        if not os.path.exists(out):
            tmp = out + '.tmp'
            e = env()
            e['RUSTC_BOOTSTRAP'] = '1'
            r = subprocess.run(['rustc', '+' + TOOLCHAIN, '--edition', '2021', '-O', '--crate-name',
                                'mirx', src, '-o', tmp], env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ExtractError('extractor does not build:\n' + r.stdout[-4000:])
            os.rename(tmp, out)
    return out


def wrapper():
    """rustc wrapper: the harness crate goes through the extractor, all others through rustc."""
    p = os.path.join(BUILD, 'wrap.sh')
    text = '''#!/bin/bash
rustc=$1; shift
prev=; name=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
if [ "$name" = vharness ] && [ -n "$MIRX_OUT" ]; then exec "$MIRX_BIN" "$@"; fi
exec "$rustc" "$@"
'''
    with lock('wrap'):
        if not os.path.exists(p) or open(p).read() != text:
            with open(p + '.tmp', 'w') as f:
                f.write(text)
            os.chmod(p + '.tmp', 0o755)
            os.rename(p + '.tmp', p)
    return p


def extract(config):
    """Returns the parsed JSON dump for the configuration."""
    target, cfgs = CONFIGS[config]
    mirx = driver()
    e = env()
    tdir = os.path.join(BUILD, 'target', config)
    out = os.path.join(BUILD, 'dump-%s-%d.json' % (config, os.getpid()))
    with lock('cfg-' + config):
        for d in (tdir + '/debug/', tdir + '/*/debug/'):
            for pat in ('.fingerprint/polling-*', '.fingerprint/vharness-*', 'build/polling',
                        'build/vharness'):
                for p in glob.glob(d + pat):
                    shutil.rmtree(p, ignore_errors=True)
        e.update(MIRX_OUT=out, MIRX_BIN=mirx, MIRX_OPAQUE=os.path.join(HERE, 'opaque.txt'),
                 MIRX_SHIMS=os.path.join(HERE, 'shims.txt'),
                 MIRX_ENTER='vharness,polling,core,rustix,bitflags',
                 RUSTC_WRAPPER=wrapper(), CARGO_TARGET_DIR=tdir,
                 RUSTFLAGS=' '.join(['-Zalways-encode-mir', '-Zmir-opt-level=0', '-Awarnings'] +
                                    ['--cfg ' + c for c in cfgs]))
        cmd = ['cargo', '+' + TOOLCHAIN, 'check', '--offline', '--locked', '--manifest-path',
               os.path.join(VERIF, 'harness', 'Cargo.toml')]
        if target:
            cmd += ['--target', target, '-Zbuild-std=std,panic_abort']
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise ExtractError('configuration %s does not build:\n%s' % (config, r.stdout[-6000:]))
        try:
            return json.load(open(out))
        finally:
            os.unlink(out)


if __name__ == '__main__':
    for c in sys.argv[1:] or HOST:
        d = extract(c)
        print(c, len(d['roots']), 'roots', len(d['insts']), 'instances', len(d['types']), 'types')
