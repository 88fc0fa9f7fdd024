#!/usr/bin/env python3
"""Build the analyser (if needed), analyse /repo's current source through the compiler, report."""
import json, os, subprocess, sys, shutil, glob, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rules import RULE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, '.build')
TOOL = 'nightly'
TRIPLE = 'x86_64-unknown-linux-gnu'

def sh(cmd, **kw):
    if os.environ.get('ABS_RAW') and cmd[2] == 'check':
        return subprocess.run(cmd, text=True, **kw)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sysroot():
    d = os.environ.get('ABS_SYSROOT', '/root/.cache/miri')
    if glob.glob(os.path.join(d, 'lib/rustlib', TRIPLE, 'lib', 'libcore-*.rlib')) or glob.glob(os.path.join(d, 'lib/rustlib', TRIPLE, 'lib', 'libcore-*.rmeta')):
        return d
    d = os.path.join(B, 'sysroot')
    e = dict(os.environ, MIRI_SYSROOT=d)
    if not glob.glob(os.path.join(d, 'lib/rustlib', TRIPLE, 'lib', 'libcore-*')):
        r = sh(['cargo', '+' + TOOL, 'miri', 'setup', '--target', TRIPLE], env=e, cwd=V)
        if r.returncode:
            print(r.stdout)
            raise SystemExit('cannot build the standard library with MIR')
    return d

def build_driver():
    r = sh(['cargo', '+' + TOOL, 'build', '--release', '--offline', '--quiet', '--target-dir', os.path.join(B, 'driver')], cwd=os.path.join(V, 'absint'))
    if r.returncode:
        print(r.stdout)
        raise SystemExit('analyser does not build')
    return os.path.join(B, 'driver', 'release', 'absint')

def analyse(prop, tier, out):
    drv = build_driver()
    t = os.path.join(B, 't')
    for p in glob.glob(os.path.join(t, TRIPLE, 'debug', '.fingerprint', 'fxd*')):
        shutil.rmtree(p, ignore_errors=True)
    lib = sh(['rustc', '+' + TOOL, '--print', 'sysroot']).stdout.strip() + '/lib'
    e = dict(os.environ)
    e.pop('RUSTC_WRAPPER', None)
    e.update(RUSTC_WORKSPACE_WRAPPER=drv, RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 --sysroot=' + sysroot(), ABS_PROP=prop, ABS_TIER=tier, ABS_OUT=out,
             LD_LIBRARY_PATH=lib + ':' + e.get('LD_LIBRARY_PATH', ''), CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
    return sh(['cargo', '+' + TOOL, 'check', '--offline', '--quiet', '--lib', '--target', TRIPLE, '--target-dir', t], cwd=os.path.join(V, 'harness'), env=e)

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    os.makedirs(B, exist_ok=True)
    if prop == 'setup':
        build_driver()
        out = os.path.join(B, 'setup.json')
        r = analyse('none', 'quick', out)
        if not os.path.exists(out):
            print(r.stdout)
            raise SystemExit(1)
        return
    t0 = time.time()
    out = os.path.join(B, prop + '.verdict.json')
    if os.path.exists(out):
        os.remove(out)
    r = analyse(prop, tier, out)
    if os.environ.get('ABS_DEBUG') or os.environ.get('ABS_DUMP') or os.environ.get('ABS_JOINDBG') or os.environ.get('ABS_LIST') or os.environ.get('ABS_HEAD'):
        print(r.stdout)
    if not os.path.exists(out):
        print(r.stdout)
        raise SystemExit('the code under analysis does not compile or the analyser failed')
    d = json.load(open(out))
    report(prop, tier, d, time.time() - t0)

TRUST = [
    'rustc nightly front end and MIR construction (the analysed MIR is the one the compiler builds for the current tree, mir-opt-level 0, overflow checks and debug assertions on)',
    'MIR of the Rust standard library shipped with the toolchain (analysed, not modelled; only allocation, hashing entry points and intrinsics are modelled)',
    'absint: MIR transfer functions, polynomial/interval domain and joins (/verif/absint)',
    'the specification side in /verif/absint/src/spec.rs and src/props/*.rs, and the entry points in /verif/harness',
]

def known(prop):
    """findings listed as known: case substring and message substring that identify them"""
    r = []
    try:
        for l in open(os.path.join(V, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=' + prop + ' '):
                p = [x.strip() for x in l.split('|')]
                r.append((p[0].split(' ', 2)[2], p[1], p[2]))
    except FileNotFoundError:
        pass
    return r

def report(prop, tier, d, wall):
    ev = os.path.join(V, 'evidence')
    os.makedirs(ev, exist_ok=True)
    fails, seenk = [], set()
    kn = known(prop)
    for x in d['fails']:
        k = next((k for k in kn if k[1] in x['function'] and k[2] in x['what']), None)
        if k:
            seenk.add(k[0])
        else:
            fails.append(x)
    nf = d['nfails'] - (len(d['fails']) - len(fails))
    for k in sorted(seenk):
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop} {tier}: {d['jobs']} cases, {d['obligations']} obligations, {d['states']} final abstract states, {d['steps']} transfer steps, {d['joins']} joins, {len(d['functions'])} functions, {wall:.1f} s")
    if os.environ.get('ABS_VERBOSE'):
        for x in d['slow']:
            print('  slow', x)
    rp = os.path.join(ev, prop + '.violation.txt')
    if nf:
        with open(rp, 'w') as f:
            for x in fails:
                f.write(f"property {prop}\ncase     {x['case']}\nwhere    {x['span']} in {x['function']}\nwhat     {x['what']}\npath     {x['trace']}\n\n")
    elif os.path.exists(rp):
        os.remove(rp)
    names = d['job_names']
    step = max(1, len(names) // 12)
    cov = {
        'obligations': d['obligations'],
        'discharged': d['obligations'] - d['nfails'],
        'checker_cmd': f'./run.sh {prop} {tier}',
        'trusted_base': TRUST,
        'rule': RULE.get(prop, ''),
        'cases_skipped_after_a_failure': d.get('skipped', 0),
        'input_partition_cases': d['jobs'],
        'sample_cases': names[::step][:12],
        'final_abstract_states': d['states'],
        'transfer_steps': d['steps'],
        'abstract_joins': d['joins'],
        'functions_analysed': [f"{n}: {a} of {b} blocks reached" for n, a, b in d['functions']][:120],
    }
    json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'proof', 'coverage': cov,
               'assumptions': ['operands are valid decimals in the sense of property C15 (groups 0..999999999, unused groups and digits below the scale zero, no negative zero)'],
               'wall_s': round(wall, 2), 'violations': nf}, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    if nf:
        seen = set()
        for x in fails[:60]:
            k = (x['span'], x['what'][:60])
            if k in seen or len(seen) > 8:
                continue
            seen.add(k)
            print(f"  {x['span']} in {x['function']}: {x['what'][:400]} [case {x['case']}]")
        print(f"{nf} failed obligations")
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)

main()
