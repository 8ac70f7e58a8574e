#!/usr/bin/env python3
"""check.py <property id> [tier] [engine options]: builds and runs the check of one property.

Exit 0: held on everything explored. 1: violated (with a VIOLATION line). Anything else: the check gave no answer.
"""
import glob
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild


# the sanitizer that suits the property
FLAVOUR = {'C03': 'thorough', 'C05': 'tsan', 'C24': 'thorough', 'C27': 'tsan'}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    rest = [a for a in sys.argv[2:] if a not in ('quick', 'thorough')]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    verif = vbuild.VERIF
    src = glob.glob(os.path.join(verif, 'harness/props', pid + '_*.cpp'))
    if len(src) != 1:
        print('no harness for', pid)
        return 2
    try:
        flavour = os.environ.get('VERIF_FLAVOUR') or FLAVOUR.get(pid) or ('thorough' if tier == 'thorough' else 'plain')
        exe = vbuild.build(os.path.basename(src[0]), flavour)
        if flavour == 'tsan' and subprocess.run([exe, '--probe'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
            print('ThreadSanitizer does not run here; threads are observed without it')
            exe = vbuild.build(os.path.basename(src[0]), 'plain')
    except vbuild.BuildError as e:
        print('BUILD FAILED:', e)
        return 2
    env = dict(os.environ)
    env.setdefault('VERIF_SEED', '1')
    env['VERIF_TIER'] = tier
    env['ASAN_OPTIONS'] = 'detect_leaks=0:quarantine_size_mb=8:symbolize=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=-1'
    env['UBSAN_OPTIONS'] = 'symbolize=0:print_stacktrace=1'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0'
    env['LC_ALL'] = 'C.UTF-8'
    env['MALLOC_PERTURB_'] = '165'
    os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(verif, 'replays'), exist_ok=True)
    evidence = os.path.join(verif, 'evidence', pid + '.json')
    cmd = [exe, '--tier', tier, '--seed', env['VERIF_SEED'], '--known', os.path.join(verif, 'known/known_findings.txt')]
    if not rest:
        cmd += ['--evidence', evidence, '--replay-dir', os.path.join(verif, 'replays')]
    r = subprocess.run(cmd + rest, env=env, cwd=verif)
    rc = r.returncode
    return rc if rc in (0, 1) else (2 if rc >= 0 else 3)


if __name__ == '__main__':
    sys.exit(main())
