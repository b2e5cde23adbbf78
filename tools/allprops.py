#!/opt/venv/bin/python
"""allprops.py [--patch FILE]... [--repo DIR]: every property on a tree (a scratch copy with each patch applied), one line each."""
import argparse, os, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024)


def tree(repo, patch, reverse):
    d = tempfile.mkdtemp(prefix='sa-')
    shutil.copytree(os.path.join(repo, 'sudachipy'), os.path.join(d, 'sudachipy'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__'))
    if patch:
        cmd = ['git', 'apply', '--unsafe-paths', '--directory=' + d] + (['-R'] if reverse else []) + [os.path.abspath(patch)]
        r = subprocess.run(['patch', '-p1', '-s', '-f'] + (['-R'] if reverse else []) + ['-i', os.path.abspath(patch)], cwd=d,
                           capture_output=True, text=True)
        if r.returncode:
            print('patch failed', r.stdout, r.stderr)
    return d


def judge(root, verbose, only=None):
    from sa import props
    from sa.check import Checker
    ck = Checker(os.path.join(HERE, 'spec'), root)
    bad, und = {}, {}
    seen = {}
    rules = {}
    from sa import rules as R
    for p in sorted(props.FUNCS):
        if only and p not in only:
            continue
        for o in ck.obligations(p):
            if o.verdict == 'bad':
                bad.setdefault(p, set()).add(o.ident())
                seen[o.ident()] = o
            elif o.verdict == 'undecided':
                und.setdefault(o.ident(), o)
    return bad, und, seen


def report(name, res, verbose):
    bad, und, seen = res
    print('%s: %s' % (name, ' '.join(sorted(bad)) or 'quiet'))
    for k, o in sorted(seen.items()):
        print('    BAD %s' % k, '%s %s' % (o.where, o.detail[:verbose]) if verbose else '')
    for k, o in sorted(und.items()):
        print('    undecided %s: %s' % (k, o.detail[:100]))
    sys.stdout.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--patch', nargs='*', default=[])
    ap.add_argument('--reverse', action='store_true')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', type=int, default=0)
    ap.add_argument('-j', type=int, default=6)
    ap.add_argument('--only', nargs='*')
    a = ap.parse_args()
    if not a.patch:
        d = tree(a.repo, None, False)
        report(a.repo, judge(d, a.v, a.only), a.v)
        shutil.rmtree(d)
        return
    todo = list(a.patch)
    running = []
    while todo or running:
        while todo and len(running) < a.j:
            p = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.dup2(w, 1)
                code = []

                def go():
                    d = tree(a.repo, p, a.reverse)
                    try:
                        report(p, judge(d, a.v, a.only), a.v)
                    except BaseException as e:
                        import traceback
                        print(p, 'CRASH')
                        traceback.print_exc(file=sys.stdout)
                    finally:
                        shutil.rmtree(d)
                t = threading.Thread(target=go)
                t.start()
                t.join()
                sys.stdout.flush()
                os._exit(0)
            os.close(w)
            running.append((pid, r, p))
        pid, r, p = running.pop(0)
        out = b''
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            out += x
        os.close(r)
        os.waitpid(pid, 0)
        sys.stdout.write(out.decode())
        sys.stdout.flush()


if __name__ == '__main__':
    t = threading.Thread(target=main)
    t.start()
    t.join()
