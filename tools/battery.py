#!/usr/bin/env python3
"""battery.py CASES.py [-j N] [NAME...]: run planted edits in private mount namespaces.

CASES.py defines CASES = [(name, kind, {file: [(old, new), ...]}, [checks])], kind 'same' (the edit keeps the
behaviour: every check must exit 0 and decide everything) or 'bug' (at least the first check must exit 1).
Works on copies of /repo's HEAD; neither /repo nor /verif/evidence is touched."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures as cf, runpy
args = sys.argv[1:]
cases = runpy.run_path(args.pop(0))['CASES']
jobs = 3
if args and args[0] == '-j':
  jobs = int(args[1]); args = args[2:]

def one(case):
  name, kind, edits, checks = case
  w = tempfile.mkdtemp(prefix='bat.', dir='/tmp')
  ev = w + '.ev'
  os.mkdir(ev)
  try:
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {w} && cd {w} && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x', shell=True, check=True)
    for f, subs in edits.items():
      p = f'{w}/discs/{f}'
      s = open(p).read()
      for sub in subs:
        old, new = sub[:2]
        n = sub[2] if len(sub) > 2 else 1
        if s.count(old) < 1:
          return f'{name}: PATTERN MISSING in {f}: {old[:60]!r}'
        s = s.replace(old, new, n if n > 0 else -1)
      compile(s, p, 'exec')
      open(p, 'w').write(s)
    out = []
    for c in checks:
      cmd = (f'mount --bind {w} /repo && mkdir -p /verif/replays && mount --bind {ev} /verif/evidence && mount --bind {ev} /verif/replays '
             f'&& exec timeout 880 bash /verif/check.sh {c} {os.environ.get("TIER", "quick")}')
      r = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], capture_output=True, text=True, env=dict(os.environ, SYMX_STRICT='1' if kind == 'same' else '0'))
      lines = [l[:230] for l in (r.stdout + r.stderr).splitlines() if l.startswith('VIOLATION') or 'NOT-EXPLORED' in l or 'Error' in l or 'undecided' in l or 'nconclusive' in l]
      ok = r.returncode == (0 if kind == 'same' else 1)
      out.append(f'  {"ok  " if ok else "BAD "} {c} rc={r.returncode}' + ('' if ok else '\n      ' + '\n      '.join(lines[:4])))
      if kind == 'bug' and ok:
        break
    bad = any('BAD' in o for o in out) if kind == 'same' else not any('ok  ' in o for o in out)
    return f'{"BAD" if bad else "OK "} {kind} {name}\n' + '\n'.join(out)
  except Exception as e:
    return f'{name}: FAILED {e!r}'
  finally:
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(ev, ignore_errors=True)

sel = [c for c in cases if not args or any(a in c[0] for a in args)]
with cf.ThreadPoolExecutor(jobs) as ex:
  for fut in cf.as_completed([ex.submit(one, c) for c in sel]):
    print(fut.result(), flush=True)
