#!/usr/bin/env python3
"""Delta-debug a gcfuzz case file: shrink.py BIN CASE OUT [timeout] [tries]"""
import subprocess, sys, re, os, tempfile, time

def run(binary, path, timeout):
    try:
        p = subprocess.run([binary, 'run', path, str(timeout)], capture_output=True,
                           timeout=timeout * 2 + 10, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return 2, 'timeout'
    return p.returncode, p.stdout

def load(path):
    hdr, ops = [], []
    for l in open(path):
        (hdr if l.startswith(('variant', 'cfg', '#')) else ops).append(l)
    return hdr, ops

def shrink(binary, src, out, timeout=20, tries=1, budget=120, want=1, log=None):
    hdr, ops = load(src)
    end = time.time() + budget
    tmp = out + '.tmp'
    n_runs = 0
    def fails(h, o):
        nonlocal n_runs
        with open(tmp, 'w') as f:
            f.writelines(h + o)
        for _ in range(tries):
            n_runs += 1
            ret, msg = run(binary, tmp, timeout)
            if ret == want and 'harness:' not in msg:
                return True
        return False
    n = 2
    while len(ops) >= 1 and time.time() < end:
        size = max(1, len(ops) // n)
        removed = False
        i = 0
        while i < len(ops) and time.time() < end:
            cand = ops[:i] + ops[i + size:]
            if fails(hdr, cand):
                ops = cand
                removed = True
            else:
                i += size
        if size == 1 and not removed:
            break
        if not removed or size > 1:
            n = min(len(ops), n * 2) or 1
    # Simplify arguments.
    for i in range(len(ops)):
        if time.time() > end: break
        w = ops[i].split()
        for k in range(2, len(w)):
            if w[k] == '0': continue
            for v in ('0', '1', str(int(w[k]) % 64)):
                if v == w[k]: continue
                c = w[:]; c[k] = v
                cand = ops[:i] + [' '.join(c) + '\n'] + ops[i+1:]
                if fails(hdr, cand):
                    ops = cand; w = c
                    break
    with open(out, 'w') as f:
        f.writelines(hdr + ops)
    try: os.unlink(tmp)
    except OSError: pass
    return len(ops), n_runs

if __name__ == '__main__':
    t = int(sys.argv[4]) if len(sys.argv) > 4 else 20
    tries = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    print(shrink(sys.argv[1], sys.argv[2], sys.argv[3], t, tries))
