#!/usr/bin/env python3
"""Development tool: turns a file of edits into patches against /repo's HEAD.
usage: mkpatch.py <edits.py> <out dir>; edits.py defines E = [(name, {file: [(old, new), ...]}), ...]"""
import difflib, os, re, runpy, subprocess, sys

def main():
    E = runpy.run_path(sys.argv[1])['E']
    d = sys.argv[2]
    os.makedirs(d, exist_ok=True)
    for name, files in E:
        out = []
        for f, eds in files.items():
            src = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout
            new = src
            for ed in eds:
                if ed[0] == 're':
                    new = re.sub(ed[1], ed[2], new)
                    continue
                o, n = ed
                if new.count(o) < 1:
                    print('!!', name, f, 'not found:', o[:80]); break
                new = new.replace(o, n, 1)
            out += list(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
        with open('%s/%s.diff' % (d, name), 'w') as h:
            h.write(''.join(out))

main()
