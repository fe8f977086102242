#!/usr/bin/env python3
"""Collects lines of real maps (one of each shape) from /repo's test files into corpus/lines.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, seen = {}, set()
for p in sorted(glob.glob('/repo/src/tests/osu_files/files/*.os[ub]')):
    kind = 'osb:' if p.endswith('.osb') else ''
    sec = None
    for l in open(p, encoding='utf-8-sig', errors='replace', newline='').read().split('\n'):
        l = l.rstrip('\r')
        m = re.match(r'\[(\w+)\]$', l.strip())
        if m:
            sec = kind + m.group(1)
            continue
        if not sec or not l.strip() or len(l) > 160 or re.search(r'\d{20}', l) or re.search(r'[^\x20-\x7e\u3040-\u30ff\u4e00-\u9fff]', l):
            continue
        # shape: digits alike, repeated pieces alike
        s = re.sub(r'\d+(\.\d+)?', '9', l)
        s = re.sub(r'(\|-?9:-?9)+', '|p', s)
        s = re.sub(r'[A-Za-z]{4,}', 'w', s) if not re.match(r'[A-Z]\w+', l) else s
        if (sec, s) in seen:
            continue
        seen.add((sec, s))
        out.setdefault(sec, []).append(l)
for k in out:
    step = max(1, len(out[k]) // 120)
    out[k] = out[k][::step][:120]
os.makedirs(os.path.join(HERE, 'corpus'), exist_ok=True)
json.dump(out, open(os.path.join(HERE, 'corpus', 'lines.json'), 'w'), indent=0, ensure_ascii=False)
print({k: len(v) for k, v in out.items()})
