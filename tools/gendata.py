#!/usr/bin/env python3
"""Builds the frozen, compact language data used by the simulator (sim/data/*).
Run once; the outputs are committed. Source: /repo/data (only read here)."""
import random, collections
R = random.Random(20240607)
plain = collections.OrderedDict(); punct = []
for l in open('/repo/data/data-plain-bpmf.txt', encoding='utf8'):
    if l.startswith('#'): continue
    k, v, s = l.rstrip('\n').split(' ')
    if k.startswith('_'): punct.append((k, v, s))
    else: plain.setdefault(k, []).append(v)
assoc = []; brackets = []
for l in open('/repo/data/associated-phrases-v2.txt', encoding='utf8'):
    if l.startswith('#'): continue
    body, s = l.rstrip('\n').rsplit(' ', 1)
    p = body.split('-')
    vs, rs = p[0::2], p[1::2]
    if any(r.startswith('_') for r in rs): brackets.append(l.rstrip('\n'))
    if len(vs) != len(rs) or any(r.startswith('_') for r in rs): continue
    assoc.append((vs, rs, float(s), l))
cnt = collections.Counter()
for vs, rs, s, l in assoc:
    if len(rs) <= 4 and s > -6.2:
        for r in set(rs): cnt[r] += 1
syl = [r for r, _ in cnt.most_common(400) if len(plain.get(r, [])) >= 2]
# greedy: keep the 64 syllables with the densest mutual phrases
S = set(syl)
while len(S) > 64:
    c = collections.Counter({r: 0 for r in S})
    for vs, rs, s, l in assoc:
        if len(rs) <= 4 and s > -7 and all(r in S for r in rs):
            for r in set(rs): c[r] += 1
    drop = [r for r, _ in sorted(c.items(), key=lambda x: (x[1], x[0]))[:max(1, (len(S) - 64) // 4)]]
    S -= set(drop)
# a syllable with exactly one character in each mode, and two rare ones
single = [r for r in plain if len(plain[r]) == 1][:400]
singles = R.sample(single, 4)
S |= set(singles)
S = sorted(S)
def sc(lo, hi): return '%.8f' % R.uniform(lo, hi)
rows = set(); main = collections.defaultdict(dict)
for r in S:
    for v in plain[r][:10]:
        main[r][v] = sc(-7.5, -3.2)
ph = [(vs, rs, s) for vs, rs, s, l in assoc if len(rs) <= 5 and all(r in S for r in rs)]
ph.sort(key=lambda x: -x[2])
ph2 = [p for p in ph if len(p[1]) == 2][:520] + [p for p in ph if len(p[1]) == 3][:160] + [p for p in ph if len(p[1]) >= 4][:90]
for vs, rs, s in ph2:
    n = len(rs)
    main['-'.join(rs)][''.join(vs)] = sc(-4.2 * n, -2.0 * n if n < 3 else -2.6 * n)
# a couple of phrases whose value is shorter or longer than their reading
ks = [k for k in main if k.count('-') >= 1]
for k in R.sample(ks, 12):
    main[k]['囧'] = sc(-12, -8)
for k in R.sample(ks, 12):
    main[k]['長長長長'] = sc(-12, -8)
for k in R.sample(ks, 6):
    main[k]['這是一個超過八個字的候選詞'] = sc(-12, -8)
# date/time macros, as in the upstream data file
def M(k, *ms):
    for m in ms: main[k]['MACRO@' + m] = '-8.0'
DK = {}
base = S[:]
DK['today'], DK['yesterday'], DK['tomorrow'], DK['thisyear'], DK['lastyear'], DK['nextyear'], DK['weekday'], DK['weekday2'], DK['now'], DK['tz'], DK['week_y'], DK['week_t'] = [
 'ㄐㄧㄣ-ㄊㄧㄢ','ㄗㄨㄛˊ-ㄊㄧㄢ','ㄇㄧㄥˊ-ㄊㄧㄢ','ㄐㄧㄣ-ㄋㄧㄢˊ','ㄑㄩˋ-ㄋㄧㄢˊ','ㄇㄧㄥˊ-ㄋㄧㄢˊ','ㄒㄧㄥ-ㄑㄧˊ','ㄌㄧˇ-ㄅㄞˋ','ㄒㄧㄢˋ-ㄗㄞˋ','ㄕˊ-ㄑㄩ','ㄗㄨㄛˊ-ㄖˋ','ㄇㄧㄥˊ-ㄖˋ']
import re
src = open('/repo/src/InputMacro.cpp', encoding='utf8').read()
macros = re.findall(r'"MACRO@([A-Z0-9_]+)"', src)
def pick(pred): return [m for m in dict.fromkeys(macros) if pred(m)]
M(DK['today'], *pick(lambda m: m.startswith('DATE_TODAY') and 'WEEKDAY' not in m))
M(DK['yesterday'], *pick(lambda m: m.startswith('DATE_YESTERDAY') and 'WEEKDAY' not in m))
M(DK['tomorrow'], *pick(lambda m: m.startswith('DATE_TOMORROW') and 'WEEKDAY' not in m))
M(DK['thisyear'], *pick(lambda m: m.startswith('THIS_YEAR')))
M(DK['lastyear'], *pick(lambda m: m.startswith('LAST_YEAR')))
M(DK['nextyear'], *pick(lambda m: m.startswith('NEXT_YEAR')))
M(DK['weekday'], *pick(lambda m: 'TODAY' in m and 'WEEKDAY' in m))
M(DK['week_y'], *pick(lambda m: 'YESTERDAY' in m and 'WEEKDAY' in m))
M(DK['week_t'], *pick(lambda m: 'TOMORROW' in m and 'WEEKDAY' in m))
M(DK['now'], *pick(lambda m: m.startswith('TIME_NOW')))
M(DK['tz'], *pick(lambda m: m.startswith('TIMEZONE')))
M(DK['tz'], 'NOT_A_KNOWN_MACRO')
for k in DK.values():
    for r in k.split('-'):
        if r not in main:
            for v in plain[r][:6]: main[r][v] = sc(-7.5, -3.2)
for k in list(DK.values()):
    w = ''.join(max(main[r], key=lambda v: float(main[r][v])) for r in k.split('-'))
    main[k][w] = sc(-7.0, -5.0)
used = sum(len(v) for k, v in main.items() if k in DK.values())
left = [m for m in dict.fromkeys(macros) if not any('MACRO@' + m in main[k] for k in DK.values())]
print('macros', len(dict.fromkeys(macros)), 'unused', left)
syls = sorted({r for k in main for r in k.split('-')})
out = [f'{k} {v} {s}' for k in main for v, s in main[k].items()]
out += [f'{k} {v} {s}' for k, v, s in punct]
for i, ch in enumerate(['❶','①','⑴','⒈','㊀','㈠']): out.append(f'_number_1 {ch} -{i+1}.5')
out.append('_number_2 ② -1.5'); out.append('_number_20 ⑳ -2.5')
for i, ch in enumerate(['⑩','⑽','⒑']): out.append(f'_number_10 {ch} -{i+1}.5')
def write(fn, rows):
    rows = sorted(r.encode() for r in (rows if 'assoc' in fn else set(rows)))
    open(fn, 'wb').write(b'# format org.openvanilla.mcbopomofo.sorted\n' + b'\n'.join(rows) + b'\n')
    print(fn, len(rows))
D = '/verif/sim/data/'
write(D + 'main.txt', out)
pl = []
for r in syls:
    vs = plain[r][:]
    R.shuffle(vs)
    keep = 1 if r in singles else min(len(vs), R.choice([2, 5, 9, 10, 14, 22]))
    for v in vs[:keep]: pl.append(f'{r} {v} {sc(-7.5, -3.2)}')
pl += [f'{k} {v} {s}' for k, v, s in punct]
write(D + 'plain.txt', pl)
ss = set(syls)
aa = [l.rstrip('\n') for vs, rs, s, l in assoc if all(r in ss for r in rs) and len(rs) <= 6]
write(D + 'assoc.txt', aa + brackets)
print(len(syls), 'syllables', len(main), 'keys', 'singles', singles)
