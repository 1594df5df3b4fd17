#!/usr/bin/env python3
"""Makes harness/ref/data/classes.txt, the golden class table of the monitors.

golden(c) = the property value of Unicode 15.0 (as dumped from Perl's Unicode::UCD)
if c was assigned in Unicode 11.0 (the version the package's tables claim) or is
unassigned, the default value otherwise, except for the code points listed in
exceptions.txt: characters whose property value changed between Unicode 11.0
and 15.0. Each group in exceptions.txt was audited by hand against the UAX#29/UTS#51
modification lists.  usage: gengolden.py UCD_DUMP_DIR
"""
import sys, os
d = sys.argv[1]; here = os.path.dirname(os.path.abspath(__file__))
N = 0x110000
def load(p):
    m = [None]*N
    for l in open(f'{d}/{p}.txt'):
        a, b, v = l.split()
        for i in range(int(a,16), int(b,16)+1): m[i] = v
    return m
age = load('Age')
def old(c): return age[c] == 'Unassigned' or float(age[c]) <= 11.0
EM = ['Emoji','Emoji_Presentation','Emoji_Modifier','Emoji_Modifier_Base','Emoji_Component','Extended_Pictographic']
gcb, wb = load('Grapheme_Cluster_Break'), load('Word_Break')
em = [load(p) for p in EM]
fix = {'PerlTailoredHSpace': None, 'ExtPict_LE': 'ALetter', 'ExtPict_XX': 'Other'}
def wbv(c):
    v = wb[c]
    if v == 'Perl_Tailored_HSpace' or v == 'PerlTailoredHSpace':
        return 'Other' if c in (9, 0xA0, 0x2007) else 'WSegSpace'   # Perl folds these two into a class of its own
    return fix.get(v, v)
G = ['Other']*N; W = ['Other']*N; E = [0]*N
for c in range(N):
    if old(c):
        G[c], W[c] = fix.get(gcb[c], gcb[c]), wbv(c)
        E[c] = sum(1 << i for i in range(6) if em[i][c] == 'Y')
    elif em[5][c] == 'Y':
        E[c] = 32   # was in a range reserved as Extended_Pictographic
for l in open(here+'/exceptions.txt'):
    l = l.split('#')[0].split()
    if not l: continue
    for c in range(int(l[1],16), int(l[2],16)+1):
        if l[0] == 'GCB': G[c] = l[3]
        elif l[0] == 'WB': W[c] = l[3]
        elif l[0] == 'EMOJI': E[c] = int(l[3])
if '--compare' in sys.argv:
    n = lambda x: x.replace('_','').replace('Class','').lower()
    al = {'any':'other','eot':'eot'}
    for l in open(sys.argv[-1]):
        c,g,w,e = l.split(); c = int(c,16)
        if c == 0 or 0xD800 <= c < 0xE000: continue
        eb = sum(1<<i for i in range(6) if e[i]=='1')
        if al.get(n(g),n(g)) != n(G[c]): print('GCB %X %X %s' % (c,c,g.replace('Class','').replace('Any','Other')), '#', G[c], age[c])
        if n(w) != n(W[c]): print('WB %X %X %s' % (c,c,w.replace('Class','')), '#', W[c], age[c])
        if eb != E[c]: print('EMOJI %X %X %d' % (c,c,eb), '#', E[c], age[c])
    sys.exit()
with open(here+'/../harness/ref/data/classes.txt','w') as f:
    f.write('# generated by tools/gengolden.py: lo hi GCB WB emoji-bits (%s)\n' % ' '.join(EM))
    a = 0
    for c in range(1, N+1):
        if c == N or (G[c],W[c],E[c]) != (G[a],W[a],E[a]):
            if (G[a],W[a],E[a]) != ('Other','Other',0):
                f.write('%X %X %s %s %d\n' % (a, c-1, G[a], W[a], E[a]))
            a = c
