#!/usr/bin/env python3
"""Makes harness/ref/data/shaping.txt: golden content of the shaping tables (Unicode 13.0).
Unicode 15.0 values (Perl dumps) restricted to characters of Unicode 13.0, except for the
values which changed after 13.0 (CHG). ARAB_T and ARAB_U hold only the characters which
ArabicShaping.txt lists explicitly (the rest is derived by default rules).
usage: genshaping.py UCD_DUMP_DIR"""
import sys, os
d = sys.argv[1]; here = os.path.dirname(os.path.abspath(__file__)); N = 0x110000
def load(p):
    m = [None]*N
    for l in open(f'{d}/{p}.txt'):
        a, b, v = l.split()
        for i in range(int(a,16), min(int(b,16), N-1)+1): m[i] = v
    return m
age = load('Age')
CHG = {'UIPC': {0x1734:'Bottom', 0x953:'Top', 0x954:'Top', **{c:'NA' for c in range(0xA926,0xA92B)}},
       'UISC': {0xAFB:'Cantillation_Mark', 0x1B03:'Consonant_Succeeding_Repha', 0x1B81:'Consonant_Succeeding_Repha', 0xA982:'Consonant_Succeeding_Repha'},
       'ARAB': {}}
T = '70F 1885-1886 1E94B'
U = '600-605 608 60B 621 674 6DD 861 866 8AD 8E2 1806 180E 1880-1884 200C 202F 2066-2069 A873 10AC6 10AC8 10ACB-10ACC 10AE2-10AE3 10BAF 10F45 10FB1 10FB7 10FC0 10FC5-10FC8 110BD 110CD'
def lst(s): return [(int(x.split('-')[0],16), int(x.split('-')[-1],16)) for x in s.split()]
with open(here+'/../harness/ref/data/shaping.txt','w') as f:
    f.write('# generated by tools/genshaping.py: table lo hi\n')
    for pre, p in (('ARAB','Joining_Type'),('UIPC','Indic_Positional_Category'),('UISC','Indic_Syllabic_Category')):
        m = load(p); cats = {}
        for c in range(N):
            if age[c] != 'Unassigned' and float(age[c]) <= 13.0:
                v = CHG[pre].get(c, m[c])
                if v in ('NA','Other') or pre == 'ARAB' and v in 'TU': continue
                r = cats.setdefault(v, [])
                if r and r[-1][1] == c-1: r[-1][1] = c
                else: r.append([c,c])
        if pre == 'ARAB': cats['T'], cats['U'] = lst(T), lst(U)
        for k in sorted(cats):
            for a, b in cats[k]: f.write('%s_%s %X %X\n' % (pre, k, a, b))
