#!/usr/bin/env python3
"""Writes harness/unidata.inc: the classification and case mapping expected of each character, and checks it against Python's
Unicode data. The library documents Unicode 3 tables, so the expectation starts as a dump of the library (argument: a program
printing 'cp upper lower title digit alpha' in hex for the characters it changes or classifies), and every difference from
today's data must be one of the kinds explained below; anything else stops this script. Run by hand, not by a check."""
import sys, unicodedata as ud
old = ud.ucd_3_2_0
T = {}
for l in open(sys.argv[1]):
    c,u,lo,t,d,a = l.split(); T[int(c,16)] = (int(u,16),int(lo,16),int(t,16),int(d),int(a))
def simple(f, c):
    s = f(chr(c)); return ord(s) if len(s) == 1 else None
bad = []
for c in range(0x110000):
    if 0xD800 <= c < 0xE000: continue
    u,l,t,d,a = T.get(c,(c,c,c,-1,0)); ch = chr(c)
    new = old.category(ch) == 'Cn'                      # unknown to Unicode 3.2
    for name,g,f in (('upper',u,str.upper),('lower',l,str.lower),('title',t,str.title)):
        e = simple(f, c)
        if g == e: continue
        if e is None and g == c: continue               # Unicode gives several characters; left unchanged
        if e is None and 0x1F80 <= c <= 0x1FFF and name == 'upper' and g == simple(str.title, c): continue   # iota subscript: simple uppercase is the titlecase letter
        if c == 0x130 and name == 'lower' and g == ord('i'): continue   # the simple mapping; Python gives the full one
        if g == c and (new or simple(f, c) is not None and (old.category(chr(e)) == 'Cn' or e > 0xFFFF or c >= 0x3D8 and c <= 0x50F or e in (0x220,0x19E,0x3A3))): continue   # the pair is later than Unicode 3.0
        if c == 0x3F2: continue                         # capital lunate sigma came later
        bad.append((name, hex(c), hex(g), e and hex(e)))
    e = ud.digit(ch,-1) if ud.category(ch) == 'Nd' else -1
    if d != e and not (d == -1 and (new or c > 0xFFFF)) and not (0x1369 <= c <= 0x1371 and old.digit(ch,-1) == d) and not (c == 0xAE6 and d == -1) and not (c in (0x3007,) or 0x3021 <= c <= 0x3029) and not (d == -1 and old.category(ch) != 'Nd'):
        bad.append(('digit', hex(c), d, e))
    if a and ud.category(ch)[0] != 'L' and u == c and l == c: bad.append(('alpha', hex(c), ud.category(ch)))
for b in bad: print('UNEXPLAINED', *b)
if bad: sys.exit(1)
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'unidata.inc'), 'w') as f:
    f.write('// Generated by tools/gen_unidata.py: {character, upper, lower, title, digit, alphabetic}; others map to themselves\n')
    for c in sorted(T): f.write('{0x%X,0x%X,0x%X,0x%X,%d,%d},\n' % ((c,)+T[c]))
print(len(T), 'characters')
