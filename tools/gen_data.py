#!/usr/bin/env python3
"""Regenerates the reference data of the harness (run by hand, never by a check).

  cp949.txt  Python's own cp949 codec (CJKCodecs, from Unicode's CP949.TXT).
  cldr.txt   CLDR Korean collation (Unicode::Collate::CJK::Korean of Perl):
             the hanja that collate under each syllable = the syllable is a reading.
  hanja.txt  the reading table of the pinned commit 592ae86 (27496 entries);
             the 7476 of them that CLDR covers are cross-checked here.
"""
import re, os, subprocess
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'data')
with open(D + '/cp949.txt', 'w') as o:
    for a in range(0x80, 0x100):
        for b in range(256):
            try: s = bytes([a, b]).decode('cp949')
            except UnicodeDecodeError: continue
            if len(s) == 1: o.write('%04X %04X\n' % (a << 8 | b, ord(s)))
t = subprocess.check_output(['git', '-C', '/repo', 'show', '592ae86:hanja/table.go'], text=True)
h = {int(a, 16): int(b, 16) for a, b in re.findall(r'(0x[0-9a-f]+): (0x[0-9a-f]+),', t)}
with open(D + '/hanja.txt', 'w') as o:
    for k in sorted(h): o.write('%04X %04X\n' % (k, h[k]))
txt = open('/usr/share/perl/5.38.2/Unicode/Collate/CJK/Korean.pm').read().split('__DATA__')[1].split('__END__')[0]
cl = {}; cur = 0
for w in txt.split():
    m = re.match(r'([A-D][0-9A-F]{3}):', w)
    if m: cur = int(m[1], 16)
    elif int(w, 16): cl[int(w, 16)] = cur
with open(D + '/cldr.txt', 'w') as o:
    for k in sorted(cl): o.write('%04X %04X\n' % (k, cl[k]))
diff = [k for k in cl if h.get(k) != cl[k]]
print(len(h), len(cl), 'differ:', ''.join(map(chr, diff)))
