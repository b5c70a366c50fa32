#!/usr/bin/env python3
"""Generates /verif/data/*.txt (code point classes) from perl's Unicode 15.0 tables.

Run by hand (not by any check); the result is committed.  The tables do not come from
/repo: they are the oracle for it.  /repo is on Unicode 11.0 (uax11: x/text, <= 12), so

 - code points which have been assigned after 11.0 are left out ("Age"), and
 - code points whose property value has been changed by a later version are left out, too;
   they are listed in CHANGED (from the modification sections of UAX#29 and UTR#51 and by
   inspecting the differences one by one).
Format: "lo hi class" (decimal), one line per range.
"""
import subprocess, sys, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data')
PERL = r'''
use strict; use Unicode::UCD qw(prop_invmap prop_invlist);
my ($p)=@ARGV;
if ($p =~ s/^=//) { my @l=prop_invlist($p); unshift @l,0; my $v=0;
  for my $i (0..$#l) { my $hi=$i<$#l?$l[$i+1]-1:0x10ffff; printf "%d %d %s\n",$l[$i],$hi,$v?'Y':'N' if $hi>=$l[$i]; $v=!$v } }
else { my($l,$m)=prop_invmap($p); for my $i(0..$#$l){ last if $l->[$i]>0x10ffff; my $hi=$i<$#$l?$l->[$i+1]-1:0x10ffff; printf "%d %d %s\n",$l->[$i],$hi,$m->[$i]; } }
'''
def prop(p):
    a = [None]*0x110000
    for l in subprocess.run(['perl','-e',PERL,p],capture_output=True,text=True,check=True).stdout.splitlines():
        lo,hi,v = l.split()
        a[int(lo):int(hi)+1] = [v]*(int(hi)-int(lo)+1)
    return a
def age(v):
    if v in (None,'NA','Unassigned'): return (99,0)
    a,b = v.lstrip('V').replace('_','.').split('.'); return (int(a),int(b))
AGE = [age(v) for v in prop('Age')]
def old(i, mx=(11,0)): return AGE[i] <= mx and not 0xd800 <= i <= 0xdfff
def write(name, cls):
    with open(os.path.join(OUT,name),'w') as o:
        lo = 0
        for i in range(1,0x110001):
            if i == 0x110000 or cls[i] != cls[lo]:
                if cls[lo] is not None: o.write(f'{lo} {i-1} {cls[lo]}\n')
                lo = i
R = lambda a,b: range(a,b+1)
pict = prop('=ExtPict')

# --- UAX#29 words
CHANGED_WB = set(R(0x2e5,0x2eb))|{0x55a,0x55f,0x58a}|set(R(0xff10,0xff19))|{0x1cf2,0x1cf3}|set(R(0xa708,0xa716))
wb = prop('WB'); out=[None]*0x110000
WSEG = {0x20,0x1680,0x205f,0x3000}|set(R(0x2000,0x2006))|set(R(0x2008,0x200a))
REN = {'Single_Quote':'SQ','Double_Quote':'DQ','Regional_Indicator':'RI','Hebrew_Letter':'Hebrew',
       'ExtPict_LE':'LePict','ExtPict_XX':'Pict'}
for i in range(1,0x110000):
    if not old(i) or i in CHANGED_WB: continue
    c = wb[i]
    if c == 'Perl_Tailored_HSpace': c = 'WSegSpace' if i in WSEG else 'Other'
    out[i] = REN.get(c,c)
write('wb.txt',out)
# --- UAX#29 graphemes
CHANGED_GCB = {0xfffd, # stands for unpaired surrogates (Control in 11.0) in /repo; its tests rely on it
  0x1734,0x1b35,0xa9bd,0x1cf2,0x1cf3,0x11720,0x11721}
gcb = prop('GCB'); out=[None]*0x110000
REN = {'Regional_Indicator':'RI','ExtPict_XX':'Pict','Other':'Any'}
for i in range(1,0x110000):
    if not old(i) or i in CHANGED_GCB: continue
    out[i] = REN.get(gcb[i],gcb[i])
write('gcb.txt',out)
# --- UTS#51
CHANGED_EMOJI = {0x26a7}
CHANGED_EBASE = {0x1f46a,0x1f46b,0x1f46c,0x1f46d,0x1f46f,0x1f48f,0x1f491,0x1f91d,0x1f93c}
for n,p in (('emoji','Emoji'),('epres','EPres'),('emod','EMod'),('ebase','EBase'),('ecomp','EComp'),('extpict','ExtPict')):
    a = prop('='+p)
    ch = CHANGED_EMOJI if n=='emoji' else CHANGED_EBASE if n=='ebase' else set()
    out=[a[i] if old(i) and i not in ch else None for i in range(0x110000)]
    write(n+'.txt',out)
# --- UAX#11 (all assigned up to 11.0)
ea = prop('EA')
out=[ea[i] if old(i) else None for i in range(0x110000)]
write('ea.txt',out)
# --- UAX#9
bc = prop('BC')  # U+1734: NSM before 14.0
out=[bc[i] if old(i) and i != 0x1734 else None for i in range(0x110000)]
write('bc.txt',out)
# --- UAX#14 (10.0)
a=prop('LB'); write('lb.txt',[a[i] if old(i) else None for i in range(0x110000)])
# --- tables for shaping are on Unicode 13.0
CHANGED_INPC = {0x1734,0x953,0x954}|set(R(0xa926,0xa92a))
CHANGED_INSC = {0xafb,0x1b03,0x1b81,0xa982}
for p,n,ch,none in (('InSC','insc',CHANGED_INSC,'Other'),('InPC','inpc',CHANGED_INPC,'NA')):
    a=prop(p); write(n+'.txt',[(('none' if a[i]==none else a[i]) if old(i,(13,0)) and i not in ch else None) for i in range(0x110000)])
# joining types as listed explicitly in ArabicShaping-13.0.0.txt; all others are derived there
# (U, and T for marks and formats), and are not part of its data lines
EXPL = {'T':[0x70f,0x1885,0x1886,0x1e94b],
  'U':[*R(0x600,0x605),0x608,0x60b,0x621,0x674,0x6dd,0x861,0x866,0x8ad,0x8e2,0x1806,0x180e,*R(0x1880,0x1884),0x200c,0x202f,
    *R(0x2066,0x2069),0xa873,0x10ac6,0x10ac8,0x10acb,0x10acc,0x10ae2,0x10ae3,0x10baf,0x10f45,0x10fb1,0x10fb7,0x10fc0,
    *R(0x10fc5,0x10fc8),0x110bd,0x110cd]}
a=prop('JT')
for k in EXPL:
    for i in EXPL[k]: assert a[i] == k
write('arab.txt',[((a[i] if a[i] in 'RLDC' or i in EXPL[a[i]] else 'none') if old(i,(13,0)) else None) for i in range(0x110000)])
# --- BidiBrackets: "opening closing pair" (U+2329, U+232A are canonically equivalent
# to U+3008, U+3009)
PB = r'''
use strict; use Unicode::UCD qw(prop_invmap);
my($l,$m)=prop_invmap("Bidi_Paired_Bracket"); my($l2,$m2)=prop_invmap("Bidi_Paired_Bracket_Type"); my %t; for my $i(0..$#$l2){$t{$l2->[$i]}=$m2->[$i]}
for my $i(0..$#$l){ my $c=$m->[$i]; next if $c eq '' or $t{$l->[$i]} ne 'O'; printf "%d %d\n",$l->[$i],$c }
'''
with open(os.path.join(OUT,'brackets.txt'),'w') as o:
    for l in subprocess.run(['perl','-e',PB],capture_output=True,text=True,check=True).stdout.splitlines():
        a,b = map(int,l.split())
        if old(a) and old(b): o.write(f'{a} {b} pair\n')

# --- white space (all code points; the property does not change between versions)
ws = prop('=White_Space')
write('ws.txt', [None if i == 0 or 0xd800 <= i <= 0xdfff else ('s' if ws[i] == 'Y' else 'o') for i in range(0x110000)])

# --- classes of display width: Z zero width, E emoji, K digits etc. (keycaps), W, A, N, Na
emo = [prop('='+p) for p in ('Emoji','EPres','EMod','EBase','EComp','ExtPict')]
out=[None]*0x110000
for i in range(1,0x110000):
    if not old(i) or i in CHANGED_EMOJI or i in CHANGED_EBASE: continue
    if i in (0x1f93b,0x1f946) or i & 0xfffe == 0xfffe: continue  # x/text lists them as wide
    if i in (0xfe0f,0x20e3) or 0xe0000 <= i <= 0xe007f: continue  # components, not meant to stand alone
    if i in (0x200b,0x200c,0x200d,0x2060,0xfeff): out[i]='Z'; continue
    if any(a[i]=='Y' for a in emo): out[i] = 'K' if i < 128 else 'E'; continue
    out[i] = {'F':'W','H':'Na'}.get(ea[i],ea[i])
write('width.txt',out)
