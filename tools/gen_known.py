#!/usr/bin/env python3
# Writes known_findings.txt: unrepaired findings (with probes) and the fix: commits of /repo. Run by hand when fixes are added.
import subprocess, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M={ # subject prefix -> property
'Array::compare':'A01','Array slices may':'A01','Array mutation through':'A02','Array append of':'A01','Array const element':'A01','Array::unshift':'A01','Array::delete_if':'A01','Array::rfind':'A01','Array::bsearch':'A01','Array searches':'A01',
'constructing a StrVal':'S08','StrVal::compare':'S04','StrVal substring search':'S02','StrVal character search':'S02','mutating a StrVal substring':'S01','a StrVal bookmark':'S03','inserting a StrVal':'S01','StrVal must count':'R02','StrVal::asInt32() must report':'S05','StrVal::asInt32() must accept':'S05','StrVal::toJSON':'S06','StrBody::putChar':'S07','StrVal transformations must':'S08','StrVal must not stop':'S08',
'CowMap::put':'M01','CowMap functional':'M01','Variant coercion between':'V02','Variant coercion from String must fail':'V02','Variant coercion from String must release':'V01','StringArray must':'V01','ErrNum':'E01',
'UTF8Len':'U02','UTF8Backup':'U02','UTF8PutPadded':'U01','UCS4Digit':'U04','UCS4ToTitle':'U04','NulGuarded':'U05','GuardedCharPtr':'U05','GuardedUTF8Ptr':'U05',
'skipping a Pegexp':'P01','format() skips the *':'S09','format() uses the argument':'S09','format() gives a %':'S09','a truncated Pegexp':'P02','a \\\\u escape in a Pegexp':'P02','an escaped control character may start':'P01','a character class that fails at the end':'G03','Pegexp \\\\L':'P02','Peg rule lookup':'G01','the default non-capturing':'G04','a Peg rule must capture':'G02','a failed Peg parse':'G03','a labelled Pegexp':'G02','captures of an abandoned':'G02','characters of StrRawBinary':'S02',
'a Thread must be':'T03','Thread::exit':'T03','the first Latches':'T01','deleting a joined Thread':'T03','Thread::joinAny':'T03','joining a Thread':'T03','a timed Condition':'T02',
'? is an ordinary':'X01','a compiled regular expression':'X06','a short character escape':'X02','a regular expression must match text beyond':'X02','Using a rejected kind':'X01','In an extended regular':'X02','RxProgram must use':'X05','a regular expression thread must':'X03','negative lookahead':'X02','a regular expression repetition count':'X01','unbalanced':'X01','regular expression errorOffset':'X01','a regular expression repetition counter':'X02','a repetition count of 65536':'X01','a regular expression must allow':'X01','a counted repetition with':'X02','regular expression threads':'X02','a regular expression NFA':'X01','patching an offset':'X01','a counted repetition of':'X02','the offsets of an unlimited':'X01','matching a regular expression must':'X04'}
out=open(V+'/tools/findings.in').read()
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    t=s[5:]
    k=[v for p,v in M.items() if t.startswith(p)]
    if not k: raise SystemExit('no property for '+t)
    out+='fixed: property=%s %s %s\n'%(k[0],h,t)
open(V+'/known_findings.txt','w').write(out)
