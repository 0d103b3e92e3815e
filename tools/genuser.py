#!/usr/bin/env python3
# Writes harness/pub/userdecl.go: every struct declaration of up to two fields over all field forms, and of three
# fields over the reduced set, as slots of box types (a box value uses exactly one slot).
import os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The order is that of the table uForms in harness/pub/user.go.
F=[('uint8','size=8'),('uint16','size=16'),('uint32','size=32,hex'),('uint64','size=64'),('uint8','size=5'),('uint16','size=13,dec'),
('uint32','size=3,hex'),('uint8','size=8,dec'),('int8','size=8'),('int16','size=16'),('int32','size=13'),('int8','size=4,hex'),
('int64','size=64'),('bool','size=1'),('uint8','size=8,opt=0x000001'),('uint16','size=16,opt=10'),('uint8','size=8,nopt=0x000004'),
('uint32','size=32,ver=0'),('uint64','size=64,nver=0'),('uint8','size=8,opt=dynamic'),('uint32','size=dynamic'),('string','string'),
('[]uint8','size=8,len=2'),('[]uint16','size=16,len=dynamic'),('[3]uint8','size=5,iso639-2'),('[4]uint8','size=8,string'),
('[16]uint8','size=8,uuid'),('[4]bool','size=1'),('uSub',''),('*uSub',''),('[]uSub','len=dynamic'),('uint32','varint'),
('uint16','size=16,hidden'),('[2]int16','size=12'),
# last field only
('[]uint8','size=8'),('[]uint32','size=24'),('[]uSub','size=16'),('string','boxstring'),('[]*uSub','size=16')]
LAST=34
R3=[1,4,10,13,14,17,20,21,23,29,31]; R3L=[34,37]
seqs=[[i] for i in range(len(F))]
seqs+=[[i,j] for i in range(LAST) for j in range(len(F))]
seqs+=[[i,j,k] for i in R3 for j in R3 for k in R3+R3L]
SL=100
o=['// Code generated by tools/genuser.py; DO NOT EDIT.','','//go:build go1.22','','package main','','import "github.com/abema/go-mp4"','']
boxes=[seqs[i:i+SL] for i in range(0,len(seqs),SL)]
for b,ss in enumerate(boxes):
    o.append('type uBox%d struct {\n\tmp4.FullBox `mp4:"0,extend"`\n\tuCtl\n\tPad uint8 `mp4:"9,size=dynamic,opt=dynamic"`'%b)
    for n,s in enumerate(ss):
        fs='; '.join('%s %s `mp4:"%s"`'%('ABC'[p],F[i][0],','.join(x for x in [str(p),F[i][1]] if x)) for p,i in enumerate(s))
        o.append('\tS%d struct { %s } `mp4:"1,opt=dynamic,extend"`'%(n,fs))
    o.append('}\n')
o.append('func newUBox(i int) uBox {\n\tswitch i {')
for b in range(len(boxes)): o.append('\tcase %d:\n\t\treturn &uBox%d{}'%(b,b))
o.append('\t}\n\treturn nil\n}\n')
o.append('const uSlots = %d\n'%SL)
o.append('// uDecls lists the fields of every declaration, three bytes each (0xff: none).\nvar uDecls = []byte{')
for i in range(0,len(seqs),8):
    o.append('\t'+', '.join(', '.join(str(s[p]) if p<len(s) else '0xff' for p in range(3)) for s in seqs[i:i+8])+',')
o.append('}')
open(os.path.join(root,'harness','pub','userdecl.go'),'w').write('\n'.join(o)+'\n')
print(len(seqs),'declarations')
