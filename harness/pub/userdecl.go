// Code generated by tools/genuser.py; DO NOT EDIT.

//go:build go1.22

package main

import "github.com/abema/go-mp4"

type uBox0 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint8 `mp4:"0,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint16 `mp4:"0,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint32 `mp4:"0,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint64 `mp4:"0,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint8 `mp4:"0,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint16 `mp4:"0,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint32 `mp4:"0,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint8 `mp4:"0,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A int8 `mp4:"0,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A int16 `mp4:"0,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A int32 `mp4:"0,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A int8 `mp4:"0,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A int64 `mp4:"0,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A bool `mp4:"0,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32 `mp4:"0,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A string `mp4:"0,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A [4]bool `mp4:"0,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uSub `mp4:"0"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A *uSub `mp4:"0"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A []uSub `mp4:"0,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32 `mp4:"0,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint16 `mp4:"0,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A [2]int16 `mp4:"0,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A []uint8 `mp4:"0,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A []uint32 `mp4:"0,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A []uSub `mp4:"0,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A string `mp4:"0,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A []*uSub `mp4:"0,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint8 `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint8  `mp4:"0,size=8"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint8  `mp4:"0,size=8"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint8  `mp4:"0,size=8"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint8 `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint8  `mp4:"0,size=8"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint8  `mp4:"0,size=8"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint8 `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint8 `mp4:"0,size=8"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint8 `mp4:"0,size=8"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint8 `mp4:"0,size=8"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint8 `mp4:"0,size=8"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint8 `mp4:"0,size=8"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint8 `mp4:"0,size=8"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint8 `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint8  `mp4:"0,size=8"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint8 `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint8  `mp4:"0,size=8"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint8  `mp4:"0,size=8"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint8 `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint8  `mp4:"0,size=8"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint8  `mp4:"0,size=8"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint8   `mp4:"0,size=8"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint8    `mp4:"0,size=8"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint8    `mp4:"0,size=8"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint8    `mp4:"0,size=8"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint8     `mp4:"0,size=8"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint8   `mp4:"0,size=8"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint8 `mp4:"0,size=8"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint8 `mp4:"0,size=8"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint8  `mp4:"0,size=8"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint8  `mp4:"0,size=8"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint8  `mp4:"0,size=8"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint8    `mp4:"0,size=8"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint8   `mp4:"0,size=8"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint8    `mp4:"0,size=8"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint8  `mp4:"0,size=8"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint8  `mp4:"0,size=8"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint8   `mp4:"0,size=8"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint16 `mp4:"0,size=16"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint16 `mp4:"0,size=16"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint16 `mp4:"0,size=16"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint16 `mp4:"0,size=16"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint16 `mp4:"0,size=16"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint16 `mp4:"0,size=16"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox1 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint16  `mp4:"0,size=16"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint16   `mp4:"0,size=16"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint16   `mp4:"0,size=16"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint16    `mp4:"0,size=16"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint16  `mp4:"0,size=16"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint16 `mp4:"0,size=16"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint16 `mp4:"0,size=16"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint16   `mp4:"0,size=16"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint16  `mp4:"0,size=16"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint16 `mp4:"0,size=16"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint16  `mp4:"0,size=16"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint32  `mp4:"0,size=32,hex"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint32   `mp4:"0,size=32,hex"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint32   `mp4:"0,size=32,hex"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint32   `mp4:"0,size=32,hex"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint32    `mp4:"0,size=32,hex"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint32  `mp4:"0,size=32,hex"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint32   `mp4:"0,size=32,hex"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint32  `mp4:"0,size=32,hex"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint32   `mp4:"0,size=32,hex"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint32 `mp4:"0,size=32,hex"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint32  `mp4:"0,size=32,hex"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint64 `mp4:"0,size=64"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint64 `mp4:"0,size=64"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint64 `mp4:"0,size=64"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint64 `mp4:"0,size=64"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint64 `mp4:"0,size=64"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint64 `mp4:"0,size=64"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint64 `mp4:"0,size=64"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint64 `mp4:"0,size=64"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint64 `mp4:"0,size=64"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint64 `mp4:"0,size=64"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint64 `mp4:"0,size=64"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint64 `mp4:"0,size=64"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint64 `mp4:"0,size=64"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint64 `mp4:"0,size=64"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint64 `mp4:"0,size=64"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint64 `mp4:"0,size=64"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint64 `mp4:"0,size=64"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint64 `mp4:"0,size=64"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint64 `mp4:"0,size=64"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint64 `mp4:"0,size=64"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint64 `mp4:"0,size=64"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint64 `mp4:"0,size=64"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint64  `mp4:"0,size=64"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint64   `mp4:"0,size=64"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint64   `mp4:"0,size=64"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint64   `mp4:"0,size=64"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint64    `mp4:"0,size=64"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint64  `mp4:"0,size=64"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint64 `mp4:"0,size=64"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint64 `mp4:"0,size=64"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint64 `mp4:"0,size=64"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint64 `mp4:"0,size=64"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint64 `mp4:"0,size=64"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint64   `mp4:"0,size=64"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint64  `mp4:"0,size=64"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint64   `mp4:"0,size=64"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint64 `mp4:"0,size=64"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint64 `mp4:"0,size=64"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint64  `mp4:"0,size=64"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint8  `mp4:"0,size=5"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox2 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint8 `mp4:"0,size=5"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint8 `mp4:"0,size=5"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint8 `mp4:"0,size=5"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint8 `mp4:"0,size=5"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint8 `mp4:"0,size=5"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint8 `mp4:"0,size=5"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint8  `mp4:"0,size=5"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint8   `mp4:"0,size=5"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint8    `mp4:"0,size=5"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint8    `mp4:"0,size=5"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint8     `mp4:"0,size=5"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint8   `mp4:"0,size=5"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint8 `mp4:"0,size=5"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint8 `mp4:"0,size=5"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint8  `mp4:"0,size=5"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint8    `mp4:"0,size=5"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint8   `mp4:"0,size=5"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint8  `mp4:"0,size=5"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint8   `mp4:"0,size=5"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint16  `mp4:"0,size=13,dec"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint16   `mp4:"0,size=13,dec"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint16   `mp4:"0,size=13,dec"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint16   `mp4:"0,size=13,dec"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint16    `mp4:"0,size=13,dec"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint16  `mp4:"0,size=13,dec"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint16   `mp4:"0,size=13,dec"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint16  `mp4:"0,size=13,dec"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint16   `mp4:"0,size=13,dec"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint16 `mp4:"0,size=13,dec"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint16  `mp4:"0,size=13,dec"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint32  `mp4:"0,size=3,hex"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint32   `mp4:"0,size=3,hex"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint32   `mp4:"0,size=3,hex"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint32   `mp4:"0,size=3,hex"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint32    `mp4:"0,size=3,hex"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox3 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint32  `mp4:"0,size=3,hex"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint32   `mp4:"0,size=3,hex"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint32  `mp4:"0,size=3,hex"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint32   `mp4:"0,size=3,hex"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint32 `mp4:"0,size=3,hex"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint32  `mp4:"0,size=3,hex"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint8   `mp4:"0,size=8,dec"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint8    `mp4:"0,size=8,dec"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint8    `mp4:"0,size=8,dec"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint8    `mp4:"0,size=8,dec"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint8     `mp4:"0,size=8,dec"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint8   `mp4:"0,size=8,dec"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint8 `mp4:"0,size=8,dec"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint8    `mp4:"0,size=8,dec"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint8   `mp4:"0,size=8,dec"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint8    `mp4:"0,size=8,dec"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint8  `mp4:"0,size=8,dec"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint8   `mp4:"0,size=8,dec"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A int8  `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A int8   `mp4:"0,size=8"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A int8   `mp4:"0,size=8"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A int8   `mp4:"0,size=8"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A int8  `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A int8   `mp4:"0,size=8"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A int8   `mp4:"0,size=8"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A int8  `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A int8 `mp4:"0,size=8"`
		B int8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A int8  `mp4:"0,size=8"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A int8  `mp4:"0,size=8"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A int8 `mp4:"0,size=8"`
		B int8 `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A int8  `mp4:"0,size=8"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A int8 `mp4:"0,size=8"`
		B bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A int8  `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A int8   `mp4:"0,size=8"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A int8  `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A int8   `mp4:"0,size=8"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A int8   `mp4:"0,size=8"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A int8  `mp4:"0,size=8"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A int8   `mp4:"0,size=8"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A int8   `mp4:"0,size=8"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A int8    `mp4:"0,size=8"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A int8     `mp4:"0,size=8"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A int8     `mp4:"0,size=8"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A int8     `mp4:"0,size=8"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A int8      `mp4:"0,size=8"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A int8    `mp4:"0,size=8"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A int8 `mp4:"0,size=8"`
		B uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A int8  `mp4:"0,size=8"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A int8   `mp4:"0,size=8"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A int8   `mp4:"0,size=8"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A int8   `mp4:"0,size=8"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A int8     `mp4:"0,size=8"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A int8    `mp4:"0,size=8"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A int8     `mp4:"0,size=8"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A int8   `mp4:"0,size=8"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A int8   `mp4:"0,size=8"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A int8    `mp4:"0,size=8"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A int16 `mp4:"0,size=16"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A int16  `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A int16  `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A int16  `mp4:"0,size=16"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A int16 `mp4:"0,size=16"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A int16  `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A int16  `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A int16 `mp4:"0,size=16"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A int16 `mp4:"0,size=16"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A int16 `mp4:"0,size=16"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox4 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A int16 `mp4:"0,size=16"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A int16 `mp4:"0,size=16"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A int16 `mp4:"0,size=16"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A int16 `mp4:"0,size=16"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A int16 `mp4:"0,size=16"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A int16  `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A int16 `mp4:"0,size=16"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A int16  `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A int16  `mp4:"0,size=16"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A int16 `mp4:"0,size=16"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A int16  `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A int16  `mp4:"0,size=16"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A int16   `mp4:"0,size=16"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A int16    `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A int16    `mp4:"0,size=16"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A int16    `mp4:"0,size=16"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A int16     `mp4:"0,size=16"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A int16   `mp4:"0,size=16"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A int16 `mp4:"0,size=16"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A int16 `mp4:"0,size=16"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A int16  `mp4:"0,size=16"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A int16  `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A int16  `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A int16    `mp4:"0,size=16"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A int16   `mp4:"0,size=16"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A int16    `mp4:"0,size=16"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A int16  `mp4:"0,size=16"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A int16  `mp4:"0,size=16"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A int16   `mp4:"0,size=16"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A int32  `mp4:"0,size=13"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A int32 `mp4:"0,size=13"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A int32 `mp4:"0,size=13"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A int32 `mp4:"0,size=13"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A int32 `mp4:"0,size=13"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A int32 `mp4:"0,size=13"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A int32 `mp4:"0,size=13"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A int32  `mp4:"0,size=13"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A int32   `mp4:"0,size=13"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A int32    `mp4:"0,size=13"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A int32    `mp4:"0,size=13"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A int32     `mp4:"0,size=13"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A int32   `mp4:"0,size=13"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A int32 `mp4:"0,size=13"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A int32 `mp4:"0,size=13"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A int32  `mp4:"0,size=13"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A int32    `mp4:"0,size=13"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A int32   `mp4:"0,size=13"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A int32    `mp4:"0,size=13"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A int32  `mp4:"0,size=13"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A int32   `mp4:"0,size=13"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A int8  `mp4:"0,size=4,hex"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A int8  `mp4:"0,size=4,hex"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A int8  `mp4:"0,size=4,hex"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A int8 `mp4:"0,size=4,hex"`
		B int8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A int8  `mp4:"0,size=4,hex"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A int8  `mp4:"0,size=4,hex"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A int8 `mp4:"0,size=4,hex"`
		B int8 `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A int8  `mp4:"0,size=4,hex"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A int8 `mp4:"0,size=4,hex"`
		B bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A int8  `mp4:"0,size=4,hex"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A int8  `mp4:"0,size=4,hex"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A int8  `mp4:"0,size=4,hex"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A int8   `mp4:"0,size=4,hex"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A int8    `mp4:"0,size=4,hex"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A int8     `mp4:"0,size=4,hex"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A int8     `mp4:"0,size=4,hex"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A int8     `mp4:"0,size=4,hex"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A int8      `mp4:"0,size=4,hex"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A int8    `mp4:"0,size=4,hex"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A int8 `mp4:"0,size=4,hex"`
		B uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A int8  `mp4:"0,size=4,hex"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A int8   `mp4:"0,size=4,hex"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox5 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A int8   `mp4:"0,size=4,hex"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A int8     `mp4:"0,size=4,hex"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A int8    `mp4:"0,size=4,hex"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A int8     `mp4:"0,size=4,hex"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A int8   `mp4:"0,size=4,hex"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A int8   `mp4:"0,size=4,hex"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A int8    `mp4:"0,size=4,hex"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A int64 `mp4:"0,size=64"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A int64  `mp4:"0,size=64"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A int64  `mp4:"0,size=64"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A int64  `mp4:"0,size=64"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A int64 `mp4:"0,size=64"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A int64  `mp4:"0,size=64"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A int64  `mp4:"0,size=64"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A int64 `mp4:"0,size=64"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A int64 `mp4:"0,size=64"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A int64 `mp4:"0,size=64"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A int64 `mp4:"0,size=64"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A int64 `mp4:"0,size=64"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A int64 `mp4:"0,size=64"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A int64 `mp4:"0,size=64"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A int64 `mp4:"0,size=64"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A int64  `mp4:"0,size=64"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A int64 `mp4:"0,size=64"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A int64  `mp4:"0,size=64"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A int64  `mp4:"0,size=64"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A int64 `mp4:"0,size=64"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A int64  `mp4:"0,size=64"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A int64  `mp4:"0,size=64"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A int64   `mp4:"0,size=64"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A int64    `mp4:"0,size=64"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A int64    `mp4:"0,size=64"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A int64    `mp4:"0,size=64"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A int64     `mp4:"0,size=64"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A int64   `mp4:"0,size=64"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A int64 `mp4:"0,size=64"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A int64 `mp4:"0,size=64"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A int64  `mp4:"0,size=64"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A int64  `mp4:"0,size=64"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A int64  `mp4:"0,size=64"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A int64    `mp4:"0,size=64"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A int64   `mp4:"0,size=64"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A int64    `mp4:"0,size=64"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A int64  `mp4:"0,size=64"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A int64  `mp4:"0,size=64"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A int64   `mp4:"0,size=64"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A bool   `mp4:"0,size=1"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A bool `mp4:"0,size=1"`
		B int8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A bool  `mp4:"0,size=1"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A bool  `mp4:"0,size=1"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A bool `mp4:"0,size=1"`
		B int8 `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A bool  `mp4:"0,size=1"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A bool `mp4:"0,size=1"`
		B bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A bool   `mp4:"0,size=1"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A bool    `mp4:"0,size=1"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A bool     `mp4:"0,size=1"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A bool     `mp4:"0,size=1"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A bool      `mp4:"0,size=1"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A bool    `mp4:"0,size=1"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A bool `mp4:"0,size=1"`
		B uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A bool  `mp4:"0,size=1"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A bool   `mp4:"0,size=1"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A bool     `mp4:"0,size=1"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A bool    `mp4:"0,size=1"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A bool     `mp4:"0,size=1"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A bool   `mp4:"0,size=1"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A bool    `mp4:"0,size=1"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox6 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint8     `mp4:"0,size=8,opt=0x000001"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint16  `mp4:"0,size=16,opt=10"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint16   `mp4:"0,size=16,opt=10"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint16   `mp4:"0,size=16,opt=10"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint16   `mp4:"0,size=16,opt=10"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint16    `mp4:"0,size=16,opt=10"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint16  `mp4:"0,size=16,opt=10"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint16   `mp4:"0,size=16,opt=10"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint16  `mp4:"0,size=16,opt=10"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint16   `mp4:"0,size=16,opt=10"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint16 `mp4:"0,size=16,opt=10"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint16  `mp4:"0,size=16,opt=10"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint8   `mp4:"0,size=8,nopt=0x000004"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint8    `mp4:"0,size=8,nopt=0x000004"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint8    `mp4:"0,size=8,nopt=0x000004"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint8    `mp4:"0,size=8,nopt=0x000004"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint8     `mp4:"0,size=8,nopt=0x000004"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint8   `mp4:"0,size=8,nopt=0x000004"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint8 `mp4:"0,size=8,nopt=0x000004"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint8    `mp4:"0,size=8,nopt=0x000004"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint8   `mp4:"0,size=8,nopt=0x000004"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint8    `mp4:"0,size=8,nopt=0x000004"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox7 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint8  `mp4:"0,size=8,nopt=0x000004"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint8   `mp4:"0,size=8,nopt=0x000004"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint32    `mp4:"0,size=32,ver=0"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint64  `mp4:"0,size=64,nver=0"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint64   `mp4:"0,size=64,nver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint64   `mp4:"0,size=64,nver=0"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint64   `mp4:"0,size=64,nver=0"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint64    `mp4:"0,size=64,nver=0"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint64  `mp4:"0,size=64,nver=0"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint64   `mp4:"0,size=64,nver=0"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint64  `mp4:"0,size=64,nver=0"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint64   `mp4:"0,size=64,nver=0"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint64 `mp4:"0,size=64,nver=0"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint64  `mp4:"0,size=64,nver=0"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox8 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint8   `mp4:"0,size=8,opt=dynamic"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint8    `mp4:"0,size=8,opt=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint8    `mp4:"0,size=8,opt=dynamic"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint8    `mp4:"0,size=8,opt=dynamic"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint8     `mp4:"0,size=8,opt=dynamic"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint8   `mp4:"0,size=8,opt=dynamic"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint8 `mp4:"0,size=8,opt=dynamic"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint8    `mp4:"0,size=8,opt=dynamic"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint8   `mp4:"0,size=8,opt=dynamic"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint8    `mp4:"0,size=8,opt=dynamic"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint8  `mp4:"0,size=8,opt=dynamic"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint8   `mp4:"0,size=8,opt=dynamic"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint32    `mp4:"0,size=dynamic"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A string `mp4:"0,string"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A string `mp4:"0,string"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A string `mp4:"0,string"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A string `mp4:"0,string"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A string `mp4:"0,string"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A string `mp4:"0,string"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A string  `mp4:"0,string"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A string   `mp4:"0,string"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A string   `mp4:"0,string"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A string    `mp4:"0,string"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A string  `mp4:"0,string"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A string `mp4:"0,string"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A string `mp4:"0,string"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A string   `mp4:"0,string"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A string  `mp4:"0,string"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A string   `mp4:"0,string"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A string `mp4:"0,string"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A string  `mp4:"0,string"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint32  `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox9 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint8   `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint16  `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint32  `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint8   `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B int8    `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B int16   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B int32   `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B int8    `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B int64   `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B bool    `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint16  `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint8   `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint32  `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint64  `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint8   `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint32  `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B string  `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A []uint8  `mp4:"0,size=8,len=2"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A []uint8  `mp4:"0,size=8,len=2"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A []uint8  `mp4:"0,size=8,len=2"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A []uint8   `mp4:"0,size=8,len=2"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uSub    `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B *uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B []uSub  `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint32  `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B uint16  `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A []uint8  `mp4:"0,size=8,len=2"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A []uint8  `mp4:"0,size=8,len=2"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B []uSub  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B string  `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A []uint8 `mp4:"0,size=8,len=2"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint64   `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int8     `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int16    `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int8     `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int64    `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint64   `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint8  `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A []uint16  `mp4:"0,size=16,len=dynamic"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B [4]bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uSub     `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uSub   `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uSub   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []*uSub  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint8    `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint16   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint32   `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint64   `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint8    `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint16   `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint32   `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint8    `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B int8     `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B int16    `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B int32    `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B int8     `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B int64    `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B bool     `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint16   `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint8    `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint32   `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint64   `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint8    `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint32   `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B string   `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B []uint8  `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox10 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A [3]uint8  `mp4:"0,size=5,iso639-2"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B [4]bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uSub     `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B *uSub    `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B []uSub   `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint32   `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B uint16   `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B []uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B []uSub   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B string   `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A [3]uint8 `mp4:"0,size=5,iso639-2"`
		B []*uSub  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint8    `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint16   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint32   `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint64   `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint8    `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint16   `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint32   `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint8    `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B int8     `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B int16    `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B int32    `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B int8     `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B int64    `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B bool     `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint16   `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint8    `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint32   `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint64   `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint8    `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint32   `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B string   `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B []uint8  `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A [4]uint8  `mp4:"0,size=8,string"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B [4]bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uSub     `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B *uSub    `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B []uSub   `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint32   `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B uint16   `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B []uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B []uSub   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B string   `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A [4]uint8 `mp4:"0,size=8,string"`
		B []*uSub  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint8     `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint16    `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint32    `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint64    `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint8     `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint16    `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint32    `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint8     `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B int8      `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B int16     `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B int32     `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B int8      `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B int64     `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B bool      `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint8     `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint16    `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint8     `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint32    `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint64    `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint8     `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint32    `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B string    `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B []uint8   `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B []uint16  `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B [3]uint8  `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B [4]uint8  `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B [4]bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uSub      `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B *uSub     `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B []uSub    `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint32    `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B uint16    `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B [2]int16  `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B []uint8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B []uint32  `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B []uSub    `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B string    `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A [16]uint8 `mp4:"0,size=8,uuid"`
		B []*uSub   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint32  `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint8   `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint16  `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint32  `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint8   `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox11 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A [4]bool `mp4:"0,size=1"`
		B int8    `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A [4]bool `mp4:"0,size=1"`
		B int16   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A [4]bool `mp4:"0,size=1"`
		B int32   `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A [4]bool `mp4:"0,size=1"`
		B int8    `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A [4]bool `mp4:"0,size=1"`
		B int64   `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A [4]bool `mp4:"0,size=1"`
		B bool    `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint16  `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint8   `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint32  `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint64  `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint8   `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint32  `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A [4]bool `mp4:"0,size=1"`
		B string  `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A [4]bool `mp4:"0,size=1"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A [4]bool  `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A [4]bool  `mp4:"0,size=1"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A [4]bool  `mp4:"0,size=1"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A [4]bool   `mp4:"0,size=1"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A [4]bool `mp4:"0,size=1"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A [4]bool `mp4:"0,size=1"`
		B uSub    `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A [4]bool `mp4:"0,size=1"`
		B *uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A [4]bool `mp4:"0,size=1"`
		B []uSub  `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint32  `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A [4]bool `mp4:"0,size=1"`
		B uint16  `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A [4]bool  `mp4:"0,size=1"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A [4]bool `mp4:"0,size=1"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A [4]bool  `mp4:"0,size=1"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A [4]bool `mp4:"0,size=1"`
		B []uSub  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A [4]bool `mp4:"0,size=1"`
		B string  `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A [4]bool `mp4:"0,size=1"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uSub  `mp4:"0"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uSub   `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uSub   `mp4:"0"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uSub   `mp4:"0"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uSub  `mp4:"0"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uSub   `mp4:"0"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uSub   `mp4:"0"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uSub  `mp4:"0"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uSub `mp4:"0"`
		B int8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uSub  `mp4:"0"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uSub  `mp4:"0"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uSub `mp4:"0"`
		B int8 `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uSub  `mp4:"0"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uSub `mp4:"0"`
		B bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uSub  `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uSub   `mp4:"0"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uSub  `mp4:"0"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uSub   `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uSub   `mp4:"0"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uSub  `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uSub   `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uSub   `mp4:"0"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uSub    `mp4:"0"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uSub     `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uSub     `mp4:"0"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uSub     `mp4:"0"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uSub      `mp4:"0"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uSub    `mp4:"0"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uSub `mp4:"0"`
		B uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uSub  `mp4:"0"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uSub   `mp4:"0"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uSub   `mp4:"0"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uSub   `mp4:"0"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uSub     `mp4:"0"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uSub    `mp4:"0"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uSub     `mp4:"0"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uSub   `mp4:"0"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uSub   `mp4:"0"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uSub    `mp4:"0"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A *uSub  `mp4:"0"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A *uSub `mp4:"0"`
		B int8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A *uSub `mp4:"0"`
		B int16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A *uSub `mp4:"0"`
		B int32 `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A *uSub `mp4:"0"`
		B int8  `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A *uSub `mp4:"0"`
		B int64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A *uSub `mp4:"0"`
		B bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A *uSub  `mp4:"0"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A *uSub   `mp4:"0"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A *uSub    `mp4:"0"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A *uSub    `mp4:"0"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A *uSub     `mp4:"0"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A *uSub   `mp4:"0"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A *uSub `mp4:"0"`
		B uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A *uSub `mp4:"0"`
		B *uSub `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox12 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A *uSub  `mp4:"0"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A *uSub    `mp4:"0"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A *uSub   `mp4:"0"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A *uSub    `mp4:"0"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A *uSub  `mp4:"0"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A *uSub   `mp4:"0"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A []uSub  `mp4:"0,len=dynamic"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A []uSub   `mp4:"0,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A []uSub   `mp4:"0,len=dynamic"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A []uSub   `mp4:"0,len=dynamic"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A []uSub    `mp4:"0,len=dynamic"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A []uSub  `mp4:"0,len=dynamic"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A []uSub   `mp4:"0,len=dynamic"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A []uSub  `mp4:"0,len=dynamic"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A []uSub   `mp4:"0,len=dynamic"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A []uSub `mp4:"0,len=dynamic"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A []uSub  `mp4:"0,len=dynamic"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint32 `mp4:"0,varint"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint32 `mp4:"0,varint"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint32 `mp4:"0,varint"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint32 `mp4:"0,varint"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint32 `mp4:"0,varint"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint32 `mp4:"0,varint"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint32  `mp4:"0,varint"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint32   `mp4:"0,varint"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint32   `mp4:"0,varint"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint32    `mp4:"0,varint"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint32  `mp4:"0,varint"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint32 `mp4:"0,varint"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint32 `mp4:"0,varint"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint32   `mp4:"0,varint"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint32  `mp4:"0,varint"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint32   `mp4:"0,varint"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint32 `mp4:"0,varint"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint32  `mp4:"0,varint"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint16 `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint32 `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint64 `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint8  `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint16 `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint32 `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint8  `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B int8   `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B int16  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B int32  `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B int8   `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B int64  `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox13 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B bool   `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint16 `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint8  `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint32 `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint64 `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint8  `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint32 `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B string `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint16  `mp4:"0,size=16,hidden"`
		B []uint8 `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint16   `mp4:"0,size=16,hidden"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint16   `mp4:"0,size=16,hidden"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint16   `mp4:"0,size=16,hidden"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint16    `mp4:"0,size=16,hidden"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint16  `mp4:"0,size=16,hidden"`
		B [4]bool `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uSub   `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B *uSub  `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B []uSub `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint32 `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B uint16 `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint16   `mp4:"0,size=16,hidden"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint16  `mp4:"0,size=16,hidden"`
		B []uint8 `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint16   `mp4:"0,size=16,hidden"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B []uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint16 `mp4:"0,size=16,hidden"`
		B string `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint16  `mp4:"0,size=16,hidden"`
		B []*uSub `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint8    `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint16   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint32   `mp4:"1,size=32,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint64   `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint8    `mp4:"1,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint16   `mp4:"1,size=13,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint32   `mp4:"1,size=3,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint8    `mp4:"1,size=8,dec"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A [2]int16 `mp4:"0,size=12"`
		B int8     `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A [2]int16 `mp4:"0,size=12"`
		B int16    `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A [2]int16 `mp4:"0,size=12"`
		B int32    `mp4:"1,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A [2]int16 `mp4:"0,size=12"`
		B int8     `mp4:"1,size=4,hex"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A [2]int16 `mp4:"0,size=12"`
		B int64    `mp4:"1,size=64"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A [2]int16 `mp4:"0,size=12"`
		B bool     `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint16   `mp4:"1,size=16,opt=10"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint8    `mp4:"1,size=8,nopt=0x000004"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint32   `mp4:"1,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint64   `mp4:"1,size=64,nver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint8    `mp4:"1,size=8,opt=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint32   `mp4:"1,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A [2]int16 `mp4:"0,size=12"`
		B string   `mp4:"1,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A [2]int16 `mp4:"0,size=12"`
		B []uint8  `mp4:"1,size=8,len=2"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A [2]int16 `mp4:"0,size=12"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A [2]int16 `mp4:"0,size=12"`
		B [3]uint8 `mp4:"1,size=5,iso639-2"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A [2]int16 `mp4:"0,size=12"`
		B [4]uint8 `mp4:"1,size=8,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A [2]int16  `mp4:"0,size=12"`
		B [16]uint8 `mp4:"1,size=8,uuid"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A [2]int16 `mp4:"0,size=12"`
		B [4]bool  `mp4:"1,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uSub     `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A [2]int16 `mp4:"0,size=12"`
		B *uSub    `mp4:"1"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A [2]int16 `mp4:"0,size=12"`
		B []uSub   `mp4:"1,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint32   `mp4:"1,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A [2]int16 `mp4:"0,size=12"`
		B uint16   `mp4:"1,size=16,hidden"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A [2]int16 `mp4:"0,size=12"`
		B [2]int16 `mp4:"1,size=12"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A [2]int16 `mp4:"0,size=12"`
		B []uint8  `mp4:"1,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A [2]int16 `mp4:"0,size=12"`
		B []uint32 `mp4:"1,size=24"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A [2]int16 `mp4:"0,size=12"`
		B []uSub   `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A [2]int16 `mp4:"0,size=12"`
		B string   `mp4:"1,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A [2]int16 `mp4:"0,size=12"`
		B []*uSub  `mp4:"1,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint16   `mp4:"0,size=16"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint16  `mp4:"0,size=16"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint16 `mp4:"0,size=16"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint16   `mp4:"0,size=16"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint16  `mp4:"0,size=16"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint16   `mp4:"0,size=16"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox14 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint16  `mp4:"0,size=16"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint16 `mp4:"0,size=16"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint16   `mp4:"0,size=16"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint16  `mp4:"0,size=16"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint16 `mp4:"0,size=16"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint16   `mp4:"0,size=16"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint16  `mp4:"0,size=16"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint16 `mp4:"0,size=16"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint16   `mp4:"0,size=16"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint16  `mp4:"0,size=16"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint16   `mp4:"0,size=16"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint16  `mp4:"0,size=16"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint16   `mp4:"0,size=16"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint16  `mp4:"0,size=16"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint16 `mp4:"0,size=16"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint16   `mp4:"0,size=16"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint16   `mp4:"0,size=16"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint16  `mp4:"0,size=16"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint16 `mp4:"0,size=16"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox15 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint16   `mp4:"0,size=16"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint16  `mp4:"0,size=16"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint16 `mp4:"0,size=16"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint8    `mp4:"0,size=5"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint8   `mp4:"0,size=5"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint8  `mp4:"0,size=5"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=5"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=5"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint8    `mp4:"0,size=5"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=5"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint8   `mp4:"0,size=5"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint8  `mp4:"0,size=5"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint8 `mp4:"0,size=5"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint8 `mp4:"0,size=5"`
		B int32 `mp4:"1,size=13"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint8 `mp4:"0,size=5"`
		B int32 `mp4:"1,size=13"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint8 `mp4:"0,size=5"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint8  `mp4:"0,size=5"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint8  `mp4:"0,size=5"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint8  `mp4:"0,size=5"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint8    `mp4:"0,size=5"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint8 `mp4:"0,size=5"`
		B int32 `mp4:"1,size=13"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint8  `mp4:"0,size=5"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint8   `mp4:"0,size=5"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint8  `mp4:"0,size=5"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint8  `mp4:"0,size=5"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint8 `mp4:"0,size=5"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint8 `mp4:"0,size=5"`
		B bool  `mp4:"1,size=1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint8 `mp4:"0,size=5"`
		B bool  `mp4:"1,size=1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint8 `mp4:"0,size=5"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint8  `mp4:"0,size=5"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint8  `mp4:"0,size=5"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint8  `mp4:"0,size=5"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint8    `mp4:"0,size=5"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint8 `mp4:"0,size=5"`
		B bool  `mp4:"1,size=1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint8  `mp4:"0,size=5"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint8   `mp4:"0,size=5"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint8  `mp4:"0,size=5"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint8    `mp4:"0,size=5"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint8 `mp4:"0,size=5"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint8   `mp4:"0,size=5"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint8  `mp4:"0,size=5"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint8    `mp4:"0,size=5"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint8   `mp4:"0,size=5"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint8    `mp4:"0,size=5"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint8   `mp4:"0,size=5"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox16 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint8    `mp4:"0,size=5"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint8   `mp4:"0,size=5"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint8  `mp4:"0,size=5"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint8    `mp4:"0,size=5"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint8  `mp4:"0,size=5"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint8 `mp4:"0,size=5"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint8 `mp4:"0,size=5"`
		B *uSub `mp4:"1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint8 `mp4:"0,size=5"`
		B *uSub `mp4:"1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint8 `mp4:"0,size=5"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint8  `mp4:"0,size=5"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint8  `mp4:"0,size=5"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint8  `mp4:"0,size=5"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint8    `mp4:"0,size=5"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint8 `mp4:"0,size=5"`
		B *uSub `mp4:"1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint8  `mp4:"0,size=5"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint8   `mp4:"0,size=5"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint8  `mp4:"0,size=5"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint8    `mp4:"0,size=5"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint8   `mp4:"0,size=5"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint8  `mp4:"0,size=5"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A int32    `mp4:"0,size=13"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A int32   `mp4:"0,size=13"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A int32  `mp4:"0,size=13"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=5"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=5"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A int32    `mp4:"0,size=13"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=5"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A int32   `mp4:"0,size=13"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A int32  `mp4:"0,size=13"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A int32 `mp4:"0,size=13"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A int32 `mp4:"0,size=13"`
		B int32 `mp4:"1,size=13"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A int32 `mp4:"0,size=13"`
		B int32 `mp4:"1,size=13"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A int32 `mp4:"0,size=13"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A int32  `mp4:"0,size=13"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A int32  `mp4:"0,size=13"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A int32  `mp4:"0,size=13"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A int32    `mp4:"0,size=13"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A int32 `mp4:"0,size=13"`
		B int32 `mp4:"1,size=13"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A int32  `mp4:"0,size=13"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A int32   `mp4:"0,size=13"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A int32  `mp4:"0,size=13"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A int32  `mp4:"0,size=13"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A int32 `mp4:"0,size=13"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A int32 `mp4:"0,size=13"`
		B bool  `mp4:"1,size=1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A int32 `mp4:"0,size=13"`
		B bool  `mp4:"1,size=1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A int32 `mp4:"0,size=13"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A int32  `mp4:"0,size=13"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A int32  `mp4:"0,size=13"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A int32  `mp4:"0,size=13"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A int32    `mp4:"0,size=13"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A int32 `mp4:"0,size=13"`
		B bool  `mp4:"1,size=1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox17 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A int32  `mp4:"0,size=13"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A int32   `mp4:"0,size=13"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A int32  `mp4:"0,size=13"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A int32    `mp4:"0,size=13"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A int32 `mp4:"0,size=13"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A int32   `mp4:"0,size=13"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A int32  `mp4:"0,size=13"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A int32    `mp4:"0,size=13"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A int32   `mp4:"0,size=13"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A int32    `mp4:"0,size=13"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A int32   `mp4:"0,size=13"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A int32    `mp4:"0,size=13"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A int32   `mp4:"0,size=13"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A int32  `mp4:"0,size=13"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A int32    `mp4:"0,size=13"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A int32  `mp4:"0,size=13"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A int32 `mp4:"0,size=13"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A int32 `mp4:"0,size=13"`
		B *uSub `mp4:"1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A int32 `mp4:"0,size=13"`
		B *uSub `mp4:"1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A int32 `mp4:"0,size=13"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A int32  `mp4:"0,size=13"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A int32  `mp4:"0,size=13"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A int32  `mp4:"0,size=13"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A int32    `mp4:"0,size=13"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A int32 `mp4:"0,size=13"`
		B *uSub `mp4:"1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A int32  `mp4:"0,size=13"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A int32   `mp4:"0,size=13"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A int32  `mp4:"0,size=13"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A int32    `mp4:"0,size=13"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A int32   `mp4:"0,size=13"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A int32  `mp4:"0,size=13"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox18 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A bool     `mp4:"0,size=1"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A bool    `mp4:"0,size=1"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A bool   `mp4:"0,size=1"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=5"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=5"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A bool     `mp4:"0,size=1"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=5"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A bool    `mp4:"0,size=1"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A bool   `mp4:"0,size=1"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A bool  `mp4:"0,size=1"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A bool  `mp4:"0,size=1"`
		B int32 `mp4:"1,size=13"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A bool  `mp4:"0,size=1"`
		B int32 `mp4:"1,size=13"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A bool  `mp4:"0,size=1"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A bool   `mp4:"0,size=1"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A bool   `mp4:"0,size=1"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A bool   `mp4:"0,size=1"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A bool     `mp4:"0,size=1"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A bool  `mp4:"0,size=1"`
		B int32 `mp4:"1,size=13"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A bool   `mp4:"0,size=1"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A bool    `mp4:"0,size=1"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A bool   `mp4:"0,size=1"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A bool   `mp4:"0,size=1"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A bool  `mp4:"0,size=1"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A bool  `mp4:"0,size=1"`
		B bool  `mp4:"1,size=1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A bool `mp4:"0,size=1"`
		B bool `mp4:"1,size=1"`
		C bool `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A bool  `mp4:"0,size=1"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A bool   `mp4:"0,size=1"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A bool   `mp4:"0,size=1"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A bool   `mp4:"0,size=1"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A bool     `mp4:"0,size=1"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A bool  `mp4:"0,size=1"`
		B bool  `mp4:"1,size=1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A bool   `mp4:"0,size=1"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A bool    `mp4:"0,size=1"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A bool   `mp4:"0,size=1"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A bool     `mp4:"0,size=1"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A bool  `mp4:"0,size=1"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A bool    `mp4:"0,size=1"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A bool   `mp4:"0,size=1"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A bool     `mp4:"0,size=1"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A bool    `mp4:"0,size=1"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A bool     `mp4:"0,size=1"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A bool    `mp4:"0,size=1"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A bool     `mp4:"0,size=1"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A bool    `mp4:"0,size=1"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A bool   `mp4:"0,size=1"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox19 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A bool     `mp4:"0,size=1"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A bool   `mp4:"0,size=1"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A bool  `mp4:"0,size=1"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A bool  `mp4:"0,size=1"`
		B *uSub `mp4:"1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A bool  `mp4:"0,size=1"`
		B *uSub `mp4:"1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A bool  `mp4:"0,size=1"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A bool   `mp4:"0,size=1"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A bool   `mp4:"0,size=1"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A bool   `mp4:"0,size=1"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A bool     `mp4:"0,size=1"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A bool  `mp4:"0,size=1"`
		B *uSub `mp4:"1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A bool   `mp4:"0,size=1"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A bool    `mp4:"0,size=1"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A bool   `mp4:"0,size=1"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A bool     `mp4:"0,size=1"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A bool    `mp4:"0,size=1"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A bool   `mp4:"0,size=1"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=5"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=5"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=5"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int32 `mp4:"1,size=13"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int32 `mp4:"1,size=13"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B int32 `mp4:"1,size=13"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B bool  `mp4:"1,size=1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B bool  `mp4:"1,size=1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B bool  `mp4:"1,size=1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox20 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B *uSub `mp4:"1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B *uSub `mp4:"1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint8 `mp4:"0,size=8,opt=0x000001"`
		B *uSub `mp4:"1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint8    `mp4:"0,size=8,opt=0x000001"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint8   `mp4:"0,size=8,opt=0x000001"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint8  `mp4:"0,size=8,opt=0x000001"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox21 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox22 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint32   `mp4:"0,size=32,ver=0"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint32  `mp4:"0,size=32,ver=0"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint32 `mp4:"0,size=32,ver=0"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox23 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint32   `mp4:"0,size=dynamic"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint32  `mp4:"0,size=dynamic"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint32 `mp4:"0,size=dynamic"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A string   `mp4:"0,string"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A string  `mp4:"0,string"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A string `mp4:"0,string"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A string   `mp4:"0,string"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A string  `mp4:"0,string"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox24 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A string   `mp4:"0,string"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A string  `mp4:"0,string"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A string `mp4:"0,string"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A string   `mp4:"0,string"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A string  `mp4:"0,string"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A string `mp4:"0,string"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A string   `mp4:"0,string"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A string  `mp4:"0,string"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A string `mp4:"0,string"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A string   `mp4:"0,string"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A string  `mp4:"0,string"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A string   `mp4:"0,string"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A string  `mp4:"0,string"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A string   `mp4:"0,string"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A string  `mp4:"0,string"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A string `mp4:"0,string"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A string   `mp4:"0,string"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A string   `mp4:"0,string"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A string  `mp4:"0,string"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A string `mp4:"0,string"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox25 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A string   `mp4:"0,string"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A string  `mp4:"0,string"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A string `mp4:"0,string"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint16   `mp4:"1,size=16"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=5"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B int32    `mp4:"1,size=13"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B bool     `mp4:"1,size=1"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,size=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox26 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B string   `mp4:"1,string"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B *uSub    `mp4:"1"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A []uint16 `mp4:"0,size=16,len=dynamic"`
		B uint32   `mp4:"1,varint"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A *uSub    `mp4:"0"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A *uSub   `mp4:"0"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A *uSub  `mp4:"0"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=5"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=5"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=5"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A *uSub    `mp4:"0"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=5"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A *uSub   `mp4:"0"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A *uSub  `mp4:"0"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A *uSub `mp4:"0"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A *uSub `mp4:"0"`
		B int32 `mp4:"1,size=13"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A *uSub `mp4:"0"`
		B int32 `mp4:"1,size=13"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A *uSub `mp4:"0"`
		B int32 `mp4:"1,size=13"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A *uSub  `mp4:"0"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A *uSub  `mp4:"0"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A *uSub  `mp4:"0"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A *uSub    `mp4:"0"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A *uSub `mp4:"0"`
		B int32 `mp4:"1,size=13"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A *uSub  `mp4:"0"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A *uSub   `mp4:"0"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A *uSub  `mp4:"0"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A *uSub  `mp4:"0"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A *uSub `mp4:"0"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A *uSub `mp4:"0"`
		B bool  `mp4:"1,size=1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A *uSub `mp4:"0"`
		B bool  `mp4:"1,size=1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A *uSub `mp4:"0"`
		B bool  `mp4:"1,size=1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A *uSub  `mp4:"0"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A *uSub  `mp4:"0"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A *uSub  `mp4:"0"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A *uSub    `mp4:"0"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox27 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A *uSub `mp4:"0"`
		B bool  `mp4:"1,size=1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A *uSub  `mp4:"0"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A *uSub   `mp4:"0"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A *uSub  `mp4:"0"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A *uSub    `mp4:"0"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A *uSub `mp4:"0"`
		B uint8 `mp4:"1,size=8,opt=0x000001"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A *uSub   `mp4:"0"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A *uSub  `mp4:"0"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A *uSub    `mp4:"0"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A *uSub   `mp4:"0"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A *uSub    `mp4:"0"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A *uSub   `mp4:"0"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A *uSub    `mp4:"0"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A *uSub   `mp4:"0"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A *uSub  `mp4:"0"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A *uSub    `mp4:"0"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A *uSub  `mp4:"0"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A *uSub `mp4:"0"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A *uSub `mp4:"0"`
		B *uSub `mp4:"1"`
		C int32 `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A *uSub `mp4:"0"`
		B *uSub `mp4:"1"`
		C bool  `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A *uSub `mp4:"0"`
		B *uSub `mp4:"1"`
		C uint8 `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A *uSub  `mp4:"0"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A *uSub  `mp4:"0"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A *uSub  `mp4:"0"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A *uSub    `mp4:"0"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A *uSub `mp4:"0"`
		B *uSub `mp4:"1"`
		C *uSub `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A *uSub  `mp4:"0"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A *uSub   `mp4:"0"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A *uSub  `mp4:"0"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A *uSub    `mp4:"0"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A *uSub   `mp4:"0"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A *uSub  `mp4:"0"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox28 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint32   `mp4:"0,varint"`
		B uint16   `mp4:"1,size=16"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint32  `mp4:"0,varint"`
		B uint16  `mp4:"1,size=16"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint32 `mp4:"0,varint"`
		B uint16 `mp4:"1,size=16"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint32   `mp4:"0,varint"`
		B uint8    `mp4:"1,size=5"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint32  `mp4:"0,varint"`
		B uint8   `mp4:"1,size=5"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=5"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint32   `mp4:"0,varint"`
		B int32    `mp4:"1,size=13"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint32  `mp4:"0,varint"`
		B int32   `mp4:"1,size=13"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint32 `mp4:"0,varint"`
		B int32  `mp4:"1,size=13"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S38 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S39 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S40 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S41 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S42 struct {
		A uint32   `mp4:"0,varint"`
		B bool     `mp4:"1,size=1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S43 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S44 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S45 struct {
		A uint32  `mp4:"0,varint"`
		B bool    `mp4:"1,size=1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S46 struct {
		A uint32 `mp4:"0,varint"`
		B bool   `mp4:"1,size=1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S47 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S48 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S49 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S50 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S51 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S52 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S53 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S54 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S55 struct {
		A uint32   `mp4:"0,varint"`
		B uint8    `mp4:"1,size=8,opt=0x000001"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S56 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S57 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S58 struct {
		A uint32  `mp4:"0,varint"`
		B uint8   `mp4:"1,size=8,opt=0x000001"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S59 struct {
		A uint32 `mp4:"0,varint"`
		B uint8  `mp4:"1,size=8,opt=0x000001"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S60 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S61 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S62 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S63 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S64 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S65 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S66 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S67 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S68 struct {
		A uint32   `mp4:"0,varint"`
		B uint32   `mp4:"1,size=32,ver=0"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S69 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S70 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S71 struct {
		A uint32  `mp4:"0,varint"`
		B uint32  `mp4:"1,size=32,ver=0"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S72 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=32,ver=0"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S73 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S74 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S75 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S76 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S77 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S78 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S79 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S80 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S81 struct {
		A uint32   `mp4:"0,varint"`
		B uint32   `mp4:"1,size=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S82 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S83 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S84 struct {
		A uint32  `mp4:"0,varint"`
		B uint32  `mp4:"1,size=dynamic"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S85 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,size=dynamic"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S86 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S87 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S88 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S89 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S90 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S91 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S92 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S93 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S94 struct {
		A uint32   `mp4:"0,varint"`
		B string   `mp4:"1,string"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S95 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S96 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S97 struct {
		A uint32  `mp4:"0,varint"`
		B string  `mp4:"1,string"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S98 struct {
		A uint32 `mp4:"0,varint"`
		B string `mp4:"1,string"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S99 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint16   `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
}

type uBox29 struct {
	mp4.FullBox `mp4:"0,extend"`
	uCtl
	Pad uint8 `mp4:"9,size=dynamic,opt=dynamic"`
	S0  struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S1 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C int32    `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S2 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C bool     `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S3 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint8    `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S4 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S5 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S6 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S7 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S8 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C *uSub    `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S9 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C uint32   `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S10 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C []uint8  `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S11 struct {
		A uint32   `mp4:"0,varint"`
		B []uint16 `mp4:"1,size=16,len=dynamic"`
		C string   `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S12 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S13 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S14 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S15 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S16 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S17 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S18 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S19 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S20 struct {
		A uint32   `mp4:"0,varint"`
		B *uSub    `mp4:"1"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S21 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S22 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S23 struct {
		A uint32  `mp4:"0,varint"`
		B *uSub   `mp4:"1"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S24 struct {
		A uint32 `mp4:"0,varint"`
		B *uSub  `mp4:"1"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
	S25 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C uint16 `mp4:"2,size=16"`
	} `mp4:"1,opt=dynamic,extend"`
	S26 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=5"`
	} `mp4:"1,opt=dynamic,extend"`
	S27 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C int32  `mp4:"2,size=13"`
	} `mp4:"1,opt=dynamic,extend"`
	S28 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C bool   `mp4:"2,size=1"`
	} `mp4:"1,opt=dynamic,extend"`
	S29 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C uint8  `mp4:"2,size=8,opt=0x000001"`
	} `mp4:"1,opt=dynamic,extend"`
	S30 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=32,ver=0"`
	} `mp4:"1,opt=dynamic,extend"`
	S31 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,size=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S32 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,string"`
	} `mp4:"1,opt=dynamic,extend"`
	S33 struct {
		A uint32   `mp4:"0,varint"`
		B uint32   `mp4:"1,varint"`
		C []uint16 `mp4:"2,size=16,len=dynamic"`
	} `mp4:"1,opt=dynamic,extend"`
	S34 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C *uSub  `mp4:"2"`
	} `mp4:"1,opt=dynamic,extend"`
	S35 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C uint32 `mp4:"2,varint"`
	} `mp4:"1,opt=dynamic,extend"`
	S36 struct {
		A uint32  `mp4:"0,varint"`
		B uint32  `mp4:"1,varint"`
		C []uint8 `mp4:"2,size=8"`
	} `mp4:"1,opt=dynamic,extend"`
	S37 struct {
		A uint32 `mp4:"0,varint"`
		B uint32 `mp4:"1,varint"`
		C string `mp4:"2,boxstring"`
	} `mp4:"1,opt=dynamic,extend"`
}

func newUBox(i int) uBox {
	switch i {
	case 0:
		return &uBox0{}
	case 1:
		return &uBox1{}
	case 2:
		return &uBox2{}
	case 3:
		return &uBox3{}
	case 4:
		return &uBox4{}
	case 5:
		return &uBox5{}
	case 6:
		return &uBox6{}
	case 7:
		return &uBox7{}
	case 8:
		return &uBox8{}
	case 9:
		return &uBox9{}
	case 10:
		return &uBox10{}
	case 11:
		return &uBox11{}
	case 12:
		return &uBox12{}
	case 13:
		return &uBox13{}
	case 14:
		return &uBox14{}
	case 15:
		return &uBox15{}
	case 16:
		return &uBox16{}
	case 17:
		return &uBox17{}
	case 18:
		return &uBox18{}
	case 19:
		return &uBox19{}
	case 20:
		return &uBox20{}
	case 21:
		return &uBox21{}
	case 22:
		return &uBox22{}
	case 23:
		return &uBox23{}
	case 24:
		return &uBox24{}
	case 25:
		return &uBox25{}
	case 26:
		return &uBox26{}
	case 27:
		return &uBox27{}
	case 28:
		return &uBox28{}
	case 29:
		return &uBox29{}
	}
	return nil
}

const uSlots = 100

// uDecls lists the fields of every declaration, three bytes each (0xff: none).
var uDecls = []byte{
	0, 0xff, 0xff, 1, 0xff, 0xff, 2, 0xff, 0xff, 3, 0xff, 0xff, 4, 0xff, 0xff, 5, 0xff, 0xff, 6, 0xff, 0xff, 7, 0xff, 0xff,
	8, 0xff, 0xff, 9, 0xff, 0xff, 10, 0xff, 0xff, 11, 0xff, 0xff, 12, 0xff, 0xff, 13, 0xff, 0xff, 14, 0xff, 0xff, 15, 0xff, 0xff,
	16, 0xff, 0xff, 17, 0xff, 0xff, 18, 0xff, 0xff, 19, 0xff, 0xff, 20, 0xff, 0xff, 21, 0xff, 0xff, 22, 0xff, 0xff, 23, 0xff, 0xff,
	24, 0xff, 0xff, 25, 0xff, 0xff, 26, 0xff, 0xff, 27, 0xff, 0xff, 28, 0xff, 0xff, 29, 0xff, 0xff, 30, 0xff, 0xff, 31, 0xff, 0xff,
	32, 0xff, 0xff, 33, 0xff, 0xff, 34, 0xff, 0xff, 35, 0xff, 0xff, 36, 0xff, 0xff, 37, 0xff, 0xff, 38, 0xff, 0xff, 0, 0, 0xff,
	0, 1, 0xff, 0, 2, 0xff, 0, 3, 0xff, 0, 4, 0xff, 0, 5, 0xff, 0, 6, 0xff, 0, 7, 0xff, 0, 8, 0xff,
	0, 9, 0xff, 0, 10, 0xff, 0, 11, 0xff, 0, 12, 0xff, 0, 13, 0xff, 0, 14, 0xff, 0, 15, 0xff, 0, 16, 0xff,
	0, 17, 0xff, 0, 18, 0xff, 0, 19, 0xff, 0, 20, 0xff, 0, 21, 0xff, 0, 22, 0xff, 0, 23, 0xff, 0, 24, 0xff,
	0, 25, 0xff, 0, 26, 0xff, 0, 27, 0xff, 0, 28, 0xff, 0, 29, 0xff, 0, 30, 0xff, 0, 31, 0xff, 0, 32, 0xff,
	0, 33, 0xff, 0, 34, 0xff, 0, 35, 0xff, 0, 36, 0xff, 0, 37, 0xff, 0, 38, 0xff, 1, 0, 0xff, 1, 1, 0xff,
	1, 2, 0xff, 1, 3, 0xff, 1, 4, 0xff, 1, 5, 0xff, 1, 6, 0xff, 1, 7, 0xff, 1, 8, 0xff, 1, 9, 0xff,
	1, 10, 0xff, 1, 11, 0xff, 1, 12, 0xff, 1, 13, 0xff, 1, 14, 0xff, 1, 15, 0xff, 1, 16, 0xff, 1, 17, 0xff,
	1, 18, 0xff, 1, 19, 0xff, 1, 20, 0xff, 1, 21, 0xff, 1, 22, 0xff, 1, 23, 0xff, 1, 24, 0xff, 1, 25, 0xff,
	1, 26, 0xff, 1, 27, 0xff, 1, 28, 0xff, 1, 29, 0xff, 1, 30, 0xff, 1, 31, 0xff, 1, 32, 0xff, 1, 33, 0xff,
	1, 34, 0xff, 1, 35, 0xff, 1, 36, 0xff, 1, 37, 0xff, 1, 38, 0xff, 2, 0, 0xff, 2, 1, 0xff, 2, 2, 0xff,
	2, 3, 0xff, 2, 4, 0xff, 2, 5, 0xff, 2, 6, 0xff, 2, 7, 0xff, 2, 8, 0xff, 2, 9, 0xff, 2, 10, 0xff,
	2, 11, 0xff, 2, 12, 0xff, 2, 13, 0xff, 2, 14, 0xff, 2, 15, 0xff, 2, 16, 0xff, 2, 17, 0xff, 2, 18, 0xff,
	2, 19, 0xff, 2, 20, 0xff, 2, 21, 0xff, 2, 22, 0xff, 2, 23, 0xff, 2, 24, 0xff, 2, 25, 0xff, 2, 26, 0xff,
	2, 27, 0xff, 2, 28, 0xff, 2, 29, 0xff, 2, 30, 0xff, 2, 31, 0xff, 2, 32, 0xff, 2, 33, 0xff, 2, 34, 0xff,
	2, 35, 0xff, 2, 36, 0xff, 2, 37, 0xff, 2, 38, 0xff, 3, 0, 0xff, 3, 1, 0xff, 3, 2, 0xff, 3, 3, 0xff,
	3, 4, 0xff, 3, 5, 0xff, 3, 6, 0xff, 3, 7, 0xff, 3, 8, 0xff, 3, 9, 0xff, 3, 10, 0xff, 3, 11, 0xff,
	3, 12, 0xff, 3, 13, 0xff, 3, 14, 0xff, 3, 15, 0xff, 3, 16, 0xff, 3, 17, 0xff, 3, 18, 0xff, 3, 19, 0xff,
	3, 20, 0xff, 3, 21, 0xff, 3, 22, 0xff, 3, 23, 0xff, 3, 24, 0xff, 3, 25, 0xff, 3, 26, 0xff, 3, 27, 0xff,
	3, 28, 0xff, 3, 29, 0xff, 3, 30, 0xff, 3, 31, 0xff, 3, 32, 0xff, 3, 33, 0xff, 3, 34, 0xff, 3, 35, 0xff,
	3, 36, 0xff, 3, 37, 0xff, 3, 38, 0xff, 4, 0, 0xff, 4, 1, 0xff, 4, 2, 0xff, 4, 3, 0xff, 4, 4, 0xff,
	4, 5, 0xff, 4, 6, 0xff, 4, 7, 0xff, 4, 8, 0xff, 4, 9, 0xff, 4, 10, 0xff, 4, 11, 0xff, 4, 12, 0xff,
	4, 13, 0xff, 4, 14, 0xff, 4, 15, 0xff, 4, 16, 0xff, 4, 17, 0xff, 4, 18, 0xff, 4, 19, 0xff, 4, 20, 0xff,
	4, 21, 0xff, 4, 22, 0xff, 4, 23, 0xff, 4, 24, 0xff, 4, 25, 0xff, 4, 26, 0xff, 4, 27, 0xff, 4, 28, 0xff,
	4, 29, 0xff, 4, 30, 0xff, 4, 31, 0xff, 4, 32, 0xff, 4, 33, 0xff, 4, 34, 0xff, 4, 35, 0xff, 4, 36, 0xff,
	4, 37, 0xff, 4, 38, 0xff, 5, 0, 0xff, 5, 1, 0xff, 5, 2, 0xff, 5, 3, 0xff, 5, 4, 0xff, 5, 5, 0xff,
	5, 6, 0xff, 5, 7, 0xff, 5, 8, 0xff, 5, 9, 0xff, 5, 10, 0xff, 5, 11, 0xff, 5, 12, 0xff, 5, 13, 0xff,
	5, 14, 0xff, 5, 15, 0xff, 5, 16, 0xff, 5, 17, 0xff, 5, 18, 0xff, 5, 19, 0xff, 5, 20, 0xff, 5, 21, 0xff,
	5, 22, 0xff, 5, 23, 0xff, 5, 24, 0xff, 5, 25, 0xff, 5, 26, 0xff, 5, 27, 0xff, 5, 28, 0xff, 5, 29, 0xff,
	5, 30, 0xff, 5, 31, 0xff, 5, 32, 0xff, 5, 33, 0xff, 5, 34, 0xff, 5, 35, 0xff, 5, 36, 0xff, 5, 37, 0xff,
	5, 38, 0xff, 6, 0, 0xff, 6, 1, 0xff, 6, 2, 0xff, 6, 3, 0xff, 6, 4, 0xff, 6, 5, 0xff, 6, 6, 0xff,
	6, 7, 0xff, 6, 8, 0xff, 6, 9, 0xff, 6, 10, 0xff, 6, 11, 0xff, 6, 12, 0xff, 6, 13, 0xff, 6, 14, 0xff,
	6, 15, 0xff, 6, 16, 0xff, 6, 17, 0xff, 6, 18, 0xff, 6, 19, 0xff, 6, 20, 0xff, 6, 21, 0xff, 6, 22, 0xff,
	6, 23, 0xff, 6, 24, 0xff, 6, 25, 0xff, 6, 26, 0xff, 6, 27, 0xff, 6, 28, 0xff, 6, 29, 0xff, 6, 30, 0xff,
	6, 31, 0xff, 6, 32, 0xff, 6, 33, 0xff, 6, 34, 0xff, 6, 35, 0xff, 6, 36, 0xff, 6, 37, 0xff, 6, 38, 0xff,
	7, 0, 0xff, 7, 1, 0xff, 7, 2, 0xff, 7, 3, 0xff, 7, 4, 0xff, 7, 5, 0xff, 7, 6, 0xff, 7, 7, 0xff,
	7, 8, 0xff, 7, 9, 0xff, 7, 10, 0xff, 7, 11, 0xff, 7, 12, 0xff, 7, 13, 0xff, 7, 14, 0xff, 7, 15, 0xff,
	7, 16, 0xff, 7, 17, 0xff, 7, 18, 0xff, 7, 19, 0xff, 7, 20, 0xff, 7, 21, 0xff, 7, 22, 0xff, 7, 23, 0xff,
	7, 24, 0xff, 7, 25, 0xff, 7, 26, 0xff, 7, 27, 0xff, 7, 28, 0xff, 7, 29, 0xff, 7, 30, 0xff, 7, 31, 0xff,
	7, 32, 0xff, 7, 33, 0xff, 7, 34, 0xff, 7, 35, 0xff, 7, 36, 0xff, 7, 37, 0xff, 7, 38, 0xff, 8, 0, 0xff,
	8, 1, 0xff, 8, 2, 0xff, 8, 3, 0xff, 8, 4, 0xff, 8, 5, 0xff, 8, 6, 0xff, 8, 7, 0xff, 8, 8, 0xff,
	8, 9, 0xff, 8, 10, 0xff, 8, 11, 0xff, 8, 12, 0xff, 8, 13, 0xff, 8, 14, 0xff, 8, 15, 0xff, 8, 16, 0xff,
	8, 17, 0xff, 8, 18, 0xff, 8, 19, 0xff, 8, 20, 0xff, 8, 21, 0xff, 8, 22, 0xff, 8, 23, 0xff, 8, 24, 0xff,
	8, 25, 0xff, 8, 26, 0xff, 8, 27, 0xff, 8, 28, 0xff, 8, 29, 0xff, 8, 30, 0xff, 8, 31, 0xff, 8, 32, 0xff,
	8, 33, 0xff, 8, 34, 0xff, 8, 35, 0xff, 8, 36, 0xff, 8, 37, 0xff, 8, 38, 0xff, 9, 0, 0xff, 9, 1, 0xff,
	9, 2, 0xff, 9, 3, 0xff, 9, 4, 0xff, 9, 5, 0xff, 9, 6, 0xff, 9, 7, 0xff, 9, 8, 0xff, 9, 9, 0xff,
	9, 10, 0xff, 9, 11, 0xff, 9, 12, 0xff, 9, 13, 0xff, 9, 14, 0xff, 9, 15, 0xff, 9, 16, 0xff, 9, 17, 0xff,
	9, 18, 0xff, 9, 19, 0xff, 9, 20, 0xff, 9, 21, 0xff, 9, 22, 0xff, 9, 23, 0xff, 9, 24, 0xff, 9, 25, 0xff,
	9, 26, 0xff, 9, 27, 0xff, 9, 28, 0xff, 9, 29, 0xff, 9, 30, 0xff, 9, 31, 0xff, 9, 32, 0xff, 9, 33, 0xff,
	9, 34, 0xff, 9, 35, 0xff, 9, 36, 0xff, 9, 37, 0xff, 9, 38, 0xff, 10, 0, 0xff, 10, 1, 0xff, 10, 2, 0xff,
	10, 3, 0xff, 10, 4, 0xff, 10, 5, 0xff, 10, 6, 0xff, 10, 7, 0xff, 10, 8, 0xff, 10, 9, 0xff, 10, 10, 0xff,
	10, 11, 0xff, 10, 12, 0xff, 10, 13, 0xff, 10, 14, 0xff, 10, 15, 0xff, 10, 16, 0xff, 10, 17, 0xff, 10, 18, 0xff,
	10, 19, 0xff, 10, 20, 0xff, 10, 21, 0xff, 10, 22, 0xff, 10, 23, 0xff, 10, 24, 0xff, 10, 25, 0xff, 10, 26, 0xff,
	10, 27, 0xff, 10, 28, 0xff, 10, 29, 0xff, 10, 30, 0xff, 10, 31, 0xff, 10, 32, 0xff, 10, 33, 0xff, 10, 34, 0xff,
	10, 35, 0xff, 10, 36, 0xff, 10, 37, 0xff, 10, 38, 0xff, 11, 0, 0xff, 11, 1, 0xff, 11, 2, 0xff, 11, 3, 0xff,
	11, 4, 0xff, 11, 5, 0xff, 11, 6, 0xff, 11, 7, 0xff, 11, 8, 0xff, 11, 9, 0xff, 11, 10, 0xff, 11, 11, 0xff,
	11, 12, 0xff, 11, 13, 0xff, 11, 14, 0xff, 11, 15, 0xff, 11, 16, 0xff, 11, 17, 0xff, 11, 18, 0xff, 11, 19, 0xff,
	11, 20, 0xff, 11, 21, 0xff, 11, 22, 0xff, 11, 23, 0xff, 11, 24, 0xff, 11, 25, 0xff, 11, 26, 0xff, 11, 27, 0xff,
	11, 28, 0xff, 11, 29, 0xff, 11, 30, 0xff, 11, 31, 0xff, 11, 32, 0xff, 11, 33, 0xff, 11, 34, 0xff, 11, 35, 0xff,
	11, 36, 0xff, 11, 37, 0xff, 11, 38, 0xff, 12, 0, 0xff, 12, 1, 0xff, 12, 2, 0xff, 12, 3, 0xff, 12, 4, 0xff,
	12, 5, 0xff, 12, 6, 0xff, 12, 7, 0xff, 12, 8, 0xff, 12, 9, 0xff, 12, 10, 0xff, 12, 11, 0xff, 12, 12, 0xff,
	12, 13, 0xff, 12, 14, 0xff, 12, 15, 0xff, 12, 16, 0xff, 12, 17, 0xff, 12, 18, 0xff, 12, 19, 0xff, 12, 20, 0xff,
	12, 21, 0xff, 12, 22, 0xff, 12, 23, 0xff, 12, 24, 0xff, 12, 25, 0xff, 12, 26, 0xff, 12, 27, 0xff, 12, 28, 0xff,
	12, 29, 0xff, 12, 30, 0xff, 12, 31, 0xff, 12, 32, 0xff, 12, 33, 0xff, 12, 34, 0xff, 12, 35, 0xff, 12, 36, 0xff,
	12, 37, 0xff, 12, 38, 0xff, 13, 0, 0xff, 13, 1, 0xff, 13, 2, 0xff, 13, 3, 0xff, 13, 4, 0xff, 13, 5, 0xff,
	13, 6, 0xff, 13, 7, 0xff, 13, 8, 0xff, 13, 9, 0xff, 13, 10, 0xff, 13, 11, 0xff, 13, 12, 0xff, 13, 13, 0xff,
	13, 14, 0xff, 13, 15, 0xff, 13, 16, 0xff, 13, 17, 0xff, 13, 18, 0xff, 13, 19, 0xff, 13, 20, 0xff, 13, 21, 0xff,
	13, 22, 0xff, 13, 23, 0xff, 13, 24, 0xff, 13, 25, 0xff, 13, 26, 0xff, 13, 27, 0xff, 13, 28, 0xff, 13, 29, 0xff,
	13, 30, 0xff, 13, 31, 0xff, 13, 32, 0xff, 13, 33, 0xff, 13, 34, 0xff, 13, 35, 0xff, 13, 36, 0xff, 13, 37, 0xff,
	13, 38, 0xff, 14, 0, 0xff, 14, 1, 0xff, 14, 2, 0xff, 14, 3, 0xff, 14, 4, 0xff, 14, 5, 0xff, 14, 6, 0xff,
	14, 7, 0xff, 14, 8, 0xff, 14, 9, 0xff, 14, 10, 0xff, 14, 11, 0xff, 14, 12, 0xff, 14, 13, 0xff, 14, 14, 0xff,
	14, 15, 0xff, 14, 16, 0xff, 14, 17, 0xff, 14, 18, 0xff, 14, 19, 0xff, 14, 20, 0xff, 14, 21, 0xff, 14, 22, 0xff,
	14, 23, 0xff, 14, 24, 0xff, 14, 25, 0xff, 14, 26, 0xff, 14, 27, 0xff, 14, 28, 0xff, 14, 29, 0xff, 14, 30, 0xff,
	14, 31, 0xff, 14, 32, 0xff, 14, 33, 0xff, 14, 34, 0xff, 14, 35, 0xff, 14, 36, 0xff, 14, 37, 0xff, 14, 38, 0xff,
	15, 0, 0xff, 15, 1, 0xff, 15, 2, 0xff, 15, 3, 0xff, 15, 4, 0xff, 15, 5, 0xff, 15, 6, 0xff, 15, 7, 0xff,
	15, 8, 0xff, 15, 9, 0xff, 15, 10, 0xff, 15, 11, 0xff, 15, 12, 0xff, 15, 13, 0xff, 15, 14, 0xff, 15, 15, 0xff,
	15, 16, 0xff, 15, 17, 0xff, 15, 18, 0xff, 15, 19, 0xff, 15, 20, 0xff, 15, 21, 0xff, 15, 22, 0xff, 15, 23, 0xff,
	15, 24, 0xff, 15, 25, 0xff, 15, 26, 0xff, 15, 27, 0xff, 15, 28, 0xff, 15, 29, 0xff, 15, 30, 0xff, 15, 31, 0xff,
	15, 32, 0xff, 15, 33, 0xff, 15, 34, 0xff, 15, 35, 0xff, 15, 36, 0xff, 15, 37, 0xff, 15, 38, 0xff, 16, 0, 0xff,
	16, 1, 0xff, 16, 2, 0xff, 16, 3, 0xff, 16, 4, 0xff, 16, 5, 0xff, 16, 6, 0xff, 16, 7, 0xff, 16, 8, 0xff,
	16, 9, 0xff, 16, 10, 0xff, 16, 11, 0xff, 16, 12, 0xff, 16, 13, 0xff, 16, 14, 0xff, 16, 15, 0xff, 16, 16, 0xff,
	16, 17, 0xff, 16, 18, 0xff, 16, 19, 0xff, 16, 20, 0xff, 16, 21, 0xff, 16, 22, 0xff, 16, 23, 0xff, 16, 24, 0xff,
	16, 25, 0xff, 16, 26, 0xff, 16, 27, 0xff, 16, 28, 0xff, 16, 29, 0xff, 16, 30, 0xff, 16, 31, 0xff, 16, 32, 0xff,
	16, 33, 0xff, 16, 34, 0xff, 16, 35, 0xff, 16, 36, 0xff, 16, 37, 0xff, 16, 38, 0xff, 17, 0, 0xff, 17, 1, 0xff,
	17, 2, 0xff, 17, 3, 0xff, 17, 4, 0xff, 17, 5, 0xff, 17, 6, 0xff, 17, 7, 0xff, 17, 8, 0xff, 17, 9, 0xff,
	17, 10, 0xff, 17, 11, 0xff, 17, 12, 0xff, 17, 13, 0xff, 17, 14, 0xff, 17, 15, 0xff, 17, 16, 0xff, 17, 17, 0xff,
	17, 18, 0xff, 17, 19, 0xff, 17, 20, 0xff, 17, 21, 0xff, 17, 22, 0xff, 17, 23, 0xff, 17, 24, 0xff, 17, 25, 0xff,
	17, 26, 0xff, 17, 27, 0xff, 17, 28, 0xff, 17, 29, 0xff, 17, 30, 0xff, 17, 31, 0xff, 17, 32, 0xff, 17, 33, 0xff,
	17, 34, 0xff, 17, 35, 0xff, 17, 36, 0xff, 17, 37, 0xff, 17, 38, 0xff, 18, 0, 0xff, 18, 1, 0xff, 18, 2, 0xff,
	18, 3, 0xff, 18, 4, 0xff, 18, 5, 0xff, 18, 6, 0xff, 18, 7, 0xff, 18, 8, 0xff, 18, 9, 0xff, 18, 10, 0xff,
	18, 11, 0xff, 18, 12, 0xff, 18, 13, 0xff, 18, 14, 0xff, 18, 15, 0xff, 18, 16, 0xff, 18, 17, 0xff, 18, 18, 0xff,
	18, 19, 0xff, 18, 20, 0xff, 18, 21, 0xff, 18, 22, 0xff, 18, 23, 0xff, 18, 24, 0xff, 18, 25, 0xff, 18, 26, 0xff,
	18, 27, 0xff, 18, 28, 0xff, 18, 29, 0xff, 18, 30, 0xff, 18, 31, 0xff, 18, 32, 0xff, 18, 33, 0xff, 18, 34, 0xff,
	18, 35, 0xff, 18, 36, 0xff, 18, 37, 0xff, 18, 38, 0xff, 19, 0, 0xff, 19, 1, 0xff, 19, 2, 0xff, 19, 3, 0xff,
	19, 4, 0xff, 19, 5, 0xff, 19, 6, 0xff, 19, 7, 0xff, 19, 8, 0xff, 19, 9, 0xff, 19, 10, 0xff, 19, 11, 0xff,
	19, 12, 0xff, 19, 13, 0xff, 19, 14, 0xff, 19, 15, 0xff, 19, 16, 0xff, 19, 17, 0xff, 19, 18, 0xff, 19, 19, 0xff,
	19, 20, 0xff, 19, 21, 0xff, 19, 22, 0xff, 19, 23, 0xff, 19, 24, 0xff, 19, 25, 0xff, 19, 26, 0xff, 19, 27, 0xff,
	19, 28, 0xff, 19, 29, 0xff, 19, 30, 0xff, 19, 31, 0xff, 19, 32, 0xff, 19, 33, 0xff, 19, 34, 0xff, 19, 35, 0xff,
	19, 36, 0xff, 19, 37, 0xff, 19, 38, 0xff, 20, 0, 0xff, 20, 1, 0xff, 20, 2, 0xff, 20, 3, 0xff, 20, 4, 0xff,
	20, 5, 0xff, 20, 6, 0xff, 20, 7, 0xff, 20, 8, 0xff, 20, 9, 0xff, 20, 10, 0xff, 20, 11, 0xff, 20, 12, 0xff,
	20, 13, 0xff, 20, 14, 0xff, 20, 15, 0xff, 20, 16, 0xff, 20, 17, 0xff, 20, 18, 0xff, 20, 19, 0xff, 20, 20, 0xff,
	20, 21, 0xff, 20, 22, 0xff, 20, 23, 0xff, 20, 24, 0xff, 20, 25, 0xff, 20, 26, 0xff, 20, 27, 0xff, 20, 28, 0xff,
	20, 29, 0xff, 20, 30, 0xff, 20, 31, 0xff, 20, 32, 0xff, 20, 33, 0xff, 20, 34, 0xff, 20, 35, 0xff, 20, 36, 0xff,
	20, 37, 0xff, 20, 38, 0xff, 21, 0, 0xff, 21, 1, 0xff, 21, 2, 0xff, 21, 3, 0xff, 21, 4, 0xff, 21, 5, 0xff,
	21, 6, 0xff, 21, 7, 0xff, 21, 8, 0xff, 21, 9, 0xff, 21, 10, 0xff, 21, 11, 0xff, 21, 12, 0xff, 21, 13, 0xff,
	21, 14, 0xff, 21, 15, 0xff, 21, 16, 0xff, 21, 17, 0xff, 21, 18, 0xff, 21, 19, 0xff, 21, 20, 0xff, 21, 21, 0xff,
	21, 22, 0xff, 21, 23, 0xff, 21, 24, 0xff, 21, 25, 0xff, 21, 26, 0xff, 21, 27, 0xff, 21, 28, 0xff, 21, 29, 0xff,
	21, 30, 0xff, 21, 31, 0xff, 21, 32, 0xff, 21, 33, 0xff, 21, 34, 0xff, 21, 35, 0xff, 21, 36, 0xff, 21, 37, 0xff,
	21, 38, 0xff, 22, 0, 0xff, 22, 1, 0xff, 22, 2, 0xff, 22, 3, 0xff, 22, 4, 0xff, 22, 5, 0xff, 22, 6, 0xff,
	22, 7, 0xff, 22, 8, 0xff, 22, 9, 0xff, 22, 10, 0xff, 22, 11, 0xff, 22, 12, 0xff, 22, 13, 0xff, 22, 14, 0xff,
	22, 15, 0xff, 22, 16, 0xff, 22, 17, 0xff, 22, 18, 0xff, 22, 19, 0xff, 22, 20, 0xff, 22, 21, 0xff, 22, 22, 0xff,
	22, 23, 0xff, 22, 24, 0xff, 22, 25, 0xff, 22, 26, 0xff, 22, 27, 0xff, 22, 28, 0xff, 22, 29, 0xff, 22, 30, 0xff,
	22, 31, 0xff, 22, 32, 0xff, 22, 33, 0xff, 22, 34, 0xff, 22, 35, 0xff, 22, 36, 0xff, 22, 37, 0xff, 22, 38, 0xff,
	23, 0, 0xff, 23, 1, 0xff, 23, 2, 0xff, 23, 3, 0xff, 23, 4, 0xff, 23, 5, 0xff, 23, 6, 0xff, 23, 7, 0xff,
	23, 8, 0xff, 23, 9, 0xff, 23, 10, 0xff, 23, 11, 0xff, 23, 12, 0xff, 23, 13, 0xff, 23, 14, 0xff, 23, 15, 0xff,
	23, 16, 0xff, 23, 17, 0xff, 23, 18, 0xff, 23, 19, 0xff, 23, 20, 0xff, 23, 21, 0xff, 23, 22, 0xff, 23, 23, 0xff,
	23, 24, 0xff, 23, 25, 0xff, 23, 26, 0xff, 23, 27, 0xff, 23, 28, 0xff, 23, 29, 0xff, 23, 30, 0xff, 23, 31, 0xff,
	23, 32, 0xff, 23, 33, 0xff, 23, 34, 0xff, 23, 35, 0xff, 23, 36, 0xff, 23, 37, 0xff, 23, 38, 0xff, 24, 0, 0xff,
	24, 1, 0xff, 24, 2, 0xff, 24, 3, 0xff, 24, 4, 0xff, 24, 5, 0xff, 24, 6, 0xff, 24, 7, 0xff, 24, 8, 0xff,
	24, 9, 0xff, 24, 10, 0xff, 24, 11, 0xff, 24, 12, 0xff, 24, 13, 0xff, 24, 14, 0xff, 24, 15, 0xff, 24, 16, 0xff,
	24, 17, 0xff, 24, 18, 0xff, 24, 19, 0xff, 24, 20, 0xff, 24, 21, 0xff, 24, 22, 0xff, 24, 23, 0xff, 24, 24, 0xff,
	24, 25, 0xff, 24, 26, 0xff, 24, 27, 0xff, 24, 28, 0xff, 24, 29, 0xff, 24, 30, 0xff, 24, 31, 0xff, 24, 32, 0xff,
	24, 33, 0xff, 24, 34, 0xff, 24, 35, 0xff, 24, 36, 0xff, 24, 37, 0xff, 24, 38, 0xff, 25, 0, 0xff, 25, 1, 0xff,
	25, 2, 0xff, 25, 3, 0xff, 25, 4, 0xff, 25, 5, 0xff, 25, 6, 0xff, 25, 7, 0xff, 25, 8, 0xff, 25, 9, 0xff,
	25, 10, 0xff, 25, 11, 0xff, 25, 12, 0xff, 25, 13, 0xff, 25, 14, 0xff, 25, 15, 0xff, 25, 16, 0xff, 25, 17, 0xff,
	25, 18, 0xff, 25, 19, 0xff, 25, 20, 0xff, 25, 21, 0xff, 25, 22, 0xff, 25, 23, 0xff, 25, 24, 0xff, 25, 25, 0xff,
	25, 26, 0xff, 25, 27, 0xff, 25, 28, 0xff, 25, 29, 0xff, 25, 30, 0xff, 25, 31, 0xff, 25, 32, 0xff, 25, 33, 0xff,
	25, 34, 0xff, 25, 35, 0xff, 25, 36, 0xff, 25, 37, 0xff, 25, 38, 0xff, 26, 0, 0xff, 26, 1, 0xff, 26, 2, 0xff,
	26, 3, 0xff, 26, 4, 0xff, 26, 5, 0xff, 26, 6, 0xff, 26, 7, 0xff, 26, 8, 0xff, 26, 9, 0xff, 26, 10, 0xff,
	26, 11, 0xff, 26, 12, 0xff, 26, 13, 0xff, 26, 14, 0xff, 26, 15, 0xff, 26, 16, 0xff, 26, 17, 0xff, 26, 18, 0xff,
	26, 19, 0xff, 26, 20, 0xff, 26, 21, 0xff, 26, 22, 0xff, 26, 23, 0xff, 26, 24, 0xff, 26, 25, 0xff, 26, 26, 0xff,
	26, 27, 0xff, 26, 28, 0xff, 26, 29, 0xff, 26, 30, 0xff, 26, 31, 0xff, 26, 32, 0xff, 26, 33, 0xff, 26, 34, 0xff,
	26, 35, 0xff, 26, 36, 0xff, 26, 37, 0xff, 26, 38, 0xff, 27, 0, 0xff, 27, 1, 0xff, 27, 2, 0xff, 27, 3, 0xff,
	27, 4, 0xff, 27, 5, 0xff, 27, 6, 0xff, 27, 7, 0xff, 27, 8, 0xff, 27, 9, 0xff, 27, 10, 0xff, 27, 11, 0xff,
	27, 12, 0xff, 27, 13, 0xff, 27, 14, 0xff, 27, 15, 0xff, 27, 16, 0xff, 27, 17, 0xff, 27, 18, 0xff, 27, 19, 0xff,
	27, 20, 0xff, 27, 21, 0xff, 27, 22, 0xff, 27, 23, 0xff, 27, 24, 0xff, 27, 25, 0xff, 27, 26, 0xff, 27, 27, 0xff,
	27, 28, 0xff, 27, 29, 0xff, 27, 30, 0xff, 27, 31, 0xff, 27, 32, 0xff, 27, 33, 0xff, 27, 34, 0xff, 27, 35, 0xff,
	27, 36, 0xff, 27, 37, 0xff, 27, 38, 0xff, 28, 0, 0xff, 28, 1, 0xff, 28, 2, 0xff, 28, 3, 0xff, 28, 4, 0xff,
	28, 5, 0xff, 28, 6, 0xff, 28, 7, 0xff, 28, 8, 0xff, 28, 9, 0xff, 28, 10, 0xff, 28, 11, 0xff, 28, 12, 0xff,
	28, 13, 0xff, 28, 14, 0xff, 28, 15, 0xff, 28, 16, 0xff, 28, 17, 0xff, 28, 18, 0xff, 28, 19, 0xff, 28, 20, 0xff,
	28, 21, 0xff, 28, 22, 0xff, 28, 23, 0xff, 28, 24, 0xff, 28, 25, 0xff, 28, 26, 0xff, 28, 27, 0xff, 28, 28, 0xff,
	28, 29, 0xff, 28, 30, 0xff, 28, 31, 0xff, 28, 32, 0xff, 28, 33, 0xff, 28, 34, 0xff, 28, 35, 0xff, 28, 36, 0xff,
	28, 37, 0xff, 28, 38, 0xff, 29, 0, 0xff, 29, 1, 0xff, 29, 2, 0xff, 29, 3, 0xff, 29, 4, 0xff, 29, 5, 0xff,
	29, 6, 0xff, 29, 7, 0xff, 29, 8, 0xff, 29, 9, 0xff, 29, 10, 0xff, 29, 11, 0xff, 29, 12, 0xff, 29, 13, 0xff,
	29, 14, 0xff, 29, 15, 0xff, 29, 16, 0xff, 29, 17, 0xff, 29, 18, 0xff, 29, 19, 0xff, 29, 20, 0xff, 29, 21, 0xff,
	29, 22, 0xff, 29, 23, 0xff, 29, 24, 0xff, 29, 25, 0xff, 29, 26, 0xff, 29, 27, 0xff, 29, 28, 0xff, 29, 29, 0xff,
	29, 30, 0xff, 29, 31, 0xff, 29, 32, 0xff, 29, 33, 0xff, 29, 34, 0xff, 29, 35, 0xff, 29, 36, 0xff, 29, 37, 0xff,
	29, 38, 0xff, 30, 0, 0xff, 30, 1, 0xff, 30, 2, 0xff, 30, 3, 0xff, 30, 4, 0xff, 30, 5, 0xff, 30, 6, 0xff,
	30, 7, 0xff, 30, 8, 0xff, 30, 9, 0xff, 30, 10, 0xff, 30, 11, 0xff, 30, 12, 0xff, 30, 13, 0xff, 30, 14, 0xff,
	30, 15, 0xff, 30, 16, 0xff, 30, 17, 0xff, 30, 18, 0xff, 30, 19, 0xff, 30, 20, 0xff, 30, 21, 0xff, 30, 22, 0xff,
	30, 23, 0xff, 30, 24, 0xff, 30, 25, 0xff, 30, 26, 0xff, 30, 27, 0xff, 30, 28, 0xff, 30, 29, 0xff, 30, 30, 0xff,
	30, 31, 0xff, 30, 32, 0xff, 30, 33, 0xff, 30, 34, 0xff, 30, 35, 0xff, 30, 36, 0xff, 30, 37, 0xff, 30, 38, 0xff,
	31, 0, 0xff, 31, 1, 0xff, 31, 2, 0xff, 31, 3, 0xff, 31, 4, 0xff, 31, 5, 0xff, 31, 6, 0xff, 31, 7, 0xff,
	31, 8, 0xff, 31, 9, 0xff, 31, 10, 0xff, 31, 11, 0xff, 31, 12, 0xff, 31, 13, 0xff, 31, 14, 0xff, 31, 15, 0xff,
	31, 16, 0xff, 31, 17, 0xff, 31, 18, 0xff, 31, 19, 0xff, 31, 20, 0xff, 31, 21, 0xff, 31, 22, 0xff, 31, 23, 0xff,
	31, 24, 0xff, 31, 25, 0xff, 31, 26, 0xff, 31, 27, 0xff, 31, 28, 0xff, 31, 29, 0xff, 31, 30, 0xff, 31, 31, 0xff,
	31, 32, 0xff, 31, 33, 0xff, 31, 34, 0xff, 31, 35, 0xff, 31, 36, 0xff, 31, 37, 0xff, 31, 38, 0xff, 32, 0, 0xff,
	32, 1, 0xff, 32, 2, 0xff, 32, 3, 0xff, 32, 4, 0xff, 32, 5, 0xff, 32, 6, 0xff, 32, 7, 0xff, 32, 8, 0xff,
	32, 9, 0xff, 32, 10, 0xff, 32, 11, 0xff, 32, 12, 0xff, 32, 13, 0xff, 32, 14, 0xff, 32, 15, 0xff, 32, 16, 0xff,
	32, 17, 0xff, 32, 18, 0xff, 32, 19, 0xff, 32, 20, 0xff, 32, 21, 0xff, 32, 22, 0xff, 32, 23, 0xff, 32, 24, 0xff,
	32, 25, 0xff, 32, 26, 0xff, 32, 27, 0xff, 32, 28, 0xff, 32, 29, 0xff, 32, 30, 0xff, 32, 31, 0xff, 32, 32, 0xff,
	32, 33, 0xff, 32, 34, 0xff, 32, 35, 0xff, 32, 36, 0xff, 32, 37, 0xff, 32, 38, 0xff, 33, 0, 0xff, 33, 1, 0xff,
	33, 2, 0xff, 33, 3, 0xff, 33, 4, 0xff, 33, 5, 0xff, 33, 6, 0xff, 33, 7, 0xff, 33, 8, 0xff, 33, 9, 0xff,
	33, 10, 0xff, 33, 11, 0xff, 33, 12, 0xff, 33, 13, 0xff, 33, 14, 0xff, 33, 15, 0xff, 33, 16, 0xff, 33, 17, 0xff,
	33, 18, 0xff, 33, 19, 0xff, 33, 20, 0xff, 33, 21, 0xff, 33, 22, 0xff, 33, 23, 0xff, 33, 24, 0xff, 33, 25, 0xff,
	33, 26, 0xff, 33, 27, 0xff, 33, 28, 0xff, 33, 29, 0xff, 33, 30, 0xff, 33, 31, 0xff, 33, 32, 0xff, 33, 33, 0xff,
	33, 34, 0xff, 33, 35, 0xff, 33, 36, 0xff, 33, 37, 0xff, 33, 38, 0xff, 1, 1, 1, 1, 1, 4, 1, 1, 10,
	1, 1, 13, 1, 1, 14, 1, 1, 17, 1, 1, 20, 1, 1, 21, 1, 1, 23, 1, 1, 29, 1, 1, 31,
	1, 1, 34, 1, 1, 37, 1, 4, 1, 1, 4, 4, 1, 4, 10, 1, 4, 13, 1, 4, 14, 1, 4, 17,
	1, 4, 20, 1, 4, 21, 1, 4, 23, 1, 4, 29, 1, 4, 31, 1, 4, 34, 1, 4, 37, 1, 10, 1,
	1, 10, 4, 1, 10, 10, 1, 10, 13, 1, 10, 14, 1, 10, 17, 1, 10, 20, 1, 10, 21, 1, 10, 23,
	1, 10, 29, 1, 10, 31, 1, 10, 34, 1, 10, 37, 1, 13, 1, 1, 13, 4, 1, 13, 10, 1, 13, 13,
	1, 13, 14, 1, 13, 17, 1, 13, 20, 1, 13, 21, 1, 13, 23, 1, 13, 29, 1, 13, 31, 1, 13, 34,
	1, 13, 37, 1, 14, 1, 1, 14, 4, 1, 14, 10, 1, 14, 13, 1, 14, 14, 1, 14, 17, 1, 14, 20,
	1, 14, 21, 1, 14, 23, 1, 14, 29, 1, 14, 31, 1, 14, 34, 1, 14, 37, 1, 17, 1, 1, 17, 4,
	1, 17, 10, 1, 17, 13, 1, 17, 14, 1, 17, 17, 1, 17, 20, 1, 17, 21, 1, 17, 23, 1, 17, 29,
	1, 17, 31, 1, 17, 34, 1, 17, 37, 1, 20, 1, 1, 20, 4, 1, 20, 10, 1, 20, 13, 1, 20, 14,
	1, 20, 17, 1, 20, 20, 1, 20, 21, 1, 20, 23, 1, 20, 29, 1, 20, 31, 1, 20, 34, 1, 20, 37,
	1, 21, 1, 1, 21, 4, 1, 21, 10, 1, 21, 13, 1, 21, 14, 1, 21, 17, 1, 21, 20, 1, 21, 21,
	1, 21, 23, 1, 21, 29, 1, 21, 31, 1, 21, 34, 1, 21, 37, 1, 23, 1, 1, 23, 4, 1, 23, 10,
	1, 23, 13, 1, 23, 14, 1, 23, 17, 1, 23, 20, 1, 23, 21, 1, 23, 23, 1, 23, 29, 1, 23, 31,
	1, 23, 34, 1, 23, 37, 1, 29, 1, 1, 29, 4, 1, 29, 10, 1, 29, 13, 1, 29, 14, 1, 29, 17,
	1, 29, 20, 1, 29, 21, 1, 29, 23, 1, 29, 29, 1, 29, 31, 1, 29, 34, 1, 29, 37, 1, 31, 1,
	1, 31, 4, 1, 31, 10, 1, 31, 13, 1, 31, 14, 1, 31, 17, 1, 31, 20, 1, 31, 21, 1, 31, 23,
	1, 31, 29, 1, 31, 31, 1, 31, 34, 1, 31, 37, 4, 1, 1, 4, 1, 4, 4, 1, 10, 4, 1, 13,
	4, 1, 14, 4, 1, 17, 4, 1, 20, 4, 1, 21, 4, 1, 23, 4, 1, 29, 4, 1, 31, 4, 1, 34,
	4, 1, 37, 4, 4, 1, 4, 4, 4, 4, 4, 10, 4, 4, 13, 4, 4, 14, 4, 4, 17, 4, 4, 20,
	4, 4, 21, 4, 4, 23, 4, 4, 29, 4, 4, 31, 4, 4, 34, 4, 4, 37, 4, 10, 1, 4, 10, 4,
	4, 10, 10, 4, 10, 13, 4, 10, 14, 4, 10, 17, 4, 10, 20, 4, 10, 21, 4, 10, 23, 4, 10, 29,
	4, 10, 31, 4, 10, 34, 4, 10, 37, 4, 13, 1, 4, 13, 4, 4, 13, 10, 4, 13, 13, 4, 13, 14,
	4, 13, 17, 4, 13, 20, 4, 13, 21, 4, 13, 23, 4, 13, 29, 4, 13, 31, 4, 13, 34, 4, 13, 37,
	4, 14, 1, 4, 14, 4, 4, 14, 10, 4, 14, 13, 4, 14, 14, 4, 14, 17, 4, 14, 20, 4, 14, 21,
	4, 14, 23, 4, 14, 29, 4, 14, 31, 4, 14, 34, 4, 14, 37, 4, 17, 1, 4, 17, 4, 4, 17, 10,
	4, 17, 13, 4, 17, 14, 4, 17, 17, 4, 17, 20, 4, 17, 21, 4, 17, 23, 4, 17, 29, 4, 17, 31,
	4, 17, 34, 4, 17, 37, 4, 20, 1, 4, 20, 4, 4, 20, 10, 4, 20, 13, 4, 20, 14, 4, 20, 17,
	4, 20, 20, 4, 20, 21, 4, 20, 23, 4, 20, 29, 4, 20, 31, 4, 20, 34, 4, 20, 37, 4, 21, 1,
	4, 21, 4, 4, 21, 10, 4, 21, 13, 4, 21, 14, 4, 21, 17, 4, 21, 20, 4, 21, 21, 4, 21, 23,
	4, 21, 29, 4, 21, 31, 4, 21, 34, 4, 21, 37, 4, 23, 1, 4, 23, 4, 4, 23, 10, 4, 23, 13,
	4, 23, 14, 4, 23, 17, 4, 23, 20, 4, 23, 21, 4, 23, 23, 4, 23, 29, 4, 23, 31, 4, 23, 34,
	4, 23, 37, 4, 29, 1, 4, 29, 4, 4, 29, 10, 4, 29, 13, 4, 29, 14, 4, 29, 17, 4, 29, 20,
	4, 29, 21, 4, 29, 23, 4, 29, 29, 4, 29, 31, 4, 29, 34, 4, 29, 37, 4, 31, 1, 4, 31, 4,
	4, 31, 10, 4, 31, 13, 4, 31, 14, 4, 31, 17, 4, 31, 20, 4, 31, 21, 4, 31, 23, 4, 31, 29,
	4, 31, 31, 4, 31, 34, 4, 31, 37, 10, 1, 1, 10, 1, 4, 10, 1, 10, 10, 1, 13, 10, 1, 14,
	10, 1, 17, 10, 1, 20, 10, 1, 21, 10, 1, 23, 10, 1, 29, 10, 1, 31, 10, 1, 34, 10, 1, 37,
	10, 4, 1, 10, 4, 4, 10, 4, 10, 10, 4, 13, 10, 4, 14, 10, 4, 17, 10, 4, 20, 10, 4, 21,
	10, 4, 23, 10, 4, 29, 10, 4, 31, 10, 4, 34, 10, 4, 37, 10, 10, 1, 10, 10, 4, 10, 10, 10,
	10, 10, 13, 10, 10, 14, 10, 10, 17, 10, 10, 20, 10, 10, 21, 10, 10, 23, 10, 10, 29, 10, 10, 31,
	10, 10, 34, 10, 10, 37, 10, 13, 1, 10, 13, 4, 10, 13, 10, 10, 13, 13, 10, 13, 14, 10, 13, 17,
	10, 13, 20, 10, 13, 21, 10, 13, 23, 10, 13, 29, 10, 13, 31, 10, 13, 34, 10, 13, 37, 10, 14, 1,
	10, 14, 4, 10, 14, 10, 10, 14, 13, 10, 14, 14, 10, 14, 17, 10, 14, 20, 10, 14, 21, 10, 14, 23,
	10, 14, 29, 10, 14, 31, 10, 14, 34, 10, 14, 37, 10, 17, 1, 10, 17, 4, 10, 17, 10, 10, 17, 13,
	10, 17, 14, 10, 17, 17, 10, 17, 20, 10, 17, 21, 10, 17, 23, 10, 17, 29, 10, 17, 31, 10, 17, 34,
	10, 17, 37, 10, 20, 1, 10, 20, 4, 10, 20, 10, 10, 20, 13, 10, 20, 14, 10, 20, 17, 10, 20, 20,
	10, 20, 21, 10, 20, 23, 10, 20, 29, 10, 20, 31, 10, 20, 34, 10, 20, 37, 10, 21, 1, 10, 21, 4,
	10, 21, 10, 10, 21, 13, 10, 21, 14, 10, 21, 17, 10, 21, 20, 10, 21, 21, 10, 21, 23, 10, 21, 29,
	10, 21, 31, 10, 21, 34, 10, 21, 37, 10, 23, 1, 10, 23, 4, 10, 23, 10, 10, 23, 13, 10, 23, 14,
	10, 23, 17, 10, 23, 20, 10, 23, 21, 10, 23, 23, 10, 23, 29, 10, 23, 31, 10, 23, 34, 10, 23, 37,
	10, 29, 1, 10, 29, 4, 10, 29, 10, 10, 29, 13, 10, 29, 14, 10, 29, 17, 10, 29, 20, 10, 29, 21,
	10, 29, 23, 10, 29, 29, 10, 29, 31, 10, 29, 34, 10, 29, 37, 10, 31, 1, 10, 31, 4, 10, 31, 10,
	10, 31, 13, 10, 31, 14, 10, 31, 17, 10, 31, 20, 10, 31, 21, 10, 31, 23, 10, 31, 29, 10, 31, 31,
	10, 31, 34, 10, 31, 37, 13, 1, 1, 13, 1, 4, 13, 1, 10, 13, 1, 13, 13, 1, 14, 13, 1, 17,
	13, 1, 20, 13, 1, 21, 13, 1, 23, 13, 1, 29, 13, 1, 31, 13, 1, 34, 13, 1, 37, 13, 4, 1,
	13, 4, 4, 13, 4, 10, 13, 4, 13, 13, 4, 14, 13, 4, 17, 13, 4, 20, 13, 4, 21, 13, 4, 23,
	13, 4, 29, 13, 4, 31, 13, 4, 34, 13, 4, 37, 13, 10, 1, 13, 10, 4, 13, 10, 10, 13, 10, 13,
	13, 10, 14, 13, 10, 17, 13, 10, 20, 13, 10, 21, 13, 10, 23, 13, 10, 29, 13, 10, 31, 13, 10, 34,
	13, 10, 37, 13, 13, 1, 13, 13, 4, 13, 13, 10, 13, 13, 13, 13, 13, 14, 13, 13, 17, 13, 13, 20,
	13, 13, 21, 13, 13, 23, 13, 13, 29, 13, 13, 31, 13, 13, 34, 13, 13, 37, 13, 14, 1, 13, 14, 4,
	13, 14, 10, 13, 14, 13, 13, 14, 14, 13, 14, 17, 13, 14, 20, 13, 14, 21, 13, 14, 23, 13, 14, 29,
	13, 14, 31, 13, 14, 34, 13, 14, 37, 13, 17, 1, 13, 17, 4, 13, 17, 10, 13, 17, 13, 13, 17, 14,
	13, 17, 17, 13, 17, 20, 13, 17, 21, 13, 17, 23, 13, 17, 29, 13, 17, 31, 13, 17, 34, 13, 17, 37,
	13, 20, 1, 13, 20, 4, 13, 20, 10, 13, 20, 13, 13, 20, 14, 13, 20, 17, 13, 20, 20, 13, 20, 21,
	13, 20, 23, 13, 20, 29, 13, 20, 31, 13, 20, 34, 13, 20, 37, 13, 21, 1, 13, 21, 4, 13, 21, 10,
	13, 21, 13, 13, 21, 14, 13, 21, 17, 13, 21, 20, 13, 21, 21, 13, 21, 23, 13, 21, 29, 13, 21, 31,
	13, 21, 34, 13, 21, 37, 13, 23, 1, 13, 23, 4, 13, 23, 10, 13, 23, 13, 13, 23, 14, 13, 23, 17,
	13, 23, 20, 13, 23, 21, 13, 23, 23, 13, 23, 29, 13, 23, 31, 13, 23, 34, 13, 23, 37, 13, 29, 1,
	13, 29, 4, 13, 29, 10, 13, 29, 13, 13, 29, 14, 13, 29, 17, 13, 29, 20, 13, 29, 21, 13, 29, 23,
	13, 29, 29, 13, 29, 31, 13, 29, 34, 13, 29, 37, 13, 31, 1, 13, 31, 4, 13, 31, 10, 13, 31, 13,
	13, 31, 14, 13, 31, 17, 13, 31, 20, 13, 31, 21, 13, 31, 23, 13, 31, 29, 13, 31, 31, 13, 31, 34,
	13, 31, 37, 14, 1, 1, 14, 1, 4, 14, 1, 10, 14, 1, 13, 14, 1, 14, 14, 1, 17, 14, 1, 20,
	14, 1, 21, 14, 1, 23, 14, 1, 29, 14, 1, 31, 14, 1, 34, 14, 1, 37, 14, 4, 1, 14, 4, 4,
	14, 4, 10, 14, 4, 13, 14, 4, 14, 14, 4, 17, 14, 4, 20, 14, 4, 21, 14, 4, 23, 14, 4, 29,
	14, 4, 31, 14, 4, 34, 14, 4, 37, 14, 10, 1, 14, 10, 4, 14, 10, 10, 14, 10, 13, 14, 10, 14,
	14, 10, 17, 14, 10, 20, 14, 10, 21, 14, 10, 23, 14, 10, 29, 14, 10, 31, 14, 10, 34, 14, 10, 37,
	14, 13, 1, 14, 13, 4, 14, 13, 10, 14, 13, 13, 14, 13, 14, 14, 13, 17, 14, 13, 20, 14, 13, 21,
	14, 13, 23, 14, 13, 29, 14, 13, 31, 14, 13, 34, 14, 13, 37, 14, 14, 1, 14, 14, 4, 14, 14, 10,
	14, 14, 13, 14, 14, 14, 14, 14, 17, 14, 14, 20, 14, 14, 21, 14, 14, 23, 14, 14, 29, 14, 14, 31,
	14, 14, 34, 14, 14, 37, 14, 17, 1, 14, 17, 4, 14, 17, 10, 14, 17, 13, 14, 17, 14, 14, 17, 17,
	14, 17, 20, 14, 17, 21, 14, 17, 23, 14, 17, 29, 14, 17, 31, 14, 17, 34, 14, 17, 37, 14, 20, 1,
	14, 20, 4, 14, 20, 10, 14, 20, 13, 14, 20, 14, 14, 20, 17, 14, 20, 20, 14, 20, 21, 14, 20, 23,
	14, 20, 29, 14, 20, 31, 14, 20, 34, 14, 20, 37, 14, 21, 1, 14, 21, 4, 14, 21, 10, 14, 21, 13,
	14, 21, 14, 14, 21, 17, 14, 21, 20, 14, 21, 21, 14, 21, 23, 14, 21, 29, 14, 21, 31, 14, 21, 34,
	14, 21, 37, 14, 23, 1, 14, 23, 4, 14, 23, 10, 14, 23, 13, 14, 23, 14, 14, 23, 17, 14, 23, 20,
	14, 23, 21, 14, 23, 23, 14, 23, 29, 14, 23, 31, 14, 23, 34, 14, 23, 37, 14, 29, 1, 14, 29, 4,
	14, 29, 10, 14, 29, 13, 14, 29, 14, 14, 29, 17, 14, 29, 20, 14, 29, 21, 14, 29, 23, 14, 29, 29,
	14, 29, 31, 14, 29, 34, 14, 29, 37, 14, 31, 1, 14, 31, 4, 14, 31, 10, 14, 31, 13, 14, 31, 14,
	14, 31, 17, 14, 31, 20, 14, 31, 21, 14, 31, 23, 14, 31, 29, 14, 31, 31, 14, 31, 34, 14, 31, 37,
	17, 1, 1, 17, 1, 4, 17, 1, 10, 17, 1, 13, 17, 1, 14, 17, 1, 17, 17, 1, 20, 17, 1, 21,
	17, 1, 23, 17, 1, 29, 17, 1, 31, 17, 1, 34, 17, 1, 37, 17, 4, 1, 17, 4, 4, 17, 4, 10,
	17, 4, 13, 17, 4, 14, 17, 4, 17, 17, 4, 20, 17, 4, 21, 17, 4, 23, 17, 4, 29, 17, 4, 31,
	17, 4, 34, 17, 4, 37, 17, 10, 1, 17, 10, 4, 17, 10, 10, 17, 10, 13, 17, 10, 14, 17, 10, 17,
	17, 10, 20, 17, 10, 21, 17, 10, 23, 17, 10, 29, 17, 10, 31, 17, 10, 34, 17, 10, 37, 17, 13, 1,
	17, 13, 4, 17, 13, 10, 17, 13, 13, 17, 13, 14, 17, 13, 17, 17, 13, 20, 17, 13, 21, 17, 13, 23,
	17, 13, 29, 17, 13, 31, 17, 13, 34, 17, 13, 37, 17, 14, 1, 17, 14, 4, 17, 14, 10, 17, 14, 13,
	17, 14, 14, 17, 14, 17, 17, 14, 20, 17, 14, 21, 17, 14, 23, 17, 14, 29, 17, 14, 31, 17, 14, 34,
	17, 14, 37, 17, 17, 1, 17, 17, 4, 17, 17, 10, 17, 17, 13, 17, 17, 14, 17, 17, 17, 17, 17, 20,
	17, 17, 21, 17, 17, 23, 17, 17, 29, 17, 17, 31, 17, 17, 34, 17, 17, 37, 17, 20, 1, 17, 20, 4,
	17, 20, 10, 17, 20, 13, 17, 20, 14, 17, 20, 17, 17, 20, 20, 17, 20, 21, 17, 20, 23, 17, 20, 29,
	17, 20, 31, 17, 20, 34, 17, 20, 37, 17, 21, 1, 17, 21, 4, 17, 21, 10, 17, 21, 13, 17, 21, 14,
	17, 21, 17, 17, 21, 20, 17, 21, 21, 17, 21, 23, 17, 21, 29, 17, 21, 31, 17, 21, 34, 17, 21, 37,
	17, 23, 1, 17, 23, 4, 17, 23, 10, 17, 23, 13, 17, 23, 14, 17, 23, 17, 17, 23, 20, 17, 23, 21,
	17, 23, 23, 17, 23, 29, 17, 23, 31, 17, 23, 34, 17, 23, 37, 17, 29, 1, 17, 29, 4, 17, 29, 10,
	17, 29, 13, 17, 29, 14, 17, 29, 17, 17, 29, 20, 17, 29, 21, 17, 29, 23, 17, 29, 29, 17, 29, 31,
	17, 29, 34, 17, 29, 37, 17, 31, 1, 17, 31, 4, 17, 31, 10, 17, 31, 13, 17, 31, 14, 17, 31, 17,
	17, 31, 20, 17, 31, 21, 17, 31, 23, 17, 31, 29, 17, 31, 31, 17, 31, 34, 17, 31, 37, 20, 1, 1,
	20, 1, 4, 20, 1, 10, 20, 1, 13, 20, 1, 14, 20, 1, 17, 20, 1, 20, 20, 1, 21, 20, 1, 23,
	20, 1, 29, 20, 1, 31, 20, 1, 34, 20, 1, 37, 20, 4, 1, 20, 4, 4, 20, 4, 10, 20, 4, 13,
	20, 4, 14, 20, 4, 17, 20, 4, 20, 20, 4, 21, 20, 4, 23, 20, 4, 29, 20, 4, 31, 20, 4, 34,
	20, 4, 37, 20, 10, 1, 20, 10, 4, 20, 10, 10, 20, 10, 13, 20, 10, 14, 20, 10, 17, 20, 10, 20,
	20, 10, 21, 20, 10, 23, 20, 10, 29, 20, 10, 31, 20, 10, 34, 20, 10, 37, 20, 13, 1, 20, 13, 4,
	20, 13, 10, 20, 13, 13, 20, 13, 14, 20, 13, 17, 20, 13, 20, 20, 13, 21, 20, 13, 23, 20, 13, 29,
	20, 13, 31, 20, 13, 34, 20, 13, 37, 20, 14, 1, 20, 14, 4, 20, 14, 10, 20, 14, 13, 20, 14, 14,
	20, 14, 17, 20, 14, 20, 20, 14, 21, 20, 14, 23, 20, 14, 29, 20, 14, 31, 20, 14, 34, 20, 14, 37,
	20, 17, 1, 20, 17, 4, 20, 17, 10, 20, 17, 13, 20, 17, 14, 20, 17, 17, 20, 17, 20, 20, 17, 21,
	20, 17, 23, 20, 17, 29, 20, 17, 31, 20, 17, 34, 20, 17, 37, 20, 20, 1, 20, 20, 4, 20, 20, 10,
	20, 20, 13, 20, 20, 14, 20, 20, 17, 20, 20, 20, 20, 20, 21, 20, 20, 23, 20, 20, 29, 20, 20, 31,
	20, 20, 34, 20, 20, 37, 20, 21, 1, 20, 21, 4, 20, 21, 10, 20, 21, 13, 20, 21, 14, 20, 21, 17,
	20, 21, 20, 20, 21, 21, 20, 21, 23, 20, 21, 29, 20, 21, 31, 20, 21, 34, 20, 21, 37, 20, 23, 1,
	20, 23, 4, 20, 23, 10, 20, 23, 13, 20, 23, 14, 20, 23, 17, 20, 23, 20, 20, 23, 21, 20, 23, 23,
	20, 23, 29, 20, 23, 31, 20, 23, 34, 20, 23, 37, 20, 29, 1, 20, 29, 4, 20, 29, 10, 20, 29, 13,
	20, 29, 14, 20, 29, 17, 20, 29, 20, 20, 29, 21, 20, 29, 23, 20, 29, 29, 20, 29, 31, 20, 29, 34,
	20, 29, 37, 20, 31, 1, 20, 31, 4, 20, 31, 10, 20, 31, 13, 20, 31, 14, 20, 31, 17, 20, 31, 20,
	20, 31, 21, 20, 31, 23, 20, 31, 29, 20, 31, 31, 20, 31, 34, 20, 31, 37, 21, 1, 1, 21, 1, 4,
	21, 1, 10, 21, 1, 13, 21, 1, 14, 21, 1, 17, 21, 1, 20, 21, 1, 21, 21, 1, 23, 21, 1, 29,
	21, 1, 31, 21, 1, 34, 21, 1, 37, 21, 4, 1, 21, 4, 4, 21, 4, 10, 21, 4, 13, 21, 4, 14,
	21, 4, 17, 21, 4, 20, 21, 4, 21, 21, 4, 23, 21, 4, 29, 21, 4, 31, 21, 4, 34, 21, 4, 37,
	21, 10, 1, 21, 10, 4, 21, 10, 10, 21, 10, 13, 21, 10, 14, 21, 10, 17, 21, 10, 20, 21, 10, 21,
	21, 10, 23, 21, 10, 29, 21, 10, 31, 21, 10, 34, 21, 10, 37, 21, 13, 1, 21, 13, 4, 21, 13, 10,
	21, 13, 13, 21, 13, 14, 21, 13, 17, 21, 13, 20, 21, 13, 21, 21, 13, 23, 21, 13, 29, 21, 13, 31,
	21, 13, 34, 21, 13, 37, 21, 14, 1, 21, 14, 4, 21, 14, 10, 21, 14, 13, 21, 14, 14, 21, 14, 17,
	21, 14, 20, 21, 14, 21, 21, 14, 23, 21, 14, 29, 21, 14, 31, 21, 14, 34, 21, 14, 37, 21, 17, 1,
	21, 17, 4, 21, 17, 10, 21, 17, 13, 21, 17, 14, 21, 17, 17, 21, 17, 20, 21, 17, 21, 21, 17, 23,
	21, 17, 29, 21, 17, 31, 21, 17, 34, 21, 17, 37, 21, 20, 1, 21, 20, 4, 21, 20, 10, 21, 20, 13,
	21, 20, 14, 21, 20, 17, 21, 20, 20, 21, 20, 21, 21, 20, 23, 21, 20, 29, 21, 20, 31, 21, 20, 34,
	21, 20, 37, 21, 21, 1, 21, 21, 4, 21, 21, 10, 21, 21, 13, 21, 21, 14, 21, 21, 17, 21, 21, 20,
	21, 21, 21, 21, 21, 23, 21, 21, 29, 21, 21, 31, 21, 21, 34, 21, 21, 37, 21, 23, 1, 21, 23, 4,
	21, 23, 10, 21, 23, 13, 21, 23, 14, 21, 23, 17, 21, 23, 20, 21, 23, 21, 21, 23, 23, 21, 23, 29,
	21, 23, 31, 21, 23, 34, 21, 23, 37, 21, 29, 1, 21, 29, 4, 21, 29, 10, 21, 29, 13, 21, 29, 14,
	21, 29, 17, 21, 29, 20, 21, 29, 21, 21, 29, 23, 21, 29, 29, 21, 29, 31, 21, 29, 34, 21, 29, 37,
	21, 31, 1, 21, 31, 4, 21, 31, 10, 21, 31, 13, 21, 31, 14, 21, 31, 17, 21, 31, 20, 21, 31, 21,
	21, 31, 23, 21, 31, 29, 21, 31, 31, 21, 31, 34, 21, 31, 37, 23, 1, 1, 23, 1, 4, 23, 1, 10,
	23, 1, 13, 23, 1, 14, 23, 1, 17, 23, 1, 20, 23, 1, 21, 23, 1, 23, 23, 1, 29, 23, 1, 31,
	23, 1, 34, 23, 1, 37, 23, 4, 1, 23, 4, 4, 23, 4, 10, 23, 4, 13, 23, 4, 14, 23, 4, 17,
	23, 4, 20, 23, 4, 21, 23, 4, 23, 23, 4, 29, 23, 4, 31, 23, 4, 34, 23, 4, 37, 23, 10, 1,
	23, 10, 4, 23, 10, 10, 23, 10, 13, 23, 10, 14, 23, 10, 17, 23, 10, 20, 23, 10, 21, 23, 10, 23,
	23, 10, 29, 23, 10, 31, 23, 10, 34, 23, 10, 37, 23, 13, 1, 23, 13, 4, 23, 13, 10, 23, 13, 13,
	23, 13, 14, 23, 13, 17, 23, 13, 20, 23, 13, 21, 23, 13, 23, 23, 13, 29, 23, 13, 31, 23, 13, 34,
	23, 13, 37, 23, 14, 1, 23, 14, 4, 23, 14, 10, 23, 14, 13, 23, 14, 14, 23, 14, 17, 23, 14, 20,
	23, 14, 21, 23, 14, 23, 23, 14, 29, 23, 14, 31, 23, 14, 34, 23, 14, 37, 23, 17, 1, 23, 17, 4,
	23, 17, 10, 23, 17, 13, 23, 17, 14, 23, 17, 17, 23, 17, 20, 23, 17, 21, 23, 17, 23, 23, 17, 29,
	23, 17, 31, 23, 17, 34, 23, 17, 37, 23, 20, 1, 23, 20, 4, 23, 20, 10, 23, 20, 13, 23, 20, 14,
	23, 20, 17, 23, 20, 20, 23, 20, 21, 23, 20, 23, 23, 20, 29, 23, 20, 31, 23, 20, 34, 23, 20, 37,
	23, 21, 1, 23, 21, 4, 23, 21, 10, 23, 21, 13, 23, 21, 14, 23, 21, 17, 23, 21, 20, 23, 21, 21,
	23, 21, 23, 23, 21, 29, 23, 21, 31, 23, 21, 34, 23, 21, 37, 23, 23, 1, 23, 23, 4, 23, 23, 10,
	23, 23, 13, 23, 23, 14, 23, 23, 17, 23, 23, 20, 23, 23, 21, 23, 23, 23, 23, 23, 29, 23, 23, 31,
	23, 23, 34, 23, 23, 37, 23, 29, 1, 23, 29, 4, 23, 29, 10, 23, 29, 13, 23, 29, 14, 23, 29, 17,
	23, 29, 20, 23, 29, 21, 23, 29, 23, 23, 29, 29, 23, 29, 31, 23, 29, 34, 23, 29, 37, 23, 31, 1,
	23, 31, 4, 23, 31, 10, 23, 31, 13, 23, 31, 14, 23, 31, 17, 23, 31, 20, 23, 31, 21, 23, 31, 23,
	23, 31, 29, 23, 31, 31, 23, 31, 34, 23, 31, 37, 29, 1, 1, 29, 1, 4, 29, 1, 10, 29, 1, 13,
	29, 1, 14, 29, 1, 17, 29, 1, 20, 29, 1, 21, 29, 1, 23, 29, 1, 29, 29, 1, 31, 29, 1, 34,
	29, 1, 37, 29, 4, 1, 29, 4, 4, 29, 4, 10, 29, 4, 13, 29, 4, 14, 29, 4, 17, 29, 4, 20,
	29, 4, 21, 29, 4, 23, 29, 4, 29, 29, 4, 31, 29, 4, 34, 29, 4, 37, 29, 10, 1, 29, 10, 4,
	29, 10, 10, 29, 10, 13, 29, 10, 14, 29, 10, 17, 29, 10, 20, 29, 10, 21, 29, 10, 23, 29, 10, 29,
	29, 10, 31, 29, 10, 34, 29, 10, 37, 29, 13, 1, 29, 13, 4, 29, 13, 10, 29, 13, 13, 29, 13, 14,
	29, 13, 17, 29, 13, 20, 29, 13, 21, 29, 13, 23, 29, 13, 29, 29, 13, 31, 29, 13, 34, 29, 13, 37,
	29, 14, 1, 29, 14, 4, 29, 14, 10, 29, 14, 13, 29, 14, 14, 29, 14, 17, 29, 14, 20, 29, 14, 21,
	29, 14, 23, 29, 14, 29, 29, 14, 31, 29, 14, 34, 29, 14, 37, 29, 17, 1, 29, 17, 4, 29, 17, 10,
	29, 17, 13, 29, 17, 14, 29, 17, 17, 29, 17, 20, 29, 17, 21, 29, 17, 23, 29, 17, 29, 29, 17, 31,
	29, 17, 34, 29, 17, 37, 29, 20, 1, 29, 20, 4, 29, 20, 10, 29, 20, 13, 29, 20, 14, 29, 20, 17,
	29, 20, 20, 29, 20, 21, 29, 20, 23, 29, 20, 29, 29, 20, 31, 29, 20, 34, 29, 20, 37, 29, 21, 1,
	29, 21, 4, 29, 21, 10, 29, 21, 13, 29, 21, 14, 29, 21, 17, 29, 21, 20, 29, 21, 21, 29, 21, 23,
	29, 21, 29, 29, 21, 31, 29, 21, 34, 29, 21, 37, 29, 23, 1, 29, 23, 4, 29, 23, 10, 29, 23, 13,
	29, 23, 14, 29, 23, 17, 29, 23, 20, 29, 23, 21, 29, 23, 23, 29, 23, 29, 29, 23, 31, 29, 23, 34,
	29, 23, 37, 29, 29, 1, 29, 29, 4, 29, 29, 10, 29, 29, 13, 29, 29, 14, 29, 29, 17, 29, 29, 20,
	29, 29, 21, 29, 29, 23, 29, 29, 29, 29, 29, 31, 29, 29, 34, 29, 29, 37, 29, 31, 1, 29, 31, 4,
	29, 31, 10, 29, 31, 13, 29, 31, 14, 29, 31, 17, 29, 31, 20, 29, 31, 21, 29, 31, 23, 29, 31, 29,
	29, 31, 31, 29, 31, 34, 29, 31, 37, 31, 1, 1, 31, 1, 4, 31, 1, 10, 31, 1, 13, 31, 1, 14,
	31, 1, 17, 31, 1, 20, 31, 1, 21, 31, 1, 23, 31, 1, 29, 31, 1, 31, 31, 1, 34, 31, 1, 37,
	31, 4, 1, 31, 4, 4, 31, 4, 10, 31, 4, 13, 31, 4, 14, 31, 4, 17, 31, 4, 20, 31, 4, 21,
	31, 4, 23, 31, 4, 29, 31, 4, 31, 31, 4, 34, 31, 4, 37, 31, 10, 1, 31, 10, 4, 31, 10, 10,
	31, 10, 13, 31, 10, 14, 31, 10, 17, 31, 10, 20, 31, 10, 21, 31, 10, 23, 31, 10, 29, 31, 10, 31,
	31, 10, 34, 31, 10, 37, 31, 13, 1, 31, 13, 4, 31, 13, 10, 31, 13, 13, 31, 13, 14, 31, 13, 17,
	31, 13, 20, 31, 13, 21, 31, 13, 23, 31, 13, 29, 31, 13, 31, 31, 13, 34, 31, 13, 37, 31, 14, 1,
	31, 14, 4, 31, 14, 10, 31, 14, 13, 31, 14, 14, 31, 14, 17, 31, 14, 20, 31, 14, 21, 31, 14, 23,
	31, 14, 29, 31, 14, 31, 31, 14, 34, 31, 14, 37, 31, 17, 1, 31, 17, 4, 31, 17, 10, 31, 17, 13,
	31, 17, 14, 31, 17, 17, 31, 17, 20, 31, 17, 21, 31, 17, 23, 31, 17, 29, 31, 17, 31, 31, 17, 34,
	31, 17, 37, 31, 20, 1, 31, 20, 4, 31, 20, 10, 31, 20, 13, 31, 20, 14, 31, 20, 17, 31, 20, 20,
	31, 20, 21, 31, 20, 23, 31, 20, 29, 31, 20, 31, 31, 20, 34, 31, 20, 37, 31, 21, 1, 31, 21, 4,
	31, 21, 10, 31, 21, 13, 31, 21, 14, 31, 21, 17, 31, 21, 20, 31, 21, 21, 31, 21, 23, 31, 21, 29,
	31, 21, 31, 31, 21, 34, 31, 21, 37, 31, 23, 1, 31, 23, 4, 31, 23, 10, 31, 23, 13, 31, 23, 14,
	31, 23, 17, 31, 23, 20, 31, 23, 21, 31, 23, 23, 31, 23, 29, 31, 23, 31, 31, 23, 34, 31, 23, 37,
	31, 29, 1, 31, 29, 4, 31, 29, 10, 31, 29, 13, 31, 29, 14, 31, 29, 17, 31, 29, 20, 31, 29, 21,
	31, 29, 23, 31, 29, 29, 31, 29, 31, 31, 29, 34, 31, 29, 37, 31, 31, 1, 31, 31, 4, 31, 31, 10,
	31, 31, 13, 31, 31, 14, 31, 31, 17, 31, 31, 20, 31, 31, 21, 31, 31, 23, 31, 31, 29, 31, 31, 31,
	31, 31, 34, 31, 31, 37,
}
