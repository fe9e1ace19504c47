package ext

import (
	"time"

	"github.com/google/uuid"

	"fill/n_ext_places/kinds"
)

//json:json
type T1 struct {
	S kinds.Str  `json:"s"`
	I kinds.I8   `json:"i"`
	U kinds.U64  `json:"u"`
	F kinds.F32  `json:"f"`
	B kinds.Flag `json:"b"`
	T time.Time  `json:"t"`
	D uuid.UUID  `json:"d"`
}

//json:json
type T2 struct {
	S *kinds.Str  `json:"s"`
	I *kinds.I8   `json:"i"`
	U *kinds.U64  `json:"u"`
	F *kinds.F32  `json:"f"`
	B *kinds.Flag `json:"b"`
}

//json:json
type T3 struct {
	S kinds.Str  `json:"s,omitempty"`
	I kinds.I8   `json:"i,omitempty"`
	U kinds.U64  `json:"u,omitempty"`
	F kinds.F32  `json:"f,omitempty"`
	B kinds.Flag `json:"b,omitempty"`
}

//json:json
type T4 struct {
	S *kinds.Str  `json:"s,omitempty"`
	I *kinds.I8   `json:"i,omitempty"`
	U *kinds.U64  `json:"u,omitempty"`
	F *kinds.F32  `json:"f,omitempty"`
	B *kinds.Flag `json:"b,omitempty"`
}

//json:json
type T5 struct {
	S []kinds.Str  `json:"s"`
	I []kinds.I8   `json:"i"`
	U []kinds.U64  `json:"u"`
	F []kinds.F32  `json:"f"`
	B []kinds.Flag `json:"b"`
	O []kinds.Obj  `json:"o"`
	P []*kinds.Obj `json:"p"`
	L []kinds.List `json:"l"`
}

//json:json
type T6 struct {
	S map[string]kinds.Str  `json:"s"`
	I map[string]kinds.I8   `json:"i"`
	U map[kinds.Str]kinds.U64  `json:"u"`
	F map[string]kinds.F32  `json:"f"`
	B map[string]kinds.Flag `json:"b"`
	O map[kinds.Str]kinds.Obj  `json:"o"`
	P map[string]*kinds.Obj `json:"p"`
}

//json:json
type T7 struct {
	S [2]kinds.Str  `json:"s"`
	I [2]kinds.I8   `json:"i"`
	F [2]kinds.F32  `json:"f"`
	B [2]kinds.Flag `json:"b"`
	T [2]time.Time  `json:"t"`
}

//json:json
type T8 struct {
	S [][]kinds.Str  `json:"s"`
	I [][]kinds.I8   `json:"i"`
	B [][]kinds.Flag `json:"b"`
	O [][]kinds.Obj  `json:"o"`
	P [][]*kinds.Obj `json:"p"`
}

//json:strict
type T9 struct {
	O kinds.Obj   `json:"o"`
	P *kinds.Obj  `json:"p"`
	Q kinds.Obj   `json:"q,omitempty"`
	R *kinds.Obj  `json:"r,omitempty"`
	L kinds.List  `json:"l"`
	M kinds.Map   `json:"m"`
	N kinds.Named `json:"n"`
	K kinds.List  `json:"k,omitempty"`
	J kinds.Map   `json:"j,omitempty"`
	I kinds.Named `json:"i,required"`
}

//json:json
type D1 kinds.Str

//json:json
type D2 kinds.I8

//json:json
type D3 kinds.U64

//json:json
type D4 kinds.F32

//json:json
type D5 kinds.Flag

//json:json
type D6 kinds.Obj

//json:json
type D7 []kinds.Flag

//json:json
type D9 [2]kinds.I8

//json:json
type DA map[kinds.Str]kinds.F32

//json:json
type DB map[string]kinds.Obj

//json:json
type DD kinds.List

//json:json
type DE kinds.Map
