package ext

import (
	"time"

	"fill/m_ext_plain/pkg/deep/inner"
	"fill/m_ext_plain/shared"
)

//json:json
type T1 struct {
	A shared.Name     `json:"a"`
	B *shared.Name    `json:"b"`
	C shared.Count    `json:"c,omitempty"`
	D inner.Name      `json:"d"`
	E inner.Flags     `json:"e"`
	F inner.Obj       `json:"f"`
	G *inner.Obj      `json:"g,omitempty"`
	T time.Time       `json:"t"`
}

//json:strict
type T2 struct {
	L []shared.Name          `json:"l"`
	M map[string]shared.Count `json:"m"`
	K map[shared.Name]int    `json:"k"`
	O []inner.Obj            `json:"o"`
	P []*inner.Obj           `json:"p"`
	Q map[string]*inner.Obj  `json:"q"`
	R []shared.Count         `json:"r,omitempty"`
}

//json:json
type L1 []shared.Count

//json:json
type L2 []inner.Obj

//json:json
type M1 map[string]inner.Obj

//json:json
type M2 map[string]shared.Name

//json:json
type M3 map[shared.Name]shared.Count

//json:json
type N1 shared.Name

//json:json
type N2 shared.Count

//json:json
type N3 inner.Obj

//json:json
type U1 struct {
	N1 N1 `json:"n1"`
	N2 *N2 `json:"n2"`
	N3 N3 `json:"n3"`
	A  [2]shared.Count `json:"a"`
	L  [][]shared.Count `json:"l"`
	M  M2 `json:"m"`
}
