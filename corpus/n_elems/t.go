package elems

import (
	"time"

	"github.com/google/uuid"
)

type Key string

//json:json
type At time.Time

//json:json
type Id uuid.UUID

//json:json
type TA struct {
	A []At            `json:"a"`
	B map[string]At   `json:"b,omitempty"`
	C []*At           `json:"c"`
	D [2]At           `json:"d"`
	E []Id            `json:"e"`
	F map[Key]Id      `json:"f,omitempty"`
	G []*Id           `json:"g"`
	H map[string]*Id  `json:"h"`
	K map[string]*At  `json:"k"`
	L At              `json:"l"`
	M *Id             `json:"m"`
	N *At             `json:"n,omitempty"`
	O Id              `json:"o"`
}

//json:strict
type TF struct {
	A Id  `json:"a"`
	B *Id `json:"b"`
	C At  `json:"c,omitempty"`
	D *At `json:"d,omitempty"`
	E NT  `json:"e" layout:"2006"`
	F *NT `json:"f"`
	G NU  `json:"g,omitempty"`
	H *NU `json:"h"`
	I NT  `json:"i,required"`
}

type NT time.Time

type NU uuid.UUID

//json:json
type TB []At

//json:json
type TC map[string]At

//json:json
type TD []Id

//json:json
type TE map[Key]Id

//json:json
type S00 struct {
	A []time.Time `json:"a"`
	B int `json:"b"`
	C []time.Time `json:"c,omitempty"`
}

//json:json
type N00 []time.Time

//json:strict
type S01 struct {
	A map[string]time.Time `json:"a"`
	B int `json:"b"`
	C map[string]time.Time `json:"c,omitempty"`
}

//json:json
type N01 map[string]time.Time

//json:json
type S02 struct {
	A map[Key]time.Time `json:"a"`
	B int `json:"b"`
	C map[Key]time.Time `json:"c,omitempty"`
}

//json:json
type N02 map[Key]time.Time

//json:strict
type S03 struct {
	A [3]time.Time `json:"a"`
	B int `json:"b"`
	C [3]time.Time `json:"c"`
}

//json:strict
type S10 struct {
	A []uuid.UUID `json:"a"`
	B int `json:"b"`
	C []uuid.UUID `json:"c,omitempty"`
}

//json:json
type N10 []uuid.UUID

//json:json
type S11 struct {
	A map[string]uuid.UUID `json:"a"`
	B int `json:"b"`
	C map[string]uuid.UUID `json:"c,omitempty"`
}

//json:json
type N11 map[string]uuid.UUID

//json:strict
type S12 struct {
	A map[Key]uuid.UUID `json:"a"`
	B int `json:"b"`
	C map[Key]uuid.UUID `json:"c,omitempty"`
}

//json:json
type N12 map[Key]uuid.UUID

//json:encode
type S13 struct {
	A [3]uuid.UUID `json:"a"`
	B int `json:"b"`
	C [3]uuid.UUID `json:"c"`
}

//json:json
type S20 struct {
	A []*time.Time `json:"a"`
	B int `json:"b"`
	C []*time.Time `json:"c,omitempty"`
}

//json:strict
type S21 struct {
	A map[string]*time.Time `json:"a"`
	B int `json:"b"`
	C map[string]*time.Time `json:"c,omitempty"`
}

//json:json
type N21 map[string]*time.Time

//json:json
type S22 struct {
	A map[Key]*time.Time `json:"a"`
	B int `json:"b"`
	C map[Key]*time.Time `json:"c,omitempty"`
}

//json:json
type N22 map[Key]*time.Time

//json:strict
type S30 struct {
	A []*uuid.UUID `json:"a"`
	B int `json:"b"`
	C []*uuid.UUID `json:"c,omitempty"`
}

//json:json
type S31 struct {
	A map[string]*uuid.UUID `json:"a"`
	B int `json:"b"`
	C map[string]*uuid.UUID `json:"c,omitempty"`
}

//json:json
type N31 map[string]*uuid.UUID

//json:strict
type S32 struct {
	A map[Key]*uuid.UUID `json:"a"`
	B int `json:"b"`
	C map[Key]*uuid.UUID `json:"c,omitempty"`
}

//json:json
type N32 map[Key]*uuid.UUID

