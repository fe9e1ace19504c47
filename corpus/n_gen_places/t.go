package gen

//json:json
type Int int

//json:json
type Str string

//json:json
type Flag bool

//json:json
type Float float64

//json:json
type Big uint64

//json:json
type List []int

//json:json
type Map map[string]int

//json:json
type Bytes []byte

//json:strict
type Obj struct {
	X int `json:"x"`
}

//json:json
type Objs []Obj

//json:json
type MObjs map[Str]*Obj

//json:json
type T1 struct {
	A Int   `json:"a"`
	B Str   `json:"b"`
	C Flag  `json:"c"`
	D Float `json:"d"`
	E Big   `json:"e"`
	F List  `json:"f"`
	G Map   `json:"g"`
	H Bytes `json:"h"`
	I Obj   `json:"i"`
	J Objs  `json:"j"`
	L MObjs `json:"l"`
}

//json:json
type T2 struct {
	A Int   `json:"a,omitempty"`
	B Str   `json:"b,omitempty"`
	C Flag  `json:"c,omitempty"`
	D Float `json:"d,omitempty"`
	E Big   `json:"e,omitempty"`
	F List  `json:"f,omitempty"`
	G Map   `json:"g,omitempty"`
	H Bytes `json:"h,omitempty"`
	I Obj   `json:"i,omitempty"`
	J Objs  `json:"j,omitempty"`
	L MObjs `json:"l,omitempty"`
}

//json:strict
type T3 struct {
	A *Int   `json:"a"`
	B *Str   `json:"b"`
	C *Flag  `json:"c"`
	D *Float `json:"d,omitempty"`
	E *Big   `json:"e,omitempty"`
	I *Obj   `json:"i,omitempty"`
}

//json:json
type T4 struct {
	A []Int   `json:"a"`
	B []Str   `json:"b"`
	C []Flag  `json:"c"`
	D []Float `json:"d"`
	E []Big   `json:"e"`
	I []Obj   `json:"i,omitempty"`
	J []*Obj  `json:"j,required"`
}

//json:json
type T5 struct {
	A map[string]Int   `json:"a"`
	B map[Str]Str   `json:"b"`
	C map[string]Flag  `json:"c"`
	D map[string]Float `json:"d"`
	E map[Str]Big   `json:"e"`
	I map[string]Obj   `json:"i,omitempty"`
	J map[Str]*Obj  `json:"j,required"`
}

//json:json
type T6 struct {
	T1 T1 `json:"t1"`
	T2 *T2 `json:"t2"`
	T3 T3 `json:"t3,omitempty"`
	T4 []T4 `json:"t4"`
	T5 map[string]T5 `json:"t5"`
	T6 *T6 `json:"t6,omitempty"`
}
