package chain

type S1 S2

type S2 S3

type S3 string

type I1 I2

type I2 uint8

type F1 F2

type F2 float64

type B1 B2

type B2 bool

//json:json
type T1 struct {
	S  S1   `json:"s"`
	I  I1   `json:"i"`
	F  F1   `json:"f"`
	B  B1   `json:"b"`
	PS *S1  `json:"ps"`
	PI *I1  `json:"pi"`
	PB *B1  `json:"pb"`
	SO S1   `json:"so,omitempty"`
	IO I1   `json:"io,omitempty"`
	LS []S1 `json:"ls"`
	LI []I1 `json:"li"`
	LB []B1 `json:"lb"`
	LF []F1 `json:"lf"`
}

//json:json
type T2 struct {
	MS map[string]S1 `json:"ms"`
	MI map[S1]I1     `json:"mi"`
	MF map[S2]F1     `json:"mf"`
	MP map[string]*I1 `json:"mp"`
	D  I1 `json:"d" default:"9"`
	E  S1 `json:"e" default:"e"`
	R  B1 `json:"r,required"`
}

//json:json
type C1 C2

//json:json
type C2 C3

//json:json
type C3 int64

//json:json
type D1 D2

//json:json
type D2 uint64

//json:json
type E1 E2

//json:json
type E2 float32

//json:json
type G1 G2

//json:json
type G2 bool

//json:json
type H1 H2

//json:json
type H2 string

//json:json
type Uses struct {
	C  C1   `json:"c"`
	D  D1   `json:"d"`
	E  E1   `json:"e"`
	G  G1   `json:"g"`
	H  H1   `json:"h"`
	PC *C1  `json:"pc"`
	LD []D1 `json:"ld"`
	LG []G2 `json:"lg"`
	ME map[string]E1 `json:"me"`
	OH H1   `json:"oh,omitempty"`
	OC C2   `json:"oc,omitempty"`
}
