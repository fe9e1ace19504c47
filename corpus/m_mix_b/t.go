package mix

type (
	Str string
	I16 int16
	Key string
)

//json:json
type Leaf struct {
	V *I16 `json:"v"`
}

//json:json
type Node struct {
	Name  Str           `json:"name,required"`
	Left  *Node         `json:"left"`
	Right *Node         `json:"right,omitempty"`
	Kids  []Node        `json:"kids"`
	Index map[Key]*Node `json:"index"`
	Leaf  Leaf          `json:"leaf,omitempty"`
}

//json:json
type T2 struct {
	S1 Str   `json:"s1,omitempty"`
	S2 *Str  `json:"s2,omitempty"`
	S3 []Str `json:"s3,omitempty"`
	N1 I16   `json:"n1" default:"12"`
	N2 *I16  `json:"n2" default:"-12"`
	N3 []I16 `json:"n3"`
	E  Str   `json:"e" default:"dflt"`
	F  float32 `json:"f" default:"1.5"`
	G  bool  `json:"g" default:"true"`
	H  string `json:"h" default:"a,b c"`
	J  uint64 `json:"j" default:"18446744073709551615"`
	K  *string `json:"k" default:"x"`
}

//json:json
type Empty struct {
}

//json:strict
type EmptyStrict struct {
}

//json:json
type One struct {
	E  Empty  `json:"e"`
	PE *Empty `json:"pe"`
	LE []Empty `json:"le"`
}
