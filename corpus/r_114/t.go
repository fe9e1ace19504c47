package r114

//json:json
type With_Under114 struct {
	Unit   []int           `json:"createdAt,required"`
	QWERTY *uint           `json:"qwerty"`
	Path   NF32            `json:"err,omitempty"`
	X1     TI32            `json:"f3,omitempty" default:"100"`
	Size   int32           `json:"f4,omitempty"`
	Mode   map[string]*Sub `json:"mode"`
	Obj    []NF64          `json:"f6"`
	Port   TSliceI         `json:"result"`
}

type NF32 float32

type NF64 float64

//json:json
type TSliceI []int

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
