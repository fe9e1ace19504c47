package r18

// json:strict
type lower18 struct {
	Y_z  map[string]*NI32   `json:"y_z"`
	Val  map[string]*uint32 `json:"имя,required"`
	Meta map[string]*int64  `json:"@t"`
	Note [][]NF32           `json:"f3"`
	Out  [3]NU64            `json:"f4,omitempty"`
	Zz   []NU8              `json:"f5"`
}

type NI32 int32

type NU8 uint8

type NF32 float32

type NU64 uint64
