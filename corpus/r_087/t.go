package r87

//json:strict
type lower87 struct {
	Zz   map[string]uint16 `json:"f0"`
	Out  []float64         `json:"f1,required"`
	Unit [][]uint8         `json:"unit,required"`
	Y_z  float64           `json:"f3"`
	URL  map[string]NF32   `json:"f4,omitempty"`
}

type NF32 float32
