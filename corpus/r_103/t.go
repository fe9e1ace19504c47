package r103

//json:json
//json:strict
type Msg struct {
	K2     NPtrStr            `json:"k2,omitempty" default:" lead"`
	First  []int16            `json:"0,required"`
	Y_z    NU64               `json:"really_quite_a_long_member_name_of_the_object"`
	B      []NI32             `json:"Title"`
	Data   map[string]float32 `json:"data"`
	QWERTY map[NStr]TI32      `json:"f5,required"`
	Host   map[NStr]bool      `json:"host"`
	Tags   [][]*NStr          `json:"tags"`
	Val    []*uint8           `json:"имя,required"`
	Next   map[string]*int16  `json:"next"`
	Note   []*uint64          `json:"err,omitempty"`
	Unit   map[string]*Sub    `json:"f11,omitempty"`
	Items  map[string]float64 `json:"items"`
	Cc     [2]string          `json:"12,omitempty"`
	Last   TSliceS            `json:"value,omitempty"`
}

type NStr string

type NI32 int32

type NPtrStr *string

type NU64 uint64

//json:json
type TSliceS []Sub

//json:json
type TI32 int32

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
