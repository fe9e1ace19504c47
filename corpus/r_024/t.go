package r24

//json:strict
type T924 struct {
	Length []*NI32           `json:"名"`
	Data   TBytes            `json:"data,required"`
	Übung  [][]TI32          `json:"f2,required"`
	A      map[string]*bool  `json:"_p,required"`
	Items  map[string]TStr   `json:"name"`
	Unit   map[string]*NF32  `json:"f5,required"`
	Total  NU8               `json:"really_quite_a_long_member_name_of_the_object,required"`
	Tags   [100]uint8        `json:"tags"`
	QWERTY map[string]uint32 `json:"x,required"`
	Out    *int              `json:"out"`
	Note   []TSub2           `json:"createdAt,required"`
	Next   [8]uint32         `json:"f11"`
	K2     [][]NStr          `json:"k2"`
}

type NStr string

type NI32 int32

type NU8 uint8

type NF32 float32

//json:json
type TBytes []byte

//json:json
type TI32 int32

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

//json:json
type TSub2 Sub
