package r116

// HTTPReply is documented.
//
//json:json
type HTTPReply struct {
	Flag   [100]NU8           `json:"id"`
	Note   map[string]*string `json:"f1"`
	Obj    map[NStr]int16     `json:"map,omitempty"`
	Name   NF32               `json:"_p"`
	Y_z    map[NStr]NU64      `json:"f4,omitempty"`
	Zz     map[string]uint16  `json:"zz"`
	URL    uint32             `json:"really_quite_a_long_member_name_of_the_object"`
	Übung  map[NStr]NU8       `json:"übung,omitempty"`
	K2     int8               `json:"k2,omitempty"`
	Prev   []int16            `json:"list,required"`
	Last   TStr               `json:"f10"`
	QWERTY map[NStr]Sub       `json:"12"`
	Code   [][]float32        `json:"f12,required"`
	B      map[NStr]*int      `json:"b,omitempty"`
	X1     [][]TStr           `json:"Title"`
	Length [][]*Sub           `json:"type"`
	Kind   *int32             `json:"f16"`
	A      [8]uint8           `json:"a"`
	Path   map[string]*uint8  `json:"f18,omitempty"`
	Unit   map[string]*NF32   `json:"f19,required"`
}

type NStr string

type NU8 uint8

type NF32 float32

type NU64 uint64

//json:json
type TStr string

//json:strict
type Sub struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}
